from symx.harness import Inst
from .common import *
from .c16 import SHAPES, edge_map, verts

BOUNDS = ('tetrahedron, box, box with some faces given as triangles, prism, pyramid, two separate tetrahedra and two solids '
          'joined along nothing, with every subset of faces reversed, any starting vertex of the faces (tetrahedron), '
          'several numberings, closed or with a face removed; symbolic positions around a convex shape with planar '
          'faces; boxes divided in 38 to 70 panels with fixed sets of reversed panels and symbolic place and size; of any size from 1e-7 to 1e7 (tetrahedron, box, prism), with and without '
          'derived quantities computed before')
OUTSIDE = 'floating-point rounding; meshes of more than 70 faces; meshes that are not manifold or have quadrangles that are not planar'

BOXTRI = (8, [[0, 3, 2, 0], [0, 2, 1, 0], [4, 5, 6, 7], [0, 1, 5, 4], [1, 2, 6, 1], [1, 6, 5, 1], [2, 3, 7, 6],
              [3, 0, 4, 7]])


def placed(h, kind, name='', shift=(0, 0, 0), free=True):
    """vertices, outward faces: an affine image, of positive determinant, of a reference shape"""
    n, F = BOXTRI if kind == 'boxtri' else SHAPES[kind]
    unit = {'tetra': [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)],
            'box': [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)],
            'prism': [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (0, 1, 1)],
            'pyramid': [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), ('0.4', '0.5', 1)]}
    unit['boxtri'] = unit['box']
    c = [h.const(str(v)) for v in ('0.1', '0.2', '-0.1', '0.15', '0.1', '0.05')]
    if free:
        o = [h.real(name + 'o' + x, s - 1, s + 1) for x, s in zip('xyz', shift)]
        d = [h.real(name + 'd' + x, '1.5', '2.5') for x in 'xyz']
    else:
        o, d = [h.const(s) for s in shift], [h.const('1.2'), h.const('1.1'), h.const('1.3')]
    M = [[d[0], c[0], c[1]], [c[2], d[1], c[3]], [c[4], c[5], d[2]]]
    P = [add(o, matvec(M, [h.const(str(x)) for x in p])) for p in unit[kind]]
    return P, F


def reorder(P, F, numbering):
    n = len(P)
    perm = {0: list(range(n)), 1: list(range(n))[::-1],
            2: [(3 * i + 1) % n if n % 3 else (5 * i + 2) % n for i in range(n)]}[numbering]
    Q = [None] * n
    for i, p in enumerate(P):
        Q[perm[i]] = p
    return Q, [[perm[i] for i in f] for f in F]


def disturbed(h, F, turn):
    G = []
    for k, f in enumerate(F):
        if h.choose('flip%d' % k, [0, 1]):
            f = f[::-1]
        if turn:
            w = verts(f)
            r = h.choose('turn%d' % k, list(range(len(w))))
            w = w[r:] + w[:r]
            f = w if len(w) == 4 else w + w[:1]
        G.append(list(f))
    return G


def volume6(h, P, F):
    """six times the volume enclosed by planar faces"""
    v = 0
    for f in F:
        w = [P[i] for i in verts(f)]
        for k in range(1, len(w) - 1):
            v = v + dot(w[0], cross(w[k], w[k + 1]))
    return v


def check(h, P, G, before, op='heal_normals'):
    m = h.mod('mesh').Mesh(h.arr(P, float), h.arr(G, int))
    if 'p' in before:
        m.faces_normals
    if 's' in before:
        m.get_surface_integrals()
    if 'c' in before:
        m.boundaries
    getattr(m, op)()
    H = [[int(i) for i in f] for f in m.faces]
    h.eq([list(r) for r in m.vertices], P, 'vertices unchanged')
    h.true(len(H) == len(G), 'number of faces')
    for a, b in zip(H, G):
        h.true(same_cycle(verts(a), verts(b)) or same_cycle(verts(a), verts(b)[::-1]),
               'every face has the same vertices up to reversal')
    E = edge_map(H)
    h.true(all(len(v) < 3 for v in E.values()), 'edges')
    h.true(all(v[0][1] == v[1][1][::-1] for v in E.values() if len(v) == 2),
           'faces that share an edge traverse it in opposite directions')
    if all(len(v) == 2 for v in E.values()):
        h.true(volume6(h, P, H) > 0, 'a closed mesh encloses a positive volume')


def panelled(h, n, tri, seed, period, before=''):
    """a box divided in many panels, one of every few reversed, placed anywhere"""
    pts, F = panels(*n, tri=tri, seed=seed)
    o = [h.real('o' + c, -5, 5) for c in 'xyz']
    d = [h.real('d' + c, '0.5', '2') for c in 'xyz']
    P = [[o[k] + d[k] * p[k] for k in range(3)] for p in pts]
    first = h.choose('first', list(range(min(period, 5))))
    G = [f[::-1] if (k * k + first) % period == 0 else f for k, f in enumerate(F)]
    check(h, P, G, before)


def same_cycle(a, b):
    return len(a) == len(b) and any(a[r:] + a[:r] == b for r in range(len(a)))


def solid_mesh(h, kind, numbering=0, turn=False, drop=False, before='', free=True, size=None):
    P, F = placed(h, kind, free=free)
    if size:
        k = h.real('size', *size)
        P = [[k * x for x in p] for p in P]
    P, F = reorder(P, F, numbering)
    if drop:
        k = h.choose('dropped', list(range(len(F))))
        F = F[:k] + F[k + 1:]
    check(h, P, disturbed(h, F, turn), before)


def several(h, kinds, before=''):
    """separate parts in one mesh"""
    P, F = [], []
    for k, kind in enumerate(kinds):
        p, f = placed(h, kind, 'ab'[k], shift=(8 * k, 3 * k, 10 * k), free=False if k else True)
        F += [[i + len(P) for i in g] for g in f]
        P += p
    G = disturbed(h, F, False)
    m = h.mod('mesh').Mesh(h.arr(P, float), h.arr(G, int))
    m.heal_normals()
    H = [[int(i) for i in f] for f in m.faces]
    for a, b in zip(H, G):
        h.true(same_cycle(verts(a), verts(b)) or same_cycle(verts(a), verts(b)[::-1]),
               'every face has the same vertices up to reversal')
    E = edge_map(H)
    h.true(all(v[0][1] == v[1][1][::-1] for v in E.values() if len(v) == 2),
           'faces that share an edge traverse it in opposite directions')
    h.true(volume6(h, P, H) > 0, 'a closed mesh encloses a positive volume')


INSTANCES = [Inst('%s-%d%s' % (k, n, b), solid_mesh, kind=k, numbering=n, before=b) for k, n, b in (
    ('tetra', 0, ''), ('tetra', 1, 'ps'), ('tetra', 2, 'psc'), ('box', 0, ''), ('box', 2, 'p'), ('prism', 0, ''),
    ('prism', 2, 's'), ('prism', 1, 'p'), ('pyramid', 0, 'p'), ('pyramid', 1, ''))]
INSTANCES += [Inst('tetra-turn', solid_mesh, kind='tetra', turn=True, free=False, max_paths=5000)]
INSTANCES += [Inst('%s-open' % k, solid_mesh, kind=k, drop=True, numbering=n, free=False, max_paths=5000)
              for k, n in (('tetra', 0), ('prism', 2), ('pyramid', 1), ('box', 0))]
INSTANCES += [Inst('two-tetra', several, kinds=('tetra', 'tetra'), max_paths=5000),
              Inst('boxtri-0', solid_mesh, kind='boxtri', max_paths=5000)]
INSTANCES += [Inst('panels-%d%d%d%s-%d' % (n + (t, p)), panelled, n=n, tri=t, seed=s, period=p, before=b)
              for n, t, s, p, b in (((3, 3, 3), '', 0, 3, ''), ((4, 3, 2), 'some', 1, 2, 'p'), ((3, 2, 1), 'all', 2, 5, 's'),
                                    ((1, 9, 1), '', 3, 7, ''))]
INSTANCES += [Inst('%s-%s' % (k, n), solid_mesh, kind=k, free=False, size=z, numbering=1) for k in ('tetra', 'box', 'prism')
              for n, z in (('tiny', ('1e-7', '1e-3')), ('huge', ('1e3', '1e7')))]
INSTANCES += [Inst('two-box-tetra', several, tier='thorough', kinds=('box', 'tetra'), max_paths=50000, time_s=1500),
              Inst('box-1-psc', solid_mesh, tier='thorough', kind='box', numbering=1, before='psc', time_s=1500),
              Inst('boxtri-2', solid_mesh, tier='thorough', kind='boxtri', numbering=2, before='pc', max_paths=50000, time_s=1500),
              Inst('pyramid-turn', solid_mesh, tier='thorough', kind='pyramid', turn=True, free=False, max_paths=100000,
                   time_s=1500)]
