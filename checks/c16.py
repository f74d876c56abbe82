from symx.harness import Inst
from .common import *

BOUNDS = ('all meshes made of one fixed face and one or two further faces with any indices on up to six vertices in which '
          'two faces share nothing, a vertex or an edge (conformal meshes); tetrahedron, box, prism and pyramid with any '
          'subset of faces removed or reversed and several numberings; boxes '
          'divided in 54 to 200 panels, closed or with one or two holes at any of twelve places; coordinates are irrelevant '
          'and left symbolic')
OUTSIDE = ('larger meshes of other shapes; meshes in which an edge belongs to more than two faces (refused by the code); boundaries of '
           'meshes that are not consistently oriented, or with a vertex where two boundaries touch')


def edges_of(f):
    f = f[:3] if f[0] == f[3] else f
    return [(f[i - 1], f[i]) for i in range(len(f))]


def verts(f):
    return f[:3] if f[0] == f[3] else f


def conformal(F):
    for a in range(len(F)):
        for b in range(a):
            s = set(verts(F[a])) & set(verts(F[b]))
            if len(s) > 2:
                return False
            if len(s) == 2:
                e = set(map(frozenset, edges_of(F[a]))) & set(map(frozenset, edges_of(F[b])))
                if frozenset(s) not in e:
                    return False
    return True


def edge_map(F):
    m = {}
    for k, f in enumerate(F):
        for a, b in edges_of(f):
            m.setdefault(frozenset((a, b)), []).append((k, (a, b)))
    return m


def numbers(s):
    return set(int(x) for x in s)


def check(h, m, nv, F, before=True):
    E = edge_map(F)
    if any(len(v) > 2 for v in E.values()):
        try:
            m.vv
        except RuntimeError:
            h.true(True, 'an edge shared by more than two faces is refused')
            return
        h.fail('an edge shared by more than two faces is refused')
        return
    vv = {i: set() for i in range(nv)}
    vf = {i: set() for i in range(nv)}
    ff = {i: set() for i in range(len(F))}
    for k, f in enumerate(F):
        for i in verts(f):
            vf[i].add(k)
    for e, fs in E.items():
        a, b = tuple(e)
        vv[a].add(b)
        vv[b].add(a)
        if len(fs) == 2:
            ff[fs[0][0]].add(fs[1][0])
            ff[fs[1][0]].add(fs[0][0])
    h.true({int(k): numbers(v) for k, v in m.vv.items()} == vv, 'vertex-vertex adjacency')
    h.true({int(k): numbers(v) for k, v in m.vf.items()} == vf, 'vertex-face adjacency')
    h.true({int(k): numbers(v) for k, v in m.ff.items()} == ff, 'face-face adjacency')
    border = [v[0][1] for v in E.values() if len(v) == 1]
    h.true(bool(m.is_mesh_closed()) == (not border), 'closed exactly when every edge belongs to two faces')
    oriented = all(len(v) == 1 or v[0][1] == v[1][1][::-1] for v in E.values())
    simple = len(set(a for a, b in border)) == len(border) == len(set(b for a, b in border))
    if oriented and simple:
        loops = [[int(i) for i in b] for b in m.boundaries]
        h.true(m.nb_boundaries == len(loops), 'number of boundaries')
        h.true(all(len(b) > 3 and b[0] == b[-1] for b in loops), 'boundaries are closed loops')
        got = [frozenset((b[i], b[i + 1])) for b in loops for i in range(len(b) - 1)]
        h.true(len(got) == len(border) and set(got) == set(map(frozenset, border)),
               'boundaries are made of the edges that belong to one face')
        h.true(all(len(set(b[:-1])) == len(b) - 1 for b in loops), 'each boundary is one loop')
    h.true(m.nb_vertices == nv and m.nb_faces == len(F), 'sizes')


def any_face(h, n, name):
    ids = []
    k = 3 + h.choose(name + 'quad', [0, 1])
    for i in range(k):
        ids.append(h.choose('%s%d' % (name, i), [x for x in range(n) if x not in ids]))
    return ids if k == 4 else ids + ids[:1]


def faces(h, n, first, extra):
    F = [list(first)]
    for k in range(extra):
        F.append(any_face(h, n, 'f%d' % k))
        h.assume(conformal(F))
    P = [point(h, 'p' + str(i), -9, 9) for i in range(n)]
    m = h.mod('mesh').Mesh(h.arr(P, float), h.arr(F, int))
    check(h, m, n, F)


SHAPES = {
    'tetra': (4, [[0, 2, 1, 0], [0, 1, 3, 0], [1, 2, 3, 1], [0, 3, 2, 0]]),
    'box': (8, [[0, 3, 2, 1], [4, 5, 6, 7], [0, 1, 5, 4], [1, 2, 6, 5], [2, 3, 7, 6], [3, 0, 4, 7]]),
    'prism': (6, [[0, 2, 1, 0], [3, 4, 5, 3], [0, 1, 4, 3], [1, 2, 5, 4], [2, 0, 3, 5]]),
    'pyramid': (5, [[0, 3, 2, 1], [0, 1, 4, 0], [1, 2, 4, 1], [2, 3, 4, 2], [3, 0, 4, 3]]),
}


def shape(h, kind, numbering, what):
    """a closed shape with faces removed (what = 'drop'), reversed ('flip') or both"""
    n, F = SHAPES[kind]
    perm = {0: list(range(n)), 1: list(range(n))[::-1], 2: [(3 * i + 1) % n if n % 3 else (5 * i + 2) % n for i in range(n)]}
    perm = perm[numbering]
    G = []
    for k, f in enumerate(F):
        f = [perm[i] for i in f]
        if 'drop' in what and h.choose('drop%d' % k, [0, 1]):
            continue
        if 'flip' in what and h.choose('flip%d' % k, [0, 1]):
            f = f[::-1]
        if 'turn' in what:
            r = h.choose('turn%d' % k, [0, 1, 2])
            w = verts(f)
            w = w[r:] + w[:r]
            f = w if len(w) == 4 else w + w[:1]
        G.append(f)
    h.assume(len(G) > 0)
    P = [point(h, 'p' + str(i), -9, 9) for i in range(n)]
    m = h.mod('mesh').Mesh(h.arr(P, float), h.arr(G, int))
    check(h, m, n, G)


def two_parts(h):
    """a closed part and an open part"""
    n, F = SHAPES['tetra']
    G = F + [[4, 5, 6, 4], [6, 5, 7, 6]]
    if h.choose('open', [0, 1]):
        G = G[1:]
    P = [point(h, 'p' + str(i), -9, 9) for i in range(8)]
    m = h.mod('mesh').Mesh(h.arr(P, float), h.arr(G, int))
    check(h, m, 8, G)


def large(h, n, tri, seed, drop):
    """a box divided in many panels, with a hole of one or two panels chosen anywhere"""
    pts, F = panels(*n, tri=tri, seed=seed)
    k = []
    if drop:
        k = [h.choose('drop', list(range(0, len(F), 1 + len(F) // 12)))]
        if drop > 1:
            k.append(len(F) - 1 if k[0] != len(F) - 1 else 0)
    F = [f for i, f in enumerate(F) if i not in k]
    o = point(h, 'o', -9, 9)
    m = h.mod('mesh').Mesh(h.arr([[a + b for a, b in zip(o, p)] for p in pts], float), h.arr(F, int))
    check(h, m, len(pts), F)


T, Q = (0, 1, 2, 0), (0, 1, 2, 3)
INSTANCES = [Inst('one', faces, n=4, first=T, extra=0), Inst('oneq', faces, n=5, first=Q, extra=0)]
INSTANCES += [Inst('two-%s%d' % (a, n), faces, n=n, first=f, extra=1, max_paths=20000)
              for a, f, n in (('t', T, 5), ('q', Q, 6))]
INSTANCES += [Inst('three-t4', faces, n=4, first=T, extra=2, max_paths=50000)]
INSTANCES += [Inst('%s-%d-%s' % (k, p, w), shape, kind=k, numbering=p, what=w, max_paths=20000)
              for k, p, w in (('tetra', 0, 'drop'), ('tetra', 1, 'flip'), ('tetra', 2, 'drop flip'), ('tetra', 0, 'turn'),
                              ('box', 0, 'drop'), ('box', 1, 'drop'), ('box', 2, 'flip'), ('prism', 0, 'drop flip'),
                              ('prism', 2, 'drop'), ('pyramid', 0, 'drop'), ('pyramid', 1, 'drop flip'))]
INSTANCES += [Inst('two-parts', two_parts)]
INSTANCES += [Inst('panels-%d%d%d%s-%d' % (n + (t, d)), large, n=n, tri=t, seed=s, drop=d, max_paths=5000)
              for n, t, s, d in (((3, 3, 3), '', 0, 1), ((4, 3, 2), 'some', 1, 2), ((5, 5, 5), 'some', 2, 0), ((2, 2, 9), 'all', 3, 2))]
INSTANCES += [Inst('three-t5', faces, tier='thorough', n=5, first=T, extra=2, max_paths=200000, time_s=1500),
              Inst('three-q5', faces, tier='thorough', n=5, first=Q, extra=2, max_paths=200000, time_s=1500),
              Inst('box-2-drop-flip', shape, tier='thorough', kind='box', numbering=2, what='drop flip', max_paths=200000,
                   time_s=1500)]
