from symx.harness import Inst
from .common import *

BOUNDS = ('meshes of one to four faces, triangles and quadrangles in every order, each kind decided by the (symbolic) node '
          'numbers of the face; every real coordinate in [-100, 100]; one to five vertices for the boxes; boxes of any size divided in 42 to 54 panels')
OUTSIDE = ('floating-point rounding; more faces or vertices than stated (each face, and each vertex, is handled alike); '
           'meshes without any face (no edge to measure)')


def kinds_of(ks):
    """nodes of each face; faces share vertices"""
    fs, o = [], 0
    for k in ks:
        fs.append([o, o + 1, o + 2, o] if k == 'T' else [o, o + 1, o + 2, o + 3])
        o += 2
    return fs, max(max(f) for f in fs) + 1


def edges(h, kinds, order):
    """shortest, longest and mean length of the edges of the faces (three per triangle, four per quadrangle)"""
    fs, n = kinds_of(kinds)
    P = [point(h, 'p%d' % i, -100, 100) for i in range(n)]
    L = []
    for f, k in zip(fs, kinds):
        c = f[:3] if k == 'T' else f
        for i in range(len(c)):
            d = sub(P[c[i]], P[c[i - 1]])
            q = dot(d, d)
            h.assume(q >= h.const('0.0001'))
            L.append(h.sqrt(q))
    m = h.mod('mesh').Mesh(h.arr(P, float), h.arr(fs, int))
    want = {'mean': sum(L[1:], L[0]) / len(L)}
    for what in order:
        got = getattr(m, what + '_edge_length')
        if what == 'mean':
            h.eq(got, want['mean'], 'mean edge length')
        elif what == 'min':
            for i, x in enumerate(L):
                h.le(got, x, 'no edge is shorter than the minimum edge length (edge %d)' % i)
            h.true(h.bor(*[got == x for x in L]) if h.symbolic else
                   any(abs(got - x) <= 1e-9 * (1 + x) for x in L), 'the minimum edge length is that of an edge')
        else:
            for i, x in enumerate(L):
                h.le(x, got, 'no edge is longer than the maximum edge length (edge %d)' % i)
            h.true(h.bor(*[got == x for x in L]) if h.symbolic else
                   any(abs(got - x) <= 1e-9 * (1 + x) for x in L), 'the maximum edge length is that of an edge')


def bbox(h, n, after):
    P = [point(h, 'p%d' % i, -100, 100) for i in range(n)]
    m = h.mod('mesh').Mesh(h.arr(P, float), h.arr([[0, i % n, (i + 1) % n, 0] for i in range(n)], int))
    if after == 'move':
        m.axis_aligned_bbox
        t = point(h, 't', -50, 50)
        m.translate(t)
        P = [add(p, t) for p in P]
    elif after == 'scale':
        m.squared_axis_aligned_bbox
        s = h.real('s', 1, 3)
        m.scale(s)
        P = [[s * x for x in p] for p in P]
    b = m.axis_aligned_bbox
    h.true(len(b) == 6, 'six bounds')
    for k in range(3):
        lo, hi = b[2 * k], b[2 * k + 1]
        for i in range(n):
            h.le(lo, P[i][k], 'the box holds every vertex (lower side, axis %d)' % k)
            h.le(P[i][k], hi, 'the box holds every vertex (upper side, axis %d)' % k)
        h.eq(lo, h.min([p[k] for p in P]), 'lower side of the box, axis %d' % k)
        h.eq(hi, h.max([p[k] for p in P]), 'upper side of the box, axis %d' % k)


def cube(h, n):
    """the squared box has the centre of the box and the size of its longest side"""
    P = [point(h, 'p%d' % i, -100, 100) for i in range(n)]
    m = h.mod('mesh').Mesh(h.arr(P, float), h.arr([[0, i % n, (i + 1) % n, 0] for i in range(n)], int))
    b = m.squared_axis_aligned_bbox
    h.true(len(b) == 6, 'six bounds')
    lo = [h.min([p[k] for p in P]) for k in range(3)]
    hi = [h.max([p[k] for p in P]) for k in range(3)]
    size = h.max([hi[k] - lo[k] for k in range(3)])
    for k in range(3):
        h.eq(b[2 * k] + b[2 * k + 1], lo[k] + hi[k], 'centre of the squared box, axis %d' % k)
        h.eq(b[2 * k + 1] - b[2 * k], size, 'side of the squared box, axis %d' % k)


def counts(h, n, order):
    """the numbers and lists of triangles and of quadrangles follow the nodes of each face"""
    nv = 5
    F, tri = [], []
    for i in range(n):
        a, b, c, d = [h.int('f%d%s' % (i, x), 0, nv - 1) for x in 'abcd']
        h.assume(h.band(a != b, b != c, a != c, d != b, d != c))
        F.append([a, b, c, d])
        tri.append(a == d)
    P = [[i, i * i, 1] for i in range(nv)]
    m = h.mod('mesh').Mesh(h.arr(P, float), h.arr(F, int))
    for what in order:
        if what == 'faces':
            h.true(m.nb_faces == n and m.nb_vertices == nv, 'number of faces and of vertices')
            continue
        ids = [int(i) for i in getattr(m, what + '_ids')] if what in ('triangles', 'quadrangles') else None
        if ids is not None:
            nb = getattr(m, 'nb_' + what)
            h.true(nb == len(ids), 'number of ' + what)
            h.true(ids == sorted(set(ids)), 'each of the ' + what + ' is listed once')
            for i in range(n):
                is_t = tri[i] if what == 'triangles' else h.bnot(tri[i])
                h.true(is_t if i in ids else h.bnot(is_t), 'the list of %s is exact (face %d)' % (what, i))
        elif what == 'each':
            for i in range(n):
                t = bool(m.is_triangle(i))
                h.true(tri[i] if t else h.bnot(tri[i]), 'is_triangle(%d)' % i)
                g = list(m.get_face(i))
                h.true(len(g) == (3 if t else 4), 'nodes of face %d' % i)
                for x, y in zip(g, F[i]):
                    h.true(x == y, 'nodes of face %d' % i)


def panelled(h, n, tri, seed, longest, size=('0.5', '2')):
    """a divided box: cells of which the longest side is along a given axis"""
    P, F, o, d, pts = panel_box(h, n, tri, seed, *size)
    a = longest
    for k in range(3):
        if k != a:
            h.assume(d[k] <= d[a] * h.const('0.8'))
    m = h.mod('mesh').Mesh(h.arr(P, float), h.arr(F, int))
    h.true(m.nb_faces == len(F) and m.nb_vertices == len(P), 'number of faces and of vertices')
    t = [i for i, f in enumerate(F) if f[0] == f[3]]
    h.true([int(i) for i in m.triangles_ids] == t and m.nb_triangles == len(t), 'triangles')
    q = [i for i, f in enumerate(F) if f[0] != f[3]]
    h.true([int(i) for i in m.quadrangles_ids] == q and m.nb_quadrangles == len(q), 'quadrangles')
    lo, hi = m.min_edge_length, m.max_edge_length
    h.eq(lo, h.min(d), 'minimum edge length')
    b, c = (a + 1) % 3, (a + 2) % 3
    if tri:
        x = h.max([h.sqrt(d[a] * d[a] + d[b] * d[b]), h.sqrt(d[a] * d[a] + d[c] * d[c])])
        h.eq(hi, x, 'maximum edge length')
    else:
        h.eq(hi, d[a], 'maximum edge length')
        L, k = 0, 0
        for f in F:
            ax = panel_plan(pts, f)[0]
            L, k = L + 2 * (d[(ax + 1) % 3] + d[(ax + 2) % 3]), k + 4
        h.eq(m.mean_edge_length * k, L, 'mean edge length')
    box = m.axis_aligned_bbox
    h.eq(list(box), [x for k in range(3) for x in (o[k], o[k] + n[k] * d[k])], 'box')
    cube_ = m.squared_axis_aligned_bbox
    size = h.max([n[k] * d[k] for k in range(3)])
    for k in range(3):
        h.eq(cube_[2 * k + 1] - cube_[2 * k], size, 'side of the squared box')
        h.eq(cube_[2 * k + 1] + cube_[2 * k], 2 * o[k] + n[k] * d[k], 'centre of the squared box')


EDGE = ('min', 'max', 'mean')
INSTANCES = [Inst('edges-' + k, edges, kinds=k, order=EDGE, bound='faces ' + k, tier=t) for k, t in
             (('T', 'quick'), ('Q', 'quick'), ('TQ', 'quick'), ('QT', 'quick'), ('QQ', 'thorough'), ('TT', 'thorough'))]
INSTANCES += [Inst('mean-' + k, edges, kinds=k, order=('mean',), bound='faces ' + k) for k in ('TTQ', 'QTT', 'TQT', 'QQQ', 'TTTT')]
INSTANCES += [Inst('bbox-%d%s' % (n, a or ''), bbox, n=n, after=a, bound='%d vertices' % n, tier=t)
              for n, a, t in ((1, None, 'quick'), (3, None, 'quick'), (3, 'move', 'quick'), (2, 'scale', 'quick'),
                              (4, None, 'thorough'), (5, None, 'thorough'))]
INSTANCES += [Inst('cube-%d' % n, cube, n=n, bound='%d vertices' % n, tier=t)
              for n, t in ((1, 'quick'), (2, 'quick'), (3, 'thorough'))]
INSTANCES += [Inst('counts-%d-%s' % (n, o[0]), counts, n=n, order=o, bound='%d faces' % n) for n, o in
              ((1, ('triangles', 'quadrangles', 'faces', 'each')), (2, ('quadrangles', 'each', 'triangles', 'faces')),
               (3, ('each', 'triangles', 'quadrangles', 'faces')))]
INSTANCES += [Inst('panels-%d%d%d%s-%s' % (n + (t, 'xyz'[a])), panelled, n=n, tri=t, seed=s, longest=a) for n, t, s, a in
              (((3, 3, 3), '', 0, 0), ((2, 4, 3), '', 1, 2), ((3, 2, 2), 'all', 2, 1))]
INSTANCES += [Inst('panels-' + k, panelled, n=(2, 3, 2), tri='some', seed=4, longest=0, size=z)
              for k, z in (('tiny', ('1e-7', '1e-4')), ('huge', ('1e3', '1e6')))]
