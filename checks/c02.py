from .formats import *

BOUNDS = ('up to 3 faces and 6 vertices (ribbons of 14, 107 and 1004 faces but for STL), triangles and quadrangles in any mix and any coordinates in the stated ranges; for the STL '
          'format horizontal or vertical faces')
OUTSIDE = ('coordinates of more than six integer digits; the library behind the formats is represented by a model '
           '(points in single precision, cells in order) that is compared with it on every path')
ASSUMPTIONS = ['the vtk library reads back the points, in single precision, and the cells of the files it writes']

CONN = [[[0, 1, 2, 3], [4, 5, 1, 0]], [[0, 1, 2, 0], [2, 3, 4, 5]], [[0, 1, 2, 3], [3, 2, 4, 3], [5, 4, 2, 5]],
        [[0, 1, 2, 0], [2, 1, 3, 2]], [[0, 3, 5, 2]], [[4, 1, 2, 4]], [[5, 4, 3, 2], [0, 1, 4, 5], [2, 1, 0, 2]]]


def tolerance(h, x):
    # six digits printed, then single precision
    return h.abs(x) * h.const('7e-7') + h.const('1.02e-6')


def at(h, p, q):
    return h.band(*[h.band(a - b <= t, b - a <= t) for a, b, t in ((a, b, tolerance(h, b)) for a, b in zip(p, q))])


def cyclic(h, A, B):
    return h.bor(*[h.band(*[at(h, a, b) for a, b in zip(r, B)]) for r in rotations(A)])


def roundtrip(h, fmt, cls, free=None, few=False):
    if isinstance(few, int) and few > 1:
        F, P = ribbon(few), many_nodes(h, few + 3)
    else:
        F = h.choose('conn', CONN if not few else [[[0, 1, 2, 0]], [[2, 1, 0, 2]]])
        P = spread(h, 1 + max(max(f) for f in F), cls, free)
    mm = h.mod('mmio')
    p = h.path('a.' + fmt)
    mm.write_mesh(p, node_arr(h, P), h.arr(F, int), fmt)
    V2, F2 = mm.load_mesh(p, fmt)
    shape_ok(h, V2, F2, len(F), 'file read back')
    got = [[int(i) for i in f] for f in F2]
    h.true(all(0 <= i < V2.shape[0] for f in got for i in f), 'faces refer to existing vertices')
    for k, (g, f) in enumerate(zip(got, F)):
        h.true((g[0] == g[3]) == (f[0] == f[3]), 'face %d: triangles stay triangles, quadrangles stay quadrangles' % k)
        m = 3 if f[0] == f[3] else 4
        h.true(cyclic(h, [list(V2[i]) for i in g[:m]], [P[i] for i in f[:m]]), 'face %d: positions in order' % k)


def stl(h, axes, conn):
    """faces in a plane perpendicular to an axis"""
    F = conn
    Q = flat(h)
    P = [[p[axes.index(c)] for c in 'xyz'] for p in Q]
    mm = h.mod('mmio')
    p = h.path('a.stl')
    mm.write_mesh(p, node_arr(h, P), h.arr(F, int), 'stl')
    V2, F2 = mm.load_mesh(p, 'stl')
    want = []
    for f in F:
        want.append(f[:3])
        if f[0] != f[3]:
            want.append([f[0], f[2], f[3]])
    shape_ok(h, V2, F2, len(want), 'file read back')
    got = [[int(i) for i in f] for f in F2]
    h.true(all(0 <= i < V2.shape[0] for f in got for i in f), 'faces refer to existing vertices')
    h.true(all(g[0] == g[3] for g in got), 'facets are triangles')
    left = list(range(len(got)))
    for w in want:
        hit = None
        for k in left:
            if bool(cyclic(h, [list(V2[i]) for i in got[k][:3]], [P[i] for i in w])):
                hit = k
                break
        h.true(hit is not None, 'every triangle is in the file, with its orientation')
        if hit is not None:
            left.remove(hit)


INSTANCES = []
for _f in ('vtp', 'vtu', 'vtk', 'obj'):
    INSTANCES += [
        Inst(_f + ' / any faces', roundtrip, textual=True, fmt=_f, cls='unit', bound='up to 3 faces'),
        Inst(_f + ' / any faces, large', roundtrip, textual=True, fmt=_f, cls='wide', bound='up to 3 faces'),
        Inst(_f + ' / one triangle', roundtrip, textual=True, fmt=_f, cls='mid', free={(1, 2): 'any', (0, 1): 'tiny'}, few=True,
             bound='3 vertices, one coordinate of any magnitude and sign'),
    ] + [Inst('%s / long, %d' % (_f, _m), roundtrip, textual=True, fmt=_f, cls='unit', few=_m, bound='%d faces' % _m) for _m in (14, 107, 1004)]
for _a in ('xyz', 'zxy', 'yzx'):
    for _k, _c in enumerate(CONN):
        INSTANCES.append(Inst('stl / %s %d' % (_a, _k), stl, textual=True, axes=_a, conn=_c, bound='plane faces'))
