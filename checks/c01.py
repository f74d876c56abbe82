from .formats import *

BOUNDS = ('up to 3 faces and 4 vertices, ribbons of 14, 107 and 1004 faces with symbolic coordinates at every tenth node, and meshes of 100003 nodes and faces (but in gdf); any node numbers of four digits; triangles and quadrangles in any mix; coordinates '
          'in the stated ranges up to six integer digits, with either sign, one of them anywhere in -899999 .. 899999')
OUTSIDE = ('coordinates of more than six integer digits; node numbers of other widths; a number is represented in the text by '
           'another one with the same sign, number of integer digits and exponent, read back as the number rounded to the digits '
           'printed')
ASSUMPTIONS = ['numbers of the same sign, integer digits and exponent are laid out in the same way by the formatting of Python']


def roundtrip(h, fmt, n, kinds, cls='unit', free=None):
    P = nodes(h, n, cls, free)
    F = panels(h, kinds)
    mm = h.mod('mmio')
    p = h.path('a.' + ('DAT' if fmt == 'dat' else fmt))
    mm.write_mesh(p, node_arr(h, P), face_arr(h, F), FORMATS[fmt])
    try:
        V2, F2 = mm.load_mesh(p, FORMATS[fmt])
    except (KeyError, IndexError):
        # the node numbers are beyond the vertices: a reader may refuse them (complete meshes: positions)
        h.assume(False)
    shape_ok(h, V2, F2, len(F), 'file read back')
    h.true(int(V2.shape[0]) == n, 'number of vertices')
    for i in range(n):
        h.true(within_format(h, list(V2[i]), P[i], fmt), 'coordinates of vertex %d' % i)
    want = F
    for k, f in enumerate(want):
        same_numbers(h, list(F2[k]), f, 'face %d' % k)


CONN = {
    'two': [[[0, 1, 2, 3], [4, 5, 1, 0]], [[0, 1, 2, 0], [2, 1, 3, 2]], [[0, 1, 2, 3], [3, 2, 4, 3]],
            [[5, 4, 0, 5], [5, 0, 1, 2]]],
    'one': [[[0, 1, 2, 3]], [[3, 2, 1, 0]], [[0, 1, 2, 0]], [[2, 1, 0, 2]]],
    'many': [[[0, 1, 2, 3], [3, 2, 4, 5], [4, 5, 0, 4], [1, 0, 5, 1], [2, 1, 4, 2]]]}


def positions(h, fmt, conn, cls='unit', free=None, dup=False):
    """faces compared as sequences of positions"""
    if isinstance(conn, int):
        F = ribbon(conn)
        P = many_nodes(h, conn + 3)
    else:
        F = h.choose('conn', CONN[conn])
        P = spread(h, 1 + max(max(f) for f in F), cls, free)
    mm = h.mod('mmio')
    p = h.path('a.' + ('DAT' if fmt == 'dat' else fmt))
    mm.write_mesh(p, node_arr(h, P), h.arr(F, int), FORMATS[fmt])
    V2, F2 = mm.load_mesh(p, FORMATS[fmt])
    shape_ok(h, V2, F2, len(F), 'file read back')
    got = [[int(i) for i in f] for f in F2]
    h.true(all(0 <= i < V2.shape[0] for f in got for i in f), 'faces refer to existing vertices')
    want = F
    if fmt == 'dat':
        T, Q = [f for f in F if f[0] == f[3]], [f for f in F if f[0] != f[3]]
        want = T + Q if got[0][0] == got[0][3] else Q + T
    for k, (g, f) in enumerate(zip(got, want)):
        lab = 'face %d' % k
        h.true((g[0] == g[3]) == (f[0] == f[3]), lab + ': triangles stay triangles, quadrangles stay quadrangles')
        m = 3 if f[0] == f[3] else 4
        A = [list(V2[i]) for i in g[:m]]
        h.true(h.bor(*[h.band(*[within_format(h, a, P[i], fmt) for a, i in zip(r, f[:m])]) for r in rotations(A)]),
               lab + ': positions in order')


def crowd(h, fmt, n):
    """as many nodes and faces as numbers of six digits take: nothing runs together"""
    P = spread(h, 5)
    V = [P[i % 5] for i in range(n)]
    F = [[i % 5, n - 1 - i % 3, i % 7 + 5, i % 5 if i % 4 == 0 else n // 2] for i in range(n)]
    mm = h.mod('mmio')
    p = h.path('a.' + ('DAT' if fmt == 'dat' else fmt))
    mm.write_mesh(p, h.arr(V, float), h.arr(F, int), FORMATS[fmt])
    V2, F2 = mm.load_mesh(p, FORMATS[fmt])
    h.true(tuple(V2.shape) == (n, 3), 'number of vertices')
    h.true(tuple(F2.shape) == (n, 4), 'number of faces')
    for i in (0, 1, n // 2, n - 2, n - 1):
        h.true(within_format(h, list(V2[i]), V[i], fmt), 'coordinates of vertex %d' % i)
    got = [[int(i) for i in f] for f in F2]
    if fmt == 'dat':
        T, Q = [f for f in F if f[0] == f[3]], [f for f in F if f[0] != f[3]]
        F = T + Q if got[0][0] == got[0][3] else Q + T
    h.true(got == F, 'faces')


INSTANCES = []
for _f in FORMATS:
    # readers of the other formats need the nodes of the faces
    if _f not in ('gdf', 'dat', 'hst'):
        INSTANCES += [
            Inst(_f + ' / 3 faces', roundtrip, textual=True, fmt=_f, n=3, kinds='???', bound='3 faces of any kind'),
            Inst(_f + ' / 1 face', roundtrip, textual=True, fmt=_f, n=3, kinds='?', cls='wide', bound='1 face, large negative'),
            Inst(_f + ' / 2 faces, any coordinate', roundtrip, textual=True, fmt=_f, n=3, kinds='tq', cls='mid',
                 free={(1, 2): 'any'}, bound='one coordinate of any magnitude and sign'),
            Inst(_f + ' / 5 faces', roundtrip, textual=True, fmt=_f, n=5, kinds='?q?tq', cls='tiny', bound='5 faces, tiny'),
        ]
    INSTANCES += [
        Inst(_f + ' / positions, one face', positions, textual=True, fmt=_f, conn='one', cls='neg', bound='1 face'),
        Inst(_f + ' / positions, two faces', positions, textual=True, fmt=_f, conn='two', cls='mid',
             free={(0, 2): 'any'}, bound='2 faces, one coordinate of any magnitude and sign'),
        Inst(_f + ' / positions, five faces', positions, textual=True, fmt=_f, conn='many', cls='big', bound='5 faces'),
    ]
    INSTANCES += [Inst('%s / long, %d' % (_f, _m), positions, textual=True, fmt=_f, conn=_m, bound='%d faces, %d nodes' % (_m, _m + 3))
                  for _m in (14, 107, 1004)]
    if _f == 'hst':
        INSTANCES += [Inst(_f + ' / positions, ' + _c, positions, textual=True, fmt=_f, conn=_d, cls=_c, bound=_c)
                      for _c, _d in (('unit', 'many'), ('wide', 'two'), ('tiny', 'many'), ('small', 'two'))]
INSTANCES += [Inst(f + ' / crowd', crowd, textual=True, fmt=f, n=100003, bound='100003 nodes and faces') for f in FORMATS if f != 'gdf']
