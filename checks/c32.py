from symx.harness import Inst
from .common import *

BOUNDS = ('meshes of up to five faces on six vertices, triangles and quadrangles; every listed selection of faces (any order, '
          'repeated faces, single faces, the whole mesh), and meshes of two faces with any node numbers on five vertices; boxes divided in 54 to 160 panels')
OUTSIDE = 'floating-point rounding (coordinates are copied); other larger meshes'

F5 = [[0, 1, 2, 3], [3, 2, 4, 5], [4, 5, 0, 4], [1, 0, 5, 1], [2, 1, 4, 2]]
SELECT = [[0], [2], [4], [0, 1], [1, 0], [4, 2], [3, 0, 2], [0, 1, 2, 3, 4], [4, 3, 2, 1, 0], [2, 2], [1, 4, 1]]


def compare(h, m, sub_, P, F, ids, index=None):
    h.true(int(sub_.nb_faces) == len(ids), 'number of faces extracted')
    V, G = sub_.vertices, [[int(i) for i in f] for f in sub_.faces]
    h.true(all(0 <= i < V.shape[0] for f in G for i in f), 'faces extracted refer to existing vertices')
    for k, i in enumerate(ids):
        h.true((G[k][0] == G[k][3]) == (F[i][0] == F[i][3]), 'kind of face %d' % k)
        for j in range(4):
            h.eq(list(V[G[k][j]]), P[F[i][j]], 'corner %d of face %d' % (j, k))
    used = set(i for f in G for i in f)
    h.true(len(used) == V.shape[0], 'no unused vertex')
    h.true(len(used) == len(set(j for i in ids for j in F[i])), 'shared vertices stay shared')
    if index is not None:
        h.true(len(index) == V.shape[0], 'one old number per vertex')
        for n, o in enumerate(index):
            h.eq(list(V[n]), P[int(o)], 'old number of vertex %d' % n)
            h.true(int(o) in set(j for i in ids for j in F[i]), 'old number of vertex %d' % n)
    h.eq([list(r) for r in m.vertices], P, 'vertices of the source unchanged')
    h.true([[int(i) for i in f] for f in m.faces] == F, 'faces of the source unchanged')


def extract(h, kind, ret):
    P = [point(h, 'p%d' % i, -100, 100) for i in range(6)]
    m = h.mod('mesh').Mesh(h.arr(P, float), h.arr(F5, int))
    ids = h.choose('ids', SELECT)
    sel = h.arr(ids, int) if kind == 'array' else list(ids)
    if ret:
        s, index = m.extract_faces(sel, return_index=True)
    else:
        s, index = m.extract_faces(sel), None
    compare(h, m, s, P, F5, ids, index)


def independent(h):
    """what is done to the extracted mesh does not reach the source, and the other way round"""
    P = [point(h, 'p%d' % i, -100, 100) for i in range(6)]
    m = h.mod('mesh').Mesh(h.arr(P, float), h.arr(F5, int))
    ids = h.choose('ids', [[0, 1, 2, 3, 4], [0, 2]])
    s = m.extract_faces(ids)
    t = point(h, 't', -20, 20)
    s.translate(t)
    s.flip_normals()
    h.eq([list(r) for r in m.vertices], P, 'the source does not move with the extracted mesh')
    h.true([[int(i) for i in f] for f in m.faces] == F5, 'the faces of the source stay')
    V = [list(r) for r in s.vertices]
    m.translate_x(t[0])
    m.rotate_z(t[1])
    h.eq([list(r) for r in s.vertices], V, 'the extracted mesh does not move with the source')


def any_faces(h, n, ids):
    """faces of any node numbers"""
    P = [point(h, 'p%d' % i, -100, 100) for i in range(5)]
    F = []
    for i in range(n):
        f = [h.int('f%d%s' % (i, x), 0, 4) for x in 'abc']
        h.assume(h.band(f[0] != f[1], f[0] != f[2], f[1] != f[2]))
        if h.choose('k%d' % i, ['t', 'q']) == 't':
            F.append(f + [f[0]])
        else:
            d = h.int('f%dd' % i, 0, 4)
            h.assume(h.band(*[d != x for x in f]))
            F.append(f + [d])
    m = h.mod('mesh').Mesh(h.arr(P, float), h.arr(F, int))
    s, index = m.extract_faces(ids, return_index=True)
    Fc = [[int(x) for x in f] for f in F]
    compare(h, m, s, P, Fc, ids, index)


def panelled(h, n, tri, seed, step):
    """many faces of a divided box, in a scattered order"""
    import random
    P, F, o, d, pts = panel_box(h, n, tri, seed)
    m = h.mod('mesh').Mesh(h.arr(P, float), h.arr(F, int))
    ids = list(range(h.choose('first', [0, 1]), len(F), step))
    random.Random(seed).shuffle(ids)
    s, index = m.extract_faces(ids, return_index=True)
    compare(h, m, s, P, F, ids, index)


INSTANCES = [Inst('selection / %s%s' % (k, ' / index' if r else ''), extract, kind=k, ret=r, bound='5 faces')
             for k in ('list', 'array') for r in (False, True)]
INSTANCES += [Inst('independent', independent, bound='5 faces'),
              Inst('any nodes / 1', any_faces, n=1, ids=[0], bound='1 face'),
              Inst('any nodes / 2, second', any_faces, n=2, ids=[1], bound='2 faces', tier='thorough', max_paths=40000, time_s=1500),
              Inst('any nodes / 2, both', any_faces, n=2, ids=[1, 0], bound='2 faces', tier='thorough', max_paths=40000, time_s=1500)]
INSTANCES += [Inst('panels-%d%d%d%s-%d' % (n + (t, k)), panelled, n=n, tri=t, seed=s, step=k, bound='many faces') for n, t, s, k in
              (((3, 3, 3), '', 1, 2), ((4, 3, 2), 'some', 2, 1), ((2, 2, 9), 'all', 3, 5))]
