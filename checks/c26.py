from symx.harness import Inst
from .common import *

BOUNDS = ('all vertex positions of a first mesh of two faces and a second of two faces; up to two vertices of the second '
          'may coincide with vertices of the first, any of them, or be close to them; boxes '
          'of any place and size divided in 24 to 136 panels that are given in two meshes')
OUTSIDE = ('floating-point rounding; coordinates in arbitrary order along the axes (they are in disjoint ranges, in several '
           'orders); other larger meshes')

FA = [[0, 1, 2, 0], [0, 2, 3, 1]]
FB = [[0, 1, 2, 3], [3, 2, 0, 3]]


def add_meshes(h, shared, order, near=None):
    """vertices in disjoint ranges along each axis, in an order given by the instance"""
    def pt(name, k):
        o = [(a * k + b) % 9 for a, b in order]
        return [h.real(name + c, o[i] + 0.1, o[i] + 0.8) for i, c in enumerate('xyz')]
    A = [pt('a%d' % i, i) for i in range(4)]
    B = [pt('b%d' % i, 4 + i) for i in range(4)]
    for s in range(shared):
        i = h.choose('ia%d' % s, range(4) if s == 0 else [x for x in range(4) if x != i])
        j = h.choose('ib%d' % s, range(4) if s == 0 else [x for x in range(4) if x != j])
        B[j] = list(A[i])
    n = len(set(id(x[0]) for x in A + B))
    if near is not None:
        # two vertices of the second are close to vertices of the first, but not within the tolerance
        for k in range(2):
            i, j = (k + near) % 4, (2 * k + 1) % 4
            B[j] = list(A[i])
            B[j][(near + k) % 3] = B[j][(near + k) % 3] + h.real('apart%d' % k, '2e-8', '1e-2')
    VA, VB, GA, GB = h.arr(A, float), h.arr(B, float), h.arr(FA, int), h.arr(FB, int)
    M = h.mod('mesh').Mesh
    a, b = M(VA, GA, name='first'), M(VB, GB, name='second')
    c = a + b
    want = [row_points(A, f) for f in FA] + [row_points(B, f) for f in FB]
    h.true(len(c.faces) == 4, 'number of faces')
    for k in range(4):
        same_face(h, face_points(c, k), want[k], 'faces of the first then of the second', tol='1e-8')
    h.true(len(c.vertices) == n, 'coincident vertices are shared, the others kept')
    for m, P, F in ((a, A, FA), (b, B, FB)):
        h.eq([list(r) for r in m.vertices], P, 'operand unchanged')
        same_ints(h, m.faces, F, 'operand unchanged')
    h.eq([list(r) for r in VA] + [list(r) for r in VB], A + B, 'arrays of the caller unchanged')
    # the sum is independent of its operands
    c.translate([h.const(1), h.const(2), h.const(3)])
    c.flip_normals()
    for m, P, F in ((a, A, FA), (b, B, FB)):
        h.eq([list(r) for r in m.vertices], P, 'operand not linked to the sum')
        same_ints(h, m.faces, F, 'operand not linked to the sum')


def with_queries(h):
    """operands already queried"""
    P = [[h.real('p%d%s' % (i, c), o[i] + 0.1, o[i] + 0.8) for c, o in zip('xyz', ([0, 1, 2], [2, 0, 1], [1, 2, 0]))]
         for i in range(3)]
    d = h.real('d', 10, 11)
    Q = [add(p, [d, d, d]) for p in P]
    M = h.mod('mesh').Mesh
    a, b = M(h.arr(P, float), [[0, 1, 2, 0]]), M(h.arr(Q, float), [[2, 1, 0, 2]])
    for m in (a, b):
        m.faces_areas, m.vv, m.get_surface_integrals()
    c = a + b
    h.true(len(c.faces) == 2 and c.nb_triangles == 2, 'number of faces')
    same_face(h, face_points(c, 0), P, 'first')
    same_face(h, face_points(c, 1), Q[::-1], 'second')
    h.true(len(c.faces_areas) == 2 and len(c.vv) == 6, 'queries of the sum')


def unused(h, where):
    """operands having vertices that no face uses"""
    o = [[0, 1, 2, 3], [2, 0, 3, 1], [1, 3, 0, 2]]

    def pts(n, d):
        return [[h.real('%s%d%s' % (n, i, c), d + o[k][i] + 0.1, d + o[k][i] + 0.8) for k, c in enumerate('xyz')]
                for i in range(4)]
    A, B = pts('a', 0), pts('b', 5)
    left = h.choose('unused', [0, 3]) if where != 'none' else 3
    GA = [[i for i in range(4) if i != left]] if 'a' in where else [[0, 1, 3]]
    GB = [[i for i in range(4) if i != left]] if 'b' in where else [[3, 2, 0]]
    GA, GB = [g + g[:1] for g in GA], [g + g[:1] for g in GB]
    M = h.mod('mesh').Mesh
    a, b = M(h.arr(A, float), h.arr(GA, int)), M(h.arr(B, float), h.arr(GB, int))
    c = a + b
    h.true(len(c.faces) == 2, 'number of faces')
    same_face(h, face_points(c, 0), row_points(A, GA[0]), 'face of the first', tol='1e-8')
    same_face(h, face_points(c, 1), row_points(B, GB[0]), 'face of the second', tol='1e-8')
    h.eq([list(r) for r in a.vertices] + [list(r) for r in b.vertices], A + B, 'operands unchanged')


def halves(h, n, tri, seed):
    """the panels of a divided box, placed anywhere, in two meshes that share part of their vertices"""
    pts, F = panels(*n, tri=tri, seed=seed)
    o = [h.real('o' + c, -5, 5) for c in 'xyz']
    d = [h.real('d' + c, '0.5', '2') for c in 'xyz']
    P = [[o[c] + d[c] * p[c] for c in range(3)] for p in pts]
    M = h.mod('mesh').Mesh
    cut = h.choose('cut', [1, len(F) // 3, len(F) // 2, len(F) - 1])
    parts = []
    for G, back in ((F[:cut], False), (F[cut:], True)):
        used = sorted(set(i for f in G for i in f), reverse=back)
        at = {i: k for k, i in enumerate(used)}
        parts.append(([P[i] for i in used], [[at[i] for i in f] for f in G]))
    a, b = (M(h.arr(v, float), h.arr(g, int)) for v, g in parts)
    c = a + b
    h.true(len(c.faces) == len(F), 'number of faces')
    for k, f in enumerate(F):
        same_face(h, face_points(c, k), row_points(P, f), 'faces of the first then of the second', tol='1e-8')
    h.true(len(c.vertices) == len(P), 'coincident vertices are shared, the others kept')
    for m, (v, g) in zip((a, b), parts):
        h.eq([list(r) for r in m.vertices], v, 'operand unchanged')
        same_ints(h, m.faces, g, 'operand unchanged')


ORD = [((1, 0), (1, 0), (1, 0)), ((5, 2), (7, 1), (4, 3)), ((8, 8), (2, 0), (5, 1))]
INSTANCES = [Inst('disjoint-%d' % k, add_meshes, shared=0, order=o) for k, o in enumerate(ORD)]
INSTANCES += [Inst('shared1-%d' % k, add_meshes, shared=1, order=o) for k, o in enumerate(ORD)]
INSTANCES += [Inst('shared2-%d' % k, add_meshes, shared=2, order=o) for k, o in enumerate(ORD)]
INSTANCES += [Inst('near-%d' % k, add_meshes, shared=0, order=o, near=k) for k, o in enumerate(ORD)]
INSTANCES += [Inst('queried', with_queries)]
INSTANCES += [Inst('unused-' + w, unused, where=w) for w in ('a', 'b', 'ab')]
INSTANCES += [Inst('panels-%d%d%d%s' % (n + (t,)), halves, n=n, tri=t, seed=s)
              for n, t, s in (((3, 3, 3), '', 1), ((2, 2, 2), 'some', 2), ((4, 1, 6), 'all', 3))]
