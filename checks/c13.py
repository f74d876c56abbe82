from symx.harness import Inst
from .common import *

BOUNDS = ('every relative position of two or three vertices (four in the thorough tier) in the plane of two or three free '
          'coordinates, any tolerance between 1e-3 and 1 and the default one; all orders of the vertices; boxes divided in up to 66 '
          'panels with separate vertices (up to 236) placed anywhere, of any size')
OUTSIDE = 'floating-point rounding; more vertices than stated, other than copies of the corners of panels'


def run(h, nv, free, tol, index, F):
    # coordinates that are not free are the same for all vertices
    base = point(h, 'b', -5, 5)
    P = [[h.real('p%d%s' % (i, c), -5, 5) if c in free else base[k] for k, c in enumerate('xyz')] for i in range(nv)]
    a = h.real('atol', '0.001', 1) if tol == 'any' else h.const('1e-8')
    if tol == 'any':
        margins(h, P, free, a)
    else:
        # not within rounding of the tolerance: identical, or apart by more than 1e-6
        for i in range(nv):
            for j in range(i):
                for k, c in enumerate('xyz'):
                    if c in free:
                        d = P[i][k] - P[j][k]
                        h.assume(h.bor(d == 0, d >= h.const('1e-6'), d <= h.const('-1e-6')))
    check(h, P, a, tol == 'any', index, F)


def margins(h, P, free, a):
    # a difference is not within 1e-6 of the tolerance, where rounding decides
    e = h.const('1e-6')
    for i in range(len(P)):
        for j in range(i):
            for k, c in enumerate('xyz'):
                if c in free:
                    d = h.abs(P[i][k] - P[j][k])
                    h.let(h.bor(d - a >= e, a - d >= e))


def check(h, P, a, given, index, F):
    nv = len(P)
    V, Fa = h.arr(P, float), h.arr(F, int)
    m = h.mod('mesh').Mesh(V, Fa)
    kw = dict(atol=a) if given else {}
    if index:
        new = m.merge_duplicates(return_index=True, **kw)
    else:
        m.merge_duplicates(**kw)
    h.eq([list(r) for r in V], P, 'array given by the caller unchanged')
    Q = [list(r) for r in m.vertices]
    h.true(len(m.faces) == len(F), 'number of faces')
    got = [[int(i) for i in f] for f in m.faces]
    h.true(all(0 <= i < len(Q) for f in got for i in f), 'faces refer to existing vertices')
    rep = {}
    for f, g in zip(F, got):
        for i, j in zip(f, g):
            h.true(rep.setdefault(i, j) == j, 'a vertex has one representative')
    for i in range(nv):
        if i in rep:
            for k in range(3):
                d = P[i][k] - Q[rep[i]][k]
                h.true(within(h, d, a), 'faces stay at the same positions up to the tolerance')
    for i in rep:
        for j in rep:
            if j < i:
                same = h.band(*[P[i][k] == P[j][k] for k in range(3)])
                far = h.bor(*[h.bnot(within(h, P[i][k] - P[j][k], a)) for k in range(3)])
                if rep[i] == rep[j]:
                    h.true(h.bnot(far), 'vertices farther apart than the tolerance are not merged')
                else:
                    h.true(h.bnot(same), 'identical vertices are merged')
    if index:
        new = [int(x) for x in new]
        h.true(len(new) == nv and all(0 <= x < len(Q) for x in new), 'index map')
        h.true(all(new[i] == rep[i] for i in rep), 'index map agrees with the faces')
        for i in range(nv):
            for k in range(3):
                h.true(within(h, P[i][k] - Q[new[i]][k], a), 'index map leads to the representative')
        h.true(set(new) == set(range(len(Q))), 'every vertex kept represents some old vertex')
    if len(Q) == nv:
        h.eq(Q, P, 'a mesh without near-duplicates keeps its vertices')
        h.true(got == [list(f) for f in F], 'a mesh without near-duplicates keeps its faces')


def within(h, d, a):
    if h.symbolic:
        return h.band(d <= a, -d <= a)
    return abs(float(d)) <= float(a) + 1e-9


def rows_function(h, nv, free, index):
    """merge_duplicate_rows itself, on an array of any number of columns"""
    P = [[h.real('p%d%d' % (i, k), -5, 5) for k in range(free)] for i in range(nv)]
    a = h.real('atol', '0.001', 1)
    margins(h, P, 'xyz'[:free], a)
    A = h.arr(P, float)
    f = h.mod('tools').merge_duplicate_rows
    if not index:
        Q = [list(r) for r in f(A, atol=a)]
        h.eq([list(r) for r in A], P, 'array unchanged')
        for p in P:
            h.true(h.bor(*[h.band(*[within(h, p[k] - q[k], a) for k in range(free)]) for q in Q]), 'every row is kept up '
                   'to the tolerance')
        h.true(len(Q) <= nv, 'no row invented')
        return
    B, new = f(A, atol=a, return_index=True)
    h.eq([list(r) for r in A], P, 'array unchanged')
    Q = [list(r) for r in B]
    new = [int(x) for x in new]
    h.true(len(new) == nv and set(new) == set(range(len(Q))), 'index map')
    for i in range(nv):
        for k in range(free):
            h.true(within(h, P[i][k] - Q[new[i]][k], a), 'index map leads to a close row')
    for i in range(nv):
        for j in range(i):
            if new[i] != new[j]:
                h.true(h.bnot(h.band(*[x == y for x, y in zip(P[i], P[j])])), 'identical rows are merged')


def lattice(h, n, tri, seed, given):
    """many vertices: the panels of a divided box, each with vertices of its own, placed anywhere"""
    import random
    r = random.Random(seed)
    pts, F = panels(*n, tri=tri, seed=seed)
    o = [h.real('o' + c, -5, 5) for c in 'xyz']
    d = [h.real('d' + c, '0.5', '2') for c in 'xyz']
    a = h.real('atol', '0.001', '0.1') if given else h.const('1e-8')
    # copies of a vertex are apart by less than the tolerance
    e = [h.real('e' + c, '-0.0004', '0.0004') if given else 0 for c in 'xyz']
    corners, G = [], []
    for k, f in enumerate(F):
        g = []
        for i in f[:3] if f[0] == f[3] else f:
            g.append(len(corners))
            corners.append((pts[i], k % 2))
        G.append(g if len(g) == 4 else g + g[:1])
    order = list(range(len(corners)))
    r.shuffle(order)
    G = [[order[i] for i in f] for f in G]
    P, who = [None] * len(order), [None] * len(order)
    for i, (p, k) in zip(order, corners):
        P[i] = [o[c] + d[c] * p[c] + k * e[c] for c in range(3)]
        who[i] = p
    m = h.mod('mesh').Mesh(h.arr(P, float), h.arr(G, int))
    new = [int(x) for x in m.merge_duplicates(return_index=True, **(dict(atol=a) if given else {}))]
    Q = [list(x) for x in m.vertices]
    h.true(len(Q) == len(pts), 'copies of a vertex are merged, others are not')
    h.true(len(new) == len(P) and set(new) == set(range(len(Q))), 'index map')
    h.true(len(set(zip(who, new))) == len(pts), 'index map puts the copies of a vertex together')
    got = [[int(i) for i in f] for f in m.faces]
    h.true(got == [[new[i] for i in f] for f in G], 'index map agrees with the faces')
    for i in range(len(P)):
        for k in range(3):
            h.true(within(h, P[i][k] - Q[new[i]][k], a), 'faces stay at the same positions up to the tolerance')


T3 = [[0, 1, 2, 0]]
T4 = [[0, 1, 2, 0], [3, 2, 1, 0]]
INSTANCES = [Inst('two-xyz', run, nv=2, free='xyz', tol='any', index=True, F=[[0, 1, 0, 0]])]
INSTANCES += [Inst('three-%s-%s' % (f, i), run, nv=3, free=f, tol='any', index=i, F=T3, max_paths=20000)
              for f, i in (('x', True), ('xy', True), ('yz', False), ('xz', True))]
INSTANCES += [Inst('three-default-' + f, run, nv=3, free=f, tol='default', index=True, F=T3, max_paths=20000)
              for f in ('xy', 'z')]
INSTANCES += [Inst('rows-%d-%d-%s' % (n, f, i), rows_function, nv=n, free=f, index=i, max_paths=20000)
              for n, f, i in ((3, 1, True), (2, 2, True), (3, 2, False))]
INSTANCES += [Inst('four-x', run, nv=4, free='x', tol='any', index=True, F=T4, max_paths=20000)]
INSTANCES += [Inst('three-xyz', run, tier='thorough', nv=3, free='xyz', tol='any', index=True, F=T3, max_paths=200000,
                   time_s=1500),
              Inst('four-xy', run, tier='thorough', nv=4, free='xy', tol='default', index=True, F=T4, max_paths=200000,
                   time_s=1500)]
INSTANCES += [Inst('panels-%d%d%d%s-%s' % (n + (t, 'any' if g else 'default')), lattice, n=n, tri=t, seed=s, given=g)
              for n, t, s, g in (((3, 3, 3), '', 1, False), ((2, 2, 2), 'some', 2, True), ((4, 3, 2), 'some', 3, False),
                                 ((9, 1, 1), '', 4, True))]
