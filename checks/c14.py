from itertools import permutations
from symx.harness import Inst
from .common import *

BOUNDS = ('all vertex positions; meshes of two faces on up to five vertices with every choice of indices for one of them; '
          'removal of degenerated faces: three right-angled faces of any size, any threshold; every selection of three faces; boxes of any size divided in 42 panels')
OUTSIDE = 'floating-point rounding; other larger meshes; faces that repeat a vertex in positions that do not follow each other'


def pts(h, n, lo=-20, hi=20):
    return [point(h, 'p' + str(i), lo, hi) for i in range(n)]


def build(h, P, F):
    V, Fa = h.arr(P, float), h.arr(F, int)
    return h.mod('mesh').Mesh(V, Fa), V, Fa


def caller(h, V, Fa, P, F):
    h.eq([list(r) for r in V], P, 'vertices given by the caller unchanged')
    same_ints(h, Fa, F, 'faces given by the caller unchanged')


def any_face(h, n, name='f'):
    """a triangle or a quadrangle on any distinct vertices out of n"""
    ids = []
    k = 3 + h.choose(name + 'quad', [0, 1])
    for i in range(k):
        ids.append(h.choose('%s%d' % (name, i), [x for x in range(n) if x not in ids]))
    return ids if k == 4 else ids + ids[:1]


def unused(h, n, first):
    P = pts(h, n)
    F = [list(first), any_face(h, n)]
    m, V, Fa = build(h, P, F)
    m.remove_unused_vertices()
    used = sorted(set(sum(F, [])))
    h.true(len(m.vertices) == len(used), 'exactly the used vertices are left')
    same_faces(h, m, P, F, 'faces keep their coordinates')
    got = sorted(set(int(i) for f in m.faces for i in f))
    h.true(got == list(range(len(used))), 'no unused vertex is left')
    caller(h, V, Fa, P, F)


def heal(h, n, kind):
    P = pts(h, n)
    if kind == 'triangle':
        # a triangle written with one vertex twice in a row, at any place
        ids = []
        for i in range(3):
            ids.append(h.choose('f%d' % i, [x for x in range(n) if x not in ids]))
        d = h.choose('double', [0, 1, 2, 3])
        bad = ids[:d + 1] + ids[d:] if d < 3 else ids + ids[:1]
    else:
        bad = ids = any_face(h, n)
        if ids[0] == ids[3]:
            ids = ids[:3]
    first = [0, 1, 2, 3]
    F = [first, bad, [1, 1, 2, 0], [2, 3, 1, 2]]
    m, V, Fa = build(h, P, F)
    m.heal_triangles()
    h.eq([list(r) for r in m.vertices], P, 'vertices unchanged')
    h.true(len(m.faces) == 4, 'number of faces')
    want = [first, ids, [1, 2, 0], [2, 3, 1]]
    for k in range(4):
        same_face(h, face_points(m, k), [list(P[i]) for i in want[k]], 'healed face')
    caller(h, V, Fa, P, F)


def degenerated(h, kind, tol):
    """faces in the planes of the axes whose sizes are free"""
    s = [h.real('s%d' % i, 0, 10) for i in range(3)]
    o = point(h, 'o', -5, 5)
    z = h.const(0)
    P, F = [], []
    for i in range(3):
        n = len(P)
        if kind[i] == 't':
            P += [o, add(o, [s[i], z, z]), add(o, [z, h.const(2), z])]
            F.append([n, n + 1, n + 2, n])
        else:
            P += [o, add(o, [z, s[i], z]), add(o, [z, s[i], h.const(1)]), add(o, [z, z, h.const(1)])]
            F.append([n, n + 1, n + 2, n + 3])
    h.assume(s[0] + s[1] + s[2] >= h.const('0.1'))
    m, V, Fa = build(h, P, F)
    if tol == 'default':
        r = h.const('1e-5')
        margin = '1e-8'
        m_args = ()
    else:
        r = h.real('rtol', '0.01', 2)
        margin = '1e-6'
        m_args = (r,)
    mean = (s[0] + s[1] + s[2]) / 3
    e = h.const(margin)
    for x in s:
        h.assume(h.bor(x - mean * r >= e, mean * r - x >= e))
    m.remove_degenerated_faces(*m_args)
    keep = [i for i in range(3) if bool(s[i] > mean * r)]
    h.eq([list(v) for v in m.vertices], P, 'vertices unchanged')
    h.true(len(m.faces) == len(keep), 'exactly the faces below the threshold are removed')
    for k, i in enumerate(keep):
        same_face(h, face_points(m, k), row_points(P, F[i]), 'faces above the threshold are kept')
    caller(h, V, Fa, P, F)


def splits(q):
    a, b, c, d = q
    return [[[a, b, c], [a, c, d]], [[b, c, d], [b, d, a]]]


def triangulate(h, order):
    n = 5
    P = pts(h, n)
    f = any_face(h, n)
    F = [[0, 1, 2, 3], f, [0, 2, 4, 0]]
    F = [F[i] for i in order]
    m, V, Fa = build(h, P, F)
    ret = m.triangulate_quadrangles()
    h.eq([list(v) for v in m.vertices], P, 'vertices unchanged')
    got = [[int(i) for i in x] for x in m.faces]
    h.true(all(x[0] == x[3] and len(set(x)) == 3 for x in got), 'only triangles are left')
    same_ints(h, ret, got, 'faces returned')

    def canon(t):
        k = t.index(min(t))
        return tuple(t[k:] + t[:k])
    left = sorted(canon(x[:3]) for x in got)
    fixed = sorted(canon(x[:3]) for x in F if x[0] == x[3])
    quads = [x for x in F if x[0] != x[3]]
    ok = False
    opts = [fixed]
    for q in quads:
        opts = [o + [canon(t) for t in s] for o in opts for s in splits(q)]
    ok = any(sorted(o) == left for o in opts)
    h.true(ok, 'each quadrangle becomes two triangles that tile it with the same orientation, triangles are kept')
    caller(h, V, Fa, P, F)


def extract(h, form, index):
    n = 5
    P = pts(h, n)
    F = [any_face(h, n), [0, 1, 2, 3], [2, 4, 3, 2]]
    m, V, Fa = build(h, P, F)
    ids = h.choose('ids', [(0,), (1,), (2,), (0, 1), (1, 0), (2, 0), (0, 1, 2), (2, 1)])
    sel = h.arr(list(ids), int) if form == 'array' else list(ids)
    if index:
        e, old = m.extract_faces(sel, return_index=True)
    else:
        e = m.extract_faces(sel)
    h.true(len(e.faces) == len(ids), 'number of extracted faces')
    for k, i in enumerate(ids):
        same_face(h, face_points(e, k), row_points(P, F[i]), 'extracted face')
    used = set(int(x) for f in e.faces for x in f)
    h.true(used == set(range(len(e.vertices))), 'only the vertices of the extracted faces are kept')
    if index:
        h.true(len(old) == len(e.vertices), 'old indices')
        for k, o in enumerate(old):
            h.eq(list(e.vertices[k]), P[int(o)], 'old indices of the vertices')
    h.eq([list(v) for v in m.vertices], P, 'source mesh unchanged')
    same_ints(h, m.faces, F, 'source mesh unchanged')
    caller(h, V, Fa, P, F)


def quality(h):
    """a face is a triangle exactly when its first and last indices agree"""
    n = 4
    P = pts(h, n)
    F = [any_face(h, n), [0, 1, 2, 3], any_face(h, n, 'g')]
    m, V, Fa = build(h, P, F)
    tri = [i for i in range(3) if F[i][0] == F[i][3]]
    quad = [i for i in range(3) if i not in tri]
    h.true([int(i) for i in m.triangles_ids] == tri, 'triangles')
    h.true([int(i) for i in m.quadrangles_ids] == quad, 'quadrangles')
    h.true(m.nb_triangles == len(tri) and m.nb_quadrangles == len(quad), 'numbers')
    for i in range(3):
        h.true(bool(m.is_triangle(i)) == (i in tri), 'is_triangle')
        h.true([int(x) for x in m.get_face(i)] == (F[i][:3] if i in tri else F[i]), 'get_face')


def panelled(h, op):
    """a divided box with more vertices, and more faces, than it needs"""
    import random
    r = random.Random(5)
    P, G, o, d, pts = panel_box(h, (3, 2, 2), 'some', 1)
    if op == 'unused':
        # a spare vertex every third one, and a fifth of the faces left out
        at, Q = [], []
        for k, p in enumerate(P):
            at.append(len(Q))
            Q.append(p)
            if k % 3 == 0:
                Q.append([h.real('s%d' % k, -5, 5)] * 3)
        G = [[at[i] for i in f] for k, f in enumerate(G) if k % 5]
        P = Q
    elif op == 'heal':
        G = [f if f[0] != f[3] or k % 3 == 0 else [f[0]] + f[:3] if k % 3 == 1 else [f[0], f[1], f[1], f[2]]
             for k, f in enumerate(G)]
    elif op == 'degenerated':
        # slivers, at any place in the list
        n = len(P)
        P = P + [add(P[0], [h.real('e', 0, '1e-9'), 0, 0]), add(P[0], [0, 1, 0])]
        for k in (0, 7, 20, len(G) + 3):
            G.insert(k, [0, n, n + 1, 0])
    m, V, Fa = build(h, P, G)
    if op == 'unused':
        m.remove_unused_vertices()
        used = sorted(set(sum(G, [])))
        h.true(len(m.vertices) == len(used), 'exactly the used vertices are left')
        same_faces(h, m, P, G, 'faces keep their coordinates')
    elif op == 'heal':
        m.heal_triangles()
        h.eq([list(v) for v in m.vertices], P, 'vertices unchanged')
        h.true(len(m.faces) == len(G), 'number of faces')
        for k, f in enumerate(G):
            w = [x for i, x in enumerate(f) if x != f[i - 1]]
            g = [int(x) for x in m.faces[k]]
            h.true((g[0] == g[3]) == (len(w) == 3), 'triangles repeat their first node')
            same_face(h, face_points(m, k), [P[i] for i in w], 'healed face')
    elif op == 'degenerated':
        m.remove_degenerated_faces()
        keep = [f for f in G if n not in f]
        h.eq([list(v) for v in m.vertices], P, 'vertices unchanged')
        h.true(len(m.faces) == len(keep), 'exactly the faces below the threshold are removed')
        for k, f in enumerate(keep):
            same_face(h, face_points(m, k), row_points(P, f), 'faces above the threshold are kept')
    elif op == 'triangulate':
        m.triangulate_quadrangles()
        got = [[int(x) for x in f] for f in m.faces]
        h.true(all(x[0] == x[3] and len(set(x)) == 3 for x in got), 'only triangles are left')

        def canon(t):
            k = t.index(min(t))
            return tuple(t[k:] + t[:k])
        left = sorted(canon(x[:3]) for x in got)
        for f in G:
            for s in [[[f[:3]]]] if f[0] == f[3] else [splits(f)]:
                s = [sorted(canon(list(t)) for t in x) for x in s]
                s = [x for x in s if all(t in left for t in x)]
                h.true(len(s) == 1, 'each quadrangle becomes two triangles that tile it, triangles are kept')
                for t in s[0]:
                    left.remove(t)
        h.true(not left, 'no other triangle')
    else:
        ids = [k for k in range(len(G)) if k % 3 != 1]
        r.shuffle(ids)
        e, old = m.extract_faces(ids, return_index=True)
        h.true(len(e.faces) == len(ids), 'number of extracted faces')
        for k, i in enumerate(ids):
            same_face(h, face_points(e, k), row_points(P, G[i]), 'extracted face')
        used = set(i for k in ids for i in G[k])
        h.true(len(e.vertices) == len(used) and set(int(x) for x in old) == used, 'old indices of the vertices')
        for k, i in enumerate(old):
            h.eq(list(e.vertices[k]), P[int(i)], 'old indices of the vertices')
        h.eq([list(v) for v in m.vertices], P, 'source mesh unchanged')
        same_ints(h, m.faces, G, 'source mesh unchanged')
    caller(h, V, Fa, P, G)


INSTANCES = [Inst('unused-4', unused, n=4, first=(0, 1, 2, 0)), Inst('unused-5', unused, n=5, first=(4, 1, 2, 4)),
             Inst('unused-5q', unused, n=5, first=(4, 1, 3, 0))]
INSTANCES += [Inst('heal-' + k, heal, n=4, kind=k) for k in ('triangle', 'other')]
INSTANCES += [Inst('degenerated-%s-%s' % (k, t), degenerated, kind=k, tol=t) for k, t in
              (('ttt', 'any'), ('tqt', 'any'), ('qqt', 'default'), ('ttt', 'default'))]
INSTANCES += [Inst('triangulate-%d%d%d' % o, triangulate, order=o) for o in ((0, 1, 2), (2, 1, 0), (1, 2, 0))]
INSTANCES += [Inst('extract-' + f, extract, form=f, index=i) for f, i in (('array', True), ('list', False))]
INSTANCES += [Inst('kinds', quality)]
INSTANCES += [Inst('panels-' + o, panelled, op=o) for o in ('unused', 'heal', 'degenerated', 'triangulate', 'extract')]
