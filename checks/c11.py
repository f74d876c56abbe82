from symx.harness import Inst
from .common import *

BOUNDS = ('all vertex positions, factors and planes (any non-zero normal, any scalar) on a mesh of five vertices with a '
          'triangle and two quadrangles, and boxes of any size divided in 42 panels (planes of the axes); symmetrizing: vertices on one side of the plane or on it, in a fixed order along '
          'the normal for the arbitrary planes')
OUTSIDE = 'floating-point rounding; meshes with vertices within the merging tolerance of each other'

F = [[0, 1, 2, 0], [0, 1, 2, 3], [1, 4, 3, 2]]


def setup(h, P=None):
    P = [point(h, 'p' + str(i), -50, 50) for i in range(5)] if P is None else P
    V, Fa = h.arr(P, float), h.arr(F, int)
    m = h.mod('mesh').Mesh(V, Fa)
    return P, m, V, Fa


def scale(h, axis):
    P, m, V, Fa = setup(h)
    other = m.copy()
    k = h.real('k', '0.01', 100)
    getattr(m, 'scale' + ('' if axis is None else 'xyz'[axis]))(k)
    e = [[k * x if axis in (None, i) else x for i, x in enumerate(p)] for p in P]
    h.eq([list(r) for r in m.vertices], e, 'scaled vertices')
    same_ints(h, m.faces, F, 'scaling leaves the faces')
    h.eq([list(r) for r in V], P, 'array given by the caller unchanged')
    h.eq([list(r) for r in other.vertices], P, 'copy unchanged')


def scale_refused(h, axis):
    P, m, V, Fa = setup(h)
    k = h.real('k', -100, 0)
    try:
        getattr(m, 'scale' + ('' if axis is None else 'xyz'[axis]))(k)
    except (AssertionError, ValueError):
        h.eq([list(r) for r in m.vertices], P, 'refused factor leaves the mesh')
        return
    h.fail('a factor that is not positive is refused')


def flip(h, times):
    P, m, V, Fa = setup(h)
    for _ in range(times):
        m.flip_normals()
    h.eq([list(r) for r in m.vertices], P, 'flipping leaves the vertices')
    same_faces(h, m, P, [f[::-1] for f in F] if times % 2 else F, 'flipping reverses every face')
    same_ints(h, Fa, F, 'faces given by the caller unchanged')


def plane(h, near_x=False):
    n = point(h, 'n', -3, 3)
    if near_x:
        n = [h.real('nx', 2, 3), h.real('ny', '-0.3', '0.3'), h.real('nz', '-0.3', '0.3')]
    s = dot(n, n)
    h.assume(s >= h.const('0.01'))
    c = h.real('c', -5, 5)
    l = h.sqrt(s)
    u = [x / l for x in n]
    return h.mod('mesh').Plane(h.arr(n, float), c), u, c


def reflect(u, c, p):
    d = 2 * (dot(u, p) - c)
    return [p[i] - d * u[i] for i in range(3)]


def mirror(h, kind):
    P, m, V, Fa = setup(h)
    if kind == 'any':
        pl, u, c = plane(h)
    else:
        u = [h.const(int(i == kind)) for i in range(3)]
        c = h.real('c', -5, 5)
        pl = h.mod('mesh').Plane(u, c)
    m.mirror(pl)
    Q = [reflect(u, c, p) for p in P]
    h.eq([list(r) for r in m.vertices], Q, 'mirrored vertices')
    same_faces(h, m, Q, [f[::-1] for f in F], 'mirrored faces keep their outward side')
    h.eq([list(r) for r in V], P, 'array given by the caller unchanged')
    h.eq(list(pl.normal), u, 'plane unchanged')
    h.eq(pl.c, c, 'plane unchanged')


def mirror_volume(h):
    """a closed mesh stays outward oriented"""
    P, Fb, T = solid(h, 'tetra', lo=-5, hi=5)
    m = mesh(h, P, Fb)
    c = h.real('c', -5, 5)
    m.mirror(h.mod('mesh').Plane([0., 1., 0.], c))
    vol = 0
    for f in m.faces:
        a, b, d = [list(m.vertices[int(i)]) for i in f[:3]]
        vol = vol + dot(a, cross(b, d)) / 6
    h.eq(vol, tet_volume([P[i] for i in T[0]]), 'volume of the mirrored closed mesh')


def ordered_points(h, n, first='0.5'):
    """points whose coordinates are in disjoint ranges"""
    o = [[i, (2 * i + 1) % 5, (3 * i + 2) % 5] for i in range(n)]
    return [[h.real('p%d%s' % (i, 'xyz'[k]), o[i][k] + 0.5, o[i][k] + 0.9) for k in range(3)] for i in range(n)]


def symmetrize(h, kind, near=()):
    if kind == 'any':
        n = [h.real('nx', 2, 3), h.real('ny', '-0.1', '0.1'), h.real('nz', '-0.1', '0.1')]
        l = h.sqrt(dot(n, n))
        u = [x / l for x in n]
        c = h.real('c', -20, -19)
        P = [[h.real('p%dx' % i, i + 0.5, i + 0.9), h.real('p%dy' % i, '-0.1', '0.1'), h.real('p%dz' % i, '-0.1', '0.1')]
             for i in range(4)]
        Fs = [[0, 1, 2, 0], [0, 1, 3, 2]]
        pl = h.mod('mesh').Plane(h.arr(n, float), c)
    else:
        u = [h.const(int(i == kind)) for i in range(3)]
        c = h.real('c', '-0.4', '0.2')
        P = ordered_points(h, 5)
        for i in near:
            # close to the plane, but farther from its image than the tolerance
            P[i] = [c + h.real('near%d' % i, *(('1e-8', '1e-2') if i % 2 else ('1e-2', '1e-1')))] + P[i][1:]
        P = [[p[-kind % 3], p[(1 - kind) % 3], p[(2 - kind) % 3]] for p in P]
        Fs = F
        pl = h.mod('mesh').Plane(u, c)
    V = h.arr(P, float)
    m = h.mod('mesh').Mesh(V, h.arr(Fs, int))
    other = m.copy()
    m.symmetrize(pl)
    got = [face_points(m, k) for k in range(len(m.faces))]
    want = [row_points(P, f) for f in Fs]
    Q = [reflect(u, c, p) for p in P]
    want += [row_points(Q, f)[::-1] for f in Fs]
    same_face_sets(h, got, want, 'symmetrized mesh: original faces and their images', tol='1e-8')
    h.true(len(m.vertices) == 2 * len(P), 'no vertex lost or invented away from the plane')
    h.eq([list(r) for r in V], P, 'array given by the caller unchanged')
    h.eq([list(r) for r in other.vertices], P, 'copy unchanged')


def symmetrize_shared(h, axis):
    """half a body resting on the plane: the vertices of the plane are shared and the whole is closed and outward"""
    c = h.real('c', '-0.4', '0.4')
    yz = [(0, 0), (2, 0), (0, 2)]
    P = [[c, h.const(a) + h.real('a%d' % i, 0, '0.5'), h.const(b) + h.real('b%d' % i, 0, '0.5')]
         for i, (a, b) in enumerate(yz)]
    P.append([h.real('top', 1, 3), h.real('ty', '0.6', '1.4'), h.real('tz', '0.6', '1.4')])
    # open at the plane: outward side faces of the tetrahedron
    Fs = [[0, 1, 3, 0], [1, 2, 3, 1], [2, 0, 3, 2]]
    vol = tet_volume(P)
    P = [[p[-axis % 3], p[(1 - axis) % 3], p[(2 - axis) % 3]] for p in P]
    u = [h.const(int(i == axis)) for i in range(3)]
    m = h.mod('mesh').Mesh(h.arr(P, float), h.arr(Fs, int))
    m.symmetrize(h.mod('mesh').Plane(u, c))
    h.true(len(m.vertices) == 5, 'vertices of the plane are shared')
    got = [face_points(m, k) for k in range(len(m.faces))]
    Q = [reflect(u, c, p) for p in P]
    want = [row_points(P, f) for f in Fs] + [row_points(Q, f)[::-1] for f in Fs]
    same_face_sets(h, got, want, 'symmetrized half body', tol='1e-8')
    # every edge is traversed once in each direction
    edges = [(int(f[i]), int(f[i + 1])) for f in m.faces for i in range(3)]
    h.true(sorted(edges) == sorted((b, a) for a, b in edges), 'consistently oriented and closed')
    v = 0
    for f in m.faces:
        a, b, d = [list(m.vertices[int(i)]) for i in f[:3]]
        v = v + dot(a, cross(b, d)) / 6
    h.eq(v, 2 * vol, 'volume of the symmetrized body')


def panelled(h, op):
    """a divided box; for the symmetry, one that lies on the plane and has no panel there"""
    P, G, o, d, pts = panel_box(h, (3, 2, 2), 'some', 1)
    M = h.mod('mesh')
    a = 'xyz'.index(op[-1]) if op[-1] in 'xyz' else 0
    u = [h.const(int(i == a)) for i in range(3)]
    if op.startswith('half'):
        G = [f for f in G if any(pts[i][a] for i in f)]
    V = h.arr(P, float)
    m = M.Mesh(V, h.arr(G, int))
    if op.startswith('scale'):
        k = h.real('k', '0.01', 100)
        getattr(m, op)(k)
        want = [[k * x if op == 'scale' or i == a else x for i, x in enumerate(p)] for p in P]
        faces = [(want, f) for f in G]
    elif op == 'flip':
        m.flip_normals()
        want, faces = P, [(P, f[::-1]) for f in G]
    elif op.startswith('mirror'):
        c = h.real('c', -9, 9)
        m.mirror(M.Plane(u, c))
        want = [reflect(u, c, p) for p in P]
        faces = [(want, f[::-1]) for f in G]
    else:
        m.symmetrize(M.Plane(u, o[a]))
        Q = [reflect(u, o[a], p) for p in P]
        faces = [(P, f) for f in G] + [(Q, f[::-1]) for f in G]
        want = None
        h.true(len(m.vertices) == len(P) + sum(1 for p in pts if p[a]), 'vertices of the plane are shared')
        E = {}
        for f in m.faces:
            w = [int(i) for i in f]
            w = w[:3] if w[0] == w[3] else w
            for i in range(len(w)):
                E[w[i - 1], w[i]] = E.get((w[i - 1], w[i]), 0) + 1
        h.true(all(k == 1 and E.get((y, x)) == 1 for (x, y), k in E.items()), 'consistently oriented and closed')
    if want is not None:
        h.eq([list(r) for r in m.vertices], want, 'vertices')
    h.true(len(m.faces) == len(faces), 'number of faces')
    got = [face_points(m, k) for k in range(len(m.faces))]
    if op.startswith('half'):
        want = [row_points(W, f) for W, f in faces]
        same_face_sets(h, got, want, 'symmetrized half body', tol='1e-8')
    else:
        for g, (W, f) in zip(got, faces):
            same_face(h, g, row_points(W, f), 'faces')
    h.eq([list(r) for r in V], P, 'array given by the caller unchanged')


INSTANCES = [Inst('scale-' + n, scale, axis=a) for n, a in (('all', None), ('x', 0), ('y', 1), ('z', 2))]
INSTANCES += [Inst('scale-refused-' + n, scale_refused, axis=a) for n, a in (('all', None), ('x', 0), ('y', 1), ('z', 2))]
INSTANCES += [Inst('flip', flip, times=1), Inst('flip-twice', flip, times=2)]
INSTANCES += [Inst('mirror-' + n, mirror, kind=a) for n, a in (('any', 'any'), ('x', 0), ('y', 1), ('z', 2))]
INSTANCES += [Inst('mirror-volume', mirror_volume)]
INSTANCES += [Inst('symmetrize-' + n, symmetrize, kind=a) for n, a in (('any', 'any'), ('x', 0), ('y', 1), ('z', 2))]
INSTANCES += [Inst('symmetrize-near-' + n, symmetrize, kind=a, near=k) for n, a, k in (('x', 0, (1,)), ('y', 1, (1, 2)), ('z', 2, (3,)))]
INSTANCES += [Inst('symmetrize-shared-' + 'xyz'[a], symmetrize_shared, axis=a) for a in range(3)]
INSTANCES += [Inst('panels-' + o, panelled, op=o) for o in ('scale', 'scalex', 'scalez', 'flip', 'mirror-y', 'half-x', 'half-y',
                                                           'half-z')]
