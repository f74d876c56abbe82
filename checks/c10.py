from symx.harness import Inst
from .common import *

BOUNDS = ('all vertex positions, displacements, angles and rotation matrices (any 3x3 matrix for rotate_matrix), on a mesh '
          'of five vertices with a triangle and two quadrangles and on boxes of any size divided in 66 panels; the operations treat each vertex alike')
OUTSIDE = 'floating-point rounding; the number of vertices (five, and the 54 of a divided box)'

F = [[0, 1, 2, 0], [0, 1, 2, 3], [1, 4, 3, 2]]


def setup(h):
    P = [point(h, 'p' + str(i), -50, 50) for i in range(5)]
    V, Fa = h.arr(P, float), h.arr(F, int)
    m = h.mod('mesh').Mesh(V, Fa)
    return P, m, V, Fa


def finish(h, P, m, V, Fa, other, expected, what):
    h.eq([list(r) for r in m.vertices], expected, what)
    same_ints(h, m.faces, F, what + ': faces unchanged')
    h.eq([list(r) for r in V], P, what + ': array given by the caller unchanged')
    same_ints(h, Fa, F, what + ': faces given by the caller unchanged')
    if other is not None:
        h.eq([list(r) for r in other.vertices], P, what + ': copy of the mesh unchanged')


def translate(h, axis, kind):
    P, m, V, Fa = setup(h)
    other = m.copy()
    if axis is None:
        t = point(h, 't', -50, 50)
        m.translate(h.arr(t, float) if kind == 'array' else (tuple(t) if kind == 'tuple' else t))
    else:
        d = h.real('d', -50, 50)
        t = [0, 0, 0]
        t[axis] = d
        getattr(m, 'translate_' + 'xyz'[axis])(d)
    finish(h, P, m, V, Fa, other, [add(p, t) for p in P], 'translation')


def translate_twice(h):
    """moving there and along each axis adds up"""
    P, m, V, Fa = setup(h)
    t, u = point(h, 't', -50, 50), point(h, 'u', -50, 50)
    m.translate(t)
    m.translate_x(u[0])
    m.translate_y(u[1])
    m.translate_z(u[2])
    finish(h, P, m, V, Fa, None, [add(p, add(t, u)) for p in P], 'successive translations')


def rotmat(h, a):
    c = [h.cos(x) for x in a]
    s = [h.sin(x) for x in a]
    X = [[1, 0, 0], [0, c[0], -s[0]], [0, s[0], c[0]]]
    Y = [[c[1], 0, s[1]], [0, 1, 0], [-s[1], 0, c[1]]]
    Z = [[c[2], -s[2], 0], [s[2], c[2], 0], [0, 0, 1]]
    return matmul(Z, matmul(Y, X))


def rotate(h, axis, kind):
    P, m, V, Fa = setup(h)
    other = m.copy()
    if axis is None:
        a = [h.real(n, -7, 7) for n in ('phi', 'theta', 'psi')]
        R = m.rotate(h.arr(a, float) if kind == 'array' else (tuple(a) if kind == 'tuple' else a))
    else:
        t = h.real('t', -7, 7)
        a = [h.const(0)] * 3
        a[axis] = t
        R = getattr(m, 'rotate_' + 'xyz'[axis])(t)
    M = rotmat(h, a)
    h.eq([list(r) for r in R], M, 'matrix returned')
    finish(h, P, m, V, Fa, other, [matvec(M, p) for p in P], 'rotation')


def rotate_twice(h):
    P, m, V, Fa = setup(h)
    a, b = h.real('a', -7, 7), h.real('b', -7, 7)
    m.rotate_x(a)
    m.rotate_z(b)
    z = h.const(0)
    M = matmul(rotmat(h, [z, z, b]), rotmat(h, [a, z, z]))
    finish(h, P, m, V, Fa, None, [matvec(M, p) for p in P], 'successive rotations')


def rotate_matrix(h):
    P, m, V, Fa = setup(h)
    M = [[h.real('m%d%d' % (i, j), -2, 2) for j in range(3)] for i in range(3)]
    A = h.arr(M, float)
    m.rotate_matrix(A)
    h.eq([list(r) for r in A], M, 'matrix given by the caller unchanged')
    finish(h, P, m, V, Fa, None, [matvec(M, p) for p in P], 'rotation by a matrix')


def panelled(h, op):
    """a divided box"""
    P, G, o, d, pts = panel_box(h, (4, 3, 2), 'some', 1)
    V, Fa = h.arr(P, float), h.arr(G, int)
    m = h.mod('mesh').Mesh(V, Fa)
    other = m.copy()
    if op == 'move':
        t = point(h, 't', -50, 50)
        m.translate(t)
        want = [add(p, t) for p in P]
    elif op == 'axes':
        t = point(h, 't', -50, 50)
        m.translate_z(t[2])
        m.translate_x(t[0])
        m.translate_y(t[1])
        want = [add(p, t) for p in P]
    elif op == 'matrix':
        M = [[h.real('m%d%d' % (i, j), -2, 2) for j in range(3)] for i in range(3)]
        m.rotate_matrix(h.arr(M, float))
        want = [matvec(M, p) for p in P]
    else:
        a = h.real('a', -3, 3)
        k = 'xyz'.index(op)
        getattr(m, 'rotate_' + op)(a)
        R = rotmat(h, [a if i == k else h.const(0) for i in range(3)])
        want = [matvec(R, p) for p in P]
    h.eq([list(r) for r in m.vertices], want, 'moved vertices')
    same_ints(h, m.faces, G, 'faces unchanged')
    h.eq([list(r) for r in V], P, 'array given by the caller unchanged')
    h.eq([list(r) for r in other.vertices], P, 'copy of the mesh unchanged')


INSTANCES = [Inst('translate-' + k, translate, axis=None, kind=k) for k in ('list', 'tuple', 'array')]
INSTANCES += [Inst('translate-' + 'xyz'[a], translate, axis=a, kind='') for a in range(3)]
INSTANCES += [Inst('rotate-' + k, rotate, axis=None, kind=k) for k in ('list', 'tuple', 'array')]
INSTANCES += [Inst('rotate-' + 'xyz'[a], rotate, axis=a, kind='') for a in range(3)]
INSTANCES += [Inst('translate-twice', translate_twice), Inst('rotate-twice', rotate_twice),
              Inst('rotate-matrix', rotate_matrix)]
INSTANCES += [Inst('panels-' + o, panelled, op=o) for o in ('move', 'axes', 'matrix', 'x', 'y', 'z')]
