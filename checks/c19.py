from symx.harness import Inst
from .common import *

BOUNDS = ('all planes with a normal longer than 0.1 and components up to 3, all points with coordinates up to 50, all '
          'rotation angles; planes built by the constructor or reached through one or two calls of the setters')
OUTSIDE = ('floating-point rounding; which axes the plane frame uses inside the plane; the scalar that flip_normal and '
           'set_plane_parameters leave is not specified beyond the consistency of all queries with it')


def raw_normal(h, kind='any', name='n'):
    if kind == 'any':
        n = point(h, name, -3, 3)
        h.assume(dot(n, n) >= h.const('0.01'))
        # away from the (exactly tested) vertical poses, where the orientation is a 0/0 in the limit
        h.assume(n[0] * n[0] + n[1] * n[1] >= h.const('1e-4'))
    elif kind == 'vertical':
        n = [h.const(0), h.const(0), h.real(name + 'z', '0.1', 3)]
    elif kind == 'down':
        n = [h.const(0), h.const(0), h.real(name + 'z', -3, '-0.1')]
    else:
        n = [h.const(x) for x in kind]
    return n


def unit_of(h, n):
    l = h.sqrt(dot(n, n))
    return [x / l for x in n]


def consistent(h, pl, n=None, c=None, frame=True):
    """every query agrees with the equation of the plane reported by normal and c"""
    got = list(pl.normal)
    if n is not None:
        h.eq(got, n, 'normal')
    else:
        n = got
        h.eq(dot(n, n), h.const(1), 'unit normal')
    if c is not None:
        h.eq(pl.c, c, 'scalar')
    else:
        c = pl.c
    p, q = point(h, 'p', -50, 50), point(h, 'q', -50, 50)
    dp, dq = dot(n, p) - c, dot(n, q) - c
    h.eq(pl.get_point_dist_wrt_plane(h.arr(p, float)), dp, 'signed distance of one point')
    A = h.arr([p, q], float)
    h.eq(list(pl.get_point_dist_wrt_plane(A)), [dp, dq], 'signed distances')
    h.eq([list(r) for r in pl.orthogonal_projection_on_plane(A)], [sub(p, mul(dp, n)), sub(q, mul(dq, n))],
         'orthogonal projections')
    h.eq([list(r) for r in A], [p, q], 'points unchanged')
    h.eq(list(pl.get_origin()), mul(c, n), 'origin')
    if not frame:
        return
    o, z = h.const(0), h.const(1)
    E = [[o, o, o], [z, o, o], [o, z, o], [o, o, z], p, q, mul(c, n)]
    B = h.arr(E, float)
    C = [list(r) for r in pl.coord_in_plane(B)]
    h.eq([list(r) for r in B], E, 'points unchanged')
    for k, e in enumerate(E):
        h.eq(C[k][2], dot(n, e) - c, 'third in-plane coordinate is the signed distance')
    # affine map with a proper rotation as linear part
    M = [sub(C[j + 1], C[0]) for j in range(3)]
    for i in range(3):
        for j in range(i, 3):
            h.eq(dot(M[i], M[j]), h.const(int(i == j)), 'in-plane coordinates: rigid change of frame')
    h.eq(dot(M[0], cross(M[1], M[2])), h.const(1), 'in-plane coordinates: direct frame')
    for k, e in ((4, p), (5, q)):
        h.eq(C[k], add(C[0], add(add(mul(e[0], M[0]), mul(e[1], M[1])), mul(e[2], M[2]))), 'in-plane coordinates: affine')
    h.eq(C[6], [o, o, o], 'in-plane coordinates of the origin of the plane')


def scalar(h, name='c'):
    return h.real(name, -20, 20)


def construct(h, kind, form):
    n = raw_normal(h, kind)
    c = scalar(h)
    a = h.arr(n, float) if form == 'array' else (tuple(n) if form == 'tuple' else list(n))
    pl = h.mod('mesh').Plane(a, c)
    consistent(h, pl, unit_of(h, n), c)
    if form == 'array':
        h.eq(list(a), n, 'normal given by the caller unchanged')


def default(h):
    pl = h.mod('mesh').Plane()
    consistent(h, pl, [h.const(0), h.const(0), h.const(1)], h.const(0))


def setter(h, kind, form, start):
    c = scalar(h)
    pl = h.mod('mesh').Plane([h.const(x) for x in start], c)
    n = raw_normal(h, kind)
    a = h.arr(n, float) if form == 'array' else list(n)
    pl.normal = a
    consistent(h, pl, unit_of(h, n), c)
    if form == 'array':
        h.eq(list(a), n, 'normal given by the caller unchanged')


def c_setter(h):
    n = raw_normal(h)
    pl = h.mod('mesh').Plane(n, scalar(h))
    d = scalar(h, 'd')
    pl.c = d
    consistent(h, pl, unit_of(h, n), d)


def flip(h, kind, then):
    n = raw_normal(h, kind)
    pl = h.mod('mesh').Plane(n, scalar(h))
    pl.flip_normal()
    if then:
        pl.flip_normal()
    consistent(h, pl, unit_of(h, n) if then else mul(-1, unit_of(h, n)))


def away(h, pl):
    """poses within 0.01 rad of the vertical are left to the exact vertical instances"""
    n = list(pl.normal)
    h.assume(n[0] * n[0] + n[1] * n[1] >= h.const('1e-4'))


def rotate(h, axis, start):
    """rotation about one axis"""
    c = scalar(h)
    n = [h.const(x) for x in start]
    pl = h.mod('mesh').Plane(n, c)
    t = h.choose('sign', [1, -1]) * h.real('t', '0.001', '3.1')
    a = [h.const(0), h.const(0)]
    a[axis] = t
    pl.rotate_normal(a[0], a[1])
    C, S = h.cos(t), h.sin(t)
    R = [[1, 0, 0], [0, C, -S], [0, S, C]] if axis == 0 else [[C, 0, S], [0, 1, 0], [-S, 0, C]]
    consistent(h, pl, matvec(R, unit_of(h, n)), c, frame=False)


def rotate_frame(h, start):
    c = scalar(h)
    pl = h.mod('mesh').Plane([h.const(x) for x in start], c)
    pl.rotate_normal(h.real('tx', '-1.5', '1.5'), h.real('ty', '-1.5', '1.5'))
    away(h, pl)
    consistent(h, pl)


def rotate_twice(h):
    pl = h.mod('mesh').Plane([0., 0., 1.], scalar(h))
    pl.rotate_normal(h.real('tx', '0.1', '1.5'), h.const(0))
    pl.rotate_normal(h.const(0), h.real('ty', '0.1', '1.5'))
    consistent(h, pl)


def from_angles(h, axis, start):
    c = scalar(h)
    pl = h.mod('mesh').Plane([h.const(x) for x in start], c)
    if axis == 2:
        pl.set_normal_from_angles(h.const(0), h.const(0))
        n = [h.const(0), h.const(0), h.const(1)]
    else:
        t = h.choose('sign', [1, -1]) * h.real('t', '0.001', '3.1')
        h.assume(h.sin(t) * h.sin(t) >= h.const('1e-4'))
        a = [h.const(0), h.const(0)]
        a[axis] = t
        pl.set_normal_from_angles(a[0], a[1])
        n = [h.const(0), -h.sin(t), h.cos(t)] if axis == 0 else [h.sin(t), h.const(0), h.cos(t)]
    consistent(h, pl, n, c)


def from_angles_any(h):
    c = scalar(h)
    pl = h.mod('mesh').Plane([0., 0., 1.], c)
    pl.set_normal_from_angles(h.real('tx', '0.1', '2'), h.real('ty', '-2', '2'))
    away(h, pl)
    consistent(h, pl, None, c)


def angles_round_trip(h, kind):
    """orientation angles of a normal, applied to another plane, give the normal back"""
    n = raw_normal(h, kind)
    pl = h.mod('mesh').Plane(n, h.const(0))
    tx, ty = pl.get_normal_orientation_wrt_z()
    p2 = h.mod('mesh').Plane([0., 0., 1.], h.const(1))
    p2.set_normal_from_angles(tx, ty)
    h.eq(list(p2.normal), unit_of(h, n), 'normal from its orientation angles')
    p3 = h.mod('mesh').Plane([0., 0., 1.], h.const(1))
    p3.rotate_normal(tx, ty)
    h.eq(list(p3.normal), unit_of(h, n), 'vertical rotated by the orientation angles')


def parameters(h, turned):
    c, d = scalar(h), scalar(h, 'd')
    n = raw_normal(h, 'any' if not turned else (1, 2, 2))
    pl = h.mod('mesh').Plane(n, c)
    if turned:
        pl.set_plane_parameters(d, h.real('tx', '-1.5', '1.5'), h.real('ty', '-1.5', '1.5'))
        away(h, pl)
        consistent(h, pl)
    else:
        pl.set_plane_parameters(d, h.const(0), h.const(0))
        consistent(h, pl, unit_of(h, n), c + d)


def two_setters(h, first):
    c = scalar(h)
    pl = h.mod('mesh').Plane([0., 1., 1.], c)
    if first == 'rotate':
        pl.rotate_normal(h.const(0), h.real('t', '0.1', '1.5'))
    elif first == 'flip':
        pl.flip_normal()
    elif first == 'angles':
        pl.set_normal_from_angles(h.real('t', '0.1', '1.5'), h.const(0))
    n = raw_normal(h, 'any')
    pl.normal = n
    consistent(h, pl, unit_of(h, n))


def edge(h, kind):
    n = raw_normal(h, kind)
    u = unit_of(h, n)
    c = h.real('c', -5, 5)
    pl = h.mod('mesh').Plane(n, c)
    p, q = point(h, 'p', -9, 9), point(h, 'q', -9, 9)
    dp, dq = dot(u, p) - c, dot(u, q) - c
    h.assume(h.bor(dp >= h.const('1e-3'), dp <= h.const('-1e-3')))
    h.assume(h.bor(dq >= h.const('1e-3'), dq <= h.const('-1e-3')))
    h.assume(h.bor(dp - dq >= h.const('1e-3'), dp - dq <= h.const('-1e-3')))
    A, B = h.arr(p, float), h.arr(q, float)
    if h.bor(h.band(dp > 0, dq > 0), h.band(dp < 0, dq < 0)):
        try:
            pl.get_edge_intersection(A, B)
        except RuntimeError:
            h.true(True, 'no intersection')
            return
        h.fail('an edge that does not meet the plane is refused')
        return
    I = list(pl.get_edge_intersection(A, B))
    t = dp / (dp - dq)
    h.eq(I, [(1 - t) * x + t * y for x, y in zip(p, q)], 'edge intersection')
    h.eq(dot(u, I), c, 'intersection lies on the plane')
    h.eq([list(A), list(B)], [p, q], 'points unchanged')


def edge_end(h, which):
    """an end exactly on the plane"""
    c = h.real('c', -5, 5)
    pl = h.mod('mesh').Plane([0., 0., 1.], c)
    p, q = point(h, 'p', -9, 9), point(h, 'q', -9, 9)
    (p if which == 0 else q)[2] = c
    h.assume(h.bor((q if which == 0 else p)[2] - c >= h.const('0.01'), (q if which == 0 else p)[2] - c <= h.const('-0.01')))
    h.eq(list(pl.get_edge_intersection(h.arr(p, float), h.arr(q, float))), p if which == 0 else q, 'end on the plane')


def integer_points(h):
    """points with integer coordinates"""
    n = raw_normal(h)
    c = scalar(h)
    u = unit_of(h, n)
    pl = h.mod('mesh').Plane(n, c)
    p = [h.int('i' + x, -9, 9) for x in 'xyz']
    A = h.arr([p], int)
    d = dot(u, p) - c
    h.eq(list(pl.get_point_dist_wrt_plane(A)), [d], 'signed distance')
    h.eq([list(r) for r in pl.orthogonal_projection_on_plane(A)], [sub(p, mul(d, u))], 'projection of integer points')


S = {'z': (0, 0, 1), 'x': (1, 0, 0), 'y': (0, 1, 0), 'g': (1, 2, 2), 'd': (0, 0, -1), 'h': (-2, 1, -2)}
INSTANCES = [Inst('construct-any-' + f, construct, kind='any', form=f) for f in ('array', 'list', 'tuple')]
INSTANCES += [Inst('construct-' + k, construct, kind=k, form='array') for k in ('vertical', 'down')]
INSTANCES += [Inst('construct-default', default)]
INSTANCES += [Inst('setter-any-%s-%s' % (s, f), setter, kind='any', form=f, start=S[s]) for s, f in
              (('z', 'array'), ('x', 'list'), ('g', 'array'))]
INSTANCES += [Inst('setter-%s-%s' % (k, s), setter, kind=k, form='list', start=S[s]) for k, s in
              (('vertical', 'x'), ('down', 'z'), ('vertical', 'd'))]
INSTANCES += [Inst('c-setter', c_setter)]
INSTANCES += [Inst('flip-' + k, flip, kind=k, then=False) for k in ('any', 'vertical', 'down')]
INSTANCES += [Inst('flip-flip-any', flip, kind='any', then=True)]
INSTANCES += [Inst('rotate-%s-%s' % ('xy'[a], s), rotate, axis=a, start=S[s]) for a in range(2) for s in 'zxyg']
INSTANCES += [Inst('rotate-frame-' + s, rotate_frame, start=S[s]) for s in 'zgh']
INSTANCES += [Inst('rotate-twice', rotate_twice)]
INSTANCES += [Inst('from-angles-%s-%s' % ('xy0'[a], s), from_angles, axis=a, start=S[s]) for a in range(3) for s in 'zg']
INSTANCES += [Inst('from-angles-any', from_angles_any)]
INSTANCES += [Inst('angles-round-trip-' + k, angles_round_trip, kind=k) for k in ('any', 'vertical', 'down')]
INSTANCES += [Inst('parameters-turned', parameters, turned=True), Inst('parameters-moved', parameters, turned=False)]
INSTANCES += [Inst('then-normal-' + f, two_setters, first=f) for f in ('rotate', 'flip', 'angles')]
INSTANCES += [Inst('edge-any', edge, kind='any'), Inst('edge-vertical', edge, kind='vertical')]
INSTANCES += [Inst('edge-end-%d' % i, edge_end, which=i) for i in (0, 1)]
INSTANCES += [Inst('integer-points', integer_points)]
