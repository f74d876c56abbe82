from symx.harness import Inst
from .common import *

BOUNDS = ('all angles, all unit quaternions (written v/|v|), all unit axes and all proper rotation matrices (built from '
          'quaternions or from Cardan angles), both gimbal-lock poses; every branch of the conversions')
OUTSIDE = ('floating-point rounding; rotations smaller than 2e-4 rad may come back as the identity from the axis-angle '
           'form, which is the tolerance of the code')


def unit(h, n, name):
    v = [h.real(name + str(i), -3, 3) for i in range(n)]
    s = v[0] * v[0]
    for x in v[1:]:
        s = s + x * x
    h.assume(s >= h.const('0.01'))
    l = h.sqrt(s)
    return [x / l for x in v]


def qrot(q):
    """rotation matrix of a unit quaternion, from v -> q v q*"""
    a, b, c, d = q
    cols = []
    for k in range(3):
        v = [0, 0, 0]
        v[k] = 1
        # t = 2 u x v ; v + a t + u x t
        t = mul(2, cross([b, c, d], v))
        cols.append(add(v, add(mul(a, t), cross([b, c, d], t))))
    return [[cols[j][i] for j in range(3)] for i in range(3)]


def rx(h, t):
    c, s = h.cos(t), h.sin(t)
    return [[1, 0, 0], [0, c, -s], [0, s, c]]


def ry(h, t):
    c, s = h.cos(t), h.sin(t)
    return [[c, 0, s], [0, 1, 0], [-s, 0, c]]


def rz(h, t):
    c, s = h.cos(t), h.sin(t)
    return [[c, -s, 0], [s, c, 0], [0, 0, 1]]


def cardan(h, p, t, s):
    return matmul(rz(h, s), matmul(ry(h, t), rx(h, p)))


def rodrigues(h, ax, t):
    c, s = h.cos(t), h.sin(t)
    K = [[0, -ax[2], ax[1]], [ax[2], 0, -ax[0]], [-ax[1], ax[0], 0]]
    return [[c * (1 if i == j else 0) + (1 - c) * ax[i] * ax[j] + s * K[i][j] for j in range(3)] for i in range(3)]


def proper(h, R, what):
    for i in range(3):
        for j in range(i, 3):
            h.eq(sum((R[k][i] * R[k][j] for k in range(1, 3)), R[0][i] * R[0][j]), h.const(1 if i == j else 0),
                 what + ': orthogonal')
    h.eq(dot(R[0], cross(R[1], R[2])), h.const(1), what + ': determinant')


def arr(h, x, kind):
    return h.arr(x, float) if kind == 'array' else (tuple(x) if kind == 'tuple' else list(x))


def off_lock(h, R):
    """away from gimbal lock"""
    h.assume(R[2][0] <= h.const('0.999999'))
    h.assume(R[2][0] >= h.const('-0.999999'))


def quat_rotmat(h, kind):
    q = unit(h, 4, 'q')
    R = h.mod('rotations').quat_to_rotmat(arr(h, q, kind))
    h.eq(R, qrot(q), 'quat_to_rotmat')
    proper(h, R, 'quat_to_rotmat')


def rotmat_quat(h):
    q = unit(h, 4, 'q')
    r = h.mod('rotations').rotmat_to_quat(h.arr(qrot(q), float))
    s = sum((r[i] * q[i] for i in range(1, 4)), r[0] * q[0])
    h.eq(s * s, h.const(1), 'rotmat_to_quat gives plus or minus the quaternion')
    h.eq(sum((r[i] * r[i] for i in range(1, 4)), r[0] * r[0]), h.const(1), 'unit quaternion')


def rotmat_quat_half_turn(h):
    """trace -1: half turns about any axis"""
    u = unit(h, 3, 'u')
    q = [h.const(0)] + u
    r = h.mod('rotations').rotmat_to_quat(h.arr(qrot(q), float))
    s = sum((r[i] * q[i] for i in range(1, 4)), r[0] * q[0])
    h.eq(s * s, h.const(1), 'half turn: plus or minus the quaternion')


def axis_quat(h, kind):
    u = unit(h, 3, 'u')
    t = h.real('t', -7, 7)
    q = h.mod('rotations').axis_angle_to_quat(arr(h, u, kind), t)
    c, s = h.cos(t / 2), h.sin(t / 2)
    h.eq(q, [c, s * u[0], s * u[1], s * u[2]], 'axis_angle_to_quat')


def axis_rotmat(h):
    u = unit(h, 3, 'u')
    t = h.real('t', -7, 7)
    h.eq(h.mod('rotations').axis_angle_to_rotmat(h.arr(u, float), t), rodrigues(h, u, t), 'axis_angle_to_rotmat')


def check_axis(h, axis, angle, q, what):
    """(axis, angle) is the rotation of the unit quaternion q"""
    h.eq(dot(axis, axis), h.const(1), what + ': unit axis')
    c, s = h.cos(angle / 2), h.sin(angle / 2)
    r = [c, s * axis[0], s * axis[1], s * axis[2]]
    d = 1 - q[0] * q[0]
    k = sum((r[i] * q[i] for i in range(1, 4)), r[0] * q[0])
    if d <= h.const('2e-8'):
        h.near(k * k, h.const(1), h.const('3e-8'), what + ': rotation (nearly identity)')
    else:
        h.eq(k * k, h.const(1), what + ': rotation')


def quat_axis(h, kind):
    q = unit(h, 4, 'q')
    axis, angle = h.mod('rotations').quat_to_axis_angle(arr(h, q, kind))
    check_axis(h, axis, angle, q, 'quat_to_axis_angle')


def quat_axis_identity(h):
    s = h.choose('sign', [1, -1])
    q = [h.const(s), h.const(0), h.const(0), h.const(0)]
    axis, angle = h.mod('rotations').quat_to_axis_angle(h.arr(q, float))
    check_axis(h, axis, angle, q, 'identity')


def rotmat_axis(h):
    q = unit(h, 4, 'q')
    axis, angle = h.mod('rotations').rotmat_to_axis_angle(h.arr(qrot(q), float))
    check_axis(h, axis, angle, q, 'rotmat_to_axis_angle')


def angles(h):
    return h.real('phi', -3.2, 3.2), h.real('theta', -3.2, 3.2), h.real('psi', -3.2, 3.2)


def cardan_rotmat(h):
    p, t, s = angles(h)
    R = h.mod('rotations').cardan_to_rotmat(p, t, s)
    h.eq(R, cardan(h, p, t, s), 'cardan_to_rotmat')
    proper(h, R, 'cardan_to_rotmat')


def cardan_quat(h):
    p, t, s = angles(h)
    q = h.mod('rotations').cardan_to_quat(p, t, s)
    h.eq(qrot(list(q)), cardan(h, p, t, s), 'cardan_to_quat')
    h.eq(sum((q[i] * q[i] for i in range(1, 4)), q[0] * q[0]), h.const(1), 'unit quaternion')


def cardan_axis(h, free):
    """some of the angles symbolic, the others fixed"""
    p, t, s = [h.real(n, -3.2, 3.2) if n in free else h.const(0) for n in ('phi', 'theta', 'psi')]
    m = h.mod('rotations')
    q = [x for x in m.cardan_to_quat(p, t, s)]
    h.unit_vector(q)
    axis, angle = m.cardan_to_axis_angle(p, t, s)
    check_axis(h, axis, angle, list(q), 'cardan_to_axis_angle')


def rotmat_cardan(h, source):
    m = h.mod('rotations')
    if source == 'cardan':
        p, t, s = angles(h)
        R = cardan(h, p, t, s)
        # poses within 1e-3 of gimbal lock are left to the exact gimbal-lock instances
        h.assume(h.cos(t) * h.cos(t) >= h.const('1e-6'))
    elif source == 'quat':
        q = unit(h, 4, 'q')
        R = qrot(q)
        off_lock(h, R)
    else:
        k = h.choose('gimbal', [1, -1])
        a = h.real('a', -3.2, 3.2)
        ca, sa = h.cos(a), h.sin(a)
        # theta = k pi/2: R = Rz(psi) Ry Rx(phi)
        R = matmul(rz(h, a), [[0, 0, k], [0, 1, 0], [-k, 0, 0]])
    if source != 'gimbal':
        p2, t2, s2 = m.rotmat_to_cardan(h.arr(R, float))
    else:
        p2, t2, s2 = m.rotmat_to_cardan(h.arr(R, float))
    h.eq(cardan(h, p2, t2, s2), R, 'rotmat_to_cardan (%s)' % source)


def quat_cardan(h):
    q = unit(h, 4, 'q')
    R = qrot(q)
    off_lock(h, R)
    p, t, s = h.mod('rotations').quat_to_cardan(h.arr(q, float))
    h.eq(cardan(h, p, t, s), R, 'quat_to_cardan')


def axis_cardan(h):
    u = unit(h, 3, 'u')
    a = h.real('t', -3.2, 3.2)
    R = rodrigues(h, u, a)
    off_lock(h, R)
    p, t, s = h.mod('rotations').axis_angle_to_cardan(h.arr(u, float), a)
    h.eq(cardan(h, p, t, s), R, 'axis_angle_to_cardan')


def not_unit(h, n):
    """a quaternion or axis that is not a unit vector is refused"""
    v = [h.real('v' + str(i), -3, 3) for i in range(n)]
    s = sum((x * x for x in v[1:]), v[0] * v[0])
    h.assume(h.bor(s >= h.const('1.01'), s <= h.const('0.99')))
    m = h.mod('rotations')
    for f in ((m.quat_to_rotmat, m.quat_to_axis_angle) if n == 4 else (lambda a: m.axis_angle_to_quat(a, h.const(1)),)):
        try:
            f(h.arr(v, float))
        except AssertionError:
            h.true(True, 'refused')
            continue
        h.fail('a vector that is not a unit vector is refused')


K = ('array', 'list', 'tuple')
INSTANCES = [Inst('quat-rotmat-' + k, quat_rotmat, kind=k) for k in K]
INSTANCES += [Inst('quat-axis-' + k, quat_axis, kind=k) for k in K]
INSTANCES += [Inst('axis-quat-' + k, axis_quat, kind=k) for k in K]
INSTANCES += [Inst(n, f) for n, f in (
    ('rotmat-quat', rotmat_quat), ('rotmat-quat-half-turn', rotmat_quat_half_turn), ('axis-rotmat', axis_rotmat),
    ('quat-axis-identity', quat_axis_identity), ('rotmat-axis', rotmat_axis), ('cardan-rotmat', cardan_rotmat),
    ('cardan-quat', cardan_quat), ('quat-cardan', quat_cardan),
    ('axis-cardan', axis_cardan))]
INSTANCES += [Inst('rotmat-cardan-' + s, rotmat_cardan, source=s) for s in ('cardan', 'quat', 'gimbal')]
INSTANCES += [Inst('not-unit-%d' % n, not_unit, n=n) for n in (3, 4)]
INSTANCES += [Inst('cardan-axis-' + f, cardan_axis, free=(f,), bound='other Cardan angles zero')
              for f in ('phi', 'theta', 'psi')]
INSTANCES += [Inst('cardan-axis-%s-%s' % f, cardan_axis, tier='thorough', free=f, bound='other Cardan angle zero')
              for f in (('phi', 'theta'), ('theta', 'psi'), ('phi', 'psi'))]
