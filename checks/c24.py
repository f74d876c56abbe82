from fractions import Fraction

from symx.harness import Inst
from .common import *

BOUNDS = 'all dimensions in [0.1, 50], all densities in [0.1, 20000], all thicknesses in [0.001, 1]'
OUTSIDE = ('floating-point rounding; the xz product of the right-angle wedge, whose orientation is not documented; '
           'finite-thickness corrections of shells (surface mass model, as in the cited handbook)')


# polynomials in t over [0, 1], coefficients of any kind
def pmul(a, b):
    r = [0] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            r[i + j] = r[i + j] + x * y
    return r


def pint(a):
    return sum((c * Fraction(1, k + 1) for k, c in enumerate(a[1:], 1)), a[0])


def revolution_solid(h, r2, H):
    """solid of revolution about z, z = H t, squared radius r2(t): volume, z moment, z2 moment, r4/4 moment"""
    pi = h.pi
    return (pi * H * pint(r2), pi * H * H * pint(pmul(r2, [0, 1])), pi * H * H * H * pint(pmul(r2, [0, 0, 1])),
            pi * H * pint(pmul(r2, r2)) / 4)


def revolution_shell(h, r, ds, H):
    """surface of revolution: squared radius r(t) and surface element ds(t) dt"""
    return (pint(ds), H * pint(pmul(ds, [0, 1])), H * H * pint(pmul(ds, [0, 0, 1])), pint(pmul(ds, r)) / 2)


def minus(a, b):
    return tuple(x - y for x, y in zip(a, b))


def plus(a, b):
    return tuple(x + y for x, y in zip(a, b))


def shift_z(p, z):
    """the same part with its base at altitude z"""
    return (p[0], p[1] + z * p[0], p[2] + 2 * z * p[1] + z * z * p[0], p[3])


def axisym(p):
    """second moments about the centre: (xx, yy, zz) of the position tensor and the measure"""
    m0, mz, mzz, mxx = p
    return m0, (mxx, mxx, mzz - mz * mz / m0)


def solids(h, name):
    """function arguments, measure and central second moments of position (x2, y2, z2), products (yz, xz, xy)"""
    D = lambda n: h.real(n, 0.1, 50)
    pi = h.pi
    if name == 'right_circular_cylinder':
        R, L = D('R'), D('L')
        return (R, L), axisym(revolution_solid(h, [R * R], L))
    if name == 'hollow_right_circular_cylinder':
        r, e, L = D('r'), D('e'), D('L')
        R = r + e
        return (r, R, L), axisym(minus(revolution_solid(h, [R * R], L), revolution_solid(h, [r * r], L)))
    if name == 'right_circular_cone':
        R, L = D('R'), D('L')
        return (R, L), axisym(revolution_solid(h, [R * R, -2 * R * R, R * R], L))
    if name == 'sphere':
        R = D('R')
        b = revolution_solid(h, [R * R, 0, -(R * R)], R)
        return (R,), axisym((2 * b[0], 0, 2 * b[2], 2 * b[3]))
    if name == 'hollow_sphere':
        r, e = D('r'), D('e')
        R = r + e
        b = minus(revolution_solid(h, [R * R, 0, -(R * R)], R), revolution_solid(h, [r * r, 0, -(r * r)], r))
        return (r, R), axisym((2 * b[0], 0, 2 * b[2], 2 * b[3]))
    if name == 'hemisphere':
        R = D('R')
        return (R,), axisym(revolution_solid(h, [R * R, 0, -(R * R)], R))
    if name == 'elliptical_cylinder':
        a, b, L = D('a'), D('b'), D('L')
        p = revolution_solid(h, [1], L)
        m0, (x2, y2, z2) = axisym(p)
        k = a * b
        return (a, b, L), (k * m0, (k * a * a * x2, k * b * b * y2, k * z2))
    if name == 'ellipsoid':
        a, b, c = D('a'), D('b'), D('c')
        u = revolution_solid(h, [1, 0, -1], 1)
        m0, (x2, y2, z2) = axisym((2 * u[0], 0, 2 * u[2], 2 * u[3]))
        k = a * b * c
        return (a, b, c), (k * m0, (k * b * b * x2, k * c * c * y2, k * a * a * z2))
    if name == 'torus':
        r, e = D('r'), D('e')
        R = r + e
        # disc of radius r swept about the y axis at distance R
        d0, d2 = pi * r * r, pi * r ** 4 / 4
        m0 = 2 * pi * R * d0
        rr = 2 * pi * (R ** 3 * d0 + 3 * R * d2)
        return (R, r), (m0, (rr / 2, 2 * pi * R * d2, rr / 2))
    if name in ('right_angle_wedge', 'isoceles_wedge'):
        b, hh, L = D('b'), D('hh'), D('L')
        top = [0, hh] if name == 'right_angle_wedge' else [b / 2, hh]
        T = [[0, 0, 0], [b, 0, 0], [top[0], 0, top[1]]]
        A = T + [[p[0], p[1] + L, p[2]] for p in T]
        return (b, hh, L), poly_solid(A, [(0, 1, 2, 5), (0, 1, 5, 4), (0, 4, 5, 3)])
    if name == 'right_rectangular_pyramid':
        a, b, hh = D('a'), D('b'), D('hh')
        A = [[0, 0, 0], [a, 0, 0], [a, b, 0], [0, b, 0], [a / 2, b / 2, hh]]
        return (a, b, hh), poly_solid(A, [(0, 1, 2, 4), (0, 2, 3, 4)])
    if name in ('cube', 'rectangular_prism'):
        a = D('a')
        b, c = (a, a) if name == 'cube' else (D('b'), D('c'))
        P, _ = box_points([0, 0, 0], [a, 0, 0], [0, b, 0], [0, 0, c])
        return ((a,) if name == 'cube' else (a, b, c)), poly_solid(P, BOX_TETS)


def poly_solid(P, tets):
    vol, first, second = 0, [0] * 3, {}
    for t in tets:
        p = [P[i] for i in t]
        v = abs_vol(tet_volume(p))
        vol = vol + v
        for k in range(3):
            first[k] = first[k] + v * simplex_moment(p, (k,))
        for i in range(3):
            for j in range(i, 3):
                second[i, j] = second.get((i, j), 0) + v * simplex_moment(p, (i, j))
    c = lambda i, j: second[i, j] - first[i] * first[j] / vol
    return vol, (c(0, 0), c(1, 1), c(2, 2)), (c(1, 2), c(0, 2), c(0, 1))


def abs_vol(v):
    """volumes of the decompositions above all have the same sign, which cancels except for the measure"""
    return v if positive(v) else -v


def positive(v):
    return bool(v > 0)


def shells(h, name):
    D = lambda n: h.real(n, 0.1, 50)
    pi = h.pi
    if name == 'circular_cone_shell':
        R, H = D('R'), D('H')
        l = h.sqrt(R * R + H * H)
        return (R, H), axisym(revolution_shell(h, [R * R, -2 * R * R, R * R], [2 * pi * R * l, -2 * pi * R * l], H))
    if name == 'frustrum_of_circular_cone_shell':
        r, R, H = D('r'), D('R'), D('H')
        l = h.sqrt(H * H + (R - r) * (R - r))
        prof = [R, r - R]
        return (r, R, H), axisym(revolution_shell(h, pmul(prof, prof), [2 * pi * l * x for x in prof], H))
    if name in ('lateral_cylindrical_shell', 'total_cylindrical_shell'):
        R, H = D('R'), D('H')
        p = revolution_shell(h, [R * R], [2 * pi * R * H], H)
        if name[0] == 't':
            disc = (pi * R * R, 0, 0, pi * R ** 4 / 4)
            p = plus(plus(p, disc), shift_z(disc, H))
        return (R, H), axisym(p)
    if name in ('spherical_shell', 'hemispherical_shell'):
        R = D('R')
        p = revolution_shell(h, [R * R, 0, -(R * R)], [2 * pi * R * R], R)
        if name[0] == 's':
            p = (2 * p[0], 0, 2 * p[2], 2 * p[3])
        return (R,), axisym(p)


def shape(h, which, kind, given):
    name = which
    args, exp = (solids if kind == 'solid' else shells)(h, name)
    m0, (x2, y2, z2) = exp[0], exp[1]
    prod = exp[2] if len(exp) > 2 else (0, 0, 0)
    f = getattr(h.mod('inertia'), name)
    kw = {}
    if given:
        kw['density'] = h.real('density', 0.1, 20000)
        if kind == 'shell':
            kw['thickness'] = h.real('thickness', 0.001, 1)
    s = kw.get('density', h.const(1) if kind == 'solid' else h.const(7850))
    if kind == 'shell':
        s = s * kw.get('thickness', h.const('0.02'))
    I = f(*args, **kw)
    h.eq(I.mass, s * m0, 'mass')
    h.eq(I.xx, s * (y2 + z2), 'Ixx')
    h.eq(I.yy, s * (x2 + z2), 'Iyy')
    h.eq(I.zz, s * (x2 + y2), 'Izz')
    h.eq(I.yz, s * prod[0], 'Iyz')
    if name != 'right_angle_wedge':
        h.eq(I.xz, s * prod[1], 'Ixz')
    h.eq(I.xy, s * prod[2], 'Ixy')
    h.true(I.is_at_cog(), 'given at the centre of gravity')
    h.eq(I.gravity_center, [h.const(0)] * 3, 'the centre of gravity is the origin')
    h.eq(I.reduction_point, [h.const(0)] * 3, 'the reduction point is the origin')


SOLIDS = ('right_circular_cylinder hollow_right_circular_cylinder right_circular_cone sphere hollow_sphere hemisphere '
          'elliptical_cylinder ellipsoid torus right_angle_wedge isoceles_wedge right_rectangular_pyramid cube '
          'rectangular_prism').split()
SHELLS = ('circular_cone_shell frustrum_of_circular_cone_shell lateral_cylindrical_shell total_cylindrical_shell '
          'spherical_shell hemispherical_shell').split()
INSTANCES = [Inst('%s%s' % (n, '' if g else '-defaults'), shape, which=n, kind=k, given=g)
             for k, l in (('solid', SOLIDS), ('shell', SHELLS)) for n in l for g in (True, False)]
