from symx.harness import Inst
from .clipping import *
from .c21 import HULLS, immersed

BOUNDS = ('floating boxes, wedges, pairs of boxes, stretched bodies and boxes of up to 42 panels with symbolic positions and dimensions, '
          'symbolic density, gravity, mass and centre of gravity, up to two external forces, up to three changes; '
          'displacements reached within four corrections, equilibria within one rotation')
OUTSIDE = ('floating-point rounding; other hull shapes; coefficients of the stiffness matrix are compared within the 1e-4 below '
           'which the code sets them to zero; the search over rotations of `equilibrate` beyond its first correction, its random '
           'restarts and the viewer; forces are not put back by `reset` (not implemented upstream)')


def slab(h):
    """wedge of fixed dimensions"""
    s = [(h.const(0), h.const('-1')), (h.const('2'), h.const('1')), (h.const('-2'), h.const('1'))]
    xy = [(h.const(0), s[i][0]) for i in range(3)] + [(h.const(5), s[i][0]) for i in range(3)]
    return xy, [s[i][1] for i in range(3)] * 2, [-1, 1, 1] * 2, PRISM


HULLS = dict(HULLS, slab=slab)


def hull(h, name):
    xy, Z, S, F = HULLS[name](h)
    return [[x, y, z] for (x, y), z in zip(xy, Z)], Z, S, F


class State(object):
    """what the object has to describe: hull, centre of gravity, mass, density, gravity, forces"""

    def __init__(self, h, P, Z, S, F, G, rho, g, M=None):
        self.h, self.P, self.Z, self.S, self.F = h, P, Z, S, F
        self.G, self.rho, self.g, self.M = list(G), rho, g, M
        self.forces = []
        self.measure()
        if M is None:
            self.M = rho * self.V

    def measure(self):
        self.exp = Expected(self.h, self.P, self.Z, self.S, self.F)
        self.V, self.M1, self.M2, self.A, self.A1, self.A2, self.edges = immersed(self.h, self.exp)

    def residual(self):
        """weight, buoyancy and external forces at the origin"""
        B, W = self.rho * self.g, self.M * self.g
        r = [B * self.V - W, B * self.M1[1] - W * self.G[1], -B * self.M1[0] + W * self.G[0]]
        for p, f in self.forces:
            c = cross(p, f)
            r = [r[0] + f[2], r[1] + c[0], r[2] + c[1]]
        return r


def compare_state(h, o, s, what, parts=('volume', 'plane', 'stiffness', 'extent', 'inertia', 'forces')):
    A, A1, A2, V, M1, M2, k = s.A, s.A1, s.A2, s.V, s.M1, s.M2, s.rho * s.g
    what += ': '
    h.eq(points(o.mesh), s.P, what + 'hull')
    h.eq([list(x) for x in o.vertices], s.P, what + 'hull')
    h.eq(list(o.gravity_center), s.G, what + 'centre of gravity')
    h.eq(o.zg, s.G[2], what + 'height of the centre of gravity')
    h.eq(o.gravity, s.g, what + 'gravity')
    h.eq(o.rho_water, s.rho, what + 'density')
    h.eq(o.mass * 1000, s.M, what + 'mass in tons')
    B = [x / V for x in M1]
    if 'volume' in parts:
        same_ints(h, o.faces, s.F, what + 'faces of the hull')
        h.eq(o.hydrostatic_mesh.volume, V, what + 'volume of the hydrostatic mesh')
        h.eq(o.displacement_volume, V, what + 'displaced volume')
        h.eq(o.displacement * 1000, s.rho * V, what + 'displacement in tons')
        h.eq([x * V for x in o.buoyancy_center], M1, what + 'centre of buoyancy')
    if 'plane' in parts:
        h.eq(o.flotation_surface_area, A, what + 'waterplane area')
        h.eq([x * A for x in o.flotation_center], A1 + [h.const(0)], what + 'waterplane centre')
    if 'stiffness' in parts:
        a = s.G[2] * V - M1[2]
        Mt, Ml = A2[1, 1] - a, A2[0, 0] - a
        h.eq(o.transversal_metacentric_radius * V, A2[1, 1], what + 'transversal metacentric radius')
        h.eq(o.longitudinal_metacentric_radius * V, A2[0, 0], what + 'longitudinal metacentric radius')
        h.eq(o.transversal_metacentric_height * V, Mt, what + 'transversal metacentric height')
        h.eq(o.longitudinal_metacentric_height * V, Ml, what + 'longitudinal metacentric height')
        K = [[k * A, k * A1[1], -k * A1[0]], [k * A1[1], k * Mt, -k * A2[0, 1]], [-k * A1[0], -k * A2[0, 1], k * Ml]]
        for i in range(3):
            for j in range(3):
                h.near(o.hydrostatic_stiffness_matrix[i, j], K[i][j], '0.0001', what + 'stiffness %d%d' % (i + 3, j + 3))
        for i, j in ((0, 0), (0, 1), (0, 2), (1, 1), (1, 2), (2, 2)):
            n = 'S%d%d' % (i + 3, j + 3)
            h.near(getattr(o, n), K[i][j], '0.0001', what + n)
    if 'extent' in parts:
        X, Y = ([p[i] for e in s.edges for p in e] for i in (0, 1))
        I = [s.exp.points[i] for i in sorted(set(i for c in s.exp.cycles for i in c))]
        d = o.hs_data
        h.eq(d['lwl'], h.max(X) - h.min(X), what + 'length at waterline')
        h.eq(d['breadth'], h.max(Y) - h.min(Y), what + 'breadth at waterline')
        h.eq(d['los'], h.max([p[0] for p in I]) - h.min([p[0] for p in I]), what + 'length overall submerged')
        h.eq(d['bos'], h.max([p[1] for p in I]) - h.min([p[1] for p in I]), what + 'breadth overall submerged')
        h.eq(d['draught'], -h.min([p[2] for p in I]), what + 'draught')
        h.eq(d['fp'], h.max(X), what + 'forward perpendicular')
    if 'inertia' in parts:
        def mom(a, b):
            return M2[min(a, b), max(a, b)] * V - M1[a] * M1[b]
        for n, i, j in (('Ixx', 1, 2), ('Iyy', 0, 2), ('Izz', 0, 1)):
            h.eq(o.hs_data[n] * V, s.rho * (mom(i, i) + mom(j, j)), what + n)
        for n, i, j in (('Ixy', 0, 1), ('Ixz', 0, 2), ('Iyz', 1, 2)):
            h.eq(o.hs_data[n] * V, s.rho * mom(i, j), what + n)
    if 'forces' in parts:
        r = s.residual()
        h.eq(list(o.residual), r, what + 'residual')
        h.eq([o.delta_fz, o.delta_mx, o.delta_my], r, what + 'residuals one by one')
        w, b = o.get_gravity_force(), o.get_buoyancy_force()
        h.eq(list(w.point) + list(w.value), s.G + [0, 0, -s.M * s.g], what + 'weight')
        h.eq(list(b.point) + list(b.value), B + [0, 0, k * V], what + 'buoyancy')


def make(h, name, low=False, mass=False, fixed=False):
    P, Z, S, F = hull(h, name)
    G = [h.real('gx', -2, 2), h.real('gy', -2, 2), h.real('gz', -30, -29) if low else h.real('gz', -2, 2)]
    rho, g = (h.const(1000), h.const(10)) if fixed else (h.real('rho', 900, 1100), h.real('g', 9, 10))
    m = h.mod('mesh').Mesh(h.arr(P, float), h.arr(F, int))
    Ga = h.arr(G, float)
    kw = {}
    if mass:
        kw['mass'] = h.real('mass', '0.2', '0.5')
    s = State(h, P, Z, S, F, G, rho, g, kw['mass'] * 1000 if mass else None)
    o = h.mod('hydrostatics_old').Hydrostatics(m, cog=Ga, rho_water=rho, grav=g, **kw)
    return o, s, m, Ga


def position(h, hull_, low=False, mass=False):
    o, s, m, Ga = make(h, hull_, low, mass)
    compare_state(h, o, s, 'position given')
    h.eq(points(m), s.P, 'the mesh given is not modified')
    same_ints(h, m.faces, s.F, 'the mesh given is not modified')
    h.eq(list(Ga), s.G, 'the centre given is not modified')
    a = s.G[2] * s.V - s.M1[2]
    h.true(o.is_stable_in_roll() == (s.A2[1, 1] > a), 'stability in roll')
    h.true(o.is_stable_in_pitch() == (s.A2[0, 0] > a), 'stability in pitch')
    h.true(o.isstable() == (o.is_stable_in_roll() and o.is_stable_in_pitch()), 'stable when stable both ways')



def force(h, k, mode):
    """an external force, kept by the caller too"""
    p = [h.real('p%s%s' % (c, k), -2, 2) for c in 'xyz']
    f = [h.real('f%s%s' % (c, k), -1, 1) for c in 'xyz']
    pa, fa = h.arr(p, float), h.arr(f, float)
    return h.mod('hydrostatics_old').Force(pa, fa, 'pull' + k, mode), p, f, (pa, fa)


SETTERS = ('rho', 'g', 'zg', 'G', 'mass', 'force')


def change(h, o, s, what, k, low):
    """one change by the public attributes"""
    if what == 'rho':
        s.rho = h.real('rho' + k, 1200, 1300)
        o.rho_water = s.rho
    elif what == 'g':
        s.g = h.real('g' + k, 1, 2)
        o.gravity = s.g
    elif what == 'zg':
        s.G = s.G[:2] + [h.real('gz' + k, -40, -39) if low else h.real('gz' + k, 3, 4)]
        o.zg = s.G[2]
    elif what == 'G':
        s.G = [h.real('gx' + k, 3, 4), h.real('gy' + k, 3, 4), h.real('gz' + k, -50, -49) if low else h.real('gz' + k, 3, 4)]
        s.given = list(s.G)
        s.array = h.arr(s.G, float)
        o.gravity_center = s.array
    elif what == 'mass':
        m = h.real('mass' + k, '0.6', '0.8')
        s.M = m * 1000
        o.mass = m
    elif what == 'force':
        F, p, f, a = force(h, k, 'relative')
        o.add_force(F)
        s.forces.append((p, f))


def history(h, hull_, changes, low=False, reset=False):
    """after each change, everything is up to date"""
    o, s, m, Ga = make(h, hull_, low)
    start = list(s.G)
    s.given, s.array = start, Ga
    for k, c in enumerate(changes):
        change(h, o, s, c, str(k), low)
        compare_state(h, o, s, 'after %s' % c, ('stiffness', 'forces', 'volume'))
    h.eq(list(s.array), s.given, 'the centre given is not modified')
    h.eq(list(Ga), start, 'the centre given first is not modified')
    h.eq(points(m), s.P, 'the mesh given is not modified')
    if reset:
        s.G = list(s.given)
        o.reset()
        compare_state(h, o, s, 'after reset')


def too_heavy(h, hull_, how):
    """a mass is refused exactly when the hull cannot carry it"""
    P, Z, S, F = hull(h, hull_)
    rho, g = h.real('rho', 900, 1100), h.real('g', 9, 10)
    m = h.mod('mesh').Mesh(h.arr(P, float), h.arr(F, int))
    mass = h.real('mass', '0.1', '300')
    H = h.mod('hydrostatics_old').Hydrostatics
    o = None
    if how != 'constructor':
        o = H(m, cog=[0, 0, 0], rho_water=rho, grav=g)
    try:
        if how == 'constructor':
            o = H(m, cog=[0, 0, 0], mass=mass, rho_water=rho, grav=g)
        else:
            o.mass = mass
        refused = False
    except ValueError:
        refused = True
    cap = rho * solid_volume(h, P, F)
    h.true((1000 * mass > cap) if refused else (1000 * mass <= cap), 'refused exactly when heavier than the water the hull holds')
    if not refused:
        h.eq(o.mass, mass, 'mass')
        h.eq(o.delta_fz, (rho * o.displacement_volume - 1000 * mass) * g, 'vertical residual')
        h.true(not o.is_sinking(), 'not sinking')


def solid_volume(h, P, F):
    v = 0
    for f in F:
        n = 3 if f[0] == f[3] else 4
        for i in range(1, n - 1):
            v = v + dot(P[f[0]], cross(P[f[i]], P[f[i + 1]])) / 6
    return v


def balanced(h, hull_, low=False):
    """equilibrium is declared exactly when each residual is within the tolerance"""
    o, s, m, Ga = make(h, hull_, low, fixed=True)
    mass = h.real('mass', '0.1', '20')
    h.assume(1000 * mass <= s.rho * solid_volume(h, s.P, s.F))
    o.mass = mass
    s.M = 1000 * mass
    tol = h.real('tol', '0.01', '0.9')
    o.reltol = tol
    X, Y = ([p[i] for e in s.edges for p in e] for i in (0, 1))
    L, B, W = h.max(X) - h.min(X), h.max(Y) - h.min(Y), s.M * s.g
    r = s.residual()
    inside = h.band(*[h.band(x < tol * W * l, -x < tol * W * l) for x, l in zip(r, (1, B, L))])
    got = o.is_at_equilibrium()
    h.true(inside if got else h.bnot(inside), 'equilibrium exactly when within the tolerance')


def moved(h, s, z):
    """the state, the hull moved up but still afloat with the same vertices above the water"""
    s.P = [[p[0], p[1], p[2] + z] for p in s.P]
    s.Z = [p[2] for p in s.P]
    s.G = [s.G[0], s.G[1], s.G[2] + z]
    s.forces = [([p[0], p[1], p[2] + z], f) for p, f in s.forces]
    s.measure()


def displacement(h, hull_, n=3, low=False, forces=0, direct=True):
    """the hull is moved vertically until it displaces its mass"""
    o, s, m, Ga = make(h, hull_, low, fixed=True)
    kept = []
    for k in range(forces):
        F, p, f, a = force(h, str(k), ('absolute', 'relative')[k % 2])
        f[2] = f[2] * 0
        F = h.mod('hydrostatics_old').Force(h.arr(p, float), h.arr(f, float), mode=('absolute', 'relative')[k % 2])
        o.add_force(F)
        kept.append(F)
        s.forces.append((p, f))
    P0, G0 = s.P, list(s.G)
    tol = h.real('tol', '0.01' if direct else '0.0001', '0.2')
    relax = h.real('relax', '0.3', '0.9')
    o.reltol, o.z_relax, o.max_iterations = tol, relax, n
    h.eq([o.reltol, o.z_relax, o.max_iterations], [tol, relax, n], 'parameters')
    low_, high = [h.const(x) for x in RANGE[hull_]]
    mass = h.real('mass', '0.1', '100')
    h.assume(h.band(mass >= s.V * low_, mass <= s.V * high))
    z = o.set_displacement(mass)
    s.M = 1000 * mass
    zz = o.mesh.vertices[0, 2] - P0[0][2]
    h.eq(zz, z, 'the correction returned is the one applied')
    moved(h, s, z)
    for F, (p, f) in zip(kept, s.forces):
        h.eq(list(F.point), p, 'the point of a force follows the hull')
        h.eq(list(F.value), f, 'the direction of a force is kept')
    compare_state(h, o, s, 'after the correction', ('volume', 'plane', 'forces', 'extent') if direct else ('volume', 'plane'))
    done = h.band(s.rho * s.V - s.M < tol * s.M, s.M - s.rho * s.V < tol * s.M)
    if not direct:
        # the number of positions is bounded: convergence is not claimed
        return
    h.true(done, 'the hull displaces its mass, within the tolerance')
    h.eq(points(m), P0, 'the mesh given is not modified')
    h.eq(list(Ga), G0, 'the centre given is not modified')


RANGE = dict(box=('0.8', '1.2'), wedge=('0.9', '1.1'), slab=('0.9', '1.1'), twin=('0.9', '1.1'))


def equilibrium(h, case):
    """a box whose weight is above its centre of buoyancy, or nearly"""
    L, B = (h.real('L', 4, 6), h.real('B', 2, 3)) if case != 'short' else (h.const(5), h.const(2))
    T, D = h.real('T', '0.5', '0.6'), h.real('D', '0.5', '0.6')
    x0, y0 = h.real('x0', -3, 3), h.real('y0', -3, 3)
    off = [h.const(0), h.const(0)] if case != 'short' else [h.real('ox', '0.3', '0.4'), h.const(0)]
    P = [[x0 + L * h.const(a), y0 + B * h.const(b), T * -1 if c < 0 else D] for a, b, c in
         [(x, y, c) for c in (-1, 1) for x, y in (('-0.5', '-0.5'), ('0.5', '-0.5'), ('0.5', '0.5'), ('-0.5', '0.5'))]]
    gz = h.real('gz', '-0.2', '0.2') if case not in ('unstable', 'crank', 'refused') else h.real('gz', 15, 16) if case != 'crank' else h.real('gz', '1.75', '1.8')
    G = [x0 + off[0], y0 + off[1], gz]
    S = [-1] * 4 + [1] * 4
    rho, g = (h.real('rho', 900, 1100), h.real('g', 9, 10)) if case != 'short' else (h.const(1000), h.const(10))
    m = h.mod('mesh').Mesh(h.arr(P, float), h.arr(BOX, int))
    # moments about the axes through the centre at the first position
    o = h.mod('hydrostatics_old').Hydrostatics(m, cog=h.arr(G, float), rho_water=rho, grav=g)
    s = State(h, P, [p[2] for p in P], S, BOX, G, rho, g)
    tol = h.real('tol', '0.001', '0.01')
    o.reltol = tol
    F, p, f, a = force(h, '', 'absolute')
    f = [h.const(0)] * 3
    F = h.mod('hydrostatics_old').Force(h.arr(p, float), h.arr(f, float))
    o.add_force(F)
    s.forces.append((p, f))
    z = h.const(0)
    if case == 'draught':
        z = h.real('dz', '-0.09', '0.09')
        mass = s.rho * (T - z) * L * B / 1000
        o.mass = mass
        s.M = mass * 1000
        h.assume(h.bor(z > tol, -z > tol))
    if case in ('unstable', 'crank'):
        o.allow_unstable_on()
        h.true(o.allow_unstable, 'unstable positions allowed')
    if case in ('short', 'refused'):
        o.max_iterations, o.max_restart = 2, 1
    code = o.equilibrate(init_disp=case == 'draught')
    h.true(code == {'unstable': 2, 'crank': 2, 'short': 0, 'refused': 0}.get(case, 1), 'answer of the solver')
    moved(h, s, z)
    s.P = [[q[0] - G[0], q[1] - G[1], q[2]] for q in s.P]
    s.G = [h.const(0), h.const(0), s.G[2]]
    s.forces = [([q[0] - G[0], q[1] - G[1], q[2]], f) for q, f in s.forces]
    s.measure()
    compare_state(h, o, s, 'at equilibrium')
    if code:
        h.true(o.is_at_equilibrium(), 'at equilibrium when it is said so')
        h.true(o.isstable() == (code == 1), 'stability of the position as announced')
    o.reset()
    s.P, s.G = P, G
    s.Z = [p[2] for p in P]
    s.S = S
    s.measure()
    s.forces = [([q[0] - G[0], q[1] - G[1], q[2] + z], w) for q, w in ((p, f),)]
    compare_state(h, o, s, 'after reset')


def nil(h, x):
    if h.symbolic:
        return x.num is not None and not x.num.t if hasattr(x, 'num') else x == 0
    return x == 0


def turned(h, rot, side=(1, 1)):
    """one correction of the solver: what is asked is the solution of the linear problem, relaxed; what is applied
    (any of the rotations listed) carries the hull, its centre of gravity and the forces"""
    L, B = h.const(5), h.const('2.2')
    T, D = h.const('0.5'), h.const('0.75')
    x0, y0 = h.real('x0', -3, 3), h.real('y0', -3, 3)
    P = [[x0 + L * h.const(a), y0 + B * h.const(b), -T if c < 0 else D] for c in (-1, 1)
         for a, b in (('-0.5', '-0.5'), ('0.5', '-0.5'), ('0.5', '0.5'), ('-0.5', '0.5'))]
    G = [x0 + h.const('0.25') * side[0], y0 + h.const('0.125') * side[1], h.const('0.125')]
    M_ = h.mod('mesh').Mesh
    m = M_(h.arr(P, float), h.arr(BOX, int))
    rho, g = h.const(1000), h.const(10)
    o = h.mod('hydrostatics_old').Hydrostatics(m, cog=h.arr(G, float), rho_water=rho, grav=g)
    s = State(h, P, [p[2] for p in P], [-1] * 4 + [1] * 4, BOX, G, rho, g)
    kept = []
    for k, mode in enumerate(('absolute', 'relative')):
        p = [x0 + 1, y0 - 2 + k, h.const(k - 1)]
        f = [h.const(100 * k + 200), h.const(300), h.real('fz%d' % k, -900, 900)]
        F = h.mod('hydrostatics_old').Force(h.arr(p, float), h.arr(f, float), 'pull', mode)
        o.add_force(F)
        kept.append((F, mode))
        s.forces.append((p, f))
    o.reltol, o.max_iterations, o.max_restart = h.const('0.0001'), 3, 1
    relax, zr = h.real('relax', 1, 3), h.const('0.03')
    o.theta_relax, o.z_relax = relax, zr
    h.eq(o.theta_relax, relax, 'relaxation of the angles')
    R = [[frac(h, x) for x in r] for r in ROTS[rot]]
    asked = []

    def rotate(self, angles):
        a = [x + h.const(0) for x in angles]
        if all(nil(h, x) for x in a):
            return h.arr([[h.const(x) for x in r] for r in I3], float)
        asked.append(a)
        self.rotate_matrix(h.arr(R, float))
        return h.arr(R, float)

    h.stub(M_, 'rotate', rotate)
    code = o.equilibrate(init_disp=False)
    h.assume(code == 0)
    h.true(len(asked) == 1, 'one correction')
    # the linear problem, about the axes through the centre of gravity
    c = [[q[0] - G[0], q[1] - G[1], q[2]] for q in P]
    s2 = State(h, c, s.Z, s.S, BOX, [h.const(0), h.const(0), G[2]], rho, g)
    s2.forces = [([q[0] - G[0], q[1] - G[1], q[2]], f) for q, f in s.forces]
    r = s2.residual()
    k = s2.rho * s2.g
    a = s2.G[2] * s2.V - s2.M1[2]
    K = [[k * s2.A, k * s2.A1[1], -k * s2.A1[0]], [k * s2.A1[1], k * (s2.A2[1, 1] - a), -k * s2.A2[0, 1]],
         [-k * s2.A1[0], -k * s2.A2[0, 1], k * (s2.A2[0, 0] - a)]]
    ax, ay, az = asked[0]
    h.eq(az, 0, 'no yaw is asked')
    lim = relax * h.pi / 180
    for x in (ax, ay):
        h.le(x, lim, 'an angle is not larger than the relaxation')
        h.le(-x, lim, 'an angle is not larger than the relaxation')
    return o, s2, R, kept, K, r, (ax, ay), lim, zr


def correction(h, rot, side=(1, 1)):
    o, s, R, kept, K, r, asked, lim, zr = turned(h, rot, side)
    # height of the hull: the centre of gravity follows
    gz = o.gravity_center[2]
    q = matvec(R, s.G)
    # R (0, 0, zg + dz)
    dz = gz / R[2][2] - s.G[2]
    h.le(dz, zr, 'a correction of height is not larger than the relaxation')
    h.le(-dz, zr, 'a correction of height is not larger than the relaxation')
    G1 = matvec(R, [0, 0, s.G[2] + dz])
    P1 = [matvec(R, [p[0], p[1], p[2] + dz]) for p in s.P]
    h.eq(list(o.gravity_center), [0, 0, G1[2]], 'the centre of gravity is put back on the vertical of the origin')
    h.eq(points(o.mesh), [[p[0] - G1[0], p[1] - G1[1], p[2]] for p in P1], 'the hull follows the rotation applied')
    for (F, mode), (p, f) in zip(kept, s.forces):
        w = matvec(R, [p[0], p[1], p[2] + dz])
        h.eq(list(F.point), [w[0] - G1[0], w[1] - G1[1], w[2]], 'the point of a force follows the hull')
        h.eq(list(F.value), matvec(R, f) if mode == 'relative' else f, 'direction of a force')
    x = [dz] + list(asked)
    # solution of the linear problem, each unknown limited
    det = dot(K[0], cross(K[1], K[2]))
    for i in range(3):
        C = [[r[a] if b == i else K[a][b] for b in range(3)] for a in range(3)]
        v, l = dot(C[0], cross(C[1], C[2])) / det, (zr, lim, lim)[i]
        what = ('height', 'heel', 'trim')[i] + ' asked: solution of the linear problem, limited by the relaxation'
        if v > l:
            h.eq(x[i], l, what)
        elif v < -l:
            h.eq(x[i], -l, what)
        else:
            h.eq(x[i], v, what)


I3 = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]


def forces(h, rot, mode):
    """a force follows the body: its point always, its direction when relative"""
    F, p, f, (pa, fa) = force(h, '', mode)
    h.eq(list(F.hs_force), [f[2]] + cross(p, f)[:2], 'vertical force and moments at the origin')
    R = [[frac(h, x) for x in r] for r in ROTS[rot]]
    dz, dx, dy = h.real('dz', -2, 2), h.real('dx', -2, 2), h.real('dy', -2, 2)
    Ra = h.arr(R, float)
    F.update(dz=dz, rot=Ra)
    p1 = matvec(R, [p[0], p[1], p[2] + dz])
    f1 = matvec(R, f) if mode == 'relative' else f
    h.eq(list(F.point), p1, 'the point follows')
    h.eq(list(F.value), f1, 'direction')
    F.update_xy(dx, dy)
    p2 = [p1[0] + dx, p1[1] + dy, p1[2]]
    h.eq(list(F.point), p2, 'the point follows')
    h.eq(list(F.value), f1, 'direction')
    h.eq(list(F.hs_force), [f1[2]] + cross(p2, f1)[:2], 'vertical force and moments at the origin, moved')
    h.eq(list(pa) + list(fa), p + f, 'the arrays given are not modified')


from .c21 import ROT as ROTS

INSTANCES = [Inst('position-%s%s' % (k, '-mass' if w else ''), position, hull_=k, low=lo, mass=w)
             for k, lo, w in (('box', False, False), ('box', False, True), ('wedge', False, False), ('ridge', True, True), ('twin', False, False),
                              ('trapezoid', True, False), ('tetra3', True, True), ('pyramid', True, False),
                              ('shelf', True, False), ('moonpool', True, True), ('barge', True, False), ('heeled', True, True))]
INSTANCES += [Inst('history-%s-%s' % (k, '-'.join(c)), history, hull_=k, changes=c, reset=True, low=k in ('trapezoid', 'barge') or 'G' in c)
              for k, c in (('box', ('rho', 'g', 'zg')), ('box', ('G', 'zg', 'g')), ('wedge', ('force', 'mass', 'G')), ('twin', ('g', 'mass', 'rho')),
                           ('trapezoid', ('zg', 'force', 'rho')), ('barge', ('mass', 'G', 'g')), ('box', ('mass', 'g', 'force')))]
INSTANCES += [Inst('mass-%s-%s' % (k, w), too_heavy, hull_=k, how=w) for k, w in (('box', 'constructor'), ('box', 'setter'), ('tetra3', 'constructor'), ('twin', 'setter'))]
INSTANCES += [Inst('balance-' + k, balanced, hull_=k, low=lo) for k, lo in (('box', False), ('wedge', False))]
INSTANCES += [Inst('displacement-box', displacement, hull_='box', n=5), Inst('displacement-box-forces', displacement, hull_='box', n=5, forces=2),
              Inst('displacement-slab', displacement, hull_='slab', n=3, direct=False, forces=2),
              Inst('displacement-wedge', displacement, hull_='wedge', n=2, direct=False, tier='thorough', time_s=3000)]
INSTANCES += [Inst('equilibrium-' + k, equilibrium, case=k) for k in ('centre', 'draught', 'unstable', 'crank', 'short', 'refused')]
INSTANCES += [Inst('correction-' + r, correction, rot=r) for r in ('yaw', 'heel')]
INSTANCES += [Inst('force-%s-%s' % (r, m), forces, rot=r, mode=m) for r in ('yaw', 'any') for m in ('relative', 'absolute')]


def report(h, vary):
    """the report shows each quantity on its line"""
    from .c31 import Text
    P = [[-2, -1, -1], [2, -1, -1], [2, 1, -1], [-2, 1, -1], [-2, -1, 1], [2, -1, 1], [2, 1, 1], [-2, 1, 1]]
    m = h.mod('mesh').Mesh(h.arr(P, float), h.arr(BOX, int))
    # the signs are chosen so that no residual changes its power of ten
    sgn = -1 if vary == 'negative' else 1
    def place(k):
        return [h.real(k + 'x', *sorted((sgn * 20, sgn * 28))), h.real(k + 'y', *sorted((sgn * 20, sgn * 28))),
                h.real(k + 'z', -90, 90) if vary == k else h.real(k + 'z', -80, -11)]
    G = place('g')
    rho, g = h.real('rho', 1001, 1100), h.real('grav', '9.1', '9.9')
    o = h.mod('hydrostatics_old').Hydrostatics(m, cog=h.arr([0, 0, 0], float), rho_water=1000, grav=10)
    o.mass = 8
    d = {}
    for k, (lo, hi) in SHOWN.items():
        d[k] = h.real(k, lo, hi)
    d['buoy_center'] = place('b')
    d['flotation_center'] = [h.real('f' + c, -90, 90) if vary == 'f' else h.real('f' + c, 11, 80) for c in 'xy']
    K = [[None] * 3 for i in range(3)]
    for i in range(3):
        for j in range(i, 3):
            e = 10 ** (4 + i + j)
            K[i][j] = K[j][i] = h.real('k%d%d' % (i, j), 2 * e, 8 * e)
    o.gravity_center = h.arr(G, float)
    o.rho_water = rho
    o.gravity = g
    data = dict(d, stiffness_matrix=h.arr(K, float), buoy_center=h.arr(d['buoy_center'], float),
                flotation_center=h.arr(d['flotation_center'] + [0], float))
    o.hs_data.update(data)
    t = Text(h, o.get_hydrostatic_report())
    for w, v, n in ((('gravity acceleration', '(m/s**2)'), g, 2), (('density of water', '(kg/m**3)'), rho, 1),
                    (('waterplane area', '(m**2)'), d['waterplane_area'], 1), (('waterplane center', '(m)'), d['flotation_center'], 3),
                    (('wet area', '(m**2)'), d['wet_surface_area'], 1), (('displacement volume', '(m**3)'), d['disp_volume'], 3),
                    (('displacement mass', '(tons)'), d['disp_mass'] / 1000, 3), (('buoyancy center', '(m)'), d['buoy_center'], 3),
                    (('center of gravity', '(m)'), G, 3), (('draught', '(m)'), d['draught'], 3),
                    (('length overall submerged', '(m)'), d['los'], 2), (('breadth overall submerged', '(m)'), d['bos'], 2),
                    (('length at waterline', '(m)'), d['lwl'], 2), (('forward perpendicular', '(m)'), d['fp'], 2),
                    (('transversal metacentric radius', '(m)'), d['transversal_metacentric_radius'], 3),
                    (('transversal metacentric height', '(m)'), d['gm_x'], 3),
                    (('longitudinal metacentric radius', '(m)'), d['longitudinal_metacentric_radius'], 3),
                    (('longitudinal metacentric height', '(m)'), d['gm_y'], 3)):
        t.shows(w, v, n)
    for i in range(3):
        for j in range(i, 3):
            t.shows(('k%d%d' % (i + 3, j + 3),), K[i][j], 4, exp=True)
    s = t.section('inertias')
    for k in ('Ixx', 'Ixy', 'Ixz', 'Iyy', 'Iyz', 'Izz'):
        t.shows((k,), d[k], 3, s, exp=True)
    s = t.section('residuals')
    B, W = rho * g * d['disp_volume'], 8000 * g
    r = [B - W, B * d['buoy_center'][1] - W * G[1], -B * d['buoy_center'][0] + W * G[0]]
    t.shows(('absolute',), r, 3, s, exp=True)
    t.shows(('relative',), [r[0] / W, r[1] / (W * d['breadth']), r[2] / (W * d['lwl'])], 3, s, exp=True)
    t.shows(('relative tolerance',), h.const('0.0001'), 1, s, exp=True)


SHOWN = dict(waterplane_area=(101, 900), wet_surface_area=(101, 900), disp_volume=(300, 310), disp_mass=(101000, 900000),
             draught=(1, 9), los=(101, 900), bos=(11, 90), lwl=(200, 300), fp=(11, 90), transversal_metacentric_radius=(1, 9),
             longitudinal_metacentric_radius=(101, 900), gm_x=(1, 9), gm_y=(101, 900), breadth=(300, 310), Ixx=(1000, 8000),
             Ixy=(100, 800), Ixz=(10, 80), Iyy=(20000, 80000), Iyz=(2, 8), Izz=(200000, 800000))
INSTANCES += [Inst('report ' + v, report, textual=True, vary=v) for v in ('negative', 'g', 'b', 'f')]
INSTANCES += [Inst('correction-any-%d%d' % d, correction, rot='any', side=d) for d in ((1, 1), (1, -1), (-1, 1), (-1, -1))]
