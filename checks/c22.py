import warnings
from fractions import Fraction

from symx.harness import Inst
from .common import *


def points(m):
    return [list(p) for p in m.vertices]

BOUNDS = ('solvers executed against a model of the hydrostatics that returns any positive volume, waterplane area, centre of buoyancy '
          'and stiffness at every position (up to four positions for the displacement, three for the full solver; 99 positions '
          'when every residual is the same), any target, gravity, density, centre of gravity and tolerance; and '
          'against the real hydrostatics of floating boxes')
OUTSIDE = ('floating-point rounding; more positions than stated when the residuals differ; whether the iteration converges on a '
           'given hull')
ASSUMPTIONS = ['the hydrostatic quantities the solvers receive are those of property C21']


class Done(Exception):
    pass


def rows(R):
    return [[R[i][j] for j in range(3)] for i in range(3)]


def unit_box(h):
    """a mesh with a known extent"""
    zl, H = h.real('zl', -3, -1), h.real('H', 2, 6)
    P = [(0, 0, zl), (1, 0, zl), (1, 1, zl), (0, 1, zl), (0, 0, zl + H), (1, 0, zl + H), (1, 1, zl + H), (0, 1, zl + H)]
    F = [[3, 2, 1, 0], [4, 5, 6, 7], [0, 1, 5, 4], [1, 2, 6, 5], [2, 3, 7, 6], [3, 0, 4, 7]]
    return h.mod('mesh').Mesh(h.arr([list(p) for p in P], float), h.arr(F, int)), zl, zl + H, P, F


class World(object):
    """stands for hydrostatics.compute_hydrostatics: any answer at each new position, the same one at the same position"""

    def __init__(self, h, limit, full=False, constant=False, outside=None, mode='all', mass=None):
        self.h, self.limit, self.full, self.constant, self.outside = h, limit, full, constant, outside
        self.mode, self.mass = mode, mass
        self.calls = []
        self.data = []

    def same(self, a, b):
        if self.h.symbolic:
            d = a - b
            return d.num is not None and not d.num.t if hasattr(d, 'num') else d == 0
        return a == b

    def __call__(self, mesh, cog, rho_water, grav, rotmat_corr=None, z_corr=0., at_cog=False, lpp=None, orig_at_ap=False):
        h = self.h
        R = rows(rotmat_corr) if rotmat_corr is not None else [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
        z = z_corr + h.const(0)
        self.calls.append((R, z, list(cog), rho_water, grav, mesh))
        for k, (R2, z2, d) in enumerate(self.data):
            if self.same(z, z2) and all(self.same(h.const(0) + R[i][j], R2[i][j] + h.const(0))
                                        for i in range(3) for j in range(3)):
                return self.answer(k, R, z, d, rho_water, grav, mesh)
        k = len(self.data)
        if k >= self.limit:
            h.assume(False)
        d = self.fresh('' if self.constant else str(k))
        self.data.append((R, z, d))
        return self.answer(k, R, z, d, rho_water, grav, mesh)

    def fresh(self, k):
        h = self.h
        if self.constant and self.data:
            return self.data[0][2]
        d = dict(V=h.real('V' + k, '0.01', 100), A=h.real('A' + k, '0.01', 100))
        if self.full:
            d['b'] = [h.real('b%s%s' % (c, k), -10, 10) if self.mode in ('all', 'coupled') or c in AXES[self.mode]
                      else h.const(0) for c in 'xyz']
            if self.mass is not None:
                d['V'] = self.mass
            d['B'] = h.real('B' + k, '0.5', 20)
            d['L'] = h.real('L' + k, '0.5', 20)
            if self.mode == 'coupled':
                d['K'], d['C'] = [h.const(x) for x in (3, 5, 7)], [h.const(x) for x in (1, '-0.5', '0.25')]
            else:
                d['K'], d['C'] = [h.real('K%d%s' % (i, k), '0.5', 50) for i in range(3)], [h.const(0)] * 3
        return d

    def answer(self, k, R, z, d, rho, grav, mesh):
        h = self.h
        if self.outside and self.outside(k):
            raise RuntimeError('Mesh does not crosses the clipping plane', self.outside(k))
        r = dict(disp_volume=d['V'], disp_mass=rho * d['V'], waterplane_area=d['A'], rho_water=rho, grav=grav, z_eq=z,
                 mesh=mesh, rotmat_eq=R)
        if self.full:
            K, C = d['K'], d['C']
            r.update(buoyancy_center=h.arr(d['b'], float), breadth=d['B'], breadth_at_waterline=d['B'],
                     length_at_waterline=d['L'],
                     stiffness_matrix=h.arr([[K[0], C[0], C[1]], [C[0], K[1], C[2]], [C[1], C[2], K[2]]], float))
        return r

    def at(self, R, z):
        for R2, z2, d in self.data:
            if self.same(z + self.h.const(0), z2) and all(
                    self.same(self.h.const(0) + R[i][j], R2[i][j] + self.h.const(0)) for i in range(3) for j in range(3)):
                return d
        return None


AXES = dict(heave='', heel='yz', trim='xz')
I3 = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]


def announced(h, ws):
    return 'no convergence' in h.console().lower() or any('convergence' in str(w.message).lower() for w in ws)


def absle(h, x, b):
    return h.band(x <= b, -x <= b)


def steps(h, W, size, solver):
    for (R0, z0, *_), (R1, z1, *_) in zip(W.calls, W.calls[1:]):
        h.true(absle(h, z1 - z0, size / 5 + h.const('1e-9')), solver + ': a correction is larger than a fifth of the height')


def displacement(h, n, constant=False, start=None):
    m, zmin, zmax, P, F = unit_box(h)
    rho, g = h.real('rho', '0.5', 2), h.real('g', '1', '10')
    target = h.real('target', '0.001', '0.5')
    tol = h.real('reltol', '1e-7', '1e-2')
    W = World(h, n, constant=constant)
    if constant:
        W.data = []
        V, A = h.real('V', '0.01', 1000), h.real('A', 1, 100)
        h.assume(rho * V > target * 1000 * (1 + tol)) if constant == 'heavy' else \
            h.assume(rho * V < target * 1000 * (1 - tol))
        W.fresh = lambda k: dict(V=V, A=A)
        # never the same position
        W.same = lambda a, b: False
        W.limit = 200
    hs = h.mod('hydrostatics')
    h.stub(hs, 'compute_hydrostatics', W)
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter('always')
        z = hs.displacement_equilibrium(m, target, rho, g, reltol=tol)
    told = announced(h, ws)
    if constant:
        h.true(told, 'no equilibrium was reached and nothing says so')
        return
    h.eq(points(m), [list(p) for p in P], 'the mesh given is not modified')
    for c in W.calls:
        h.eq([c[3], c[4]], [rho, g], 'density and gravity reach the hydrostatics')
        h.eq(c[0], I3, 'no rotation')
        h.eq(points(c[5]), [list(p) for p in P], 'the hull is the mesh given')
    steps(h, W, zmax - zmin, 'displacement')
    if told:
        return
    h.true(not ws, 'a warning although an equilibrium was found')
    d = W.at(I3, z)
    if d is None:
        h.fail('the position returned was never evaluated')
        return
    h.true(absle(h, rho * d['V'] - target * 1000, tol * target * 1000 * h.const('1.000001')), 'displacement at the position returned')


def unreachable(h, first, deep):
    """the hull is under water at the given evaluation; deep: the target is more than what the whole hull displaces"""
    m, zmin, zmax, P, F = unit_box(h)
    rho, g = h.real('rho', '0.5', 2), h.real('g', '1', '10')
    target = h.real('target', '0.001', '0.5')
    W = World(h, first + 3, outside=lambda k: 'below' if k == first else None)
    hs = h.mod('hydrostatics')
    h.stub(hs, 'compute_hydrostatics', W)
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter('always')
        z = hs.displacement_equilibrium(m, target, rho, g)
    h.assume(len(W.data) > first)
    told = announced(h, ws)
    if told:
        return
    d = W.at(I3, z)
    if d is None:
        h.fail('the position returned was never evaluated')
        return
    mass = rho * d['V']
    if ws:
        # limited: the hull is (nearly) entirely under water there and does not displace enough
        h.true(mass <= target * 1000, 'a displacement that can be reached is announced as impossible')
        h.true(absle(h, z + zmax, (zmax - zmin) / 100), 'limited displacement: the hull is not just under water')
        h.true(z + zmax > 0, 'limited displacement: the hull is under water')
    else:
        h.true(absle(h, mass - target * 1000, h.const('1.000001e-6') * target * 1000), 'displacement at the position returned')


def above(h):
    m, zmin, zmax, P, F = unit_box(h)
    W = World(h, 3, outside=lambda k: 'above')
    hs = h.mod('hydrostatics')
    h.stub(hs, 'compute_hydrostatics', W)
    try:
        hs.displacement_equilibrium(m, h.real('target', '0.001', '0.5'), h.real('rho', '0.5', 2), h.real('g', '1', '10'))
    except RuntimeError:
        h.true(True, 'refused')
        return
    h.fail('a hull above the water is not refused')


def full(h, n, mode='all'):
    m, zmin, zmax, P, F = unit_box(h)
    rho, g = h.real('rho', '0.5', 2), h.real('g', '1', '10')
    target = h.real('target', '0.001', '0.5')
    tol = h.real('reltol', '1e-7', '1e-2')
    cog = [h.real('g' + c, -5, 5) if mode in ('all', 'coupled') or c in AXES[mode] else h.const(0) for c in 'xyz']
    W = World(h, n, full=True, mode=mode, mass=target * 1000 / rho if mode in ('heel', 'trim') else None)
    hs = h.mod('hydrostatics')
    h.stub(hs, 'compute_hydrostatics', W)
    G = h.arr(cog, float)
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter('always')
        z, R = hs.full_equilibrium(m, G, target, rho, g, reltol=tol)
    told = announced(h, ws)
    h.eq(points(m), [list(p) for p in P], 'the mesh given is not modified')
    h.eq(list(G), cog, 'the centre of gravity given is not modified')
    for c in W.calls:
        h.eq([c[3], c[4]], [rho, g], 'density and gravity reach the hydrostatics')
        h.eq(points(c[5]), [list(p) for p in P], 'the hull is the mesh given')
    steps(h, W, zmax - zmin, 'full')
    for c in W.calls:
        turned(h, c[0])
    if told:
        return
    d = W.at(rows(R), z)
    if d is None:
        h.fail('the position returned was never evaluated')
        return
    mg, bu = target * 1000 * g, rho * g * d['V']
    wb, wg = matvec(rows(R), d['b']), matvec(rows(R), cog)
    t = tol * h.const('1.000001')
    h.true(absle(h, bu - mg, t * mg), 'displacement at the position returned')
    h.true(absle(h, bu * wb[1] - mg * wg[1], t * mg * d['B']), 'moment about x at the position returned')
    h.true(absle(h, bu * wb[0] - mg * wg[0], t * mg * d['L']), 'moment about y at the position returned')


def turned(h, R):
    """R is a rotation"""
    for i in range(3):
        for j in range(i, 3):
            h.eq(sum(R[i][k] * R[j][k] for k in range(3)) + h.const(0), 1 if i == j else 0, 'the correction is a rotation')


def floating_box(h, at, solver):
    """the real hydrostatics of a box of any dimensions: the position returned has the displacement asked for"""
    L, B = h.const(3), h.const(2)
    T, D = (h.const(1), h.const(1)) if at == 'mid' else (h.const('1.5'), h.const('0.5')) if at == 'deep' else \
        (h.const('0.4'), h.const('1.2'))
    x0, y0 = h.real('x0', -1, 1), h.real('y0', -1, 1)
    P = [[x0 + x * L, y0 + y * B, D if z else -T] for x, y, z in
         ((0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1))]
    F = [[3, 2, 1, 0], [4, 5, 6, 7], [0, 1, 5, 4], [1, 2, 6, 5], [2, 3, 7, 6], [3, 0, 4, 7]]
    rho, g = h.real('rho', 900, 1100), h.real('g', '9.7', '9.9')
    # draught of the equilibrium
    t = h.real('t', '0.1', '1.5')
    target = rho * L * B * t / 1000
    m = h.mod('mesh').Mesh(h.arr(P, float), h.arr(F, int))
    hs = h.mod('hydrostatics')
    if solver == 'displacement':
        z = hs.displacement_equilibrium(m, target, rho, g)
    else:
        G = h.arr([x0 + L / 2, y0 + B / 2, h.real('zg', -1, 0)], float)
        z, R = hs.full_equilibrium(m, G, target, rho, g)
        h.eq(rows(R), I3, 'an upright box stays upright')
    told = 'no convergence' in h.console().lower()
    h.true(not told, 'no convergence for a box')
    h.near(T - z, t, Fraction(3, 10 ** 6), 'draught of a box')


INSTANCES = [
    Inst('displacement / 2 positions', displacement, n=2, bound='any volume and area at 2 positions'),
    Inst('displacement / 3 positions', displacement, n=3, bound='any volume and area at 3 positions'),
    Inst('displacement / 4 positions', displacement, n=4, bound='any volume and area at 4 positions'),
    Inst('displacement / never reached, too heavy', displacement, n=4, constant='heavy', bound='99 positions, same residual'),
    Inst('displacement / never reached, too light', displacement, n=4, constant='light', bound='99 positions, same residual'),
    Inst('displacement / under water at once', unreachable, first=0, deep=True, bound='up to 3 positions'),
    Inst('displacement / under water after one step', unreachable, first=1, deep=True, bound='up to 4 positions'),
    Inst('displacement / above the water', above, bound='1 position'),
    Inst('full / 1 position', full, n=1, bound='any hydrostatics at 1 position'),
    Inst('full / 2 positions, heave', full, n=2, mode='heave', bound='any volume and stiffness, 2 positions'),
    Inst('full / 3 positions, heave', full, n=3, mode='heave', bound='any volume and stiffness, 3 positions'),
    Inst('full / 2 positions, heel', full, n=2, mode='heel', bound='any centres and stiffness in a transverse plane, 2 positions'),
    Inst('full / 3 positions, heel', full, n=3, mode='heel', tier='thorough', time_s=2000,
         bound='any centres and stiffness in a transverse plane, 3 positions'),
    Inst('full / 2 positions, trim', full, n=2, mode='trim', bound='any centres and stiffness in the middle plane, 2 positions'),
    Inst('full / 3 positions, trim', full, n=3, mode='trim', tier='thorough', time_s=2000,
         bound='any centres and stiffness in the middle plane, 3 positions'),
    Inst('full / 2 positions', full, n=2, tier='thorough', time_s=4000, max_paths=20000,
         bound='any hydrostatics, diagonal stiffness, 2 positions'),
    Inst('full / 2 positions, coupled', full, n=2, mode='coupled', tier='thorough', time_s=4000, max_paths=20000,
         bound='any volume and centres, a full stiffness matrix, 2 positions'),
    Inst('box / displacement, mid', floating_box, at='mid', solver='displacement', bound='any draught, place, density'),
    Inst('box / displacement, deep', floating_box, at='deep', solver='displacement', bound='any draught, place, density'),
    Inst('box / displacement, shallow', floating_box, at='shallow', solver='displacement', bound='any draught, place, density'),
    Inst('box / full, mid', floating_box, at='mid', solver='full', bound='any draught, place, density'),
]
