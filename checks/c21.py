from symx.harness import Inst
from .clipping import *

BOUNDS = ('boxes (one with a moonpool), wedges, tetrahedra, pairs of boxes and boxes divided in up to 42 panels afloat with symbolic positions, dimensions or vertex heights, symbolic '
          'gravity, density and centre of gravity, symbolic vertical correction with four rotation corrections, quantities '
          'at the origin or at the centre')
OUTSIDE = ('floating-point rounding; other hull shapes; coefficients of the stiffness matrix are compared within the 1e-4 below '
           'which the code sets them to zero; the wetted surface is checked on hulls whose faces are cut in rectangles or '
           'triangles')

ROT = {'none': [[1, 0, 0], [0, 1, 0], [0, 0, 1]],
       'yaw': [['3/5', '-4/5', 0], ['4/5', '3/5', 0], [0, 0, 1]],
       'heel': [[1, 0, 0], [0, '4/5', '-3/5'], [0, '3/5', '4/5']],
       'any': [['3/7', '-6/7', '2/7'], ['6/7', '2/7', '-3/7'], ['2/7', '3/7', '6/7']]}


def box_hull(h, names='', at=None, part=None):
    x0, y0 = (h.real('x0' + names, 1, 3), h.real('y0' + names, 1, 3)) if at is None else at
    if part != 'heights':
        L, B = h.real('L' + names, 4, 6), h.real('B' + names, 2, 3)
    else:
        L, B = h.const('3'), h.const('1.5')
    T, D = h.real('T' + names, '0.5', '1'), h.real('D' + names, '0.5', '1')
    xy = [(x0, y0), (x0 + L, y0), (x0 + L, y0 + B), (x0, y0 + B)] * 2
    return xy, [-T] * 4 + [D] * 4, [-1] * 4 + [1] * 4, BOX


def wedge_hull(h, up=False):
    """triangular section, keel below (or above)"""
    x0, y0 = h.real('x0', -1, 1), h.real('y0', '-0.2', '0.2')
    L, b = h.real('L', 4, 6), h.real('b', 2, 3)
    T, D = h.real('T', '0.5', '1'), h.real('D', '0.5', '1')
    s = [(y0, -T), (y0 + b, D), (y0 - b, D)]
    if up:
        s = [(y0, D), (y0 - b, -T), (y0 + b, -T)]
    xy = [(x0, s[i][0]) for i in range(3)] + [(x0 + L, s[i][0]) for i in range(3)]
    Z = [s[i][1] for i in range(3)] * 2
    S = [1 if up else -1] + [-1 if up else 1] * 2
    return xy, Z, S * 2, PRISM


def twin_hull(h):
    a = box_hull(h, '1', (h.const(-1), h.const(-4)), 'heights')
    b = box_hull(h, '2', (h.const(-2), h.const(3)), 'heights')
    return a[0] + b[0], a[1] + b[1], a[2] + b[2], BOX + [[i + 8 for i in f] for f in BOX]


BASE = {
    'trapezoid': ([(-2, -1, -1), (2, -1, -1), (2, 2, -1), (-2, 2, -1), (-3, -2, 1), (4, -2, 1), (4, 4, 1), (-3, 4, 1)], BOX),
    'tetra1': ([(0, 0, 1), (7, 1, 2), (2, 6, 1), (3, 2, -1)], TETRA[1]),
    'tetra2': ([(0, 0, -1), (7, 1, 1), (2, 6, -3), (3, 2, 1)], [f[::-1] for f in TETRA[1]]),
    'tetra3': ([(0, 0, -1), (7, 1, -2), (2, 6, -1), (3, 2, 1)], TETRA[1]),
    'pyramid': ([(0, 0, -1), (4, 0, -1), (4, 4, 1), (0, 4, 1), (1, 2, 3)], PYRAMID),
    'moonpool': ([(x, y, -6 - x) for x, y in RING_PLAN] + [(x, y, 4) for x, y in RING_PLAN], RING),
    'shelf': ([(0, 0, -2), (5, 0, -2), (5, 3, -1), (0, 3, -1), (0, 0, 0), (5, 0, 0), (5, 3, 0), (0, 3, 0)], BOX)}


def affine_hull(h, shape):
    """body of fixed shape, stretched by any factor along each axis and placed anywhere in plan"""
    pts, F = BASE[shape]
    x0, y0 = h.real('x0', 5, 6), h.real('y0', 5, 6)
    sx, sy, sz = h.real('sx', '0.5', '1.5'), h.real('sy', '0.5', '1.5'), h.real('sz', '0.5', '1.5')
    xy = [(x0 + sx * x, y0 + sy * y) for x, y, z in pts]
    return xy, [sz * z for x, y, z in pts], [(z > 0) - (z < 0) for x, y, z in pts], F


def panel_hull(h, how):
    """a box divided in many panels, of any size, at any draught within a row of panels, with fixed slopes"""
    n, tri, seed, o, slope = how
    pts, F = panels(*n, tri=tri, seed=seed)
    x0, y0 = h.real('x0', -1, 1), h.real('y0', -1, 1)
    sx, sy = h.real('sx', 1, 2), h.real('sy', 1, 2)
    T = h.real('T', *o)
    k = [frac(h, x) for x in slope]
    xy, Z, S = [], [], []
    for a, b, c in pts:
        xy.append((x0 + sx * a, y0 + sy * b))
        Z.append(T + k[0] * a + k[1] * b + k[2] * c)
        S.append(sign(h, Z[-1], '0.01'))
        h.assume(S[-1] is not None)
    return xy, Z, S, F


AFLOAT = dict(barge=((3, 2, 3), '', 1, ('-1.9', '-1.1'), ('0', '0', '1')), heeled=((2, 2, 2), 'some', 2, ('-1.6', '-1.4'), ('0.1', '0.23', '1')),
              launched=((4, 1, 1), 'all', 3, ('-1.3', '-1.2'), ('0.3', '0', '1')), deep=((2, 2, 4), 'some', 4, ('-2', '-2'), ('0', '0', '1')))
HULLS = dict(box=box_hull, wedge=wedge_hull, ridge=lambda h: wedge_hull(h, True), twin=twin_hull)
for _k in BASE:
    HULLS[_k] = lambda h, _k=_k: affine_hull(h, _k)


def immersed(h, exp):
    """volume, first, second moments of the part below z = 0; area and moments of the waterplane; wetted area"""
    O = [h.const(0)] * 3
    V, M1, M2, W = 0, [0] * 3, {}, 0
    for cyc in exp.cycles:
        for i in range(1, len(cyc) - 1):
            t = [O] + [exp.points[k] for k in (cyc[0], cyc[i], cyc[i + 1])]
            v = dot(t[1], cross(t[2], t[3])) / 6
            V = V + v
            for a in range(3):
                M1[a] = M1[a] + v * simplex_moment(t, (a,))
                for b in range(a, 3):
                    M2[a, b] = M2.get((a, b), 0) + v * simplex_moment(t, (a, b))
    A, A1, A2 = 0, [0, 0], {}
    edges = []
    for (b, a), k in exp.boundary().items():
        assert k == 1
        p, q = exp.points[a], exp.points[b]
        edges.append((p, q))
        s = (p[0] * q[1] - p[1] * q[0]) / 2
        A = A + s
        for i in range(2):
            A1[i] = A1[i] + s * simplex_moment([O, p, q], (i,))
            for j in range(i, 2):
                A2[i, j] = A2.get((i, j), 0) + s * simplex_moment([O, p, q], (i, j))
    return V, M1, M2, A, A1, A2, edges


def hydro(h, hull, rot, at_cog, extra=None, wet=False, low=False, parts=('volume', 'plane', 'stiffness', 'extent', 'inertia')):
    xy, Z, S, F = HULLS[hull](h)
    R = [[frac(h, x) for x in r] for r in ROT[rot]]
    zc = h.real('zcorr', -2, 2)
    Pw = [[x, y, z] for (x, y), z in zip(xy, Z)]
    RT = [[R[j][i] for j in range(3)] for i in range(3)]
    P = [matvec(RT, [p[0], p[1], p[2] - zc]) for p in Pw]
    cog = [h.real('g' + c, -2, 2) for c in 'xy'] + [h.real('gz', -2, 2) if not low else h.real('gz', '-30', '-29')]
    rho, g = h.real('rho', '1', '3'), h.real('g', '1', '3')
    exp = Expected(h, Pw, Z, S, F)
    V, M1, M2, A, A1, A2, edges = immersed(h, exp)
    np = h.np
    hs = h.mod('hydrostatics')
    m = h.mod('mesh').Mesh(h.arr(P, float), h.arr(F, int))
    kw = dict(at_cog=at_cog)
    if extra == 'lpp':
        lpp = h.real('lpp', 1, 9)
        kw['lpp'] = lpp
    if extra == 'ap':
        kw['orig_at_ap'] = True
    Rn = h.arr(R, float)
    G = h.arr(cog, float)
    d = hs.compute_hydrostatics(m, G, rho, g, rotmat_corr=Rn, z_corr=zc, **kw)

    h.eq(points(m), P, 'the mesh given is not modified')
    same_ints(h, m.faces, F, 'the mesh given is not modified')
    h.eq(list(G), cog, 'the centre of gravity given is not modified')
    h.eq(d['rho_water'], rho, 'density')
    h.eq(d['grav'], g, 'gravity')
    h.eq(d['z_eq'], zc, 'correction')
    h.eq([list(r) for r in d['rotmat_eq']], R, 'correction')
    h.eq(list(d['cog']), cog, 'centre of gravity')
    h.eq(points(d['mesh']), P, 'the mesh stored is the mesh given')

    wG = matvec(R, cog)
    wG[2] = wG[2] + zc
    B = [x / V for x in M1]
    if 'volume' in parts:
        h.eq(d['disp_volume'], V, 'displaced volume')
        h.eq(d['disp_mass'], rho * V, 'displaced mass')
        wb = matvec(RT, [B[0], B[1], B[2] - zc])
        h.eq(list(d['buoyancy_center']), wb, 'centre of buoyancy in the frame of the mesh given')
    if 'plane' in parts:
        h.eq(d['waterplane_area'], A, 'waterplane area')
        wf = matvec(RT, [A1[0] / A, A1[1] / A, -zc])
        h.eq(list(d['waterplane_center']), wf, 'waterplane centre in the frame of the mesh given')
    rx, ry = (B[0], B[1]) if at_cog else (h.const(0), h.const(0))
    Sx, Sy = A1[0] - A * rx, A1[1] - A * ry
    Sxx = A2[0, 0] - 2 * rx * A1[0] + rx * rx * A
    Syy = A2[1, 1] - 2 * ry * A1[1] + ry * ry * A
    Sxy = A2[0, 1] - rx * A1[1] - ry * A1[0] + rx * ry * A
    if 'stiffness' in parts:
        BG = wG[2] - B[2]
        h.eq(d['transversal_metacentric_radius'] * V, Syy, 'transversal metacentric radius')
        h.eq(d['longitudinal_metacentric_radius'] * V, Sxx, 'longitudinal metacentric radius')
        h.eq(d['transversal_metacentric_height'] * V, Syy - BG * V, 'transversal metacentric height')
        h.eq(d['longitudinal_metacentric_height'] * V, Sxx - BG * V, 'longitudinal metacentric height')
        k = rho * g
        K = [[k * A, k * Sy, -k * Sx], [k * Sy, k * (Syy - BG * V), -k * Sxy], [-k * Sx, -k * Sxy, k * (Sxx - BG * V)]]
        for i in range(3):
            for j in range(3):
                h.near(d['stiffness_matrix'][i, j], K[i][j], '0.0001', 'stiffness %d%d' % (i + 3, j + 3))
    if 'extent' in parts:
        X = [p[0] for e in edges for p in e]
        Y = [p[1] for e in edges for p in e]
        used = sorted(set(i for c in exp.cycles for i in c))
        I = [exp.points[i] for i in used]
        h.eq(d['length_at_waterline'], h.max(X) - h.min(X), 'length at waterline')
        h.eq(d['breadth_at_waterline'], h.max(Y) - h.min(Y), 'breadth at waterline')
        h.eq(d['breadth'], h.max(Y) - h.min(Y), 'breadth')
        for n, a in (('length', 0), ('breadth', 1)):
            h.eq(d[n + '_overall_submerged'], h.max([p[a] for p in I]) - h.min([p[a] for p in I]), n + ' overall submerged')
        h.eq(d['draught'], -h.min([p[2] for p in I]), 'draught')
        h.eq(d['forward_perpendicular'], h.max(X), 'forward perpendicular')
        if extra == 'lpp':
            h.eq(d['length_between_perpendiculars'], lpp, 'length between perpendiculars given')
            h.true(bool(d['trust_lpp']), 'a given length is trusted')
        elif extra == 'ap':
            h.eq(d['length_between_perpendiculars'], h.max(X), 'length between perpendiculars from the origin')
            h.true(bool(d['trust_lpp']), 'a length from the origin is trusted')
        else:
            h.eq(d['length_between_perpendiculars'], h.max(X) - h.min(X), 'length between perpendiculars by default')
            h.true(not d['trust_lpp'], 'the length at waterline is not trusted as length between perpendiculars')
    if 'inertia' in parts:
        # about the centre of gravity, homogeneous immersed volume
        def mom(a, b):
            if a > b:
                a, b = b, a
            return M2[a, b] - wG[a] * M1[b] - wG[b] * M1[a] + wG[a] * wG[b] * V
        for n, i, j in (('Ixx', 1, 2), ('Iyy', 0, 2), ('Izz', 0, 1)):
            h.eq(d[n], rho * (mom(i, i) + mom(j, j)), n)
        for n, i, j in (('Ixy', 0, 1), ('Ixz', 0, 2), ('Iyz', 1, 2)):
            h.eq(d[n], rho * mom(i, j), n)
    if wet:
        # faces cut: unit normals do not depend on the draught; area of the polygon along its normal
        W = 0
        for cyc in exp.cycles:
            if len(cyc) < 3:
                continue
            n = [h.const(0)] * 3
            for i in range(1, len(cyc) - 1):
                a, b, c = (exp.points[k] for k in (cyc[0], cyc[i], cyc[i + 1]))
                n = add(n, cross(sub(b, a), sub(c, a)))
            W = W + h.sqrt(dot(n, n)) / 2
        h.eq(d['wet_surface_area'], W, 'wetted surface')


for _k in AFLOAT:
    HULLS[_k] = lambda h, _k=_k: panel_hull(h, AFLOAT[_k])
LOW = tuple(BASE) + ('box',)
INSTANCES = [Inst('%s-%s-%s%s' % (k, r, 'cog' if c else 'origin', '-' + e if e else ''), hydro, hull=k, rot=r, at_cog=c, extra=e,
                  wet=w, low=k in LOW)
             for k, r, c, e, w in (('box', 'none', False, None, True), ('box', 'none', True, 'lpp', False),
                                   ('box', 'yaw', False, 'ap', False), ('wedge', 'none', False, None, False),
                                   ('wedge', 'heel', True, None, False), ('ridge', 'any', True, 'ap', False),
                                   ('twin', 'none', False, None, True), ('twin', 'any', True, None, False),
                                   ('trapezoid', 'none', True, None, False), ('trapezoid', 'any', False, None, False),
                                   ('tetra1', 'none', False, None, False), ('tetra2', 'none', False, None, False),
                                   ('tetra3', 'any', False, None, False), ('pyramid', 'none', True, 'ap', False),
                                   ('shelf', 'heel', False, None, False),
                                   ('moonpool', 'none', False, None, False), ('moonpool', 'any', True, None, False))]
INSTANCES += [Inst('%s-%s-%s' % (k, r, 'cog' if c else 'origin'), hydro, hull=k, rot=r, at_cog=c, low=True)
              for k, r, c in (('barge', 'none', False), ('barge', 'any', True), ('heeled', 'none', True), ('launched', 'yaw', False),
                              ('deep', 'none', False))]
