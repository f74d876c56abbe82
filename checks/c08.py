from symx.harness import Inst
from .common import *

BOUNDS = ('tetrahedra with any vertices, any parallelepipeds (all quadrangles, or mixing triangles), triangular prisms '
          'and pyramids on planar convex quadrangles of fixed affine shape (thorough: also any shape for volume and cog); any density and the default one; boxes divided in 32 to 66 panels, of any size and place; enclosed volume of the first tetrahedron >= 0.01')
OUTSIDE = 'floating-point rounding; other meshes with more than eight vertices; open or inconsistently oriented meshes'


def inertia(h, kind, what):
    P, F, T = solid(h, kind)
    tets = [[P[i] for i in t] for t in T]
    vol, first, second = solid_moments(tets)
    m = mesh(h, P, F)
    if what == 'volume':
        h.eq(m.volume, vol, 'volume')
        h.eq(mesh(h, P, F, reverse=True).volume, -vol, 'volume of the reversed mesh')
        return
    if what == 'default':
        rho = h.const(1023)
        I = m.eval_plain_mesh_inertias()
    else:
        rho = h.real('rho', 0.1, 20)
        I = m.eval_plain_mesh_inertias(rho_medium=rho)
    h.eq(I.mass, rho * vol, 'mass')
    h.eq(I.reduction_point, [h.const(0)] * 3, 'reduction point')
    if what == 'cog':
        for k in range(3):
            h.eq(I.gravity_center[k] * vol, first[k], 'gravity centre %s' % 'xyz'[k])
        return
    s = second
    h.eq(I.xx, rho * (s[1, 1] + s[2, 2]), 'Ixx', tol=1e-5)
    h.eq(I.yy, rho * (s[0, 0] + s[2, 2]), 'Iyy', tol=1e-5)
    h.eq(I.zz, rho * (s[0, 0] + s[1, 1]), 'Izz', tol=1e-5)
    h.eq(I.yz, rho * s[1, 2], 'Iyz', tol=1e-5)
    h.eq(I.xz, rho * s[0, 2], 'Ixz', tol=1e-5)
    h.eq(I.xy, rho * s[0, 1], 'Ixy', tol=1e-5)
    M = I.inertia_matrix
    h.eq(M, [[I.xx, -I.xy, -I.xz], [-I.xy, I.yy, -I.yz], [-I.xz, -I.yz, I.zz]], 'inertia matrix', tol=1e-5)


def panelled(h, n, tri, seed, size=('0.5', '2')):
    """a divided box of any size, anywhere"""
    P, F, o, d, pts = panel_box(h, n, tri, seed, *size)
    L = [d[k] * n[k] for k in range(3)]
    c = [o[k] + L[k] / 2 for k in range(3)]
    vol = L[0] * L[1] * L[2]
    rho = h.real('rho', 0.1, 20)
    m = mesh(h, P, F)
    h.eq(m.volume, vol, 'volume')
    I = m.eval_plain_mesh_inertias(rho_medium=rho)
    h.eq(I.mass, rho * vol, 'mass')
    h.eq(list(I.gravity_center), c, 'gravity centre')
    s = [c[k] * c[k] + L[k] * L[k] / 12 for k in range(3)]
    M = rho * vol
    h.eq([I.xx, I.yy, I.zz], [M * (s[1] + s[2]), M * (s[0] + s[2]), M * (s[0] + s[1])], 'moments', tol=1e-5)
    h.eq([I.yz, I.xz, I.xy], [M * c[1] * c[2], M * c[0] * c[2], M * c[0] * c[1]], 'products', tol=1e-5)


INSTANCES = [Inst('%s-%s' % (k, w), inertia, kind=k, what=w, bound=k, tier='thorough' if k == 'pyramid2' else 'quick')
             for k in ('tetra', 'box', 'boxtri', 'prism', 'pyramid', 'pyramid2') for w in ('volume', 'cog', 'moments')]
INSTANCES += [Inst('tetra-default', inertia, kind='tetra', what='default', bound='tetra, default density of 1023')]
INSTANCES += [Inst('pyramidab-' + w, inertia, kind='pyramidab', what=w, bound='pyramid, any quadrangle shape',
                   tier='thorough', time_s=1800) for w in ('volume', 'cog')]
INSTANCES += [Inst('panels-%d%d%d%s' % (n + (t,)), panelled, n=n, tri=t, seed=s) for n, t, s in
              (((2, 2, 3), '', 1), ((4, 3, 2), 'some', 2), ((2, 1, 3), 'all', 3))]
INSTANCES += [Inst('panels-' + k, panelled, n=(2, 3, 2), tri='some', seed=4, size=z)
              for k, z in (('tiny', ('1e-7', '1e-4')), ('huge', ('1e3', '1e6')))]
