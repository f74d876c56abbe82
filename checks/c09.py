from symx.harness import Inst
from .common import *
from .c06 import exact_tri

BOUNDS = ('meshes of one to three faces (triangles and planar convex quadrangles) and whole tetrahedra, boxes divided in 32 to 66 panels, every real '
          'coordinate, any density and thickness, and the default ones')
OUTSIDE = 'floating-point rounding; non planar quadrangles; nearly degenerate faces (twice the area below 0.1)'


def shell(h, kinds, default=False):
    pts, fs, A, E = [], [], 0, [0] * len(FORMS15)
    if kinds == 'tetra':
        pts, fs, _ = tetra(h)
        tris = [[pts[i] for i in f[:3]] for f in fs]
        parts = [(exact_tri(h, p)[0], [p], [1]) for p in tris]
    else:
        parts = []
        for i, k in enumerate(kinds):
            o = len(pts)
            if k == 'T':
                p = [point(h, 'p%d%d' % (i, j)) for j in range(3)]
                parts.append((exact_tri(h, p)[0], [p], [1]))
                fs.append([o, o + 1, o + 2, o])
            else:
                p, (u, w, a, b) = quad(h, 'q%d' % i)
                n = cross(u, w)
                nondegenerate(h, n)
                l = h.sqrt(dot(n, n))
                parts.append((l / 2, [[p[0], p[1], p[3]], [p[1], p[2], p[3]]], [1, a + b - 1]))
                fs.append([o, o + 1, o + 2, o + 3])
            pts += p
    for a, tris, ws in parts:
        for t, w in zip(tris, ws):
            A = A + a * w
            for k in range(9):
                E[k] = E[k] + a * w * simplex_moment(t, FORMS15[k])
    m = h.mod('mesh').Mesh(h.arr(pts, float), h.arr(fs, int))
    if default:
        rho, th = h.const(7850), h.const('0.02')
        I = m.eval_shell_mesh_inertias()
    else:
        rho, th = h.real('rho', 0.1, 20), h.real('thickness', 0.01, 2)
        I = m.eval_shell_mesh_inertias(rho_medium=rho, thickness=th)
    s = rho * th
    h.eq(I.mass, s * A, 'mass')
    for k in range(3):
        h.eq(I.gravity_center[k] * A, E[k], 'gravity centre ' + 'xyz'[k])
    h.eq(I.reduction_point, [h.const(0)] * 3, 'reduction point')
    h.eq(I.xx, s * (E[7] + E[8]), 'Ixx')
    h.eq(I.yy, s * (E[6] + E[8]), 'Iyy')
    h.eq(I.zz, s * (E[6] + E[7]), 'Izz')
    h.eq(I.yz, s * E[3], 'Iyz')
    h.eq(I.xz, s * E[4], 'Ixz')
    h.eq(I.xy, s * E[5], 'Ixy')


def panelled(h, n, tri, seed, size=('0.5', '2')):
    """a divided box of any size, anywhere: six rectangles"""
    P, F, o, d, pts = panel_box(h, n, tri, seed, *size)
    L = [d[k] * n[k] for k in range(3)]
    A, M1, M2 = 0, [0] * 3, {}
    for a in range(3):
        b, c = (a + 1) % 3, (a + 2) % 3
        for side in (0, 1):
            q = [[o[k] + L[k] * (side if k == a else u if k == b else v) for k in range(3)]
                 for u, v in ((0, 0), (1, 0), (1, 1), (0, 1))]
            for t in (q[:3], [q[0], q[2], q[3]]):
                s = L[b] * L[c] / 2
                A = A + s
                for i in range(3):
                    M1[i] = M1[i] + s * simplex_moment(t, (i,))
                    for j in range(i, 3):
                        M2[i, j] = M2.get((i, j), 0) + s * simplex_moment(t, (i, j))
    rho, th = h.real('rho', 0.1, 20), h.real('thickness', 0.01, 2)
    I = h.mod('mesh').Mesh(h.arr(P, float), h.arr(F, int)).eval_shell_mesh_inertias(rho_medium=rho, thickness=th)
    s = rho * th
    h.eq(I.mass, s * A, 'mass')
    h.eq([I.gravity_center[k] * A for k in range(3)], M1, 'gravity centre')
    h.eq([I.xx, I.yy, I.zz], [s * (M2[1, 1] + M2[2, 2]), s * (M2[0, 0] + M2[2, 2]), s * (M2[0, 0] + M2[1, 1])], 'moments')
    h.eq([I.yz, I.xz, I.xy], [s * M2[1, 2], s * M2[0, 2], s * M2[0, 1]], 'products')


INSTANCES = [Inst('shell-' + k, shell, kinds=k, bound='mesh of faces ' + k, tier=t)
             for k, t in (('T', 'quick'), ('Q', 'quick'), ('TQ', 'quick'), ('QT', 'quick'), ('tetra', 'quick'),
                          ('TT', 'thorough'), ('QQ', 'thorough'), ('TQT', 'thorough'))]
INSTANCES.append(Inst('shell-T-default', shell, kinds='T', default=True, bound='one triangle, default density (7850) and '
                      'thickness (0.02)'))
INSTANCES += [Inst('panels-%d%d%d%s' % (n + (t,)), panelled, n=n, tri=t, seed=s) for n, t, s in
              (((2, 2, 3), '', 1), ((4, 3, 2), 'some', 2), ((2, 1, 3), 'all', 3))]
INSTANCES += [Inst('panels-' + k, panelled, n=(2, 3, 2), tri='some', seed=4, size=z)
              for k, z in (('tiny', ('1e-7', '1e-4')), ('huge', ('1e3', '1e6')))]
