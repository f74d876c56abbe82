from symx.harness import Inst
from .common import *
from .c06 import exact_tri

BOUNDS = 'one triangle, one planar convex quadrangle, and meshes of two or three faces mixing both; every real coordinate; boxes divided in 32 to 66 panels, of any size and place'
OUTSIDE = 'floating-point rounding; non planar quadrangles; nearly degenerate faces (twice the area below 0.1)'


def integrals(h, kinds):
    pts, fs, exp = [], [], []
    for i, k in enumerate(kinds):
        o = len(pts)
        if k == 'T':
            p = [point(h, 'p%d%d' % (i, j)) for j in range(3)]
            area = exact_tri(h, p)[0]
            exp.append([area * simplex_moment(p, f) for f in FORMS15])
            fs.append([o, o + 1, o + 2, o])
        else:
            p, (u, w, a, b) = quad(h, 'q%d' % i)
            n = cross(u, w)
            nondegenerate(h, n)
            l = h.sqrt(dot(n, n))
            # the other diagonal: triangles (0,1,3) of area l/2 and (1,2,3) of area (a+b-1) l/2
            e = []
            for f in FORMS15:
                e.append(l / 2 * simplex_moment([p[0], p[1], p[3]], f) +
                         (a + b - 1) * l / 2 * simplex_moment([p[1], p[2], p[3]], f))
            exp.append(e)
            fs.append([o, o + 1, o + 2, o + 3])
        pts += p
    m = h.mod('mesh').Mesh(h.arr(pts, float), h.arr(fs, int))
    s = m.get_surface_integrals()
    h.true(tuple(s.shape) == (15, len(kinds)), 'shape')
    for i in range(len(kinds)):
        for k in range(15):
            h.eq(s[k, i], exp[i][k], 'integral of %s over face %d (%s)' % (NAMES15[k], i, kinds[i]))


def panelled(h, n, tri, seed, size=('0.5', '2')):
    """the panels of a divided box of any size, anywhere"""
    P, F, o, d, pts = panel_box(h, n, tri, seed, *size)
    s = h.mod('mesh').Mesh(h.arr(P, float), h.arr(F, int)).get_surface_integrals()
    h.true(tuple(s.shape) == (15, len(F)), 'shape')
    for i, f in enumerate(F):
        ax, _, share, tris = panel_plan(pts, f)
        area = d[(ax + 1) % 3] * d[(ax + 2) % 3] / 2
        for k, form in enumerate(FORMS15):
            e = 0
            for t in tris:
                e = e + area * simplex_moment([P[j] for j in t], form)
            h.eq(s[k, i], e, 'integral of %s over a panel' % NAMES15[k])


INSTANCES = [Inst('integrals-' + k, integrals, kinds=k, bound='mesh of faces ' + k, tier=t)
             for k, t in (('T', 'quick'), ('Q', 'quick'), ('TQ', 'quick'), ('QT', 'quick'), ('TT', 'quick'),
                          ('TQT', 'thorough'), ('QQ', 'thorough'), ('QTQ', 'thorough'))]
INSTANCES += [Inst('panels-%d%d%d%s' % (n + (t,)), panelled, n=n, tri=t, seed=s) for n, t, s in
              (((2, 2, 3), '', 1), ((4, 3, 2), 'some', 2), ((2, 1, 3), 'all', 3))]
INSTANCES += [Inst('panels-' + k, panelled, n=(2, 3, 2), tri='some', seed=4, size=z)
              for k, z in (('tiny', ('1e-7', '1e-4')), ('huge', ('1e3', '1e6')))]
