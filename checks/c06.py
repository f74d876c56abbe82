from symx.harness import Inst
from .common import *

BOUNDS = ('one to three faces per mesh (triangle, planar convex quadrangle, mixes in every order), every real '
          'coordinate; boxes divided in 54 to 160 panels, of any size and place; degenerate faces (twice the area below 0.1) excluded')
OUTSIDE = 'floating-point rounding (exact real arithmetic); non planar or non convex quadrangles'


def exact_tri(h, p):
    n = cross(sub(p[1], p[0]), sub(p[2], p[0]))
    nondegenerate(h, n)
    l = h.sqrt(dot(n, n))
    return l / 2, [x / l for x in n], [(p[0][k] + p[1][k] + p[2][k]) / 3 for k in range(3)]


def exact_quad(h, p, par):
    u, w, a, b = par
    n = cross(u, w)
    nondegenerate(h, n)
    l = h.sqrt(dot(n, n))
    area = l * (a + b) / 2
    # two triangles of areas b*l/2 and a*l/2
    c = [(b * (p[0][k] + p[1][k] + p[2][k]) + a * (p[0][k] + p[2][k] + p[3][k])) / (3 * (a + b)) for k in range(3)]
    return area, [x / l for x in n], c


def faces(h, kinds, query):
    pts, fs, exp = [], [], []
    for i, k in enumerate(kinds):
        if k == 'T':
            p = [point(h, 'p%d%d' % (i, j)) for j in range(3)]
            exp.append(exact_tri(h, p))
            o = len(pts)
            fs.append([o, o + 1, o + 2, o])
        else:
            p, par = quad(h, 'q%d' % i)
            exp.append(exact_quad(h, p, par))
            o = len(pts)
            fs.append([o, o + 1, o + 2, o + 3])
        pts += p
    m = h.mod('mesh').Mesh(h.arr(pts, float), h.arr(fs, int))
    h.true(m.nb_faces == len(kinds), 'nb_faces')
    for what in query:
        a = getattr(m, what)
        for i in range(len(kinds)):
            e = exp[i][('faces_areas', 'faces_normals', 'faces_centers').index(what)]
            h.eq(a[i], e, '%s of face %d (%s)' % (what, i, kinds[i]))


def panelled(h, n, tri, seed, query, size=('0.5', '2')):
    """the panels of a divided box of any size, anywhere"""
    P, F, o, d, pts = panel_box(h, n, tri, seed, *size)
    m = h.mod('mesh').Mesh(h.arr(P, float), h.arr(F, int))
    for what in query:
        a = getattr(m, what)
        h.true(len(a) == len(F), 'one value per face')
        for i, f in enumerate(F):
            ax, s, share, _ = panel_plan(pts, f)
            w = f[:3] if f[0] == f[3] else f
            if what == 'faces_areas':
                h.eq(a[i], d[(ax + 1) % 3] * d[(ax + 2) % 3] * share / 2, 'area of a panel')
            elif what == 'faces_normals':
                h.eq(list(a[i]), [s if k == ax else 0 for k in range(3)], 'normal of a panel')
            else:
                h.eq(list(a[i]), [sum([P[j][k] for j in w[1:]], P[w[0]][k]) / len(w) for k in range(3)], 'centre of a panel')


ALL = ('faces_areas', 'faces_normals', 'faces_centers')
INSTANCES = [Inst('faces-' + k, faces, kinds=k, query=ALL, bound='mesh of faces ' + k)
             for k in ('T', 'Q', 'TT', 'TQ', 'QT')]
INSTANCES += [Inst('faces-' + k, faces, kinds=k, query=ALL[::-1], bound='mesh of faces ' + k, tier=t)
              for k, t in (('QQ', 'quick'), ('TQT', 'quick'), ('QTQ', 'quick'), ('TTT', 'thorough'), ('QQQ', 'thorough'),
                           ('TQQ', 'thorough'), ('QTT', 'thorough'))]
INSTANCES += [Inst('panels-%d%d%d%s' % (n + (t,)), panelled, n=n, tri=t, seed=s, query=q) for n, t, s, q in
              (((3, 3, 3), '', 1, ALL), ((4, 3, 2), 'some', 2, ALL[::-1]), ((2, 2, 9), 'all', 3, ALL))]
INSTANCES += [Inst('panels-' + k, panelled, n=(2, 3, 2), tri='some', seed=4, query=ALL, size=z)
              for k, z in (('tiny', ('1e-7', '1e-4')), ('huge', ('1e3', '1e6')))]
