"""Shared by C17 and C18: exact clipping of polygons below a plane, and comparison of the result of the clipper."""
from .common import *

FRAMES = {
    'z': ([0, 0, 1], [[1, 0, 0], [0, 1, 0], [0, 0, 1]]),
    'down': ([0, 0, -1], [[0, 1, 0], [1, 0, 0], [0, 0, -1]]),
    'x': ([1, 0, 0], [[0, 1, 0], [0, 0, 1], [1, 0, 0]]),
    'tilted': ([2, 3, 6], [['3/7', '-6/7', '2/7'], ['6/7', '2/7', '-3/7'], ['2/7', '3/7', '6/7']]),
}


def frac(h, s):
    s = str(s)
    if '/' in s:
        a, b = s.split('/')
        return h.const(a) / h.const(b)
    return h.const(s)


class Scene(object):
    """a plane and points given by two coordinates in the plane and a height above it"""
    def __init__(self, h, frame='z', c='0'):
        self.near = False
        n, B = FRAMES[frame]
        self.h, self.n = h, n
        self.B = [[frac(h, x) for x in r] for r in B]
        self.c = h.const(c) if isinstance(c, str) else c
        self.plane = h.mod('mesh').Plane([float(x) for x in n], self.c)

    def at(self, x, y, z):
        f = [frac(self.h, v) if isinstance(v, (str, int)) else v for v in (x, y)]
        f.append((frac(self.h, z) if isinstance(z, (str, int)) else z) + self.c)
        return [sum(f[k] * self.B[k][i] for k in range(3)) for i in range(3)]


def height(h, name, cls, lo='0.5', hi='1.5', near=False):
    if cls == 0:
        # on the plane, or taken as such: closer than the tolerance
        if near is not True and near is not False:
            return near * h.real(name, '-0.9', '0.9')
        return h.real(name, '-0.0009', '0.0009') if near else h.const(0)
    r = h.real(name, lo, hi)
    return r if cls > 0 else -r


def sign(h, z, tol='0.002'):
    """side of a height, exact on this path: 0, 1 or -1"""
    t = h.const(tol)
    if bool(z == 0):
        return 0
    if bool(z >= t):
        return 1
    if bool(z <= -t):
        return -1
    return None


def clip_polygon(h, pts, zs, ss):
    """part of a convex polygon below the plane: points with a label, in order ([] when no area)"""
    out = []
    n = len(pts)
    for i in range(n):
        j = (i + 1) % n
        if ss[i] <= 0:
            out.append((('v', i), pts[i]))
        if ss[i] * ss[j] < 0:
            t = zs[i] / (zs[i] - zs[j])
            out.append((('i', i), [a + t * (b - a) for a, b in zip(pts[i], pts[j])]))
    if not any(s < 0 for s in ss):
        return []
    return out


def find(h, p, pts):
    for k, q in enumerate(pts):
        if is_true(h, close_point(h, p, q, None)):
            return k
    return None


def net_edges(cycles):
    """directed edges left when opposite ones cancel"""
    E = {}
    for c in cycles:
        for i in range(len(c)):
            a, b = c[i - 1], c[i]
            if a == b:
                continue
            if E.get((b, a), 0):
                E[b, a] -= 1
            else:
                E[a, b] = E.get((a, b), 0) + 1
    return {e: k for e, k in E.items() if k}


class Expected(object):
    """exact result: points (merged) and, for every source face, the polygon kept"""
    def __init__(self, h, P, Z, S, F):
        self.points = []
        self.cycles = []
        self.whole = []
        where = {}
        for f in F:
            f = f[:3] if f[0] == f[3] else f
            poly = clip_polygon(h, [P[i] for i in f], [Z[i] for i in f], [S[i] for i in f])
            cyc = []
            for (k, i), p in poly:
                key = (f[i],) if k == 'v' else tuple(sorted((f[i], f[(i + 1) % len(f)])))
                if key not in where:
                    where[key] = len(self.points)
                    self.points.append(p)
                cyc.append(where[key])
            self.cycles.append(cyc)
            self.whole.append(all(S[i] <= 0 for i in f))

    def boundary(self):
        """net directed edges of the part kept"""
        return net_edges([c for c in self.cycles if c])


def compare(h, exp, got_faces, V, what):
    """faces of the clipped mesh against the exact polygons"""
    ids = {}
    for f in got_faces:
        for i in f:
            if i not in ids:
                ids[i] = find(h, V[i], exp.points)
    for i in ids:
        h.true(ids[i] is not None, what + ': vertices of the faces kept are vertices below the plane or exact intersections')
    per = [[] for _ in exp.cycles]
    for f in got_faces:
        c = [ids[i] for i in f]
        own = [k for k, cyc in enumerate(exp.cycles) if set(c) <= set(cyc)]
        if not own:
            h.fail(what + ': every face kept lies on one face of the source')
        per[own[0]].append(c)
    for k, cyc in enumerate(exp.cycles):
        if not cyc:
            h.true(not per[k], what + ': nothing is kept of a face above')
            continue
        h.true(net_edges(per[k]) == net_edges([cyc]), what + ': the part of a face below the plane is kept, with its '
               'orientation')
        if exp.whole[k]:
            h.true(len(per[k]) == 1, what + ': a face below the plane is kept as it is')
        # pieces do not overlap: none is turned over
        pos = {v: i for i, v in enumerate(cyc)}
        for c in per[k]:
            o = [pos[v] for v in c]
            r = o.index(min(o))
            o = o[r:] + o[:r]
            o = [x for i, x in enumerate(o) if i == 0 or x != o[i - 1]]
            h.true(o == sorted(o), what + ': the pieces of a face keep its orientation')


def face_ids(m):
    return [[int(i) for i in (f[:3] if int(f[0]) == int(f[3]) else f)] for f in m.faces]


def points(m):
    return [list(r) for r in m.vertices]


# closed shapes: horizontal coordinates, heights -----------------------------------------------------------------------
TETRA = ([('0', '0'), ('7', '1'), ('2', '6'), ('3', '2')], [[0, 2, 1, 0], [0, 1, 3, 0], [1, 2, 3, 1], [0, 3, 2, 0]])
BOX = [[0, 3, 2, 1], [4, 5, 6, 7], [0, 1, 5, 4], [1, 2, 6, 5], [2, 3, 7, 6], [3, 0, 4, 7]]
PRISM = [[0, 2, 1, 0], [3, 4, 5, 3], [0, 1, 4, 3], [1, 2, 5, 4], [2, 0, 3, 5]]
RING_PLAN = [(0, 0), (6, 0), (6, 4), (0, 4), (1, 1), (4, 1), (4, 3), (1, 3)]           # box with a vertical hole (moonpool)
RING = [[i, 4 + i, 4 + (i + 1) % 4, (i + 1) % 4] for i in range(4)] + \
       [[8 + i, 8 + (i + 1) % 4, 12 + (i + 1) % 4, 12 + i] for i in range(4)] + \
       [[i, (i + 1) % 4, 8 + (i + 1) % 4, 8 + i] for i in range(4)] + \
       [[4 + i, 12 + i, 12 + (i + 1) % 4, 4 + (i + 1) % 4] for i in range(4)]
PYRAMID = [[0, 3, 2, 1], [0, 1, 4, 0], [1, 2, 4, 1], [2, 3, 4, 2], [3, 0, 4, 3]]


def build(h, scene, xy, Z):
    return [scene.at(x, y, z) for (x, y), z in zip(xy, Z)]


def tetra_scene(h, frame, classes, near=False):
    s = Scene(h, frame, '0.5' if frame != 'z' else '0')
    s.near = near
    xy, F = TETRA
    S = [classes[i] if classes[i] is not None else h.choose('side%d' % i, [-1, 1, 0]) for i in range(4)]
    Z = [height(h, 'z%d' % i, S[i], near=near) for i in range(4)]
    return s, build(h, s, xy, Z), Z, S, F


def affine_scene(h, frame, shape, ranges, scale='1', near=False):
    """parallelepiped, prism or pyramid: heights affine in three reference coordinates"""
    s = Scene(h, frame, '0.5' if frame != 'z' else '0')
    ref = {'box': [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)],
           'prism': [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (0, 1, 1)],
           'pyramid': [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), ('0.4', '0.5', 1)],
           'ring': [('%d/6' % x, '%d/4' % y, c) for c in (0, 1) for x, y in RING_PLAN]}[shape]
    F = {'ring': RING, 'box': BOX, 'prism': PRISM, 'pyramid': PYRAMID}[shape]
    v = []
    for name, r in zip('ouvw', ranges):
        v.append(h.real('h' + name, *r) if isinstance(r, tuple) else h.const(r))
    xy, Z = [], []
    for a, b, c in ref:
        a, b, c = (frac(h, t) for t in (a, b, c))
        xy.append((a * 3 + b * frac(h, '0.5') + c * frac(h, '0.2'), b * 2 + a * frac(h, '0.3') + c * frac(h, '0.1')))
        Z.append(v[0] + a * v[1] + b * v[2] + c * v[3])
    k = frac(h, scale)
    xy = [(k * x, k * y) for x, y in xy]
    S = []
    for z in Z:
        x = sign(h, z, '0.01')
        if x is None and near and bool(z <= h.const('0.0009')) and bool(z >= h.const('-0.0009')):
            x = 0
        h.assume(x is not None)
        S.append(x)
    s.near = near
    return s, build(h, s, xy, Z), Z, S, F


UPRIGHT = [('-2', '-1'), ('-0.3', '0.3'), ('-0.3', '0.3'), ('2.5', '3.5')]      # horizontal cut through the sides
ANY = [('-1.5', '1.5'), ('0.3', '1.3'), ('-1.3', '-0.3'), ('0.5', '1.5')]
FLAT_TOP = ['-1', '0', '0', '1']                                            # top face on the plane
FLAT_BOTTOM = ['0', '0', '0', '1']
HALF = [('-2', '-1'), '0', '0', ('2', '3')]
DIAGONAL = ['-1', '1', '0', ('0.5', '0.8')]                                     # two edges of the bottom on the plane
T3, T4 = ('-0.0003', '0.0003'), ('-0.0004', '0.0004')
NEAR_TOP = ['-1', T3, T3, '1']                                              # within the tolerance of the plane
NEAR_BOTTOM = [T4, T3, T3, '1']
NEAR_DIAGONAL = ['-1', ('0.9996', '1.0004'), T3, ('0.5', '0.8')]
CORNER = [('-1.2', '-0.8'), ('0.3', '0.4'), ('0.3', '0.4'), ('0.3', '0.4')]


def panel_scene(h, frame, how):
    """a box divided in many panels, at any height within a range, with fixed slopes"""
    n, tri, seed, o, slope = how
    s = Scene(h, frame, '0.5' if frame != 'z' else '0')
    pts, F = panels(*n, tri=tri, seed=seed)
    o = h.real('ho', *o)
    k = [frac(h, x) for x in slope]
    xy, Z, S = [], [], []
    for a, b, c in pts:
        xy.append((a * frac(h, '1.5') + c * frac(h, '0.2'), b + a * frac(h, '0.3')))
        Z.append(o + a * k[0] + b * k[1] + c * k[2])
        x = sign(h, Z[-1], '0.01')
        h.assume(x is not None)
        S.append(x)
    return s, build(h, s, xy, Z), Z, S, F


LEVEL = ((2, 2, 3), '', 1, ('-2', '-1'), ('0', '0', '1'))                       # water between or at two rows of panels
TRIM = ((3, 2, 2), 'some', 2, ('-1.6', '-1.4'), ('0.1', '0.23', '1'))
STEEP = ((3, 1, 2), 'all', 3, ('-2', '-1.5'), ('0.7', '-0.4', '0.9'))
MANY = ((4, 3, 3), 'some', 4, ('-1.9', '-1.8'), ('0.1', '0', '1'))


def scene(h, shape, frame, how, scale='1'):
    if shape == 'panels':
        return panel_scene(h, frame, how)
    if shape == 'near':
        return tetra_scene(h, frame, how, near=True)
    if shape == 'tetra':
        return tetra_scene(h, frame, how)
    return affine_scene(h, frame, shape, how, scale, near=how in (NEAR_TOP, NEAR_BOTTOM, NEAR_DIAGONAL))
