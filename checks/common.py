"""Inputs shared by the harnesses."""


def point(h, name, lo=None, hi=None):
    return [h.real(name + c, lo, hi) for c in 'xyz']


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def add(a, b):
    return [x + y for x, y in zip(a, b)]


def mul(k, a):
    return [k * x for x in a]


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def matvec(m, v):
    return [m[i][0] * v[0] + m[i][1] * v[1] + m[i][2] * v[2] for i in range(3)]


def matmul(a, b):
    return [[sum((a[i][k] * b[k][j] for k in range(1, 3)), a[i][0] * b[0][j]) for j in range(3)] for i in range(3)]


def quad(h, name, lo=None, hi=None, ab=None):
    """planar convex quadrangle: p2 = p0 + a (p1-p0) + b (p3-p0) with a, b > 0, a + b > 1"""
    p0, p1, p3 = point(h, name + '0', lo, hi), point(h, name + '1', lo, hi), point(h, name + '3', lo, hi)
    if ab:
        a, b = h.const(ab[0]), h.const(ab[1])
        u, w = sub(p1, p0), sub(p3, p0)
        return [p0, p1, add(p0, add(mul(a, u), mul(b, w))), p3], (u, w, a, b)
    a, b = h.real(name + 'a', 0, 3), h.real(name + 'b', 0, 3)
    h.assume(a > 0)
    h.assume(b > 0)
    h.assume(a + b > 1)
    h.factor(a + b)
    u, w = sub(p1, p0), sub(p3, p0)
    p2 = add(p0, add(mul(a, u), mul(b, w)))
    return [p0, p1, p2, p3], (u, w, a, b)


def nondegenerate(h, n):
    """squared length of the cross product bounded away from zero for the float replays"""
    h.assume(dot(n, n) >= h.const('0.01'))


def rows(a):
    return [list(r) for r in a]


# exact integrals ---------------------------------------------------------------------------------------------------
def fact(n):
    r = 1
    for i in range(2, n + 1):
        r *= i
    return r


def simplex_moment(pts, forms):
    """mean over the simplex with vertices pts of the product of the coordinates listed in forms (indices 0..2):
    n! / (n+d)! * sum over assignments, times d-fold symmetrisation, written with barycentric coordinates"""
    n = len(pts) - 1
    d = len(forms)
    # expand prod_k sum_i lambda_i p_i[form_k]
    terms = {}

    def rec(k, exps, coef):
        if k == d:
            key = tuple(exps)
            terms[key] = terms[key] + coef if key in terms else coef
            return
        for i in range(n + 1):
            e = list(exps)
            e[i] += 1
            rec(k + 1, e, coef * pts[i][forms[k]] if coef is not None else pts[i][forms[k]])
    rec(0, [0] * (n + 1), None)
    tot = 0
    for e, c in terms.items():
        w = 1
        for x in e:
            w *= fact(x)
        tot = tot + c * w
    return tot * fact(n) / fact(n + d)


FORMS15 = [(0,), (1,), (2,), (1, 2), (0, 2), (0, 1), (0, 0), (1, 1), (2, 2), (0, 0, 0), (1, 1, 1), (2, 2, 2),
           (0, 0, 1), (1, 1, 2), (2, 2, 0)]
NAMES15 = ['x', 'y', 'z', 'yz', 'xz', 'xy', 'x2', 'y2', 'z2', 'x3', 'y3', 'z3', 'x2y', 'y2z', 'z2x']


def tet_volume(p):
    return dot(sub(p[1], p[0]), cross(sub(p[2], p[0]), sub(p[3], p[0]))) / 6


def solid_moments(tets):
    """volume, first and second moments of a union of oriented tetrahedra"""
    vol = 0
    first = [0, 0, 0]
    second = {}
    for t in tets:
        v = tet_volume(t)
        vol = vol + v
        for k in range(3):
            first[k] = first[k] + v * simplex_moment(t, (k,))
        for i in range(3):
            for j in range(i, 3):
                second[i, j] = second.get((i, j), 0) + v * simplex_moment(t, (i, j))
    return vol, first, second


def box_points(p, u, v, w):
    """vertices and outward quads of the parallelepiped (u x v . w > 0)"""
    P = [p, add(p, u), add(add(p, u), v), add(p, v)]
    P += [add(x, w) for x in P]
    F = [[0, 3, 2, 1], [4, 5, 6, 7], [0, 1, 5, 4], [1, 2, 6, 5], [2, 3, 7, 6], [3, 0, 4, 7]]
    return P, F


BOX_TETS = [(0, 1, 2, 6), (0, 2, 3, 6), (0, 3, 7, 6), (0, 7, 4, 6), (0, 4, 5, 6), (0, 5, 1, 6)]


def tetra(h, name='p', lo=None, hi=None):
    P = [point(h, name + str(i), lo, hi) for i in range(4)]
    F = [[0, 2, 1, 0], [0, 1, 3, 0], [1, 2, 3, 1], [0, 3, 2, 0]]
    return P, F, [(0, 1, 2, 3)]


def face_normal2(P, f):
    """squared length of the vector normal used for the float-safety assumption"""
    if f[0] == f[3]:
        n = cross(sub(P[f[1]], P[f[0]]), sub(P[f[2]], P[f[0]]))
    else:
        n = cross(sub(P[f[1]], P[f[0]]), sub(P[f[3]], P[f[0]]))
    return dot(n, n)


def safe_faces(h, P, F):
    for f in F:
        h.let(face_normal2(P, f) >= h.const('0.01'))


def solid(h, kind, name='p', lo=None, hi=None):
    """closed outward-oriented meshes with planar faces: P, F, tetrahedra"""
    if kind == 'tetra':
        P, F, T = tetra(h, name, lo, hi)
    elif kind == 'box':
        p = point(h, name + '0', lo, hi)
        u, v, w = (point(h, name + c, lo, hi) for c in 'uvw')
        P, F = box_points(p, u, v, w)
        T = BOX_TETS
    elif kind == 'boxtri':
        # the box with two faces given as triangles
        P, F, T = solid(h, 'box', name, lo, hi)
        return P, [[0, 3, 2, 0], [0, 2, 1, 0], [4, 5, 6, 7], [0, 1, 5, 4], [1, 2, 6, 1], [1, 6, 5, 1]] + F[4:], T
    elif kind == 'prism':
        p = point(h, name + '0', lo, hi)
        u, v, w = (point(h, name + c, lo, hi) for c in 'uvw')
        A = [p, add(p, u), add(p, v)]
        P = A + [add(x, w) for x in A]
        F = [[0, 2, 1, 0], [3, 4, 5, 3], [0, 1, 4, 3], [1, 2, 5, 4], [2, 0, 3, 5]]
        T = [(0, 1, 2, 5), (0, 1, 5, 4), (0, 4, 5, 3)]
    elif kind.startswith('pyramid'):
        q, par = quad(h, name, lo, hi, {'pyramid': ('1.5', '1.25'), 'pyramid2': ('0.5', '0.75'), 'pyramidab': None}[kind])
        P = q + [point(h, name + 'a', lo, hi)]
        F = [[0, 3, 2, 1], [0, 1, 4, 0], [1, 2, 4, 1], [2, 3, 4, 2], [3, 0, 4, 3]]
        T = [(0, 1, 2, 4), (0, 2, 3, 4)]
    else:
        raise ValueError(kind)
    h.assume(tet_volume([P[i] for i in T[0]]) >= h.const('0.01'))
    safe_faces(h, P, F)
    return P, F, T


def mesh(h, P, F, reverse=False):
    F = [list(f)[::-1] if reverse else list(f) for f in F]
    return h.mod('mesh').Mesh(h.arr([list(p) for p in P], float), h.arr(F, int))


# faces by position ---------------------------------------------------------------------------------------------------
def face_points(m, k, V=None):
    """points visited by face k of a mesh: 3 for a triangle (first index equal to the last), 4 otherwise"""
    V = m.vertices if V is None else V
    f = [int(i) for i in m.faces[k]]
    return [[V[i][0], V[i][1], V[i][2]] for i in (f[:3] if f[0] == f[3] else f)]


def row_points(P, f):
    f = list(f)
    return [list(P[i]) for i in (f[:3] if f[0] == f[3] else f)]


def close_point(h, a, b, tol):
    """condition: two points agree, exactly or within tol in each coordinate"""
    if h.symbolic:
        if tol is None:
            return h.band(*[x == y for x, y in zip(a, b)])
        t = h.const(tol)
        return h.band(*[h.band(x - y <= t, y - x <= t) for x, y in zip(a, b)])
    t = (1e-6 if tol is None else float(tol) * 1.01 + 1e-12)
    return all(abs(float(x) - float(y)) <= t * (max(1., abs(float(y))) if tol is None else 1.) + 1e-12
               for x, y in zip(a, b))


def cycle_condition(h, got, want, tol=None):
    """condition: got visits the points of want in the same cyclic order"""
    if len(got) != len(want):
        return False
    n = len(got)
    cs = []
    for r in range(n):
        c = h.band(*[close_point(h, got[(i + r) % n], want[i], tol) for i in range(n)])
        if is_true(h, c):
            return True
        cs.append(c)
    return h.bor(*cs)


def is_true(h, c):
    if h.symbolic:
        c = __import__('symx.core', fromlist=['mkb']).mkb(c)
        return c.k == 'c' and bool(c.a)
    return bool(c)


def same_face(h, got, want, label, tol=None):
    if len(got) != len(want):
        h.true(False, label + ': %s instead of %s vertices' % (len(got), len(want)))
        return
    h.true(cycle_condition(h, got, want, tol), label)


def same_face_sets(h, got, want, label, tol=None):
    """the faces got are the faces want in any order, each visiting the same points in the same cyclic order"""
    if len(got) != len(want):
        h.true(False, label + ': number of faces')
        return
    left = list(want)
    rest = []
    for g in got:
        for w in left:
            if is_true(h, cycle_condition(h, g, w, tol)):
                left.remove(w)
                break
        else:
            rest.append(g)
    for k, g in enumerate(rest):
        h.true(h.bor(*[cycle_condition(h, g, w, tol) for w in left]), label + ': every face is an expected one')
    for w in left:
        h.true(h.bor(*[cycle_condition(h, g, w, tol) for g in rest]), label + ': every expected face is there')


def same_faces(h, m, P, F, label, tol=None):
    """the faces of the mesh m are, in order, the faces F on points P"""
    if len(m.faces) != len(F):
        h.true(False, label + ': number of faces')
        return
    for k in range(len(F)):
        same_face(h, face_points(m, k), row_points(P, F[k]), label, tol)


def same_ints(h, got, want, label):
    got = [[int(x) for x in r] for r in got]
    h.true(got == [list(r) for r in want], label)


def panels(nx, ny, nz, tri='', seed=0):
    """surface of a box divided in panels: lattice coordinates of the vertices, faces turned outwards, in a scattered order.
    tri: 'all' or 'some' panels are given as two triangles"""
    import random
    r = random.Random(seed + 100 * nx + 10 * ny + nz)
    n = (nx, ny, nz)
    F = []
    for a in range(3):
        b, c = (a + 1) % 3, (a + 2) % 3
        for side in (0, n[a]):
            for u in range(n[b]):
                for v in range(n[c]):
                    q = []
                    for du, dv in ((0, 0), (1, 0), (1, 1), (0, 1)):
                        p = [0, 0, 0]
                        p[a], p[b], p[c] = side, u + du, v + dv
                        q.append(tuple(p))
                    if not side:
                        q = q[::-1]
                    if seed:
                        k = r.randrange(4)
                        q = q[k:] + q[:k]
                    if tri == 'all' or tri == 'some' and r.randrange(3) == 0:
                        F += [[q[0], q[1], q[2], q[0]], [q[0], q[2], q[3], q[0]]]
                    else:
                        F.append(q)
    pts = sorted(set(p for f in F for p in f))
    if seed:
        r.shuffle(pts)
        r.shuffle(F)
    at = {p: i for i, p in enumerate(pts)}
    return pts, [[at[p] for p in f] for f in F]


def panel_box(h, n, tri='', seed=0, lo='0.5', hi='2'):
    """a divided box, at any place and of any size: points, faces, corner and sizes of the cells, lattice points"""
    pts, F = panels(*n, tri=tri, seed=seed)
    o = [h.real('o' + c, -5, 5) for c in 'xyz']
    d = [h.real('d' + c, lo, hi) for c in 'xyz']
    P = [[o[k] + d[k] * p[k] for k in range(3)] for p in pts]
    return P, F, o, d, pts


def panel_plan(pts, f):
    """axis and sense of the outward normal of a panel, share of the cell it covers, triangles"""
    w = f[:3] if f[0] == f[3] else f
    for a in range(3):
        if len(set(pts[i][a] for i in w)) == 1:
            break
    u, v = ([pts[w[i]][k] - pts[w[0]][k] for k in range(3)] for i in (1, 2))
    b, c = (a + 1) % 3, (a + 2) % 3
    s = u[b] * v[c] - u[c] * v[b]
    return a, 1 if s > 0 else -1, len(w) - 2, [w[:3]] + ([[w[0], w[2], w[3]]] if len(w) == 4 else [])
