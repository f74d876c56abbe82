from symx.harness import Inst
from .clipping import *

BOUNDS = ('tetrahedron, parallelepiped, prism, pyramid and a saddle-shaped body with any heights within the stated ranges '
          '(vertices within 0.9 of the tolerance of the plane, on it or more than 0.002 from it), tolerances up to 0.2, one or two separate or nested bodies, open shells of '
          'up to three faces or strips of up to eight, beside a closed body or not, for a horizontal, an upside-down, a vertical and a tilted plane; a box with a hole through it, boxes divided in 32 to 88 panels at any height within a row of panels; horizontal positions fixed')
OUTSIDE = ('floating-point rounding; vertices at about the tolerance from the plane; other shapes; '
           'polygons without area drawn along an edge that only touches the plane are accepted')


def clipper(h, s, P, F, **kw):
    m = h.mod('mesh').Mesh(h.arr(P, float), h.arr(F, int))
    return h.mod('mesh_clipper').MeshClipper(m, plane=s.plane, **kw)


def lines_of(h, c, s, exp, lines, what):
    """lines of vertex numbers of the clipped crown as lines of exact points"""
    V = points(c.clipped_crown_mesh)
    out = []
    for l in lines:
        ids = []
        for i in l:
            i = int(i)
            d = dot(V[i], s.B[2]) - s.c
            if s.near:
                t = h.const('0.001') if s.near is True else s.near
                h.le(d, t, what + ' lie on the plane within the tolerance')
                h.le(-d, t, what + ' lie on the plane within the tolerance')
            else:
                h.eq(d, 0, what + ' lie on the plane')
            k = find(h, V[i], exp.points)
            if k is None:
                h.fail(what + ' visit exact intersections of the edges with the plane')
            ids.append(k)
        out.append(ids)
    return out


def directed(lines):
    E = {}
    for l in lines:
        for a, b in zip(l[:-1], l[1:]):
            if a == b:
                continue
            if E.get((b, a), 0):
                E[b, a] -= 1
            else:
                E[a, b] = E.get((a, b), 0) + 1
    return {e: k for e, k in E.items() if k}


def check_closed(h, s, P, Z, S, F, **kw):
    if all(x == 1 for x in S) or all(x == -1 for x in S):
        try:
            clipper(h, s, P, F, **kw)
        except RuntimeError as e:
            h.true(('above' if S[0] > 0 else 'below') in str(e), 'a mesh on one side is refused with the side')
            return
        h.fail('a mesh on one side is refused with the side')
    exp = Expected(h, P, Z, S, F)
    try:
        c = clipper(h, s, P, F, **kw)
    except RuntimeError as e:
        h.true(not any(exp.cycles) and 'above' in str(e), 'a closed mesh that crosses the plane is clipped')
        return
    polygons(h, s, exp, c)


def polygons(h, s, exp, c):
    h.true(len(c.open_lines) == 0 and int(c.nb_open_lines) == 0 and len(c.open_lines_vertices) == 0,
           'a closed mesh has no open line')
    polys = lines_of(h, c, s, exp, c.closed_polygons, 'the polygons')
    h.true(int(c.nb_closed_polygons) == len(polys), 'number of polygons')
    V = points(c.clipped_crown_mesh)
    pv = c.closed_polygons_vertices
    h.true(len(pv) == len(polys), 'coordinates of the polygons')
    for p, q in zip(c.closed_polygons, pv):
        h.eq(q, [V[int(i)] for i in p], 'coordinates of the polygons')
    for p in polys:
        h.true(p[0] == p[-1], 'the first vertex of a polygon is repeated at its end')
    want = {(b, a): k for (a, b), k in exp.boundary().items()}
    h.true(directed(polys) == want, 'the polygons close the clipped mesh')


def closed(h, shape, frame, how, scale='1', **kw):
    s, P, Z, S, F = scene(h, shape, frame, how, scale)
    check_closed(h, s, P, Z, S, F, **kw)


def replaced(h, kind, how=UPRIGHT):
    """the polygons of a clipper whose plane, tolerance or boundary check is replaced are those of the plane it has now"""
    s, P, Z, S, F = scene(h, 'pyramid', 'z', how, '1')
    m, other = h.mod('mesh').Mesh(h.arr(P, float), h.arr(F, int)), h.mod('mesh').Plane
    MC = h.mod('mesh_clipper').MeshClipper
    if kind == 'other':
        c = MC(m, plane=other([0., 1., 0.], h.const(1)))
    elif kind in ('parallel', 'asserted', 'trusted'):
        c = MC(m, plane=other([float(x) for x in s.n], s.c + h.real('offset', '0.05', '0.15')), assert_closed_boundaries=kind == 'trusted')
    else:
        c = MC(m, plane=s.plane, vicinity_tol=h.const('2.5'))
        c.vicinity_tol = 1e-3
    c.closed_polygons, c.open_lines, c.crown_mesh, c.lower_mesh, c.nb_closed_polygons
    if kind == 'asserted':
        c.assert_closed_boundaries_on()
    elif kind == 'trusted':
        c.assert_closed_boundaries_off()
    c.plane = s.plane
    polygons(h, s, Expected(h, P, Z, S, F), c)


def tolerance(h, frame, how):
    """vertices taken as lying on the plane, for any tolerance given"""
    t = h.real('tol', '1e-6', '0.2')
    s, P, Z, S, F = tetra_scene(h, frame, how, near=t)
    check_closed(h, s, P, Z, S, F, vicinity_tol=t)


def bodies(h, kinds):
    """separate tetrahedra, each above, below or across"""
    s = Scene(h)
    xy, F0 = TETRA
    P, Z, S, F = [], [], [], []
    for k, kind in enumerate(kinds):
        for i in range(4):
            side = {'above': 1, 'below': -1, 'across': 1 if i == 3 else -1, 'down': 1 if i < 2 else -1,
                    'on': 0 if i == 3 else -1}[kind]
            Z.append(height(h, 'z%d%d' % (k, i), side))
            S.append(side)
        P += build(h, s, [(str(int(x) + 20 * k), str(int(y) + 11 * k)) for x, y in xy], Z[-4:])
        F += [[i + 4 * k for i in f] for f in F0]
    check_closed(h, s, P, Z, S, F)


def shell(h):
    """a tetrahedron with a cavity of the same shape: two nested polygons of opposite senses"""
    s = Scene(h)
    F0 = TETRA[1]
    P, Z, S, F = [], [], [], []
    big = [('-10', '-6'), ('10', '-6'), ('0', '14'), ('0', '0')]
    small = [('-1', '-0.7'), ('1.1', '-0.6'), ('0', '1.5'), ('0.1', '0')]
    for k, xy in enumerate((big, small)):
        z = [h.real('z%d%d' % (k, i), lo, hi) for i, (lo, hi) in enumerate([('-2.2', '-2'), ('-2.2', '-2'), ('-2.2', '-2'),
                                                                           ('2', '2.5')])] if k == 0 else \
            [h.real('z%d%d' % (k, i), lo, hi) for i, (lo, hi) in enumerate([('-0.5', '-0.3'), ('-0.5', '-0.3'), ('-0.5', '-0.3'),
                                                                           ('0.3', '0.5')])]
        Z += z
        S += [-1, -1, -1, 1]
        P += build(h, s, xy, z)
        F += [[i + 4 * k for i in (f if k == 0 else f[::-1])] for f in F0]
    check_closed(h, s, P, Z, S, F)


def saddle(h, pattern, centre=0):
    """fan of four triangles around a vertex on the plane, closed by an apex far below"""
    s = Scene(h)
    ring = [('3', '0'), ('0', '2.5'), ('-2', '0.3'), ('0.2', '-3')]
    S = [centre] + list(pattern) + [-1]
    Z = [height(h, 'zc', centre)] + [height(h, 'z%d' % i, x) for i, x in enumerate(pattern)] + [-h.real('za', 4, 5)]
    P = build(h, s, [('0', '0')] + ring + [('0.1', '0.1')], Z)
    F = []
    for i in range(4):
        a, b = 1 + i, 1 + (i + 1) % 4
        F += [[0, a, b, 0], [5, b, a, 5]]
    check_closed(h, s, P, Z, S, F)


def opened(h, n, frame='z', ask=False):
    """a strip of n triangles, open: the line is reported, in the sense that continues the boundary"""
    s = Scene(h, frame)
    xy = [('0', '0'), ('3', '1'), ('0.5', '3'), ('4', '4'), ('1', '6')][:n + 2]
    S = [h.choose('side%d' % i, [-1, 1]) for i in range(n + 2)]
    Z = [height(h, 'z%d' % i, x) for i, x in enumerate(S)]
    P = build(h, s, xy, Z)
    F = [[0, 1, 2, 0], [2, 1, 3, 2], [2, 3, 4, 2]][:n]
    order = h.choose('order', list(range(n)))
    F = F[order:] + F[:order]
    if len(set(S)) == 1:
        return
    exp = Expected(h, P, Z, S, F)
    if ask == 'not':
        c = clipper(h, s, P, F, assert_closed_boundaries=False)
        c.assert_closed_boundaries_on()
        h.true(c.assert_closed_boundaries, 'the check of the boundaries is on')
        c.assert_closed_boundaries_off()
        h.true(not c.assert_closed_boundaries, 'the check of the boundaries is off')
        c.plane = s.plane
        h.true(len(c.closed_polygons) == 0, 'no polygon is reported for an open strip')
        return
    if ask:
        try:
            if ask == 'later':
                c = clipper(h, s, P, F)
                c.assert_closed_boundaries_on()
                c.plane = s.plane
            else:
                clipper(h, s, P, F, assert_closed_boundaries=True)
        except RuntimeError as e:
            h.true('pen' in str(e), 'open intersection lines are refused with assert_closed_boundaries')
            return
        h.fail('open intersection lines are refused with assert_closed_boundaries')
    open_lines(h, s, exp, P, F)


def strips(h, sizes, body=False, frame='z'):
    """strips of triangles that each cross the plane, given in any of several orders, beside a closed body or not"""
    s = Scene(h, frame)
    P, Z, S, F = [], [], [], []
    for k, n in enumerate(sizes):
        S += [1 if (i + k) % 2 else -1 for i in range(n + 2)]
        z = [height(h, 'z%d%d' % (k, i), 1 if (i + k) % 2 else -1) for i in range(n + 2)]
        P += build(h, s, [(str(2 * i + 30 * k), '3' if i % 2 else '0') for i in range(n + 2)], z)
        Z += z
        o = len(Z) - n - 2
        F += [[o + i, o + i + 1 + i % 2, o + i + 2 - i % 2, o + i] for i in range(n)]
    m, n = h.choose('order', [1, -1, 3, 5, 7]), len(F)
    F = [F[(m * k + (0 if m > 0 else n - 1)) % n] for k in range(n)] if m in (1, -1) or n % m else F[n // 2:] + F[:n // 2]
    want = 0
    if body:
        z = [height(h, 'zb%d' % i, -1 if i else 1) for i in range(4)]
        b, G = build(h, s, [(str(int(x) - 40), str(int(y) + 20)) for x, y in TETRA[0]], z), TETRA[1]
        o, P, Z, S = len(P), P + b, Z + z, S + [1, -1, -1, -1]
        F = F[:2] + [[i + o for i in g] for g in G] + F[2:]
        want = 1
    open_lines(h, s, Expected(h, P, Z, S, F), P, F, want)


def open_lines(h, s, exp, P, F, closed=0):
    c = clipper(h, s, P, F)
    h.true(len(c.closed_polygons) == closed and int(c.nb_closed_polygons) == closed, 'no polygon is reported for an open strip')
    lines = lines_of(h, c, s, exp, list(c.open_lines) + list(c.closed_polygons), 'the open lines')
    rings = lines[len(c.open_lines):]
    for p in rings:
        h.true(p[0] == p[-1], 'the first vertex of a polygon is repeated at its end')
    nb = len(c.open_lines)
    # edges of the kept part that lie on the plane, reversed
    want = set()
    for cyc, z in zip(exp.cycles, F):
        new = [i for i in cyc if not any(is_same(exp.points[i], p) for p in P)]
        for i in range(len(cyc)):
            a, b = cyc[i - 1], cyc[i]
            if a in new and b in new:
                want.add((b, a))
    got = set()
    for l in lines:
        for a, b in zip(l[:-1], l[1:]):
            h.true((a, b) not in got, 'an intersection segment is reported once')
            got.add((a, b))
    h.true(got == want, 'the open lines are the intersection')
    ends = sum(1 for v in set(x for e in want for x in e) if sum(e.count(v) for e in want) == 1)
    h.true(int(c.nb_open_lines) == nb and 2 * nb == ends, 'the intersection segments are chained')
    ov = c.open_lines_vertices
    V = points(c.clipped_crown_mesh)
    h.true(len(ov) == nb, 'coordinates of the open lines')
    for p, q in zip(c.open_lines, ov):
        h.eq(q, [V[int(i)] for i in p], 'coordinates of the open lines')


def is_same(p, q):
    return p is q


INSTANCES = [Inst('tetra-' + f, closed, shape='tetra', frame=f, how=w, max_paths=20000)
             for f, w in (('z', [None] * 4), ('tilted', [-1, -1, 1, None]), ('x', [1, 0, None, -1]))]
INSTANCES += [Inst('%s-%s' % (sh, n), closed, shape=sh, frame=f, how=r, max_paths=20000, **kw) for sh, n, f, r, kw in (
    ('box', 'upright', 'z', UPRIGHT, {}), ('box', 'tilted', 'tilted', UPRIGHT, {}), ('box', 'down', 'down', UPRIGHT, {}),
    ('box', 'flattop', 'z', FLAT_TOP, {}), ('box', 'half', 'x', HALF, {}), ('box', 'diagonal', 'z', DIAGONAL, {}),
    ('box', 'asserted', 'z', HALF, dict(assert_closed_boundaries=True)),
    ('box', 'corner', 'z', CORNER, {}), ('prism', 'upright', 'z', UPRIGHT, {}), ('pyramid', 'upright', 'z', UPRIGHT, {}),
    ('pyramid', 'corner', 'z', CORNER, {}), ('ring', 'upright', 'z', UPRIGHT, {}), ('ring', 'tilted', 'tilted', [('-2', '-1'), '0.1', ('-0.2', '-0.1'), '3'], {}),
    ('ring', 'half', 'x', HALF, {}), ('ring', 'near', 'z', NEAR_TOP, {}))]
INSTANCES += [Inst('tolerance-%s-%d' % (f, k), tolerance, frame=f, how=w) for k, (f, w) in enumerate((
    ('z', [0, -1, 1, None]), ('x', [-1, 0, 0, 1]), ('down', [-1, 0, -1, 1]), ('tilted', [1, -1, -1, 0])))]
INSTANCES += [Inst('bodies-%s-%s' % k, bodies, kinds=k) for k in (('above', 'below'), ('across', 'below'), ('above', 'across'),
                                                                ('across', 'across'), ('across', 'down'), ('on', 'across'))]
INSTANCES += [Inst('near-%s-%d' % (f, k), closed, shape='near', frame=f, how=w, max_paths=20000) for k, (f, w) in enumerate((
    ('z', [-1, None, None, None]), ('z', [1, None, None, None]), ('z', [0, None, -1, None]), ('z', [0, None, 0, None]),
    ('z', [0, None, 1, None]), ('tilted', [0, -1, 1, None])))]
INSTANCES += [Inst('%s-near-%s' % (sh, n), closed, shape=sh, frame=f, how=w, max_paths=20000) for sh, f, n, w in (
    ('box', 'z', 'top', NEAR_TOP), ('box', 'x', 'bottom', NEAR_BOTTOM), ('box', 'z', 'diagonal', NEAR_DIAGONAL),
    ('prism', 'down', 'top', NEAR_TOP), ('prism', 'z', 'bottom', NEAR_BOTTOM), ('pyramid', 'z', 'diagonal', NEAR_DIAGONAL))]
INSTANCES += [Inst('panels-%s-%s' % (n, f), closed, shape='panels', frame=f, how=w, max_paths=5000) for n, f, w in (
    ('level', 'z', LEVEL), ('level', 'tilted', LEVEL), ('trim', 'z', TRIM), ('trim', 'down', TRIM), ('steep', 'x', STEEP),
    ('steep', 'tilted', STEEP), ('many', 'z', MANY))]
INSTANCES += [Inst('%s-thin' % k, closed, shape=k, frame='z', how=UPRIGHT, scale='0.0005') for k in ('box', 'pyramid')]
INSTANCES += [Inst('cavity', shell)]
INSTANCES += [Inst('replaced-' + k, replaced, kind=k) for k in ('other', 'parallel', 'tolerance', 'asserted', 'trusted')]
INSTANCES += [Inst('saddle-%s' % ''.join('-0+'[x + 1] for x in p), saddle, pattern=p) for p in (
    (1, -1, 1, -1), (-1, 1, -1, 1), (1, -1, -1, -1), (0, -1, 1, -1), (0, -1, 0, -1), (-1, -1, -1, -1), (1, 1, 1, -1),
    (0, 1, 0, -1))]
INSTANCES += [Inst('crest-%s' % ''.join('-0+'[x + 1] for x in p), saddle, tier='thorough' if p == (1, -1, 1, -1) else 'quick', time_s=900, pattern=p, centre=-1) for p in (
    (1, -1, 1, -1), (0, -1, 0, -1), (1, -1, -1, 0), (0, 0, -1, -1))]
INSTANCES += [Inst('open-%d' % n, opened, n=n) for n in (1, 2)]
INSTANCES += [Inst('strips-%s%s' % ('-'.join(map(str, n)), '-body' if b else ''), strips, sizes=n, body=b, frame=f) for n, b, f in (
    ((5,), False, 'z'), ((8,), False, 'z'), ((3, 4), False, 'z'), ((6,), True, 'z'), ((2, 5), True, 'z'))]
INSTANCES += [Inst('open-3', opened, n=3, tier='thorough', max_paths=20000, time_s=900)]
INSTANCES += [Inst('open-asserted%s' % n, opened, n=2, ask=k) for n, k in (('', True), ('-later', 'later'), ('-not', 'not'))]
INSTANCES += [Inst('tetra-%s-any' % f, closed, tier='thorough', shape='tetra', frame=f, how=[w, None, None, None],
                   max_paths=20000, time_s=900) for f in ('x', 'down', 'tilted') for w in (-1, 0, 1)]
INSTANCES += [Inst('box-any-' + f, closed, tier='thorough', shape='box', frame=f, how=ANY, max_paths=100000, time_s=1500)
              for f in ('z', 'tilted')]
INSTANCES += [Inst('%s-any' % k, closed, tier='thorough', shape=k, frame='z', how=ANY, max_paths=100000, time_s=1500)
              for k in ('prism', 'pyramid')]
