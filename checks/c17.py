from symx.harness import Inst
from .clipping import *

BOUNDS = ('one triangle or planar convex quadrangle with any heights of its vertices (each within 0.9 of the tolerance of the plane, on it or at more '
          'than 0.002 from it, tolerances up to 0.2), and tetrahedron, parallelepiped, prism and pyramid with any heights within the stated '
          'ranges, for a horizontal, an upside-down, a vertical and a tilted plane; a box with a hole through it, boxes divided in 32 to 88 panels at any height within a row of panels; horizontal positions are fixed')
OUTSIDE = ('floating-point rounding; vertices at about the tolerance from the plane; other shapes; faces lying in the plane (dropped)')

QUADS = [('0', '0'), ('4', '1'), ('5', '5'), ('1', '3')]


def run_clipper(h, s, P, F, **kw):
    m = h.mod('mesh').Mesh(h.arr(P, float), h.arr(F, int))
    return m, h.mod('mesh_clipper').MeshClipper(m, plane=s.plane, **kw)


def one_face(h, n, frame, vertical=False, firsts=(0, 1, 2, 3), fixed=None):
    s = Scene(h, frame, '0.5' if frame != 'z' else '0')
    S = [h.choose('side%d' % i, [-1, 1, 0]) if fixed is None or fixed[i] is None else fixed[i] for i in range(3)]
    Z = [height(h, 'z%d' % i, S[i], '0.01', '2') for i in range(3)]
    xy = [(x, '0' if vertical else y) for x, y in QUADS]
    if n == 4:
        # the last vertex in the plane of the others: p3 = p0 + a (p1 - p0) + b (p2 - p0)
        a, b = frac(h, '-7/15'), frac(h, '7/10')
        if vertical:
            # heights are free along a vertical face: fixed shape, affine heights
            a, b = frac(h, '-7/15'), frac(h, '7/10')
        x = [frac(h, q[0]) for q in xy]
        y = [frac(h, q[1]) for q in xy]
        k = (x[0] + a * (x[1] - x[0]) + b * (x[2] - x[0]), y[0] + a * (y[1] - y[0]) + b * (y[2] - y[0]))
        z3 = Z[0] + a * (Z[1] - Z[0]) + b * (Z[2] - Z[0])
        c = sign(h, z3)
        h.assume(c is not None)
        Z.append(z3)
        S.append(c)
        xy = xy[:3] + [k]
    xy, F = xy[:n], [list(range(n)) + ([0] if n == 3 else [])]
    r = h.choose('first', [x for x in firsts if x < n])
    f = list(range(n))
    f = f[r:] + f[:r]
    F = [f if n == 4 else f + f[:1]]
    if vertical:
        # avoid faces reduced to a line
        d = (Z[1] - Z[0]) * frac(h, '5') - (Z[2] - Z[0]) * frac(h, '4')
        h.assume(h.bor(d >= h.const('0.05'), d <= h.const('-0.05')))
    P = build(h, s, xy, Z)
    if all(x == 1 for x in S) or all(x == -1 for x in S):
        try:
            run_clipper(h, s, P, F)
        except RuntimeError as e:
            h.true(('above' if S[0] > 0 else 'below') in str(e), 'a mesh on one side is refused with the side')
            return
        h.fail('a mesh on one side is refused with the side')
    if all(x == 0 for x in S):
        return
    exp = Expected(h, P, Z, S, F)
    m, c = run_clipper(h, s, P, F)
    verify(h, s, m, c, P, F, Z, exp)


def verify(h, s, m, c, P, F, Z, exp):
    cm = c.clipped_mesh
    V = points(cm)
    compare(h, exp, face_ids(cm), V, 'clipped mesh')
    compare_parts(h, c, P, F, exp)
    h.eq(points(m), P, 'the source mesh is not modified')
    same_ints(h, m.faces, F, 'the source mesh is not modified')
    h.true(c.source_mesh is m, 'source mesh')


def compare_parts(h, c, P, F, exp):
    """lower, crown and upper meshes partition the faces of the source; the clipped crown completes the lower mesh"""
    got = []
    for part in (c.lower_mesh, c.crown_mesh, c.upper_mesh):
        V = points(part)
        got += [[V[i] for i in f] for f in face_ids(part)]
    want = [row_points(P, f) for f in F]
    same_face_sets(h, got, want, 'lower, crown and upper meshes are a partition of the source')
    k = c.clipped_crown_mesh
    V1, V2 = points(c.lower_mesh), points(k)
    f1, f2 = face_ids(c.lower_mesh), face_ids(k)
    compare(h, exp, f1 + [[i + len(V1) for i in f] for f in f2], V1 + V2, 'lower mesh and clipped crown')


def closed(h, shape, frame, how, again=False, scale='1'):
    s, P, Z, S, F = scene(h, shape, frame, how, scale)
    if all(x == 1 for x in S) or all(x == -1 for x in S):
        try:
            run_clipper(h, s, P, F)
        except RuntimeError as e:
            h.true(('above' if S[0] > 0 else 'below') in str(e), 'a mesh on one side is refused with the side')
            return
        h.fail('a mesh on one side is refused with the side')
    exp = Expected(h, P, Z, S, F)
    if again:
        # a clipper whose plane is replaced
        m = h.mod('mesh').Mesh(h.arr(P, float), h.arr(F, int))
        P0 = h.mod('mesh').Plane
        if again == 'other':
            c = h.mod('mesh_clipper').MeshClipper(m, plane=P0([0., 1., 0.], h.const(1)))
        elif again == 'parallel':
            c = h.mod('mesh_clipper').MeshClipper(m, plane=P0([float(x) for x in s.n], s.c + h.real('offset', '0.05', '0.15')))
        else:
            c = h.mod('mesh_clipper').MeshClipper(m, plane=s.plane, vicinity_tol=h.const('2.5'))
            c.vicinity_tol = 1e-3
        c.plane = s.plane
    else:
        try:
            m, c = run_clipper(h, s, P, F)
        except RuntimeError as e:
            # only touching the plane: may be refused as being on one side
            h.true(not any(exp.cycles) and 'above' in str(e), 'a mesh that crosses the plane is not refused')
            return
    verify(h, s, m, c, P, F, Z, exp)


def tolerance(h, frame, how):
    """vertices taken as lying on the plane, for any tolerance given"""
    t = h.real('tol', '1e-6', '0.2')
    s, P, Z, S, F = tetra_scene(h, frame, how, near=t)
    exp = Expected(h, P, Z, S, F)
    m, c = run_clipper(h, s, P, F, vicinity_tol=t)
    h.eq(c.vicinity_tol, t, 'tolerance')
    verify(h, s, m, c, P, F, Z, exp)


def two_parts(h, kinds):
    """separate tetrahedra, each above, below or across"""
    s = Scene(h)
    xy, F0 = TETRA
    P, Z, S, F = [], [], [], []
    for k, kind in enumerate(kinds):
        for i in range(4):
            side = {'above': 1, 'below': -1, 'across': 1 if i == 3 else -1}[kind]
            Z.append(height(h, 'z%d%d' % (k, i), side))
            S.append(side)
        P += build(h, s, [(str(int(x) + 20 * k), str(int(y) + 11 * k)) for x, y in xy], Z[-4:])
        F += [[i + 4 * k for i in f] for f in F0]
    exp = Expected(h, P, Z, S, F)
    m, c = run_clipper(h, s, P, F)
    verify(h, s, m, c, P, F, Z, exp)


def shallow(h):
    """a planar quadrangle whose vertices may lie within the tolerance of the plane"""
    s = Scene(h)
    z = [h.real('z%d' % i, '-0.003', '0.003') for i in range(3)]
    Z = z[:2] + [z[2], z[0] + z[2] - z[1]]
    P = build(h, s, [('0', '0'), ('4', '1'), ('5', '5'), ('1', '4')], Z)
    for x in Z:
        # a clear side of the tolerance, or on the tolerance itself
        h.assume(h.bor(x >= h.const('0.0011'), x <= h.const('-0.0011'),
                       h.band(x >= h.const('-0.0009'), x <= h.const('0.0009')), x == h.const('0.001')))
    try:
        m, c = run_clipper(h, s, P, [[0, 1, 2, 3]])
    except RuntimeError as e:
        up = all(bool(x >= h.const('0.001')) for x in Z)
        down = all(bool(x <= h.const('-0.001')) for x in Z)
        h.true((up and 'above' in str(e)) or (down and 'below' in str(e)), 'only a mesh on one side is refused')
        return
    V = points(c.clipped_mesh)
    for f in face_ids(c.clipped_mesh):
        for i in f:
            h.le(V[i][2], h.const('0.0010001'), 'faces kept are below the plane within the tolerance')
    below = [i for i in range(4) if bool(Z[i] <= h.const('-0.0011'))]
    used = [V[i] for f in face_ids(c.clipped_mesh) for i in f]
    for i in below:
        h.true(h.bor(*[close_point(h, P[i], q, None) for q in used]) if used else False,
               'a vertex below the plane belongs to a face kept')


ALL = [None] * 4
UNDER = [-1, None, None, None]
INSTANCES = [Inst('triangle-' + f, one_face, n=3, frame=f, max_paths=5000) for f in FRAMES]
INSTANCES += [Inst('quad-' + f, one_face, n=4, frame=f, max_paths=5000) for f in FRAMES if f != 'tilted']
INSTANCES += [Inst('quad-tilted-%d' % r, one_face, tier='thorough', n=4, frame='tilted', firsts=(r,), max_paths=5000,
                   time_s=900) for r in range(4)]
INSTANCES += [Inst('quad-tilted', one_face, n=4, frame='tilted', firsts=(0,), fixed=(-1, 1, None), max_paths=5000)]
INSTANCES += [Inst('wall-%d' % n, one_face, n=n, frame='z', vertical=True, max_paths=5000) for n in (3, 4)]
INSTANCES += [Inst('wall-%d-%s' % (n, f), one_face, tier='thorough', n=n, frame=f, vertical=True, max_paths=5000, time_s=600)
              for n in (3, 4) for f in ('x', 'down')]
INSTANCES += [Inst('tetra-z', closed, shape='tetra', frame='z', how=ALL, max_paths=20000),
              Inst('tetra-tilted', closed, shape='tetra', frame='tilted', how=[-1, -1, 1, None], max_paths=20000),
              Inst('tetra-tilted-under', closed, tier='thorough', shape='tetra', frame='tilted', how=UNDER, max_paths=20000,
                   time_s=900),
              Inst('tetra-tilted-over', closed, tier='thorough', shape='tetra', frame='tilted', how=[1, None, None, None],
                   max_paths=20000, time_s=900),
              Inst('tetra-tilted-on', closed, tier='thorough', shape='tetra', frame='tilted', how=[0, None, None, None],
                   max_paths=20000, time_s=900)]
INSTANCES += [Inst('%s-%s' % (sh, n), closed, shape=sh, frame=f, how=r, max_paths=20000) for sh, n, f, r in (
    ('box', 'upright', 'z', UPRIGHT), ('box', 'tilted', 'tilted', UPRIGHT), ('box', 'down', 'down', UPRIGHT),
    ('box', 'flattop', 'z', FLAT_TOP), ('box', 'flatbottom', 'z', FLAT_BOTTOM), ('box', 'half', 'x', HALF),
    ('box', 'diagonal', 'z', DIAGONAL), ('box', 'corner', 'z', CORNER), ('prism', 'upright', 'z', UPRIGHT),
    ('pyramid', 'upright', 'z', UPRIGHT), ('pyramid', 'corner', 'z', CORNER), ('ring', 'upright', 'z', UPRIGHT),
    ('ring', 'tilted', 'tilted', [('-2', '-1'), '0.1', ('-0.2', '-0.1'), '3']), ('ring', 'half', 'x', HALF), ('ring', 'near', 'z', NEAR_TOP))]
INSTANCES += [Inst('near-%s-%d' % (f, k), closed, shape='near', frame=f, how=w, max_paths=20000) for k, (f, w) in enumerate((
    ('z', [-1, None, None, None]), ('z', [1, None, None, None]), ('z', [0, None, -1, None]), ('z', [0, None, 0, None]),
    ('z', [0, None, 1, None]), ('tilted', [0, -1, 1, None])))]
INSTANCES += [Inst('%s-near-%s' % (sh, n), closed, shape=sh, frame=f, how=w, max_paths=20000) for sh, f, n, w in (
    ('box', 'z', 'top', NEAR_TOP), ('box', 'x', 'bottom', NEAR_BOTTOM), ('box', 'z', 'diagonal', NEAR_DIAGONAL),
    ('prism', 'down', 'top', NEAR_TOP), ('prism', 'z', 'bottom', NEAR_BOTTOM), ('pyramid', 'z', 'diagonal', NEAR_DIAGONAL))]
INSTANCES += [Inst('panels-%s-%s' % (n, f), closed, shape='panels', frame=f, how=w, max_paths=5000) for n, f, w in (
    ('level', 'z', LEVEL), ('level', 'tilted', LEVEL), ('trim', 'z', TRIM), ('trim', 'down', TRIM), ('steep', 'x', STEEP),
    ('steep', 'tilted', STEEP), ('many', 'z', MANY))]
INSTANCES += [Inst('%s-thin' % k, closed, shape=k, frame='z', how=UPRIGHT, scale='0.0005') for k in ('box', 'pyramid')]
INSTANCES += [Inst('replaced-' + k, closed, shape='pyramid', frame='z', how=UPRIGHT, again=k)
              for k in ('other', 'parallel', 'tolerance')]
INSTANCES += [Inst('parts-%s-%s' % k, two_parts, kinds=k) for k in (('above', 'below'), ('across', 'below'), ('above', 'across'),
                                                                   ('across', 'across'))]
INSTANCES += [Inst('tolerance-%s-%d' % (f, k), tolerance, frame=f, how=w) for k, (f, w) in enumerate((
    ('z', [0, -1, 1, None]), ('x', [-1, 0, 0, 1]), ('down', [-1, 0, -1, 1]), ('tilted', [1, -1, -1, 0])))]
INSTANCES += [Inst('shallow', shallow, max_paths=5000)]
INSTANCES += [Inst('box-any-' + f, closed, tier='thorough', shape='box', frame=f, how=ANY, max_paths=100000, time_s=1500)
              for f in ('z', 'tilted')]
INSTANCES += [Inst('%s-any' % k, closed, tier='thorough', shape=k, frame='z', how=ANY, max_paths=100000, time_s=1500)
              for k in ('prism', 'pyramid')]
INSTANCES += [Inst('pyramid-tilted', closed, tier='thorough', shape='pyramid', frame='tilted', how=UPRIGHT, max_paths=100000,
                   time_s=1500)]
