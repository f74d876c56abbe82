import warnings

from .formats import *
from .clipping import Scene, BOX, PRISM
from .c21 import box_hull, wedge_hull, ROT
from .c22 import World, unit_box

BOUNDS = ('boxes and wedges of any dimensions, position and draught in the stated ranges for the queries, the clipping and the '
          'hydrostatics; up to three positions of the solvers of equilibrium')
OUTSIDE = ('writers (C04); show, quick_save and print_quality; attributes that start with an underscore, unless they '
           'change what a public one gives')
ASSUMPTIONS = ['the hydrostatic quantities the solvers receive are those of property C21']


def snap(a):
    return [list(r) for r in a]


def hull(h, kind):
    xy, Z, S, F = box_hull(h) if kind == 'box' else wedge_hull(h)
    P = [[x, y, z] for (x, y), z in zip(xy, Z)]
    return P, F, h.mod('mesh').Mesh(h.arr(P, float), h.arr(F, int))


def ints(a):
    return [[int(i) for i in f] for f in a]


def shown(m):
    """what the mesh says about itself"""
    return dict(vertices=snap(m.vertices), areas=list(m.faces_areas), normals=snap(m.faces_normals), centers=snap(m.faces_centers),
                box=list(m.axis_aligned_bbox), volume=m.volume), \
        dict(faces=ints(m.faces), triangles=sorted(int(i) for i in m.triangles_ids), quadrangles=sorted(int(i) for i in m.quadrangles_ids),
             closed=bool(m.is_mesh_closed()), neighbours=[sorted(int(j) for j in m.vv[i]) for i in range(int(m.nb_vertices))],
             around=[sorted(int(j) for j in m.vf[i]) for i in range(int(m.nb_vertices))], boundaries=int(m.nb_boundaries),
             sizes=(int(m.nb_vertices), int(m.nb_faces)), name=str(m.name))


def same_state(h, a, b, what):
    for k in a[0]:
        h.eq(a[0][k], b[0][k], '%s: %s' % (what, k))
    for k in a[1]:
        h.true(a[1][k] == b[1][k], '%s: %s' % (what, k))


def given(h, m, P, F, what):
    """the mesh is the one that was built of P and F"""
    h.true(int(m.nb_vertices) == len(P) and int(m.nb_faces) == len(F), what + ': sizes')
    h.eq(snap(m.vertices), P, what + ': vertices')
    h.true(ints(m.faces) == F, what + ': faces')
    fresh = h.mod('mesh').Mesh(h.arr(P, float), h.arr(F, int), name=m.name)
    same_state(h, shown(m), shown(fresh), what)


def clip(h, m, **k):
    return h.mod('mesh_clipper').MeshClipper(m, **k)


def extract(h, m):
    q = m.extract_faces([0, 2])
    q.flip_normals()
    q.translate([1, 2, 3])
    r = m.extract_faces([4, 1, 3], return_index=True)
    return q, r


def plus(h, m):
    n = m + m.copy()
    n.translate_x(20)
    n.flip_normals()
    return n


def moved_clip(h, m):
    c = clip(h, m)
    c.vicinity_tol = 1e-4
    c.plane = h.mod('mesh').Plane([0, 0, 1], 0)
    for q in (c.clipped_mesh, c.upper_mesh, c.lower_mesh, c.crown_mesh, c.clipped_crown_mesh):
        if q is not None and q.nb_faces:
            q.translate([1, 2, 3])
            q.flip_normals()


def copied(h, m):
    n = m.copy()
    n.rotate_matrix(h.arr([[0, -1, 0], [1, 0, 0], [0, 0, 1]], float))
    n.flip_normals()
    n.triangulate_quadrangles()
    n.translate_z(3)


def inertias(h, m):
    a = m.eval_plain_mesh_inertias(1025.)
    a.reduction_point = [1., 2., 3.]
    m.eval_shell_mesh_inertias(7850., 0.01)


QUERIES = {
    'sizes, text': lambda h, m: (str(m), m.nb_vertices, m.nb_faces, m.nb_triangles, m.nb_quadrangles, m.id, m.name, repr(m.verbose)),
    'faces': lambda h, m: (m.faces_normals, m.faces_areas, m.faces_centers, m.triangles_ids, m.quadrangles_ids, m.is_triangle(0),
                           m.get_face(1), m.get_face(0)),
    'neighbours': lambda h, m: (m.vv, m.vf, m.ff, m.boundaries, m.nb_boundaries, m.is_mesh_closed()),
    'boxes': lambda h, m: (m.axis_aligned_bbox, m.squared_axis_aligned_bbox),
    'integrals': lambda h, m: (m.get_surface_integrals(), m.volume, m.has_surface_integrals()),
    'inertias': inertias,
    'edges': lambda h, m: (m.min_edge_length, m.max_edge_length, m.mean_edge_length),
    'extraction': extract,
    'copy': copied,
    'addition': plus,
    'clipping': moved_clip,
}


def query(h, kind, what, first):
    P, F, m = hull(h, kind)
    if first:
        before = shown(m)
    QUERIES[what](h, m)
    if first:
        same_state(h, shown(m), before, 'after ' + what)
    given(h, m, P, F, 'after ' + what)


def hydro(h, rot, at_cog):
    P = [[h.const(x), h.const(y), h.const(z)] for z in (-1, 1) for x, y in ((-2, '-1.5'), (3, '-1.5'), (3, 2), (-2, 2))]
    m = h.mod('mesh').Mesh(h.arr(P, float), h.arr(BOX, int))
    C = [h.real('g' + c, '0.5', '1.5') for c in 'xyz']
    cog = h.arr(C, float)
    R = [[h.const(a) / h.const(b) for a, b in [(str(x).split('/') + ['1'])[:2] for x in r]] for r in ROT[rot]]
    A = h.arr(R, float)
    d = h.mod('hydrostatics').compute_hydrostatics(m, cog, h.real('rho', 1000, 1050), h.const('9.81'), rotmat_corr=A,
                                                   z_corr=h.real('dz', '-0.02', '-0.01'), at_cog=at_cog)
    h.true(bool(d['disp_volume'] > 0), 'hydrostatics: a floating hull')
    h.eq(list(cog), C, 'hydrostatics: centre of gravity given')
    h.eq(snap(A), R, 'hydrostatics: rotation given')
    given(h, m, P, BOX, 'hydrostatics: mesh given')


def outside(h, side, kind):
    """a hull above or below the water, or the clipping plane, is refused and left where it was"""
    P, F, m = hull(h, kind)
    C = [h.const(1), h.const(1), h.const(0)]
    cog = h.arr(C, float)
    dz = h.real('dz', '1.5', 3)
    dz = dz if side == 'above' else -dz
    for k in range(2):
        try:
            h.mod('hydrostatics').compute_hydrostatics(m, cog, h.const(1025), h.const('9.81'), z_corr=dz)
            h.fail('a hull out of the water is refused')
        except RuntimeError:
            pass
        try:
            clip(h, m, plane=h.mod('mesh').Plane([0, 0, 1], -dz))
            h.fail('a mesh that does not cross the plane is refused')
        except RuntimeError:
            pass
        h.eq(list(cog), C, 'centre of gravity given')
        given(h, m, P, F, 'hull refused')


def touching(h, n):
    """vertices close to the plane, not on it"""
    P = [[h.const(x), h.const(y), h.const(z)] for z in (-1, 1) for x, y in ((0, 0), (3, 0), (3, 2), (0, 2))]
    for k in range(4, 4 + n):
        P[k][2] = h.real('z%d' % k, '-0.0008', '0.0008')
    m = h.mod('mesh').Mesh(h.arr(P, float), h.arr(BOX, int))
    clip(h, m)
    given(h, m, P, BOX, 'mesh clipped')


def solver(h, which, n, mode='all'):
    m, zmin, zmax, P, F = unit_box(h)
    P = [[h.const(0) + x for x in p] for p in P]
    C = [h.const(0), h.const(0), h.real('gz', '0.5', '1.5')] if mode == 'heave' else [h.real('g' + c, '0.5', '1.5') for c in 'xyz']
    cog = h.arr(C, float)
    W = World(h, n, full=which == 'full', mode=mode)
    hs = h.mod('hydrostatics')
    h.stub(hs, 'compute_hydrostatics', W)
    target = h.real('target', '0.001', '0.5')
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if which == 'full':
            h.stub(hs, 'displacement_equilibrium', lambda *a, **k: h.const(0))
            hs.full_equilibrium(m, cog, target, h.const(1), h.const('9.81'))
        else:
            hs.displacement_equilibrium(m, target, h.const(1), h.const('9.81'), cog=cog)
    h.eq(list(cog), C, which + ': centre of gravity given')
    h.eq(snap(m.vertices), P, which + ': mesh given')
    h.true(ints(m.faces) == F, which + ': mesh given, faces')


# what the operations are given besides the mesh
def vector(h, op):
    P, F, m = hull(h, 'wedge')
    T = [h.real('t' + c, -3, 3) for c in 'xyz']
    a = h.arr(T, float)
    if op == 'rotate':
        T = [h.const(x) for x in ('0.5', '-0.25', '1')]
        a = h.arr(T, float)
    if op == 'rotate_matrix':
        R = [[0, -1, 0], [1, 0, 0], [0, 0, 1]]
        a = h.arr(R, float)
        m.rotate_matrix(a)
        h.eq(snap(a), [[h.const(x) for x in r] for r in R], op + ': matrix given')
        return
    getattr(m, op)(a)
    h.eq(list(a), T, op + ': vector given')


def about(pl, pts):
    return [list(pl.normal), pl.c, snap(pl.coord_in_plane(pts)), list(pl.get_point_dist_wrt_plane(pts))]


def plane_kept(h, op, n):
    """a plane that is used is not changed, nor are the points it is asked about"""
    M = h.mod('mesh')
    c = h.real('c', '-0.3', '0.3')
    pl = M.Plane(n, c)
    P, F, m = hull(h, 'box')
    Q = [[h.const(3), h.const(-1), h.const(2)], [h.real('q' + k, -5, 5) for k in 'xyz']]
    pts = h.arr(Q, float)
    before = about(pl, pts)
    if op == 'clip':
        try:
            k = clip(h, m, plane=pl)
            k.vicinity_tol = 1e-4
        except RuntimeError:
            pass
        given(h, m, P, F, 'mesh clipped')
    elif op == 'points':
        pl.orthogonal_projection_on_plane(pts)
        pl.coord_in_plane(pts)
        pl.get_point_dist_wrt_plane(pts)
        pl.get_origin()
        pl.get_normal_orientation_wrt_z()
        str(pl)
    elif op == 'edge':
        try:
            pl.get_edge_intersection(pts[0], pts[1])
        except RuntimeError:
            pass
    else:
        getattr(m, op)(pl)
    h.eq(snap(pts), Q, op + ': points given')
    h.eq(about(pl, pts), before, op + ': plane given')


def matrices(h, which):
    """rotations and tools"""
    rt, tools = h.mod('rotations'), h.mod('tools')
    if which == 'merge':
        P = spread(h, 5)
        P[3] = list(P[1])
        a = h.arr(P, float)
        tools.merge_duplicate_rows(a)
        tools.merge_duplicate_rows(a, return_index=True)
        h.eq(snap(a), P, 'rows given')
    elif which == 'to angles':
        R = h.choose('R', sorted(ROT))
        R = [[h.const(a) / h.const(b) for a, b in [(str(x).split('/') + ['1'])[:2] for x in r]] for r in ROT[R]]
        a = h.arr(R, float)
        rt.rotmat_to_cardan(a)
        h.eq(snap(a), R, 'matrix given')


def T(name, fn, **k):
    return Inst(name, fn, **k)


INSTANCES = []
for _k in ('box', 'wedge'):
    for _w in sorted(QUERIES):
        if _w == 'edges' and _k == 'wedge':
            continue
        for _f in (0, 1):
            INSTANCES.append(T('%s / %s / %s' % (_w, _k, 'again' if _f else 'first'), query, kind=_k, what=_w, first=_f,
                               bound='any %s of the ranges' % _k))
for _r in sorted(ROT):
    for _a in (False, True):
        INSTANCES.append(T('hydrostatics / %s / %s' % (_r, 'centre' if _a else 'origin'), hydro, rot=_r, at_cog=_a, bound='any box of the ranges'))
for _s in ('above', 'below'):
    for _k in ('box', 'wedge'):
        INSTANCES.append(T('refused / %s / %s' % (_s, _k), outside, side=_s, kind=_k, bound='any %s of the ranges' % _k))
for _n in (1, 2, 4):
    INSTANCES.append(T('near the plane / %d' % _n, touching, n=_n, bound='up to 4 vertices within the tolerance of the plane'))
INSTANCES += [T('solver / displacement', solver, which='displacement', n=3, bound='3 positions'),
              T('solver / full', solver, which='full', n=1, bound='1 position'),
              T('solver / full, heave', solver, which='full', n=2, mode='heave', bound='2 positions')]
for _o in ('translate', 'rotate', 'rotate_matrix'):
    INSTANCES.append(T('vector / ' + _o, vector, op=_o, bound='any wedge of the ranges'))
for _o in ('clip', 'points', 'edge', 'symmetrize', 'mirror'):
    for _n in ([0, 0, 1], [0, 0, 2], [0.6, 0, 0.8], [0, -1, 0]):
        INSTANCES.append(T('plane / %s / %s' % (_o, _n), plane_kept, op=_o, n=_n, bound='any offset'))
for _o in ('merge', 'to angles'):
    INSTANCES.append(T('tools / ' + _o, matrices, which=_o, bound='5 rows'))
