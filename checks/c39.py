import contextlib
import io

from .formats import *
from .clipping import BOX, PRISM
from .c21 import box_hull, wedge_hull, ROT
from .c38 import shown, same_state, given, snap, ints
from .c05 import main
from . import c03, c25

BOUNDS = ('two or three objects made from the same arrays, from each other or by default, and one operation of the list on one of '
          'them, for boxes and wedges of any dimensions in the stated ranges; two successive readings of a file and two '
          'successive commands')
OUTSIDE = ('more than one operation between two observations; writing into the arrays an object gives access to, except those of the '
           'results of compute_hydrostatics and of the readers; threads')
ASSUMPTIONS = ['gmshparser and argparse are executed as installed']


def hull(h, kind):
    xy, Z, S, F = box_hull(h) if kind == 'box' else wedge_hull(h)
    return [[x, y, z] for (x, y), z in zip(xy, Z)], F


QUARTER = [[0, -1, 0], [1, 0, 0], [0, 0, 1]]


def inplace(h, m):
    m.vertices[0, :] = [7., 8., 9.]
    m.vertices[1:, 2] += 2
    m.faces[0, :] = m.faces[0, ::-1].copy()


OPS = {
    'translate': lambda h, m: m.translate([1, 2, 3]),
    'translate_z': lambda h, m: m.translate_z(h.const('0.5')),
    'rotate_matrix': lambda h, m: m.rotate_matrix(h.arr(QUARTER, float)),
    'rotate_x': lambda h, m: m.rotate_x(h.pi() / 2 if callable(h.pi) else h.pi / 2),
    'scale': lambda h, m: m.scale(3),
    'scaley': lambda h, m: m.scaley(2),
    'flip_normals': lambda h, m: m.flip_normals(),
    'triangulate': lambda h, m: m.triangulate_quadrangles(),
    'symmetrize': lambda h, m: m.symmetrize(h.mod('mesh').Plane([0, 1, 0], 0)),
    'mirror': lambda h, m: m.mirror(h.mod('mesh').Plane([0, 0, 1], 0)),
    'merge': lambda h, m: m.merge_duplicates(atol=1e-3),
    'unused': lambda h, m: m.remove_unused_vertices(),
    'triangles': lambda h, m: m.heal_triangles(),
    'normals': lambda h, m: m.heal_normals(),
    'vertices': lambda h, m: setattr(m, 'vertices', h.arr([[1, 2, 3]] * 8, float)),
    'faces': lambda h, m: setattr(m, 'faces', h.arr([[0, 1, 2, 3]], int)),
    'name': lambda h, m: setattr(m, 'name', 'another'),
    'in place': inplace,
}


def twins(h, kind, op, known):
    """meshes built from the same arrays, copies of each other"""
    M = h.mod('mesh')
    P, F = hull(h, kind)
    V, A = h.arr(P, float), h.arr(F, int)
    one = M.Mesh(V, A, name='one')
    if known:
        shown(one)
        one.get_surface_integrals()
    two = M.Mesh(V, A, name='two')
    three = one.copy()
    four = two.copy()
    if known:
        shown(three)
        shown(two)
    order = h.choose('changed', [0, 1, 2, 3])
    all4 = [one, two, three, four]
    names = [str(m.name) for m in all4]
    OPS[op](h, all4[order])
    h.eq(snap(V), P, 'the array of vertices the meshes were made of')
    h.true(ints(A) == F, 'the array of faces the meshes were made of')
    for k, m in enumerate(all4):
        if k != order:
            given(h, m, P, F, 'another mesh')
            h.true(str(m.name) == names[k], 'another mesh: name')


def arrays(h, kind, how):
    """the arrays are modified after the mesh was made"""
    M = h.mod('mesh')
    P, F = hull(h, kind)
    V, A = h.arr(P, float), h.arr(F, int)
    if how == 'made':
        m = M.Mesh(V, A)
    else:
        m = M.Mesh(h.arr([[0, 0, 0], [1, 0, 0], [0, 1, 0]], float), h.arr([[0, 1, 2, 0]], int))
        m.vertices = V
        m.faces = A
    V[0, :] = [7., 8., 9.]
    V[:, 1] += 1
    A[:, :] = 0
    given(h, m, P, F, 'mesh made of arrays modified since')


def sums(h, op, part):
    """A + B and its terms"""
    M = h.mod('mesh')
    P, F = hull(h, 'wedge')
    Q = [[x + 20, y, z] for x, y, z in P]
    a, b = M.Mesh(h.arr(P, float), h.arr(F, int)), M.Mesh(h.arr(Q, float), h.arr(F, int))
    if part == 'known':
        shown(a)
        shown(b)
    c = a + b
    before = shown(c)
    d = [a, b, c][h.choose('changed', [0, 1, 2])]
    OPS[op](h, d)
    for m, p in ((a, P), (b, Q)):
        if m is not d:
            given(h, m, p, F, 'a term of the sum')
    if c is not d:
        same_state(h, shown(c), before, 'the sum')


def nameless(m):
    a, b = shown(m)
    b.pop('name')
    return a, b


def parts(h, kind, op, which):
    """what is extracted or clipped, and what it comes from"""
    P, F = hull(h, kind)
    m = h.mod('mesh').Mesh(h.arr(P, float), h.arr(F, int))
    clipper = h.mod('mesh_clipper').MeshClipper
    if 'extracted' in which:
        ids = list(range(len(F))) if which == 'all extracted' else [0, 2, 3]
        q = m.extract_faces(ids)
        r = m.extract_faces(ids)
    else:
        q, r = (getattr(c, which) for c in (clipper(m), clipper(m)))
    if q is None or not int(q.nb_faces):
        h.true(True, 'no such part')
        return
    before = nameless(r)
    d = h.choose('changed', ['part', 'source'])
    OPS[op](h, q if d == 'part' else m)
    same_state(h, nameless(r), before, 'the other part')
    if d == 'part':
        given(h, m, P, F, 'the source')
        s = m.extract_faces(ids) if 'extracted' in which else getattr(clipper(m), which)
        same_state(h, nameless(s), before, 'the part taken again')


def near_z0(h, kind):
    P, F = hull(h, kind)
    return h.mod('mesh').Mesh(h.arr(P, float), h.arr(F, int)), P, F


CHANGES = {
    'none': lambda h, p: None,
    'c': lambda h, p: setattr(p, 'c', h.const('0.25')),
    'normal': lambda h, p: setattr(p, 'normal', [1, 0, 0]),
    'flip': lambda h, p: p.flip_normal(),
    'rotate': lambda h, p: p.rotate_normal(h.const('0.25'), h.const(0)),
    'angles': lambda h, p: p.set_normal_from_angles(h.const('0.25'), h.const(0)),
    'parameters': lambda h, p: p.set_plane_parameters(h.const('0.25'), h.const(0), h.const(0)),
}


def default_plane(h, kind, change):
    """the clipping plane by default is z = 0, whatever happened to the plane of another clipper"""
    m, P, F = near_z0(h, kind)
    M, clipper = h.mod('mesh'), h.mod('mesh_clipper').MeshClipper
    want = clipper(m, plane=M.Plane([0, 0, 1], 0))
    CHANGES[change](h, clipper(m).plane)
    got = clipper(m)
    h.eq(list(got.plane.normal), [0, 0, 1], 'plane by default')
    h.eq(got.plane.c, 0, 'plane by default')
    same_state(h, nameless(got.clipped_mesh), nameless(want.clipped_mesh), 'part below the plane by default')
    h.true(len(got.closed_polygons) == len(want.closed_polygons), 'polygons')


def default_hydro(h, change, again):
    """hydrostatics by default, whatever happened to the plane of a clipper and to earlier results"""
    m, P, F = near_z0(h, 'box')
    hs, np = h.mod('hydrostatics'), h.np
    C = [h.const(2), h.const(2), h.const('0.25')]
    cog = h.arr(C, float)
    kw = {} if again != 'rotation' else dict(rotmat_corr=h.arr([[1, 0, 0], [0, 1, 0], [0, 0, 1]], float))
    before = hs.compute_hydrostatics(m, cog, h.const(1025), h.const('9.81'), **kw)
    values = dict((k, kept(v)) for k, v in before.items() if k != 'mesh')
    if change:
        CHANGES[change](h, h.mod('mesh_clipper').MeshClipper(m).plane)
    if again:
        for k, v in before.items():
            if hasattr(v, 'shape') and v.shape:
                v *= 2
                v += 1
        before['mesh'].translate([1, 2, 3])
        before['mesh'].flip_normals()
    given(h, m, P, F, 'mesh given')
    h.eq(list(cog), C, 'centre of gravity given')
    if kw:
        h.eq(snap(kw['rotmat_corr']), [[1, 0, 0], [0, 1, 0], [0, 0, 1]], 'rotation given')
    after = hs.compute_hydrostatics(m, cog, h.const(1025), h.const('9.81'), **kw)
    h.true(sorted(after) == sorted(before), 'same quantities')
    for k in values:
        if isinstance(values[k], (bool, str)) or values[k] is None:
            h.true(after[k] == values[k], 'computed again: ' + k)
        else:
            h.eq(kept(after[k]), values[k], 'computed again: ' + k)


def kept(v):
    if hasattr(v, 'shape') and v.shape:
        return snap(v) if len(v.shape) == 2 else list(v)
    return v


def inertia_state(I):
    return [I.mass, list(I.gravity_center), list(I.reduction_point), snap(I.inertia_matrix), I.xx, I.yy, I.zz, I.yz, I.xz, I.xy]


def inertia(h, what):
    """inertias made of the same arrays, or of each other"""
    R = h.mod('inertia').RigidBodyInertia
    G = [h.real('g' + c, -3, 3) for c in 'xyz']
    Q = [h.real('q' + c, -3, 3) for c in 'xyz']
    J = [h.real('J%d' % k, 1, 3) for k in range(6)]
    g, q = h.arr(G, float), h.arr(Q, float)
    mass = h.real('m', 1, 5)
    a = R(mass, g, *J, point=q)
    b = R(mass, g, *J)
    c = R(mass, G, *J, point=Q)
    if what == 'set':
        for x in (a, b, c):
            x.set_cog(g)
            x.reduction_point = q
    objs = [a, b, c, a.at_cog]
    before = [inertia_state(x) for x in objs]
    changed = []
    how = h.choose('changed', ['cog', 'point', 'set_cog', 'reduction_point', 'shift'])
    if how == 'cog':
        g[0] = 7.
        g += 1
    elif how == 'point':
        q[1] = 7.
        q *= 2
    else:
        k = h.choose('object', [0, 1, 2, 3])
        changed = [k]
        if how == 'set_cog':
            objs[k].set_cog([h.const(1), h.const(2), h.const(4)])
        elif how == 'reduction_point':
            objs[k].reduction_point = [h.const(1), h.const(2), h.const(4)]
        else:
            objs[k].shift_at_cog()
    for k, x in enumerate(objs):
        if k not in changed:
            h.eq(inertia_state(x), before[k], 'inertia %d' % k)
    if how not in ('cog', 'point'):
        h.eq([list(g), list(q)], [G, Q], 'arrays given')


def plane_state(pl, pts):
    return [list(pl.normal), pl.c, snap(pl.coord_in_plane(pts))]


def planes(h, change, n):
    """planes made of the same array, or by default"""
    M = h.mod('mesh')
    a = h.arr(n, float)
    c = h.real('c', -1, 1)
    two = [M.Plane(a, c), M.Plane(a, c), M.Plane(), M.Plane()]
    pts = h.arr([[h.real('q' + k, -5, 5) for k in 'xyz']], float)
    before = [plane_state(p, pts) for p in two]
    k = h.choose('changed', [0, 2, 4])
    if k == 4:
        a[0] = 7.
    else:
        CHANGES[change](h, two[k])
    for j, p in enumerate(two):
        if j != k:
            h.eq(plane_state(p, pts), before[j], 'another plane')
    if k != 4:
        h.eq(list(a), [h.const(x) for x in n], 'the array the planes were made of')
    fresh = M.Plane()
    h.eq(list(fresh.normal), [0, 0, 1], 'plane by default')
    h.eq(fresh.c, 0, 'plane by default')


def densities(h):
    d = h.mod('densities')
    names = list(d.list_medium())
    values = [d.get_density(n) for n in names]
    l = d.list_medium()
    l.append('NOTHING')
    l.remove(names[0])
    for n in ('nothing', 'no such medium'):
        try:
            d.get_density(n)
            h.fail('an unknown medium is refused')
        except KeyError:
            pass
    h.true(list(d.list_medium()) == names, 'list of the mediums')
    h.eq([d.get_density(n) for n in names], values, 'densities')


# readers -----------------------------------------------------------------------------------------------------------
class Twice(object):
    """the harness of C03; every file is read, what was read is spoilt, and the file is read again"""
    def __init__(self, h, choices):
        self.h, self.choices = h, choices

    def __getattr__(self, n):
        return getattr(self.h, n)

    def choose(self, name, options):
        options = list(options)
        if name in self.choices:
            options = [options[i] for i in self.choices[name] if i < len(options)]
        elif name == 'notation':
            options = options[:1]
        return self.h.choose(name, options)

    def mod(self, name):
        m = self.h.mod(name)
        return Reader(self.h, m) if name == 'mmio' else m


class Reader(object):
    def __init__(self, h, m):
        self.h, self.m = h, m

    def load_mesh(self, name, fmt):
        h = self.h
        V, F = self.m.load_mesh(name, fmt)
        v, f = snap(V), ints(F)
        V2, F2 = self.m.load_mesh(name, fmt)
        V2 *= 2
        F2[:, :] = 0
        V3, F3 = self.m.load_mesh(name, fmt)
        for a, b, what in ((V, F, 'mesh read first'), (V3, F3, 'mesh read again')):
            h.true(tuple(a.shape) == (len(v), 3) and tuple(b.shape) == (len(f), 4), what + ': sizes')
            h.eq(snap(a), v, what + ': vertices')
            h.true(ints(b) == f, what + ': faces')
        return V3, F3


def reading(h, source, choices={}, **k):
    source(Twice(h, choices), **k)


def commands(h, first, second):
    """a command gives what it gives alone, whatever was run before in the same process"""
    P, name = c25.inputs(h)
    cli = dict(scale=['--scale', '2'], translatex=['-tx', '3'], flip=['-fn'], swap=['--flip-normals', '-tq'], plane=['-p', '0', '0', '1', '0', '-sym', '0'],
               other=['-p', 'Oxz', '-p', '1', '0', '0', '0', '--mirror', '1'], none=[])
    V0, F0 = c25.run(h, cli[second], name, out='o1.mar')
    v, f = snap(V0), ints(F0)
    if first is not None:
        c25.run(h, cli[first], name, out='o2.mar')
    V1, F1 = c25.run(h, cli[second], name, out='o3.mar')
    h.true(tuple(V1.shape) == (len(v), 3) and tuple(F1.shape) == (len(f), 4), 'second command: sizes')
    h.eq(snap(V1), v, 'second command: vertices')
    h.true(ints(F1) == f, 'second command: faces')


REFUSED = dict(index=['-p', 'Oxz', '--mirror', '1'], undefined=['--mirror', '0'], clip=['-p', 'Oyz', '-c', '2'], density=['-hs', '-zg'],
               none=['-sym', '1'])


def after(h, first, second):
    """a request that is refused alone is refused after another command, one that is not still is not"""
    P, name = c25.inputs(h)
    a = [name, '-q', '-o', h.path('o1.mar')] + REFUSED[second]
    with contextlib.redirect_stderr(io.StringIO()):
        h.true(main(h, a) is not None, 'the request alone is refused')
    c25.run(h, ['-p', 'Oxy', '-p', 'Oyz', '-p', '0', '1', '0', '2', '--mirror', '2'] if first == 'planes' else ['-p', 'Oxz', '-sym', '0', '-fn'],
            name, out='o2.mar')
    before = h.files()
    with contextlib.redirect_stderr(io.StringIO()):
        h.true(main(h, a) is not None, 'the request is refused after another command')
    h.true(h.files() == before, 'no file is left by the request refused')


INSTANCES = []
for _o in sorted(OPS):
    for _k in (0, 1):
        INSTANCES.append(Inst('twins / %s / %s' % (_o, 'known' if _k else 'new'), twins, kind='wedge' if _o not in ('vertices',) else 'box', op=_o, known=_k,
                              bound='4 meshes, any wedge of the ranges'))
for _h in ('made', 'set'):
    INSTANCES.append(Inst('arrays / ' + _h, arrays, kind='wedge', how=_h, bound='any wedge of the ranges'))
for _o in ('translate', 'rotate_matrix', 'flip_normals', 'triangulate', 'in place', 'scale'):
    for _p in ('new', 'known'):
        INSTANCES.append(Inst('sum / %s / %s' % (_o, _p), sums, op=_o, part=_p, bound='any wedge of the ranges'))
    for _w in ('extracted', 'all extracted', 'clipped_mesh', 'lower_mesh', 'upper_mesh', 'crown_mesh', 'clipped_crown_mesh'):
        INSTANCES.append(Inst('part / %s / %s' % (_w, _o), parts, kind='box', op=_o, which=_w, bound='any box of the ranges'))
for _c in sorted(CHANGES):
    for _k in ('box', 'wedge'):
        INSTANCES.append(Inst('default plane / %s / %s' % (_c, _k), default_plane, kind=_k, change=_c, bound='any %s of the ranges' % _k))
    INSTANCES.append(Inst('hydrostatics / after ' + _c, default_hydro, change=_c, again=None, bound='any box of the ranges'))
    for _n in ([0, 0, 1], [0, 3, 4], [1, 0, 0]):
        INSTANCES.append(Inst('planes / %s / %s' % (_c, _n), planes, change=_c, n=_n, bound='any offset'))
for _a in ('results', 'rotation'):
    INSTANCES.append(Inst('hydrostatics / again, ' + _a, default_hydro, change=None, again=_a, bound='any box of the ranges'))
INSTANCES += [Inst('inertia / made', inertia, what='made', bound='any inertia'), Inst('inertia / set', inertia, what='set', bound='any inertia'),
              Inst('densities', densities, bound='every medium')]


def T(name, **k):
    return Inst('reading / ' + name, reading, textual=True, **k)


for _f in ('mar', 'nat', 'nem', 'pnl', 'tec'):
    INSTANCES.append(T(_f, source=c03.simple, fmt=_f, cls='unit', choices={'conn': [0, 1], 'head': [0]}, bound='3 readings'))
INSTANCES += [T('gdf', source=c03.gdf, cls='unit', choices={'conn': [0, 1], 'per line': [0]}, bound='3 readings'),
              T('dat', source=c03.dat, cls='unit', choices={'conn': [0, 1], 'layout': [0, 1]}, bound='3 readings'),
              T('hst', source=c03.hst, cls='unit', layouts=['NE', 'NEE'], choices={'conn': [0, 1]}, bound='3 readings'),
              T('msh 2.2', source=c03.msh2, cls='unit', choices={'conn': [0], 'tags': [2], 'others': [0]}, bound='3 readings'),
              T('msh 4.1', source=c03.msh4, cls='unit', choices={'conn': [0], 'numbers': [1], 'blocks of nodes': [0], 'parametric': [0],
                                                                  'lines': [0], 'blocks of faces': [0]}, bound='3 readings')]
for _a, _b in (('scale', 'none'), ('plane', 'none'), ('plane', 'scale'), ('translatex', 'flip'), ('swap', 'translatex'), ('none', 'swap'), ('plane', 'swap'), ('plane', 'other'), ('other', 'plane'), ('other', 'other')):
    INSTANCES.append(Inst('commands / %s, %s' % (_a, _b), commands, textual=True, first=_a, second=_b, bound='any coordinates of the ranges'))
for _a in ('planes', 'one plane'):
    for _b in sorted(REFUSED):
        INSTANCES.append(Inst('refused after / %s, %s' % (_a, _b), after, textual=True, first=_a, second=_b, bound='any coordinates of the ranges'))
