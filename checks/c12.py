from symx.harness import Inst
from .common import *

BOUNDS = ('every public operation of Mesh, started from every combination of already computed derived quantities '
          '(triangle lists, face properties, surface integrals, connectivity), hence histories of any length by induction; '
          'symbolic vertex positions, factors, angles and displacements; meshes: closed tetrahedron, open mesh of a '
          'triangle and quadrangles, mesh with duplicate and unused vertices, mesh with inconsistent normals, box of any size divided in 30 panels, closed or open')
OUTSIDE = 'floating-point rounding; other meshes; arrays modified in place by the caller'

TET = [[0, 2, 1, 0], [0, 1, 3, 0], [1, 2, 3, 1], [0, 3, 2, 0]]
OPEN = [[0, 1, 2, 3], [1, 4, 2, 1], [0, 3, 5, 0]]


def geometry(h, kind, free='xyz'):
    """positions around a fixed non degenerate shape"""
    def at(n, x, y, z):
        return [h.real('%s%s' % (n, c), v - 0.05, v + 0.05) if c in free else h.const(str(v))
                for c, v in zip('xyz', (x, y, z))]
    if kind in ('tetra', 'twisted'):
        P = [at('a', 0.1, 0.2, 0.3), at('b', 2.3, 0.5, 0.7), at('c', 0.6, 2.5, 0.9), at('d', 0.9, 1.1, 3.2)]
        F = [list(f) for f in TET]
        if kind == 'twisted':
            F[1] = F[1][::-1]
            F[3] = F[3][::-1]
    elif kind in ('panels', 'halfbox'):
        P, F, _, _, pts = panel_box(h, (3, 2, 1), 'some', 1)
        if kind == 'halfbox':
            # nothing on one side, and every fourth panel reversed
            F = [f[::-1] if k % 4 == 1 else f for k, f in enumerate(F) if any(pts[i][1] for i in f)]
    elif kind == 'open':
        # planar quadrangle: fourth point from the three others
        a, b, d = at('a', 0.1, 0.2, 0.3), at('b', 2.3, 0.5, 0.7), at('d', 0.6, 2.5, 0.9)
        c = add(b, sub(d, a))
        P = [a, b, c, d, at('f', 4.5, 1.7, 1.9), at('g', -1.4, 1.3, 2.9)]
        F = [list(f) for f in OPEN]
    elif kind == 'seam':
        # vertices to be merged turn a quadrangle into a triangle and close the gap between two faces
        a, b, c = at('a', 0.1, 0.2, 0.3), at('b', 2.3, 0.5, 0.7), at('c', 0.6, 2.5, 0.9)
        P = [a, b, c, list(a), at('d', 3.4, 3.1, 1.5), list(b), list(c)]
        F = [[0, 1, 2, 3], [5, 4, 6, 5]]
    elif kind == 'close':
        # vertices to be merged with the tolerance 0.1
        a, b, c = at('a', 0.1, 0.2, 0.3), at('b', 2.3, 0.5, 0.7), at('c', 0.6, 2.5, 0.9)
        P = [a, b, c, at('d', 3.4, 3.1, 1.5), add(b, [h.const('0.02')] * 3), add(c, [h.const('0.03')] * 3)]
        F = [[0, 1, 2, 0], [4, 3, 5, 4]]
    elif kind == 'dirty':
        # two coincident vertices and an unused one, a triangle in the wrong convention, a flat face
        a, b, c = at('a', 0.1, 0.2, 0.3), at('b', 2.3, 0.5, 0.7), at('c', 0.6, 2.5, 0.9)
        P = [a, b, c, list(b), list(c), at('d', 3.4, 3.1, 1.5), at('u', 5.5, 4.2, 4.1)]
        F = [[0, 1, 2, 0], [3, 5, 5, 4]]
    elif kind == 'flat':
        a, b, c = at('a', 0.1, 0.2, 0.3), at('b', 2.3, 0.5, 0.7), at('c', 0.6, 2.5, 0.9)
        t = h.const('1e-7')
        P = [a, b, c, at('d', 3.4, 3.1, 1.5), [b[0] + t, b[1], b[2]]]
        F = [[0, 1, 2, 0], [1, 3, 2, 1], [1, 4, 3, 1]]
    return P, F


def query(m, groups):
    if 't' in groups:
        m.triangles_ids, m.nb_quadrangles
    if 'p' in groups:
        m.faces_normals, m.faces_areas, m.faces_centers
    if 's' in groups:
        m.get_surface_integrals()
    if 'c' in groups:
        try:
            m.vv, m.ff, m.boundaries, m.is_mesh_closed()
        except Exception:
            # faces out of the domain of the connectivity
            if proper(m.faces):
                raise


def ints(x):
    return [int(i) for i in x]


def sets(d):
    return {int(k): set(int(i) for i in v) for k, v in d.items()}


def proper(F):
    """every face is a quadrangle or a triangle in the standard convention: the domain of connectivity"""
    return all(len(set(ints(f))) == (3 if int(f[0]) == int(f[3]) else 4) for f in F)


def loops(b):
    return sorted(sorted(set(ints(x))) for x in b)


def agree(h, m, what):
    """every derived quantity equals the one of a new mesh built from the current vertices and faces"""
    n = h.mod('mesh').Mesh(h.arr([list(r) for r in m.vertices], float), h.arr([ints(f) for f in m.faces], int))
    h.true(ints(m.triangles_ids) == ints(n.triangles_ids), what + ': triangles')
    h.true(ints(m.quadrangles_ids) == ints(n.quadrangles_ids), what + ': quadrangles')
    h.true((m.nb_triangles, m.nb_quadrangles, m.nb_faces, m.nb_vertices) ==
           (n.nb_triangles, n.nb_quadrangles, n.nb_faces, n.nb_vertices), what + ': numbers')
    h.eq(list(m.faces_areas), list(n.faces_areas), what + ': areas')
    h.eq([list(r) for r in m.faces_normals], [list(r) for r in n.faces_normals], what + ': normals')
    h.eq([list(r) for r in m.faces_centers], [list(r) for r in n.faces_centers], what + ': centers')
    h.eq([list(r) for r in m.get_surface_integrals()], [list(r) for r in n.get_surface_integrals()],
         what + ': surface integrals')
    h.eq(m.volume, n.volume, what + ': volume')
    if not proper(m.faces):
        return
    h.true(sets(m.vv) == sets(n.vv), what + ': vertex-vertex')
    h.true(sets(m.vf) == sets(n.vf), what + ': vertex-face')
    h.true(sets(m.ff) == sets(n.ff), what + ': face-face')
    h.true(loops(m.boundaries) == loops(n.boundaries), what + ': boundaries')
    h.true(m.nb_boundaries == n.nb_boundaries, what + ': number of boundaries')
    h.true([directed(h, m, b) for b in m.boundaries] == [directed(h, m, b) for b in n.boundaries] or
           sorted(map(str, map(lambda b: directed(h, m, b), m.boundaries))) ==
           sorted(map(str, map(lambda b: directed(h, m, b), n.boundaries))), what + ': direction of the boundaries')
    h.true(bool(m.is_mesh_closed()) == bool(n.is_mesh_closed()), what + ': closedness')


def directed(h, m, b):
    b = ints(b)
    return sorted((b[i], b[i + 1]) for i in range(len(b) - 1))


def angle(h, name='t'):
    return h.real(name, '0.3', '0.9')


def ops(h):
    z = h.const(0)
    Plane = h.mod('mesh').Plane

    def vector(n):
        return [h.real(n + c, -2, 2) for c in 'xyz']
    return {
        'translate': lambda m: m.translate(vector('v')),
        'translate_x': lambda m: m.translate_x(h.real('v', -2, 2)),
        'translate_y': lambda m: m.translate_y(h.real('v', -2, 2)),
        'translate_z': lambda m: m.translate_z(h.real('v', -2, 2)),
        'rotate': lambda m: m.rotate([angle(h), angle(h, 'u'), angle(h, 'w')]),
        'rotate_x': lambda m: m.rotate_x(angle(h)),
        'rotate_y': lambda m: m.rotate_y(angle(h)),
        'rotate_z': lambda m: m.rotate_z(angle(h)),
        'scale': lambda m: m.scale(h.real('k', '0.5', 2)),
        'scalex': lambda m: m.scalex(h.real('k', '0.5', 2)),
        'scaley': lambda m: m.scaley(h.real('k', '0.5', 2)),
        'scalez': lambda m: m.scalez(h.real('k', '0.5', 2)),
        'flip_normals': lambda m: m.flip_normals(),
        'mirror': lambda m: m.mirror(Plane([0., 1., 0.], h.real('c', -2, 2))),
        'symmetrize': lambda m: m.symmetrize(Plane([0., 0., 1.], h.real('c', -9, -8))),
        'merge_duplicates': lambda m: m.merge_duplicates(),
        'merge_duplicates_index': lambda m: m.merge_duplicates(atol=h.const('1e-6'), return_index=True),
        'merge_close': lambda m: m.merge_duplicates(atol=h.const('0.1')),
        'heal_normals': lambda m: m.heal_normals(),
        'heal_triangles': lambda m: m.heal_triangles(),
        'heal_mesh': lambda m: m.heal_mesh(),
        'remove_unused_vertices': lambda m: m.remove_unused_vertices(),
        'remove_degenerated_faces': lambda m: m.remove_degenerated_faces(),
        'triangulate_quadrangles': lambda m: m.triangulate_quadrangles(),
        'set_vertices': lambda m: setattr(m, 'vertices', h.arr([[k * 1 + x for x in r] for k, r in
                                                               zip([h.const(2)] * len(m.vertices), m.vertices)], float)),
        'set_faces': lambda m: setattr(m, 'faces', h.arr([ints(f)[::-1] for f in m.faces][1:], int)),
        'extract': lambda m: m.extract_faces([0, 1]),
        'inertia': lambda m: m.eval_plain_mesh_inertias(),
        'shell': lambda m: m.eval_shell_mesh_inertias(),
        'bbox': lambda m: (m.axis_aligned_bbox, m.squared_axis_aligned_bbox, m.min_edge_length),
        'copy': lambda m: m.copy(),
        'str': lambda m: m.name,
    }


def operation(h, op, kind, groups=None, free='xyz'):
    P, F = geometry(h, kind, free)
    m = h.mod('mesh').Mesh(h.arr(P, float), h.arr(F, int))
    if groups is None:
        groups = ''.join(g for g in 'tpsc' if h.choose('query_' + g, [1, 0]))
    query(m, groups)
    ops(h)[op](m)
    agree(h, m, op)


def twice(h, op1, op2, kind, free='xyz'):
    """two operations with every quantity queried in between"""
    P, F = geometry(h, kind, free)
    m = h.mod('mesh').Mesh(h.arr(P, float), h.arr(F, int))
    query(m, 'tpsc')
    o = ops(h)
    o[op1](m)
    query(m, ''.join(g for g in 'psc' if h.choose('query_' + g, [1, 0])))
    o[op2](m)
    agree(h, m, op1 + ' then ' + op2)


def copied(h, op):
    """operations on a copy leave the derived quantities of the original, and conversely"""
    P, F = geometry(h, 'tetra')
    m = h.mod('mesh').Mesh(h.arr(P, float), h.arr(F, int))
    query(m, ''.join(g for g in 'psc' if h.choose('query_' + g, [1, 0])))
    c = m.copy()
    ops(h)[op](c)
    h.eq([list(r) for r in m.vertices], P, 'original vertices')
    same_ints(h, m.faces, F, 'original faces')
    agree(h, m, 'original after %s of a copy' % op)
    agree(h, c, 'copy after ' + op)


TETRA = ['translate', 'translate_x', 'translate_y', 'translate_z', 'rotate_x', 'rotate_y', 'rotate_z', 'scale', 'scalex',
         'scaley', 'scalez', 'flip_normals', 'mirror', 'symmetrize', 'merge_duplicates', 'heal_normals', 'heal_triangles',
         'remove_unused_vertices', 'remove_degenerated_faces', 'triangulate_quadrangles', 'set_vertices', 'set_faces',
         'extract', 'inertia', 'shell', 'bbox', 'copy']
OPENS = ['translate', 'translate_x', 'rotate_y', 'scale', 'scalez', 'flip_normals', 'mirror', 'symmetrize',
         'triangulate_quadrangles', 'set_vertices', 'set_faces', 'heal_normals', 'heal_triangles', 'merge_duplicates',
         'remove_unused_vertices']
DIRTY = ['merge_duplicates', 'merge_duplicates_index', 'heal_triangles', 'remove_unused_vertices', 'flip_normals']


def free(*o):
    """rotations of a mesh entirely free are too large: one free coordinate per vertex"""
    return 'x' if any(x.startswith('rotate') or x in ('inertia', 'shell') for x in o) else 'xyz'


INSTANCES = [Inst('%s-tetra' % o, operation, op=o, kind='tetra', free=free(o)) for o in TETRA]
INSTANCES += [Inst('%s-open' % o, operation, op=o, kind='open', free=free(o)) for o in OPENS]
INSTANCES += [Inst('%s-dirty' % o, operation, op=o, kind='dirty') for o in DIRTY]
INSTANCES += [Inst('%s-twisted' % o, operation, op=o, kind='twisted') for o in ('heal_normals', 'heal_mesh')]
INSTANCES += [Inst('%s-flat' % o, operation, op=o, kind='flat') for o in ('remove_degenerated_faces', 'heal_mesh')]
INSTANCES += [Inst('%s-%s' % (o, k), operation, op=o, kind=k) for o, k in (
    ('merge_duplicates', 'seam'), ('heal_mesh', 'seam'), ('merge_close', 'close'), ('merge_duplicates_index', 'seam'))]
INSTANCES += [Inst('copy-' + o, copied, op=o) for o in ('translate_x', 'flip_normals', 'scale', 'heal_normals')]
INSTANCES += [Inst('%s+%s' % (a, b), twice, op1=a, op2=b, kind='tetra', free=free(a, b)) for a, b in
              (('rotate_x', 'translate_x'), ('translate_y', 'rotate_z'), ('flip_normals', 'rotate_x'),
               ('heal_normals', 'flip_normals'))]
INSTANCES += [Inst('thorough-%s-%s' % (o, k), operation, tier='thorough', op=o, kind=k, time_s=1500) for k in
              ('tetra', 'open') for o in ('rotate', 'rotate_x', 'rotate_y', 'rotate_z', 'inertia')]
INSTANCES += [Inst('thorough-%s+%s' % (a, b), twice, tier='thorough', op1=a, op2=b, kind='open', free='x', time_s=900)
              for a in ('rotate_x', 'translate_y', 'scale', 'flip_normals', 'mirror', 'heal_triangles', 'merge_duplicates')
              for b in ('translate_x', 'rotate_z', 'scaley', 'flip_normals', 'triangulate_quadrangles')]
PANELS = ['translate', 'rotate_z', 'scale', 'scaley', 'flip_normals', 'mirror', 'merge_duplicates', 'heal_normals', 'heal_triangles',
          'heal_mesh', 'remove_unused_vertices', 'remove_degenerated_faces', 'triangulate_quadrangles', 'set_vertices', 'set_faces']
INSTANCES += [Inst('%s-panels' % o, operation, op=o, kind='panels', groups=g) for o in PANELS for g in ('tpsc',)]
INSTANCES += [Inst('%s-halfbox' % o, operation, op=o, kind='halfbox', groups='tpsc') for o in
              ('translate', 'flip_normals', 'heal_normals', 'heal_mesh', 'merge_duplicates', 'triangulate_quadrangles', 'set_faces')]
