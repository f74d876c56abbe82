import re

from . import c25
from .formats import *

BOUNDS = ('reports made of symbolic results, each within one power of ten (one instance lets every length vary over several powers), '
          'any sign of positions, corrections and metacentric heights; the inertia and the summary of a mesh of five vertices printed '
          'by the command')
OUTSIDE = ('magnitudes beyond the stated ranges; layout of the text other than the label of each line, its unit and its numbers; '
           'the tolerance is one unit of the last digit printed')
ASSUMPTIONS = ['the results handed to the report are those of compute_hydrostatics, decided by C21']

NUM = re.compile(r'[-+]?\d+\.\d*(?:[eE][-+]?\d+)?|[-+]?\d+(?:[eE][-+]?\d+)?')


class Text(object):
    """lines of a report, found by words of their label (any case)"""
    def __init__(self, h, text):
        self.h, self.lines = h, text.splitlines()

    def find(self, words, start=0):
        for i in range(start, len(self.lines)):
            if all(w.lower() in self.lines[i].lower() for w in words):
                return i
        return None

    def section(self, *words):
        i = self.find(words)
        self.h.true(i is not None, 'the report has a part on ' + ' '.join(words))
        return i + 1

    def numbers(self, words, start=0):
        i = self.find(words, start)
        self.h.true(i is not None, 'the report has a line on ' + ' '.join(words))
        l = self.lines[i]
        for c in ('>', ':', '='):
            if c in l:
                l = l[l.index(c) + 1:]
                break
        return [self.h.number(t) for t in NUM.findall(l)]

    def shows(self, words, want, digits, start=0, exp=False):
        got = self.numbers(words, start)
        want = want if isinstance(want, list) else [want]
        lab = ' '.join(words)
        self.h.true(len(got) == len(want), '%d numbers on the line %s' % (len(want), lab))
        for g, w in zip(got, want):
            same(self.h, g, w, digits, exp, lab)


def same(h, g, w, digits, exp, lab):
    t = h.const('0.' + '0' * (digits - 1) + '1')
    if exp:
        t = h.abs(w) * t
    h.le(g - w, t, lab)
    h.le(w - g, t, lab)


LENGTHS = {'disp_volume': 3, 'wet_surface_area': 1, 'waterplane_area': 1, 'draught': 3, 'length_overall_submerged': 2,
           'breadth_overall_submerged': 2, 'length_at_waterline': 2, 'forward_perpendicular': 2,
           'length_between_perpendiculars': 2, 'transversal_metacentric_radius': 3, 'longitudinal_metacentric_radius': 3}
POINTS = ('buoyancy_center', 'waterplane_center', 'cog')
# constants of the quantities that an instance does not vary, all different
CONST = {k: '%d.%d' % (113 + 17 * i, 124 + 31 * i) for i, k in enumerate(sorted(LENGTHS))}


ANGLES = {0: ('0', '1', '0'), 1: ('0.6', '0.8', '36.8698976'), -1: ('-0.6', '0.8', '-36.8698976'),
          2: ('0.28', '0.96', '16.2602047'), -2: ('-0.28', '0.96', '-16.2602047')}


FAR = ((123000, 125000), (1234000, 1235000), (-654000, -653000))


def results(h, vary, wide=None):
    d = {}
    for k in LENGTHS:
        if k == wide:
            d[k] = h.real(k, 1, 99000)
        else:
            d[k] = h.real(k, 101, 900) if 'lengths' in vary else h.const(CONST[k])
    for j, k in enumerate(POINTS):
        d[k] = [h.real(k + c, *(FAR[i] if vary.get('far') == k else (-90, 90) if k in vary else (11 + i, 80) if 'lengths' in vary else (12 + 7 * i + j, 13 + 7 * i + j)))
                for i, c in enumerate('xyz')]
    d['z_eq'] = h.real('z', -90, 90) if 'z' in vary else h.real('z', 11, 80)
    for k in ('transversal_metacentric_height', 'longitudinal_metacentric_height'):
        d[k] = h.real(k, -90, 90) if 'stability' in vary else h.real(k, 11, 80)
    d['grav'] = h.real('grav', '9.1', '9.9')
    d['rho_water'] = h.real('rho', 1001, 1100)
    d['disp_mass'] = d['rho_water'] * d['disp_volume']
    d['K'] = [[None] * 3 for i in range(3)]
    for i in range(3):
        for j in range(i, 3):
            e = 10 ** (4 + i + j)
            lo, hi = (-8 * e, 8 * e) if 'stiffness' in vary and (i, j) in vary['stiffness'] else (2 * e, 8 * e)
            d['K'][i][j] = d['K'][j][i] = h.real('k%d%d' % (i, j), lo, hi)
            if lo < 0:
                h.assume(h.bor(d['K'][i][j] >= 2 * e, d['K'][i][j] <= -2 * e))
    for i, k in enumerate(('Ixx', 'Iyy', 'Izz')):
        d[k] = h.real(k, 2 * 10 ** (7 + i), 8 * 10 ** (7 + i))
    for k in ('Ixy', 'Ixz', 'Iyz'):
        d[k] = h.real(k, -1000, 1000)
    d['trust_lpp'] = vary.get('trust', True)
    return d


def report(h, vary, wide=None, check=('all',)):
    d = results(h, vary, wide)
    heel, trim = h.const('0'), h.const('0')
    R = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
    if 'angles' in vary:
        # heel about x then trim about y, of sine and cosine known exactly
        (sa, ca, heel), (sb, cb, trim) = [[h.const(x) for x in ANGLES[k]] for k in vary['angles']]
        R = [[cb, sb * sa, sb * ca], [0, ca, -sa], [-sb, cb * sa, cb * ca]]
        heel, trim = heel * h.pi / 180, trim * h.pi / 180
    hs = h.mod('hydrostatics')
    data = dict(d)
    data.update(rotmat_eq=h.arr(R, float), stiffness_matrix=h.arr(d['K'], float), breadth=h.const('77.7'),
                breadth_at_waterline=h.const('66.6'))
    for k in POINTS:
        data[k] = h.arr(d[k], float)
    del data['K']
    txt = hs.get_hydrostatic_report(data)
    h.true(isinstance(txt, str), 'the report is a text')
    t = Text(h, txt)
    deg = 180 / h.pi
    t.shows(('z correction', '(m)'), d['z_eq'], 3)
    t.shows(('heel correction', '(deg)'), heel * deg, 3)
    t.shows(('trim correction', '(deg)'), trim * deg, 3)
    t.shows(('gravity acceleration', '(m/s**2)'), d['grav'], 2)
    t.shows(('density of water', '(kg/m**3)'), d['rho_water'], 1)
    t.shows(('waterplane area', '(m**2)'), d['waterplane_area'], 1)
    t.shows(('wetted surface area', '(m**2)'), d['wet_surface_area'], 1)
    t.shows(('displacement volume', '(m**3)'), d['disp_volume'], 3)
    t.shows(('displacement mass', '(tons)'), d['disp_mass'] / 1000, 3)
    t.shows(('waterplane center', '(m)'), d['waterplane_center'], 3)
    t.shows(('buoyancy center', '(m)'), d['buoyancy_center'], 3)
    t.shows(('center of gravity', '(m)'), d['cog'], 3)
    t.shows(('draft', '(m)'), d['draught'], 3)
    t.shows(('length overall submerged', '(m)'), d['length_overall_submerged'], 2)
    t.shows(('breadth overall submerged', '(m)'), d['breadth_overall_submerged'], 2)
    t.shows(('length at waterline', '(m)'), d['length_at_waterline'], 2)
    t.shows(('forward perpendicular', '(m)'), d['forward_perpendicular'], 2)
    t.shows(('length between perpendiculars', '(m)'), d['length_between_perpendiculars'], 2)
    t.shows(('transversal metacentric radius', '(m)'), d['transversal_metacentric_radius'], 3)
    t.shows(('longitudinal metacentric radius', '(m)'), d['longitudinal_metacentric_radius'], 3)
    t.shows(('transversal metacentric height', '(m)'), d['transversal_metacentric_height'], 3)
    t.shows(('longitudinal metacentric height', '(m)'), d['longitudinal_metacentric_height'], 3)
    for w, k in (('transversally unstable', 'transversal_metacentric_height'),
                 ('longitudinally unstable', 'longitudinal_metacentric_height')):
        announced = t.find((w,)) is not None
        h.true(d[k] < 0 if announced else h.bnot(d[k] < 0), w + ' is announced exactly when the metacentric height is negative')
    for i in range(3):
        for j in range(i, 3):
            u = '(n/m)' if j == 0 else '(n)' if i == 0 else '(n.m)'
            t.shows(('k%d%d' % (i + 3, j + 3), u), d['K'][i][j], 4, exp=True)
    s = t.section('inertias', 'standard approximations')
    B, L, m = d['breadth_overall_submerged'], d['length_between_perpendiculars'], d['disp_mass']
    rx, ry = B * 3 / 10, L / 4
    for n, r in (('xx', rx), ('yy', ry), ('zz', ry)):
        t.shows(('r' + n,), r, 3, s)
        t.shows(('i' + n,), r * r * m, 3, s, exp=True)
    s = t.section('inertias', 'homogeneous')
    for n in ('xx', 'yy', 'zz'):
        t.shows(('r' + n,), h.sqrt(d['I' + n] / m), 3, s)
        t.shows(('i' + n,), d['I' + n], 3, s, exp=True)
    noted = 'approximated by lwl' in txt.lower()
    h.true(noted == (not d['trust_lpp']), 'an approximate Lpp is announced')


def mass_matrix(h, xy, xz, yz, point):
    lo = {1: (2, 8), -1: (-8, -2)}
    m = h.real('mass', 2000, 8000)
    cog = [h.real('g' + c, *lo[s]) for c, s in zip('xyz', (1, -1, 1))]
    I = [h.real(k, 20 + 100 * i, 80 + 100 * i) for i, k in enumerate(('xx', 'yy', 'zz'))]
    p = [h.real('p' + c, *lo[s]) for c, s in zip('xyz', (-1, 1, 1))] if point else None
    X = [h.real(k, *lo[s]) for k, s in (('yz', yz), ('xz', xz), ('xy', xy))]
    b = h.mod('inertia').RigidBodyInertia(m, h.arr(cog, float), I[0], I[1], I[2], X[0], X[1], X[2],
                                          point=h.arr(p, float) if point else None)
    M = [[I[0], -X[2], -X[1]], [-X[2], I[1], -X[0]], [-X[1], -X[0], I[2]]]
    return b, m, cog, M, p if point else cog


def rigid_body(h, xy, xz, yz, point):
    b, m, cog, M, p = mass_matrix(h, xy, xz, yz, point)
    t = Text(h, str(b))
    t.shows(('mass', 'kg'), m, 6, exp=True)
    t.shows(('cog',), cog, 6, exp=True)
    t.shows(('inertia matrix', 'expressed at'), p, 6, exp=True)
    matrix(h, t, M, t.find(('inertia matrix',)) + 1, 6)


def matrix(h, t, M, i, digits):
    rows = [l for l in t.lines[i:] if l.strip()][:3]
    got = [[h.number(x) for x in NUM.findall(l)] for l in rows]
    h.true([len(r) for r in got] == [3, 3, 3], 'three rows of three coefficients')
    for r, w, k in zip(got, M, 'xyz'):
        for x, y, l in zip(r, w, 'xyz'):
            same(h, x, y, digits, True, 'coefficient %s%s of the inertia matrix' % (k, l))


def printed(h, kind, point):
    """what the command prints of the inertia of the mesh"""
    P, f = c25.inputs(h)
    Mesh = h.mod('mesh').Mesh
    b, m, cog, M, p = mass_matrix(h, -1, 1, 1, point)
    h.stub(Mesh, {'plain': 'eval_plain_mesh_inertias', 'shell': 'eval_shell_mesh_inertias'}[kind], lambda *a, **k: b)
    rho = h.real('rho', 101, 900)
    th = h.real('th', '0.11', '0.9')
    argv = [{'plain': '-pi', 'shell': '-si'}[kind], '--rho-medium'] + c25.numbers(h, [rho])
    if kind == 'shell':
        argv += ['--thickness'] + c25.numbers(h, [th])
    console = Console(h)
    with console:
        c25.run(h, argv, f)
    t = Text(h, console.text())
    i = t.find(('inertial parameters', 'density', 'kg/m**3'))
    h.true(i is not None, 'the inertia is introduced')
    nums = [h.number(x) for x in NUM.findall(t.lines[i].replace('m**3', ''))]
    same(h, nums[0], rho, 1, False, 'density announced')
    if kind == 'shell':
        same(h, nums[1], th, 3, False, 'thickness announced')
    t.shows(('mass', '='), m / 1000, 3, i)
    for k, x in zip('xyz', cog):
        t.shows((k + 'g =',), x, 3, i)
    j = t.find(('inertia matrix',), i)
    matrix(h, t, M, j + 1, 3)
    t.shows(('expressed at',), p, 3, j, exp=True)


def summary(h, which):
    """what the command, and the mesh itself, say of the mesh"""
    P, f = c25.inputs(h)
    F = c25.FACES
    if which == 'cli':
        console = Console(h)
        with console:
            c25.run(h, ['-i', '-q'] if h.choose('o', ['short', 'long']) == 'short' else ['--info', '-q'], f)
        txt = console.text()
    else:
        m = h.mod('mesh').Mesh(h.arr(P, float), h.arr(F, int), name='ship')
        txt = str(m)
        h.true('ship' in txt, 'name of the mesh')
    t = Text(h, txt)
    t.shows(('number of vertices',), len(P), 3)
    t.shows(('number of faces',), len(F), 3)
    t.shows(('number of triangles',), sum(f[0] == f[3] for f in F), 3)
    t.shows(('number of quadrangles',), sum(f[0] != f[3] for f in F), 3)
    for k, c in enumerate('xyz'):
        i = t.find((c + 'min',))
        h.true(i is not None, 'the bounds along %s are shown' % c)
        for side, want in (('min', h.min([p[k] for p in P])), ('max', h.max([p[k] for p in P]))):
            g = re.search(c + side + r'\s*[=:]\s*(\S+)', txt, re.I)
            h.true(g is not None, c + side + ' is shown')
            same(h, h.number(g.group(1)), want, 3, False, c + side)


def planes(h, k):
    """text of a plane"""
    n = [[h.const(x) for x in v] for v in ([0, 0, 1], [0, -1, 0], ['0.6', 0, '0.8'], ['-2', 1, 2])][k]
    c = h.real('c', 2, 8)
    if k % 2:
        c = -c
    p = h.mod('mesh').Plane(h.arr(n, float), c)
    l = h.sqrt(dot(n, n))
    got = [h.number(x) for x in NUM.findall(str(p))]
    h.true(len(got) == 4, 'a plane shows its normal and its scalar')
    for x, y in zip(got, [x / l for x in n] + [p.c]):
        same(h, x, y, 5, False, 'coefficient of the plane')


def media(h, opts):
    """the table of the media known"""
    d = h.mod('densities')
    P, f = c25.inputs(h)
    console = Console(h)
    with console:
        c25.run(h, opts + ['-q'], f)
    t = Text(h, console.text())
    for m in d.list_medium():
        rows = [l for l in t.lines if re.search(r'\W' + re.escape(m) + r'\W', l, re.I)]
        h.true(len(rows) == 1, 'one row for ' + m)
        nums = NUM.findall(rows[0].upper().replace(m.upper(), ''))
        h.true(len(nums) == 1, 'one density for ' + m)
        h.near(h.number(nums[0]), d.get_density(m), '0.001', 'density of ' + m)


class Console(object):
    """what is printed in the block"""
    def __init__(self, h):
        self.h = h

    def __enter__(self):
        self.before = len(self.h.console())
        return self

    def __exit__(self, *a):
        return False

    def text(self):
        return self.h.console()[self.before:]


def R(name, vary, wide=None, **k):
    return Inst('report ' + name, report, textual=True, vary=vary, wide=wide, bound='one report', **k)


INSTANCES = [R('lengths', {'lengths': True}), R('centre of buoyancy', {'buoyancy_center': True}),
             R('centre of the waterplane', {'waterplane_center': True}), R('centre of gravity', {'cog': True}),
             R('stability', {'stability': True}), R('approximate Lpp', {'z': True, 'trust': False}),
             R('stiffness, coupled', {'stiffness': [(0, 1), (0, 2), (1, 2)]}),
             R('stiffness, diagonal', {'stiffness': [(0, 0), (1, 1), (2, 2)]})]
INSTANCES += [R('far ' + k, {'far': k}) for k in POINTS]
INSTANCES += [R('heel and trim %d %d' % a, {'angles': a}) for a in ((1, 2), (-1, 0), (0, -2), (2, -1))]
INSTANCES += [R('any ' + k, {}, wide=k, tier='quick' if i % 4 == 0 else 'thorough') for i, k in enumerate(sorted(LENGTHS))]
INSTANCES += [Inst('rigid body %s' % (s,), rigid_body, textual=True, xy=s[0], xz=s[1], yz=s[2], point=s[3], bound='one body')
              for s in ((1, 1, 1, False), (-1, 1, -1, True), (1, -1, 1, True))]
INSTANCES += [Inst('%s inertia printed%s' % (k, ' at a point' if p else ''), printed, textual=True, kind=k, point=p, bound='one mesh')
              for k in ('plain', 'shell') for p in (False, True)]
INSTANCES += [Inst('summary / ' + k, summary, textual=True, which=k, bound='5 vertices, 3 faces') for k in ('cli', 'mesh')]
INSTANCES += [Inst('plane %d' % k, planes, textual=True, k=k, bound='one plane') for k in range(4)]
INSTANCES += [Inst('media', media, textual=True, opts=['--list-medium'], bound='the whole table')]
