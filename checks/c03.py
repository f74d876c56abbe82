from .formats import *

BOUNDS = ('files of up to 3 sections of nodes and 4 sections of faces, up to 6 nodes and 5 faces (14 and 107 for mar, nat, nem, pnl, tec and gdf); any coordinates in the stated '
          'ranges, in plain or exponent notation; any node numbers of four digits in any order where the format numbers the '
          'nodes (for inp and msh 4.1, a choice of numberings); every order of the sections in the list')
OUTSIDE = ('malformed or truncated files; symmetry flags of the files; a decimal point missing from a coordinate; Radioss files of '
           'fewer than 3 elements; Hydrostar panels of type 1; inp files where a NODE keyword after the first has no INCREMENT; '
           'faces of one file are compared in file order within triangles and within quadrangles; files of the vtk library, VRML')
ASSUMPTIONS = ['the hdf5 library gives the datasets of a file, listed by name; gmshparser is executed as installed']


def num(h, x, style):
    return h.text('t', x) if style == 'plain' else h.text('t', x, 'e')


def style_of(h):
    return h.choose('notation', ['plain', 'exponent'])


def point(h, p, style):
    return '  '.join(num(h, x, style) for x in p)


def ids(h, n, kind='any'):
    """numbers of n nodes: distinct, in any order"""
    if kind == 'position':
        return list(range(1, n + 1))
    out = []
    for i in range(n):
        x = h.int('id%d' % i, 1000, 8990)
        for y in out:
            h.assume(x != y)
        out.append(x)
    return out


def face_ids(h, f, I, m=None):
    return '  '.join(h.text('n', I[i]) for i in f[:m])


def compare(h, V, F, P, want, label='', order='kind', tol=None):
    """want: faces as lists of positions in P (triangles: three)"""
    shape_ok(h, V, F, len(want), label + 'mesh')
    F = [list(f) for f in F]
    for f in F:
        for i in f:
            h.true(h.band(0 <= i, i < int(V.shape[0])), label + 'faces refer to existing vertices')
    F = [[int(i) for i in f] for f in F]
    got = F
    if order == 'kind':
        want = [f for f in want if len(f) == 3] + [f for f in want if len(f) == 4]
        got = [f for f in F if f[0] == f[3]] + [f for f in F if f[0] != f[3]]
    for k, (g, f) in enumerate(zip(got, want)):
        h.true((g[0] == g[3]) == (len(f) == 3), label + 'face %d: triangles and quadrangles' % k)
        m = len(f)
        A = [list(V[i]) for i in g[:m]]
        h.true(h.bor(*[h.band(*[same(h, a, P[i]) for a, i in zip(r, f)]) for r in rotations(A)]),
               label + 'face %d: positions in order' % k)


def same(h, p, q):
    # tokens carry more digits than needed
    return h.band(*[h.band(a - b <= t, b - a <= t)
                    for a, b, t in ((a, b, h.abs(b) * h.const('1e-7') + h.const('1e-9')) for a, b in zip(p, q))])


MIXES = [[[0, 1, 2], [2, 1, 3, 4]], [[3, 2, 1, 0], [4, 3, 0]], [[4, 0, 1], [1, 2, 3], [3, 4, 1]],
         [[0, 1, 2, 3], [4, 3, 2, 1], [0, 4, 2]], [[2, 4, 1, 0]], [[1, 0, 3]]]


def four(f):
    return f + [f[0]] if len(f) == 3 else f


def points(h, cls):
    if cls != 'close':
        return spread(h, 5, cls)
    # two of the points are close to each other, possibly at the same place
    CLASSES.update(cx=('2.25', '2.2502'), cy=('5', '5.0002'), cz=('7', '7.0002'))
    return nodes(h, 5, 'unit', dict(((i, a), 'c' + 'xyz'[a]) for i in (1, 2) for a in range(3)))


def start(h, cls, faces=None):
    if isinstance(cls, int):
        return [f[:3] if f[0] == f[3] else f for f in ribbon(cls)], many_nodes(h, cls + 3), style_of(h)
    F = h.choose('conn', faces or MIXES)
    return F, points(h, cls), style_of(h)


def simple(h, fmt, cls):
    """formats that list nodes, then faces, by position"""
    F, P, st = start(h, cls)
    n, m = len(P), len(F)
    I = ids(h, n, 'position')
    if fmt == 'mar':
        head = h.choose('head', ['2 0', '   2   1', '2 0 '])
        t = [head] + ['%d  %s' % (i + 1, point(h, p, st)) for i, p in enumerate(P)] + ['0  0.00  0.00  0.00']
        t += [face_ids(h, four(f), I) for f in F] + ['0 0 0 0']
    elif fmt == 'nat':
        t = ['0  0', '%d   %d' % (n, m)] + [point(h, p, st) for p in P] + [face_ids(h, four(f), I) for f in F]
    elif fmt == 'nem':
        t = ['%d' % n, ' %d' % m] + [point(h, p, st) for p in P] + [face_ids(h, four(f), I) for f in F]
    elif fmt == 'pnl':
        t = ['    ---Hull Mesh File---', '', '  # Number of Panels, Nodes, X-Symmetry and Y-Symmetry',
             '    %d    %d   0   0' % (m, n), '', '   #Start Definition of Node Coordinates']
        t += ['  %d  %s' % (i + 1, point(h, p, st)) for i, p in enumerate(P)]
        t += ['   #End Definition of Node Coordinates', '', '   #Start Definition of Node Relations']
        t += [' %d  %d  %s' % (k + 1, len(f), face_ids(h, f, I)) for k, f in enumerate(F)]
        t += ['   #End Definition of Node Relations', '', '   ---End Hull Mesh File---']
    elif fmt == 'tec':
        # other variables may follow the coordinates
        more = h.choose('more variables', [[], ['7.5'], ['0.25', '3.5E-01', '-1.5', '2.0']])
        t = ['TITLE = "hull"', 'VARIABLES = "X","Y","Z"' + ''.join(',"V%d"' % i for i in range(len(more))),
             'ZONE T="a", N= %d , E= %d ,F=FEPOINT, ET=QUADRILATERAL' % (n, m)]
        t += ['  '.join([point(h, p, st)] + more) for p in P] + [face_ids(h, four(f), I) for f in F]
    p = h.path('a.' + fmt)
    h.write_text(p, '\n'.join(t) + '\n')
    V, F2 = h.mod('mmio').load_mesh(p, fmt)
    compare(h, V, F2, P, F, order='file')


def gdf(h, cls):
    F, P, st = start(h, cls)
    per = h.choose('per line', [3, 12, 6, 1])
    t = ['a ship', '1.0  9.81  ULEN GRAV', '0  0  ISX ISY', '%d' % len(F)]
    for f in F:
        v = [num(h, x, st) for i in four(f) for x in P[i]]
        t += ['  '.join(v[i:i + per]) for i in range(0, 12, per)]
    p = h.path('a.gdf')
    h.write_text(p, '\n'.join(t) + '\n')
    V, F2 = h.mod('mmio').load_mesh(p, 'gdf')
    compare(h, V, F2, P, F, order='file')
    used = {i for f in F for i in f}
    h.true(int(V.shape[0]) == len(used), 'nodes shared by the panels are merged')


def cut(items, k):
    """in k sections, the later ones longer"""
    n = len(items)
    b = [n * i // k for i in range(k + 1)]
    return [items[b[i]:b[i + 1]] for i in range(k)]


LAYOUTS = ['NE', 'NEE', 'NNE', 'NENE', 'NNEE', 'EN']
BIG = [[[0, 1, 2], [2, 1, 3, 4], [4, 0, 2]], [[3, 2, 1, 0], [0, 4, 3], [1, 2, 4, 3]], [[0, 1, 2], [3, 4, 0]]]


def hst(h, cls, layouts):
    F, P, st = start(h, cls, BIG)
    lay = h.choose('layout', layouts)
    I = ids(h, len(P))
    N = cut(list(range(len(P))), lay.count('N'))
    E = cut(F, lay.count('E'))
    t = ['PROJECT: hull', 'USERS:  meshmagick', '', 'NBODY   1', 'RHO   1025.0', 'GRAVITY   9.81', '']
    for c in lay:
        if c == 'N':
            t += ['COORDINATES'] + ['  %s  %s' % (h.text('n', I[i]), point(h, P[i], st)) for i in N.pop(0)]
            t += ['ENDCOORDINATES', '']
        else:
            t += ['PANEL TYPE 0'] + ['  ' + face_ids(h, four(f), I) for f in E.pop(0)] + ['ENDPANEL', '']
    t += ['ENDFILE']
    p = h.path('a.hst')
    h.write_text(p, '\n'.join(t) + '\n')
    V, F2 = h.mod('mmio').load_mesh(p, 'hst')
    compare(h, V, F2, P, F, order='file')


def dat(h, cls):
    F, P, st = start(h, cls, BIG)
    lay = h.choose('layout', ['TQ', 'QT', 'TQT', 'QTQ', 'TT', 'QQ'])
    I = ids(h, len(P))
    T, Q = [f for f in F if len(f) == 3], [f for f in F if len(f) == 4]
    T, Q = cut(T, max(1, lay.count('T'))), cut(Q, max(1, lay.count('Q')))
    t = ['$', '$ Data for DIODORE input file', '$', '$ NODE']
    t += ['  %s  %s' % (h.text('n', I[i]), point(h, P[i], st)) for i in range(len(P))] + ['*RETURN']
    k, want = 0, []
    for c in lay:
        s = (T if c == 'T' else Q).pop(0)
        if not s:
            continue
        t += ['$', '$ ELEMENT,TYPE=%s,ELSTRUCTURE=HULL' % {'T': 'T3C000', 'Q': 'Q4C000'}[c]]
        for f in s:
            k += 1
            t.append('  %d  %s' % (k, face_ids(h, f, I)))
            want.append(f)
        t.append('*RETURN')
    h.assume(len(want) > 0)
    p = h.path('a.DAT')
    h.write_text(p, '\n'.join(t) + '\n')
    V, F2 = h.mod('mmio').load_mesh(p, 'diodore-dat')
    compare(h, V, F2, P, want)


def rad(h, cls, layouts):
    G = [[[0, 1, 2], [2, 1, 3, 4], [4, 0, 2], [1, 2, 3], [0, 4, 3, 2], [3, 0, 1]]]
    F, P, st = start(h, cls, G)
    lay = h.choose('layout', layouts)
    I = ids(h, len(P))
    N = cut(list(range(len(P))), lay.count('N'))
    E = cut(F, lay.count('E'))
    t, k = ['#RADIOSS STARTER', '/BEGIN', 'hull'], 0
    for c in lay:
        if c == 'N':
            t += ['/NODE'] + ['  %s  %s' % (h.text('n', I[i]), point(h, P[i], st)) for i in N.pop(0)]
        else:
            t.append('/SHELL')
            for f in E.pop(0):
                k += 1
                t.append('  %d  1  1  %s' % (k, face_ids(h, four(f), I)))
    t += ['/END']
    p = h.path('a.rad')
    h.write_text(p, '\n'.join(t) + '\n')
    V, F2 = h.mod('mmio').load_mesh(p, 'rad')
    compare(h, V, F2, P, F, order='file')


def msh2(h, cls):
    F, P, st = start(h, cls, BIG)
    I = ids(h, len(P))
    tags = h.choose('tags', ['', '  ', '2 1 7', '3 1 7 4'])
    extra = h.choose('others', ['none', 'first', 'between'])
    tags = tags.strip() or '0'
    els = ['%d %s %s' % (2 if len(f) == 3 else 3, tags, ' '.join(h.text('n', I[i]) for i in f)) for f in F]
    oth = ['15 %s %s' % (tags, h.text('n', I[3])), '1 %s %s %s' % (tags, h.text('n', I[1]), h.text('n', I[2]))]
    if extra == 'first':
        els = oth + els
    elif extra == 'between':
        els = els[:1] + oth + els[1:]
    t = ['$MeshFormat', '2.2 0 8', '$EndMeshFormat']
    if extra == 'between':
        t += ['$PhysicalNames', '1', '2 7 "hull"', '$EndPhysicalNames']
    t += ['$Nodes', '%d' % len(P)] + ['%s %s' % (h.text('n', I[i]), ' '.join(num(h, x, st) for x in P[i]))
                                      for i in range(len(P))] + ['$EndNodes']
    t += ['$Elements', '%d' % len(els)] + ['%d %s' % (k + 1, e) for k, e in enumerate(els)] + ['$EndElements']
    p = h.path('a.msh')
    h.write_text(p, '\n'.join(t) + '\n')
    V, F2 = h.mod('mmio').load_mesh(p, 'msh')
    compare(h, V, F2, P, F)


def msh4(h, cls):
    F, P, st = start(h, cls, BIG)
    I = h.choose('numbers', [[1, 2, 3, 4, 5], [3, 1, 2, 5, 4], [2, 5, 9, 11, 40], [12, 7, 31, 8, 3]])
    nb = h.choose('blocks of nodes', [1, 2, 3])
    par = h.choose('parametric', [0, 1])
    eb = h.choose('blocks of faces', ['kind', 'each'])
    t = ['$MeshFormat', '4.1 0 8', '$EndMeshFormat', '$Nodes', '%d %d %d %d' % (nb, len(P), min(I), max(I))]
    for b, s in enumerate(cut(list(range(len(P))), nb)):
        dim = 2 if par else (0, 1, 2)[b]
        t += ['%d %d %d %d' % (dim, b + 1, par, len(s))] + ['%d' % I[i] for i in s]
        t += [' '.join(num(h, x, st) for x in P[i]) + (' 0.25 0.5' if par else '') for i in s]
    t += ['$EndNodes']
    T, Q = [f for f in F if len(f) == 3], [f for f in F if len(f) == 4]
    blocks = [x for x in (Q, T) if x] if eb == 'kind' else [[f] for f in F]
    ln = h.choose('lines', [0, 1])
    t += ['$Elements', '%d %d 1 %d' % (len(blocks) + ln, len(F) + ln, len(F) + ln)]
    k = 1
    if ln:
        t += ['1 1 1 1', '1 %d %d' % (I[0], I[4])]
        k = 2
    for b, s in enumerate(blocks):
        t.append('2 %d %d %d' % (b + 1, 2 if len(s[0]) == 3 else 3, len(s)))
        for f in s:
            t.append('%d %s' % (k, ' '.join('%d' % I[i] for i in f)))
            k += 1
    t.append('$EndElements')
    p = h.path('a.msh')
    h.write_text(p, '\n'.join(t) + '\n')
    V, F2 = h.mod('mmio').load_mesh(p, 'msh')
    compare(h, V, F2, P, F)


def med(h, cls):
    P = points(h, cls)
    kinds = h.choose('kinds', ['TQ', 'T', 'Q'])
    extra = h.choose('segments', [0, 1])
    T = [[h.int('t%d%d' % (i, j), 1, 5) for j in range(3)] for i in range(2)]
    Q = [[h.int('q%d%d' % (i, j), 1, 5) for j in range(4)] for i in range(2)]
    for f in T + Q:
        for a in range(len(f)):
            for b in range(a):
                h.assume(f[a] != f[b])
    g = 'ENS_MAA/hull/-0000000000000000001-0000000000000000001/'
    d = {g + 'NOE/COO': h.arr([p[a] for a in range(3) for p in P], float), g + 'NOE/NUM': h.arr([1, 2, 3, 4, 5], int)}
    if 'T' in kinds:
        d[g + 'MAI/TR3/NOD'] = h.arr([f[j] for j in range(3) for f in T], int)
        d[g + 'MAI/TR3/NUM'] = h.arr([3, 4], int)
    if 'Q' in kinds:
        d[g + 'MAI/QU4/NOD'] = h.arr([f[j] for j in range(4) for f in Q], int)
    if extra:
        d[g + 'MAI/SE2/NOD'] = h.arr([1, 2, 2, 3], int)
    p = h.path('a.med')
    h.write_h5(p, d)
    V, F2 = h.mod('mmio').load_mesh(p, 'med')
    want = (T if 'T' in kinds else []) + (Q if 'Q' in kinds else [])
    shape_ok(h, V, F2, len(want), 'mesh')
    h.true(int(V.shape[0]) == 5, 'number of vertices')
    for i in range(5):
        for a in range(3):
            h.eq(V[i, a], P[i][a], 'coordinates')
    for k, f in enumerate(want):
        same_numbers(h, list(F2[k]), [x - 1 for x in f] + ([] if len(f) == 4 else [f[0] - 1]), 'face %d' % k) \
            if len(f) == 4 else tri_numbers(h, list(F2[k]), [x - 1 for x in f], 'face %d' % k)


def tri_numbers(h, g, f, label):
    h.true(g[0] == g[3], label + ': triangles')
    h.true(h.bor(*[h.band(*[a == b for a, b in zip(r, f)]) for r in rotations(g[:3])]), label + ': nodes in order')


def block(h, nodes_, faces, I, st):
    """text of a file of nodes and elements; faces: list of sections"""
    t = ['  %d  %s' % (I[i], point(h, p, st)) for i, p in enumerate(nodes_)] + ['*RETURN']
    k = 0
    for s in faces:
        for f in s:
            k += 1
            t.append('  %d  %s' % (k, '  '.join('%d' % I[i] for i in f)))
        t.append('*RETURN')
    return '\n'.join(t) + '\n'


BODIES = {'A': [[[0, 1, 2, 3], [3, 2, 1, 0]]], 'B': [[[0, 1, 2]], [[2, 1, 0], [1, 2, 0]]], 'C': [[[0, 1, 2], [1, 3, 2]]]}


def inp(h, cls, plan, comment=''):
    """plan: bodies in turn, each one in a frame"""
    plan = h.choose('plan', plan)
    st = style_of(h)
    P, I = {}, {}
    for b in sorted(set(plan)):
        n = 1 + max(i for s in BODIES[b] for f in s for i in f)
        P[b] = spread(h, n, cls, name='v' + b)
        I[b] = h.choose('numbers' + b, [list(range(1, n + 1)), [2, 1, 3, 4][:n], [5, 10, 15, 20][:n], [44, 33, 8, 3][:n]])
        h.write_text(h.path('Body%s.DAT' % b), block(h, P[b], BODIES[b], I[b], st))
    fr = [[h.real('fr%d%s' % (k, a), '0.25', '0.75') for a in 'xyz'] for k in range(len(plan))]
    t = ['*DIODORE,PASS=ECN,LANG=E', '$' + comment, '*HEADING', 'PLATFORM', '*MASSDENSITY', '1018.0', '$']
    for k, f in enumerate(fr):
        t += ['*FRAME,NAME=FR%d' % (k + 1), ','.join(num(h, x, 'plain') for x in f), '']
    want, Q = [], []
    for k, b in enumerate(plan):
        t += ['$ ---- body', '*NODE,INPUT=Body%s,FRAME=FR%d%s' % (b, k + 1, ',INCREMENT=YES' if k else '')]
        for s in BODIES[b]:
            t.append('*ELEMENT,INPUT=Body%s,TYPE=%s,ELSTRUCTURE=BODY%d' % (b, 'Q4C000' if len(s[0]) == 4 else 'T3C000', k))
            want += [[i + len(Q) for i in f] for f in s]
        Q += [[a + c for a, c in zip(p, fr[k])] for p in P[b]]
        t += ['$', '*MASS,STRUCTURE=BODY%d' % k, ' 0.0000000E+00', '$']
    p = h.path('a.inp')
    h.write_text(p, '\n'.join(t) + '\n', encoding='latin-1')
    V, F2 = h.mod('mmio').load_mesh(p, 'inp')
    compare(h, V, F2, Q, want, order='file')


def T(name, fn, **k):
    return Inst(name, fn, textual=True, **k)


INSTANCES = []
for _f in ('mar', 'nat', 'nem', 'pnl', 'tec'):
    INSTANCES += [T('%s / one section, %s' % (_f, c), simple, fmt=_f, cls=c, bound='5 nodes, up to 3 faces') for c in ('mid', 'unit', 'close')]
    INSTANCES += [T('%s / long, %d' % (_f, c), simple, fmt=_f, cls=c, bound='%d faces' % c) for c in (14, 107)]
INSTANCES += [T('gdf / long, %d' % c, gdf, cls=c, bound='%d faces' % c) for c in (14, 107)]
INSTANCES += [
    T('gdf / coordinates 1, 3, 6 or 12 per line', gdf, cls='mid', bound='up to 3 panels'),
    T('hst / sections of panels', hst, cls='mid', layouts=['NE', 'NEE', 'EN'], bound='up to 2 sections of panels'),
    T('hst / sections of panels, close points', hst, cls='close', layouts=['NE', 'NEE', 'EN'], bound='up to 2 sections of panels'),
    T('hst / sections of nodes', hst, cls='unit', layouts=['NNE', 'NENE', 'NNEE'], bound='up to 2 sections of nodes'),
    T('dat / sections of triangles and quadrangles', dat, cls='mid', bound='up to 3 sections'),
    T('dat / sections of triangles and quadrangles, close points', dat, cls='close', bound='up to 3 sections'),
    T('rad / one section', rad, cls='mid', layouts=['NE'], bound='6 elements'),
    T('rad / one section, close points', rad, cls='close', layouts=['NE'], bound='6 elements'),
    T('rad / several sections', rad, cls='mid', layouts=['NEE', 'NNE', 'NENE'], bound='2 sections'),
    T('msh 2.2', msh2, cls='mid', bound='up to 3 faces, other elements before or between'),
    T('msh 2.2, close points', msh2, cls='close', bound='up to 3 faces, other elements before or between'),
    T('msh 4.1', msh4, cls='mid', bound='up to 3 blocks of nodes and of faces'),
    T('msh 4.1, close points', msh4, cls='close', bound='up to 3 blocks of nodes and of faces'),
    T('med', med, cls='mid', bound='2 triangles, 2 quadrangles'),
    T('med, close points', med, cls='close', bound='2 triangles, 2 quadrangles'),
    T('inp / one body', inp, cls='mid', plan=['A', 'B', 'C'], bound='1 body'),
    T('inp / two bodies', inp, cls='mid', plan=['AB', 'BA', 'AA', 'CC', 'BC'], bound='2 bodies'),
    T('inp / three bodies', inp, cls='unit', plan=['ABA', 'BCA', 'BBB'], bound='3 bodies'),
    T('inp / accents in a comment', inp, cls='mid', plan=['A'], comment=u' bou\u00e9e', bound='1 body'),
]
