"""The files are read here by small parsers written from the definition of each format, not by the readers of the code."""
import re

from . import c01
from .formats import *

BOUNDS = c01.BOUNDS.replace(', and ribbons of 14, 107 and 1004 faces with symbolic coordinates at every tenth node', '').replace('any node numbers of four digits; ', 'listed connectivities; ').replace('up to 3 faces and 4 vertices', 'one to five faces on up to six vertices, and (but STL) ribbons of 14 and 107 faces with symbolic coordinates at every tenth node')
OUTSIDE = c01.OUTSIDE + '; what the target programs accept beyond their documented format; vtp and vtu (written by VTK, see C02)'
ASSUMPTIONS = c01.ASSUMPTIONS + ['the definitions of the formats: NEMOH mesh file, NEMOH Mesh tool, HydroStar hst, WAMIT gdf, DIODORE mesh '
                                 'data, HAMS HullMesh.pnl, Tecplot FEPOINT, Wavefront OBJ, legacy VTK polydata, ASCII STL']
DIGITS.update({'obj': (6, 'f'), 'vtk': (6, 'f'), 'stl': (6, 'e')})
KIND = {'dat': 'diodore-dat'}


class Bad(Exception):
    pass


def need(b, what):
    if not b:
        raise Bad(what)


class Lines(object):
    def __init__(self, h, text, comment=None):
        self.h = h
        self.lines = text.split('\n')
        self.i = 0

    def next(self, blank=True):
        while True:
            need(self.i < len(self.lines), 'end of the file reached too early')
            l = self.lines[self.i]
            self.i += 1
            if l.strip() or not blank:
                return l

    def ints(self, n=None):
        t = self.next().split()
        need(n is None or len(t) == n, 'a line of %s integers: %r' % (n, t))
        need(all(re.match(r'[+-]?\d+$', x) for x in t), 'integers: %r' % (t,))
        return [int(x) for x in t]

    def reals(self, t, n):
        need(len(t) == n, 'a line of %d numbers: %r' % (n, t))
        return [self.real(x) for x in t]

    def real(self, t):
        need(re.match(r'[+-]?(\d+\.?\d*|\.\d+)([eEdD][+-]?\d+)?$', t), 'a number: %r' % (t,))
        return self.h.number(t)

    def rest(self):
        return [l for l in self.lines[self.i:] if l.strip()]


def mar(l):
    head = l.ints(2)
    need(head == [2, 0], 'NEMOH: header "2 0", without symmetry')
    V = []
    while True:
        t = l.next().split()
        need(len(t) >= 4, 'NEMOH: number and coordinates of a node')
        if int(t[0]) == 0:
            break
        need(int(t[0]) == len(V) + 1, 'NEMOH: nodes numbered from 1')
        V.append(l.reals(t[1:], 3))
    F = []
    while True:
        f = l.ints(4)
        if f == [0, 0, 0, 0]:
            break
        F.append(f)
    need(not l.rest(), 'NEMOH: end of the file after the panels')
    return V, one_based(V, F)


def nem(l):
    nv, nf = l.ints(1)[0], l.ints(1)[0]
    V = [l.reals(l.next().split(), 3) for i in range(nv)]
    F = [l.ints(4) for i in range(nf)]
    need(not l.rest(), 'end of the file after the panels')
    return V, one_based(V, F)


def nat(l):
    need(l.ints(2) == [0, 0], 'no symmetry declared')
    nv, nf = l.ints(2)
    V = [l.reals(l.next().split(), 3) for i in range(nv)]
    F = [l.ints(4) for i in range(nf)]
    need(not l.rest(), 'end of the file after the panels')
    return V, one_based(V, F)


def gdf(l):
    l.next(False)
    l.reals(l.next().split()[:2], 2)
    need(l.ints(2) == [0, 0], 'WAMIT: a whole body, without declared symmetry (ISX ISY)')
    n = l.ints(1)[0]
    t = [x for r in l.rest() for x in r.split()]
    need(len(t) == 12 * n, 'WAMIT: four vertices per panel')
    V = [l.reals(t[3 * i:3 * i + 3], 3) for i in range(4 * n)]
    return V, [[4 * i, 4 * i + 1, 4 * i + 2, 4 * i + 3] for i in range(n)]


def hst(l):
    words = [x.split() for x in l.lines]
    heads = [w for w in words if w and re.match(r'[A-Z]', w[0])]
    names = [w[0] for w in heads]
    need(['NBODY', '1'] in heads, 'HydroStar: one body')
    need(not any(n.startswith('SYM') and w[1:] not in ([], ['0']) for n, w in zip(names, heads)), 'HydroStar: no symmetry')
    need(names[-1] == 'ENDFILE', 'HydroStar: ENDFILE at the end')
    need(names.count('COORDINATES') == 1 and names.count('ENDCOORDINATES') == 1, 'HydroStar: coordinates')
    V, F, ids = [], [], {}
    mode = None
    for w in words:
        if not w:
            continue
        if w[0] == 'COORDINATES':
            mode = 'v'
        elif w[0] == 'PANEL':
            need(w[1:] == ['TYPE', '0'], 'HydroStar: panels of type 0')
            mode = 'f'
        elif w[0] in ('ENDCOORDINATES', 'ENDPANEL'):
            need(mode == ('v' if w[0] == 'ENDCOORDINATES' else 'f'), 'HydroStar: blocks closed')
            mode = None
        elif mode == 'v':
            need(int(w[0]) not in ids, 'HydroStar: different node numbers')
            ids[int(w[0])] = len(V)
            V.append(l.reals(w[1:], 3))
        elif mode == 'f':
            need(len(w) in (3, 4) and all(int(x) in ids for x in w), 'HydroStar: nodes of a panel')
            F.append([ids[int(x)] for x in w])
        else:
            need(re.match('[A-Z]', w[0]), 'HydroStar: line out of the blocks: %r' % (w,))
    need(mode is None, 'HydroStar: blocks closed')
    return V, [f if len(f) == 4 else f + f[:1] for f in F]


def pnl(l):
    data = [x.split() for x in l.lines if x.strip() and not x.strip().startswith(('#', '-'))]
    heads = [x.strip().lstrip('#').strip().lower() for x in l.lines if x.strip().startswith('#')]
    for w in ('start definition of node coordinates', 'end definition of node coordinates', 'start definition of node relations',
              'end definition of node relations'):
        need(any(x.startswith(w) for x in heads), 'HAMS: ' + w)
    nf, nv, sx, sy = [int(x) for x in data[0]]
    need((sx, sy) == (0, 0), 'HAMS: no symmetry declared')
    need(len(data) == 1 + nf + nv, 'HAMS: numbers of panels and of nodes')
    V, F = [], []
    for i, w in enumerate(data[1:1 + nv]):
        need(int(w[0]) == i + 1, 'HAMS: nodes numbered from 1')
        V.append(l.reals(w[1:], 3))
    for i, w in enumerate(data[1 + nv:]):
        w = [int(x) for x in w]
        need(w[0] == i + 1, 'HAMS: panels numbered from 1')
        need(w[1] in (3, 4) and len(w) == 2 + w[1], 'HAMS: number of vertices of a panel')
        F.append(w[2:] if w[1] == 4 else w[2:] + w[2:3])
        need(len(set(w[2:])) == w[1], 'HAMS: different vertices in a panel')
    return V, one_based(V, F)


def tec(l):
    need(l.next().strip().upper().startswith('TITLE'), 'Tecplot: title')
    v = l.next().upper()
    need(v.strip().startswith('VARIABLES') and [x.strip('", ') for x in v.split('=')[1].split(',')] == ['X', 'Y', 'Z'],
         'Tecplot: variables')
    head = ''
    while not re.search(r'\bE\s*=\s*\d', head):
        head += ' ' + l.next()
        need('ZONE' in head, 'Tecplot: zone')
    nv, nf = (int(re.search(r'\b%s\s*=\s*(\d+)' % c, head).group(1)) for c in 'NE')
    need(re.search(r'\bF\s*=\s*FEPOINT', head) and re.search(r'\bET\s*=\s*QUADRILATERAL', head), 'Tecplot: kind of zone')
    V = [l.reals(l.next().split(), 3) for i in range(nv)]
    F = [l.ints(4) for i in range(nf)]
    need(not l.rest(), 'end of the file after the elements')
    return V, one_based(V, F)


def dat(l):
    V, F, ids, eids = [], [], {}, set()
    mode = None
    for s in l.lines:
        w = s.split()
        if not w:
            continue
        if s.startswith('$') or s.startswith('*'):
            u = s.lstrip('$* ').upper()
            if u.startswith('NODE'):
                mode = 'v'
            elif u.startswith('ELEMENT'):
                mode = {'Q4C000': 4, 'T3C000': 3}[re.search(r'TYPE=(\w+)', u).group(1)]
            elif u.startswith('RETURN'):
                need(s.startswith('*') and mode is not None, 'DIODORE: blocks ended by *RETURN')
                mode = None
        elif mode == 'v':
            need(int(w[0]) not in ids, 'DIODORE: different node numbers')
            ids[int(w[0])] = len(V)
            V.append(l.reals(w[1:], 3))
        else:
            need(mode is not None and len(w) == 1 + mode, 'DIODORE: number and nodes of an element')
            need(int(w[0]) not in eids, 'DIODORE: different element numbers')
            eids.add(int(w[0]))
            f = [ids[int(x)] for x in w[1:]]
            need(len(set(f)) == mode, 'DIODORE: different nodes in an element')
            F.append(f if mode == 4 else f + f[:1])
    need(mode is None, 'DIODORE: blocks closed')
    return V, F


def obj(l):
    V, F = [], []
    for s in l.lines:
        w = s.split('#')[0].split()
        if not w:
            continue
        if w[0] == 'v':
            V.append(l.reals(w[1:], 3))
        elif w[0] == 'f':
            f = [int(x.split('/')[0]) for x in w[1:]]
            need(len(f) in (3, 4) and len(set(f)) == len(f), 'OBJ: three or four different vertices')
            F.append(f if len(f) == 4 else f + f[:1])
        else:
            need(w[0] in ('o', 'g', 's', 'vn', 'vt', 'usemtl', 'mtllib'), 'OBJ: keyword ' + w[0])
    return V, one_based(V, F)


def vtk(l):
    need(l.next(False).startswith('# vtk DataFile Version'), 'VTK: first line')
    need(len(l.next(False)) <= 256, 'VTK: title')
    need(l.next().strip() == 'ASCII' and l.next().split() == ['DATASET', 'POLYDATA'], 'VTK: kind of data')
    t = ' '.join(l.rest()).split()
    need(t[0] == 'POINTS' and t[2] in ('float', 'double'), 'VTK: points')
    n = int(t[1])
    V = [l.reals(t[3 + 3 * i:6 + 3 * i], 3) for i in range(n)]
    t = t[3 + 3 * n:]
    need(t[0] == 'POLYGONS', 'VTK: polygons')
    nf, size = int(t[1]), int(t[2])
    t = [int(x) for x in t[3:]]
    need(len(t) == size, 'VTK: size of the polygons')
    F = []
    while t:
        k = t[0]
        need(k in (3, 4) and len(set(t[1:1 + k])) == k, 'VTK: three or four different points')
        F.append(t[1:1 + k] if k == 4 else t[1:4] + t[1:2])
        t = t[1 + k:]
    need(len(F) == nf, 'VTK: number of polygons')
    need(all(0 <= i < n for f in F for i in f), 'VTK: numbers of points from 0')
    return V, F


def stl(l):
    need(l.next().split()[0] == 'solid', 'STL: solid')
    V, F = [], []
    l.normals = []
    while True:
        w = l.next().split()
        if w[0] == 'endsolid':
            break
        need(w[:2] == ['facet', 'normal'], 'STL: facet')
        l.normals.append(l.reals(w[2:], 3))
        need(l.next().split() == ['outer', 'loop'], 'STL: loop')
        o = len(V)
        for i in range(3):
            w = l.next().split()
            need(w[0] == 'vertex', 'STL: vertex')
            V.append(l.reals(w[1:], 3))
        need(l.next().split() == ['endloop'] and l.next().split() == ['endfacet'], 'STL: end of the facet')
        F.append([o, o + 1, o + 2, o])
    need(not l.rest(), 'STL: end of the file')
    return V, F


def one_based(V, F):
    need(all(1 <= i <= len(V) for f in F for i in f), 'node numbers from 1 to the number of nodes')
    return [[i - 1 for i in f] for f in F]


SHAPE = [(0, 0, 1), (3, 1, 0), (4, 3, 2), (6, 5, 6), (9, 6, -2), (13, -4, 5)]


def similar(h, n, cls):
    """a fixed set of points moved anywhere and stretched by any factor: the directions of the normals are known"""
    s = h.real('s', '0.6', '1.1')
    lo = {'unit': 20, 'neg': -90, 'wide': -9000}[cls]
    o = [h.real('o' + c, lo, lo + abs(lo) // 2) for c in 'xyz']
    return [[o[a] + s * q[a] for a in range(3)] for q in SHAPE[:n]]


def merged(f):
    """nodes of a panel, consecutive repetitions removed"""
    out = [x for i, x in enumerate(f) if x != f[i - 1]]
    return out


def written(h, fmt, conn, cls='unit', free=None):
    if isinstance(conn, int):
        F = ribbon(conn)
        n = conn + 3
        P = many_nodes(h, n)
    else:
        F = h.choose('conn', c01.CONN[conn])
        n = 1 + max(max(f) for f in F)
        P = spread(h, n, cls, free) if fmt != 'stl' else similar(h, n, cls)
    mm = h.mod('mmio')
    p = h.path('a.' + ('DAT' if fmt == 'dat' else fmt))
    mm.write_mesh(p, node_arr(h, P), h.arr(F, int), KIND.get(fmt, fmt))
    txt = h.read_text(p)
    h.true(txt is not None, 'the file is written')
    l = Lines(h, txt)
    try:
        V, G = globals()[fmt](l)
    except Bad as e:
        h.fail(str(e))
    except (KeyError, ValueError, IndexError, AttributeError) as e:
        h.fail('the file does not follow the format: %r' % (e,))
    if fmt == 'stl':
        want = []
        for f in F:
            want += [f[:3]] if f[0] == f[3] else [f[:3], [f[0], f[2], f[3]]]
    else:
        want = [f[:3] if f[0] == f[3] else f for f in F]
    h.true(len(G) == len(want), 'number of faces')
    if fmt not in ('gdf', 'stl'):
        h.true(len(V) == n, 'number of nodes')
    # in any order
    left = list(range(len(want)))
    for k, g in enumerate(G):
        A = [V[i] for i in g]
        hit = None
        h.true(bool(left), 'number of faces')
        cand = left if fmt in ('dat', 'stl') else left[:1]
        for w in cand:
            f = want[w]
            if match(h, fmt, g, A, f, P):
                hit = w
                break
        h.true(hit is not None, 'face %d of the file is that of the mesh' % k)
        left.remove(hit)
        if fmt == 'stl':
            f = want[hit]
            nrm = cross(sub(P[f[1]], P[f[0]]), sub(P[f[2]], P[f[0]]))
            ln = h.sqrt(dot(nrm, nrm))
            for a in range(3):
                d = l.normals[k][a] * ln - nrm[a]
                t = ln * h.const('0.000002')
                h.le(d, t, 'STL: normal of facet %d' % k)
                h.le(-d, t, 'STL: normal of facet %d' % k)


def match(h, fmt, g, A, f, P):
    """the corners of the panel are, in cyclic order, the nodes of the face (decided by the first coordinate, which tells
    the nodes apart)"""
    ids = [near_node(h, fmt, a, P) for a in A]
    if None in ids:
        return False
    ring = merged(ids)
    if len(f) != len(ring) or not any(ring[k:] + ring[:k] == f for k in range(len(ring))):
        return False
    for a, i in zip(A, ids):
        h.true(within_format(h, a, P[i], fmt), 'coordinates of node %d' % i)
    return True


def near_node(h, fmt, a, P):
    for i, p in enumerate(P):
        if bool(h.band(a[0] - p[0] <= h.const('0.04'), p[0] - a[0] <= h.const('0.04'))):
            return i
    return None


INSTANCES = []
for _f in ('mar', 'nem', 'pnl', 'nat', 'hst', 'tec', 'gdf', 'dat', 'obj', 'vtk', 'stl'):
    INSTANCES += [Inst(_f + ' / one face', written, textual=True, fmt=_f, conn='one', cls='neg', bound='1 face'),
                  Inst(_f + ' / two faces', written, textual=True, fmt=_f, conn='two', cls='unit' if _f == 'stl' else 'mid',
                       free=None if _f == 'stl' else {(0, 2): 'any'}, bound='2 faces, one coordinate of any magnitude and sign'),
                  Inst(_f + ' / five faces', written, textual=True, fmt=_f, conn='many', cls='wide',
                       bound='5 faces')]
    if _f != 'stl':
        INSTANCES += [Inst('%s / long, %d' % (_f, _m), written, textual=True, fmt=_f, conn=_m, bound='%d faces' % _m) for _m in (14, 107)]
