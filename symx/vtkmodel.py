"""Model of the classes of the vtk library that meshmagick's readers and writers use: points in single precision, cells,
poly data, unstructured grids, XML files (written and read by the library only), and its readers of legacy, OBJ and STL text.
Every path through it is also replayed with the real library."""
from fractions import Fraction

import numpy as np

from . import core, sstr, textio
from .core import Rx, lift, const, Unsupported

VTK_MAJOR_VERSION = 9
VTK_TRIANGLE, VTK_QUAD, VTK_POLYGON = 5, 9, 7


def _single(x):
    """x stored in single precision"""
    x = lift(x)
    if x.num is None:
        return x
    if x.is_const():
        return const(Fraction(float(np.float32(float(x.const())))))
    c = core.cur()
    key = ('single', x.num, x.den)
    r = c.cache_fun.get(key)
    if r is None:
        v = c.new_var('sgl%d' % len(c.vars))
        v.ev = lambda pt: None if pt.rx(x) is None else float(np.float32(float(pt.rx(x))))
        r = Rx(core.Poly.var(v.idx))
        d = r - x
        k = Fraction(7, 10 ** 8)
        b = c.prange(x.num) if not x.den else None
        if b is None:
            v.side = [d * d <= x * x * const(k * k)]
        else:
            top = max(abs(b[0]), abs(b[1]))
            v.lo, v.hi = b[0] - top * k, b[1] + top * k
            s = -1 if b[1] <= 0 else 1 if b[0] >= 0 else 0
            if s:
                v.side = [d <= x * const(s * k), -d <= x * const(s * k)]
            else:
                v.side = [d * d <= x * x * const(k * k)]
        c.cache_fun[key] = r
        c.cache_fun[('single', r.num, r.den)] = r
    return r


def _token(x):
    x = lift(x)
    c = core.cur()
    if x.is_const():
        return repr(float(x.const())) if not x.isint else repr(int(x.const()))
    key = ('vtktoken', x.num, x.den)
    t = c.cache_fun.get(key)
    if t is None:
        t = '%d.5%06d' % (9000 + len(c.textreg), 1 + len(c.textreg))
        textio.register(t, x)
        c.cache_fun[key] = t
    return t


def _int(x):
    """index of a point"""
    if isinstance(x, Rx):
        if not x.isint:
            raise TypeError('integer expected')
        return x
    return int(x)


class vtkPoints(object):
    def __init__(self):
        self.p = []

    def SetNumberOfPoints(self, n):
        n = int(n)
        self.p = (self.p + [None] * n)[:n]

    def SetPoint(self, i, *v):
        v = list(v[0]) if len(v) == 1 else list(v)
        i = int(i)
        if not 0 <= i < len(self.p):
            raise Unsupported('vtkPoints.SetPoint out of range')
        self.p[i] = [_single(x) for x in v]

    def InsertNextPoint(self, *v):
        v = list(v[0]) if len(v) == 1 else list(v)
        self.p.append([_single(x) for x in v])
        return len(self.p) - 1

    def InsertPoint(self, i, *v):
        i = int(i)
        while len(self.p) <= i:
            self.p.append(None)
        self.SetPoint(i, *v)

    def GetPoint(self, i):
        return tuple(self.get(int(i)))

    def get(self, i):
        return self.p[i] if self.p[i] is not None else [const(0)] * 3

    def GetNumberOfPoints(self):
        return len(self.p)


class vtkIdList(object):
    def __init__(self, n=0):
        self.ids = [0] * n

    def SetNumberOfIds(self, n):
        self.ids = (self.ids + [0] * int(n))[:int(n)]

    def SetId(self, k, i):
        self.ids[int(k)] = _int(i)

    def InsertNextId(self, i):
        self.ids.append(_int(i))
        return len(self.ids) - 1

    def GetId(self, k):
        return self.ids[int(k)]

    def GetNumberOfIds(self):
        return len(self.ids)


class _Cell(object):
    n, kind = 0, 0

    def __init__(self):
        self.list = vtkIdList(self.n)

    def GetPointIds(self):
        return self.list

    def GetPointId(self, k):
        return self.list.ids[int(k)]

    def GetNumberOfPoints(self):
        return len(self.list.ids)

    def GetCellType(self):
        return self.kind


class vtkTriangle(_Cell):
    n, kind = 3, VTK_TRIANGLE


class vtkQuad(_Cell):
    n, kind = 4, VTK_QUAD


class vtkPolygon(_Cell):
    n, kind = 0, VTK_POLYGON


def _cell(kind, ids):
    c = {VTK_TRIANGLE: vtkTriangle, VTK_QUAD: vtkQuad}.get(kind, vtkPolygon)()
    c.list.ids = list(ids)
    return c


class vtkCellArray(object):
    def __init__(self):
        self.cells = []

    def InsertNextCell(self, *a):
        if len(a) == 1 and isinstance(a[0], _Cell):
            self.cells.append(list(a[0].list.ids))
        elif len(a) == 1 and isinstance(a[0], vtkIdList):
            self.cells.append(list(a[0].ids))
        elif len(a) == 1:
            self.cells.append([])
        elif len(a) == 2:
            self.cells.append([_int(i) for i in list(a[1])[:int(a[0])]])
        return len(self.cells) - 1

    def InsertCellPoint(self, i):
        self.cells[-1].append(_int(i))

    def Allocate(self, *a):
        pass

    def GetNumberOfCells(self):
        return len(self.cells)


class _Data(object):
    def __init__(self):
        self.points = None

    def SetPoints(self, p):
        self.points = p

    def GetPoints(self):
        return self.points

    def GetNumberOfPoints(self):
        return len(self.points.p) if self.points is not None else 0

    def GetPoint(self, i):
        return self.points.GetPoint(i)

    def GetNumberOfCells(self):
        return len(self._cells())

    def GetCell(self, k):
        kind, ids = self._cells()[int(k)]
        return _cell(kind, ids)

    def GetCellType(self, k):
        return self._cells()[int(k)][0]

    def Allocate(self, *a):
        pass

    def Modified(self):
        pass


class vtkPolyData(_Data):
    def __init__(self):
        _Data.__init__(self)
        self.polys = vtkCellArray()

    def SetPolys(self, c):
        self.polys = c

    def GetPolys(self):
        return self.polys

    def _cells(self):
        return [({3: VTK_TRIANGLE, 4: VTK_QUAD}.get(len(c), VTK_POLYGON), c) for c in self.polys.cells]


class vtkUnstructuredGrid(_Data):
    def __init__(self):
        _Data.__init__(self)
        self.list = []

    def InsertNextCell(self, kind, *a):
        if len(a) == 1:
            ids = list(a[0].ids)
        else:
            ids = [_int(i) for i in list(a[1])[:int(a[0])]]
        self.list.append((int(kind), ids))
        return len(self.list) - 1

    def _cells(self):
        return self.list


class _Writer(object):
    what = None

    def __init__(self):
        self.name = self.data = None

    def SetFileName(self, n):
        self.name = sstr.vkey(n)

    def GetFileName(self):
        return self.name

    def SetInputData(self, d):
        self.data = d

    SetInput = SetInputData

    def SetDataModeToAscii(self):
        pass

    SetDataModeToBinary = SetDataModeToAppended = EncodeAppendedDataOff = SetDataModeToAscii

    def Write(self):
        d = self.data
        out = ['<VTKFile type="%s">' % self.what, '%d' % d.GetNumberOfPoints()]
        for k in range(d.GetNumberOfPoints()):
            out.append(' '.join(_token(x) for x in d.points.get(k)))
        cs = d._cells()
        out.append('%d' % len(cs))
        for kind, ids in cs:
            out.append('%d %s' % (kind, ' '.join(_token(i) if isinstance(i, Rx) and not i.is_const() else str(int(i))
                                                 for i in ids)))
        core.cur().vfs[self.name] = '\n'.join(out) + '\n</VTKFile>\n'
        return 1

    Update = Write


class vtkXMLPolyDataWriter(_Writer):
    what = 'PolyData'


class vtkXMLUnstructuredGridWriter(_Writer):
    what = 'UnstructuredGrid'


def _number(t):
    c = core.cur()
    v = c.textreg.get(textio._key(t))
    return v if v is not None and v.isint else int(t)


class _Reader(object):
    def __init__(self):
        self.name = self.out = None

    def SetFileName(self, n):
        self.name = sstr.vkey(n)

    def Update(self):
        s = core.cur().vfs.get(self.name)
        if s is None:
            raise Unsupported('vtk reader on a missing file')
        self.out = self.parse(s)

    def GetOutput(self):
        return self.out

    def GetOutputDataObject(self, k):
        return self.out


class _XML(_Reader):
    what = None

    def parse(self, s):
        L = s.split('\n')
        if L[0] != '<VTKFile type="%s">' % self.what:
            # the library reports an error and gives an empty mesh
            return self.build(vtkPoints(), [])
        n = int(L[1])
        pts = vtkPoints()
        for l in L[2:2 + n]:
            pts.InsertNextPoint([textio.parse_float(t) for t in l.split()])
        m = int(L[2 + n])
        cells = []
        for l in L[3 + n:3 + n + m]:
            t = l.split()
            cells.append((int(t[0]), [_number(x) for x in t[1:]]))
        return self.build(pts, cells)


def _poly(pts, cells):
    d = vtkPolyData()
    d.SetPoints(pts)
    for ids in cells:
        d.polys.cells.append(list(ids))
    return d


class vtkXMLPolyDataReader(_XML):
    what = 'PolyData'

    def build(self, pts, cells):
        return _poly(pts, [c for k, c in cells])


class vtkXMLUnstructuredGridReader(_XML):
    what = 'UnstructuredGrid'

    def build(self, pts, cells):
        d = vtkUnstructuredGrid()
        d.SetPoints(pts)
        d.list = cells
        return d


class vtkPolyDataReader(_Reader):
    def parse(self, s):
        L = s.split('\n')
        if not L[0].startswith('# vtk DataFile Version'):
            return _poly(vtkPoints(), [])
        if L[2].strip() != 'ASCII':
            raise Unsupported('legacy vtk file')
        t = ' '.join(L[3:]).split()
        if [x.upper() for x in t[:2]] != ['DATASET', 'POLYDATA'] or t[2].upper() != 'POINTS':
            raise Unsupported('legacy vtk file')
        n = int(t[3])
        i = 5
        pts = vtkPoints()
        for k in range(n):
            pts.InsertNextPoint([textio.parse_float(x) for x in t[i:i + 3]])
            i += 3
        cells = []
        if i < len(t):
            if t[i].upper() != 'POLYGONS':
                raise Unsupported('legacy vtk file')
            m, size = int(t[i + 1]), int(t[i + 2])
            i += 3
            end = i + size
            for k in range(m):
                if i >= min(end, len(t)):
                    raise Unsupported('legacy vtk file: size of the polygons')
                w = int(t[i])
                ids = t[i + 1:i + 1 + w]
                if len(ids) < w:
                    raise Unsupported('legacy vtk file: size of the polygons')
                cells.append([_number(x) for x in ids])
                i += 1 + w
            if i != end or i != len(t):
                raise Unsupported('legacy vtk file: size of the polygons')
        return _poly(pts, cells)


class vtkOBJReader(_Reader):
    def parse(self, s):
        pts = vtkPoints()
        cells = []
        for l in s.split('\n'):
            t = l.split('#')[0].split()
            if not t:
                continue
            if t[0] == 'v':
                pts.InsertNextPoint([textio.parse_float(x) for x in t[1:4]])
            elif t[0] == 'f':
                cells.append([_number(x.split('/')[0]) - 1 for x in t[1:]])
            elif t[0] not in ('g', 'o', 's', 'usemtl', 'mtllib'):
                if not pts.GetNumberOfPoints():
                    return _poly(vtkPoints(), [])
                raise Unsupported('obj file: ' + t[0])
        return _poly(pts, cells)


class vtkSTLReader(_Reader):
    def SetMerging(self, k):
        raise Unsupported('vtkSTLReader.SetMerging')

    def parse(self, s):
        t = s.split()
        if not t or t[0].lower() != 'solid':
            return _poly(vtkPoints(), [])
        pts = vtkPoints()
        seen = {}
        cells = []
        cur = []
        i = 0
        while i < len(t):
            w = t[i].lower()
            if w == 'vertex':
                xyz = tuple(textio._key(x) for x in t[i + 1:i + 4])
                if xyz not in seen:
                    seen[xyz] = pts.InsertNextPoint([textio.parse_float(x) for x in t[i + 1:i + 4]])
                cur.append(seen[xyz])
                i += 4
                continue
            if w == 'facet':
                cur = []
            if w == 'endfacet':
                if len(cur) != 3:
                    raise Unsupported('stl facet')
                if len(set(cur)) == 3:
                    cells.append(cur)
            i += 1
        return _poly(pts, cells)


class vtkMatrix4x4(object):
    def __init__(self):
        self.m = [[const(int(i == j)) for j in range(4)] for i in range(4)]

    def GetElement(self, i, j):
        return self.m[int(i)][int(j)]

    def SetElement(self, i, j, x):
        self.m[int(i)][int(j)] = lift(x)

    def mul(self, o):
        r = vtkMatrix4x4()
        r.m = [[sum((self.m[i][k] * o.m[k][j] for k in range(1, 4)), self.m[i][0] * o.m[0][j]) for j in range(4)]
               for i in range(4)]
        return r

    def MultiplyPoint(self, p):
        return tuple(sum((self.m[i][k] * p[k] for k in range(1, 4)), self.m[i][0] * p[0]) for i in range(4))


class _Bag(object):
    """an object with given accessors"""
    def __init__(self, **k):
        self.__dict__.update(dict(('Get' + n, (lambda v: lambda: v)(v)) for n, v in k.items()))


class _Actors(object):
    def __init__(self, items):
        self.items, self.i = items, 0

    def InitTraversal(self, *a):
        self.i = 0

    def GetNumberOfItems(self):
        return len(self.items)

    def GetNextActor(self):
        self.i += 1
        return self.items[self.i - 1] if self.i <= len(self.items) else None

    GetNextItem = GetNextProp = GetNextActor

    def GetLastActor(self):
        return self.items[-1] if self.items else None

    GetLastProp = GetLastItem = GetLastActor

    def GetItemAsObject(self, i):
        return self.items[int(i)]

    def __iter__(self):
        return iter(self.items)


class vtkVRMLImporter(_Reader):
    """VRML 2.0: groups, transforms (translation, scale) and indexed face sets"""
    def parse(self, s):
        t = []
        for l in s.split('\n')[1:]:
            t += l.split('#')[0].replace(',', ' ').replace('[', ' [ ').replace(']', ' ] ').replace('{', ' { ').replace('}', ' } ').split()
        self.t, self.i, self.shapes = t, 0, []
        while self.i < len(t):
            self.node(vtkMatrix4x4())
        A = []
        for d, m in self.shapes:
            mapper = _Bag(Input=d)
            A.append(_Bag(Mapper=mapper, Matrix=m))
        A = _Actors(A)
        return _Bag(Actors=A, ViewProps=A)

    def GetRenderer(self):
        return self.out

    def take(self):
        self.i += 1
        return self.t[self.i - 1]

    def values(self):
        if self.take() != '[':
            raise Unsupported('vrml list')
        out = []
        while self.t[self.i] != ']':
            out.append(self.take())
        self.i += 1
        return out

    def node(self, M):
        kind = self.take()
        if self.take() != '{':
            raise Unsupported('vrml node')
        local, pts, cells, children = vtkMatrix4x4(), None, None, []
        start = None
        while self.t[self.i] != '}':
            f = self.take()
            if f in ('translation', 'scale') and kind == 'Transform':
                for a in range(3):
                    x = textio.parse_float(self.take())
                    local.m[a][3 if f == 'translation' else a] = x
            elif f == 'children' and kind in ('Transform', 'Group'):
                start = self.i
                n = 0
                while True:
                    n += {'[': 1, ']': -1}.get(self.take(), 0)
                    if not n:
                        break
            elif f == 'geometry' and kind == 'Shape':
                pts, cells = self.node(None)
            elif f == 'appearance' and kind == 'Shape':
                self.skip()
            elif f == 'coord' and kind == 'IndexedFaceSet':
                pts = self.node(None)
            elif f == 'coordIndex' and kind == 'IndexedFaceSet':
                cells = self.values()
            elif f == 'point' and kind == 'Coordinate':
                pts = self.values()
            elif f in ('solid', 'ccw', 'convex') and kind == 'IndexedFaceSet':
                self.take()
            else:
                raise Unsupported('vrml field %s of %s' % (f, kind))
        self.i += 1
        if kind in ('Transform', 'Group'):
            end = self.i
            if start is not None:
                self.i = start + 1
                T = M.mul(local)
                while self.t[self.i] != ']':
                    self.node(T)
            self.i = end
        elif kind == 'Coordinate':
            return pts
        elif kind == 'IndexedFaceSet':
            return pts, cells
        elif kind == 'Shape':
            P = vtkPoints()
            for k in range(0, len(pts) - 2, 3):
                P.InsertNextPoint([textio.parse_float(x) for x in pts[k:k + 3]])
            C, cur = [], []
            for x in cells + ['-1']:
                if x == '-1':
                    if cur:
                        C.append(cur)
                    cur = []
                else:
                    cur.append(_number(x))
            self.shapes.append((_poly(P, C), M))
        else:
            raise Unsupported('vrml node ' + kind)

    def skip(self):
        n = 0
        while True:
            n += {'{': 1, '}': -1}.get(self.take(), 0)
            if not n and self.t[self.i - 1] == '}':
                return
