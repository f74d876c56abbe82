from . import c25
from .formats import *

BOUNDS = 'meshes of one to five faces, triangles and quadrangles, every coordinate; the mesh shown after a move; --show of the command'
OUTSIDE = 'what VTK draws of the data it is given, and the interaction with the window (key bindings, screenshots)'
ASSUMPTIONS = ['the window is replaced by a recorder of the data it receives; VTK displays the polygons of a vtkPolyData']

CONN = {'T': [[2, 0, 1, 2]], 'Q': [[3, 1, 0, 2]], 'TQ': [[0, 1, 2, 0], [1, 3, 4, 2]], 'QT': [[0, 1, 2, 3], [3, 2, 4, 3]],
        'many': [[0, 1, 2, 3], [3, 2, 4, 5], [4, 5, 0, 4], [1, 0, 5, 1], [2, 1, 4, 2]]}


class Spy(object):
    seen = None

    def __init__(self, *a, **k):
        self.datas = []
        Spy.seen = self
        self.shown = 0

    def add_polydata(self, pd, *a, **k):
        self.datas.append(pd)

    def show(self, *a, **k):
        self.shown += 1

    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)
        return lambda *a, **k: None


def displayed(h, pd, P, F, what):
    h.true(pd.GetNumberOfPoints() == len(P), what + ': number of points')
    for i, p in enumerate(P):
        for x, y in zip(pd.GetPoint(i), p):
            # VTK keeps single precision
            h.le(x - y, h.const('0.00002'), what + ': point %d' % i)
            h.le(y - x, h.const('0.00002'), what + ': point %d' % i)
    h.true(pd.GetNumberOfCells() == len(F), what + ': number of polygons')
    for k, f in enumerate(F):
        c = pd.GetCell(k)
        g = [int(c.GetPointId(j)) for j in range(c.GetNumberOfPoints())]
        w = f[:3] if f[0] == f[3] else f
        h.true(g in rotations(w), what + ': corners of face %d' % k)


def install(h):
    Spy.seen = None
    h.stub(h.mod('MMviewer'), 'MMViewer', Spy)


def show(h, conn, after):
    F = [list(f) for f in CONN[conn]]
    n = 1 + max(max(f) for f in F)
    P = [point(h, 'p%d' % i, -100, 100) for i in range(n)]
    install(h)
    m = h.mod('mesh').Mesh(h.arr(P, float), h.arr(F, int))
    if after == 'moved':
        m.show()
        t = point(h, 't', -50, 50)
        m.translate(t)
        P = [add(p, t) for p in P]
    elif after == 'flipped':
        m.show()
        m.flip_normals()
        F = [f[:1] + f[3:0:-1] if f[0] != f[3] else [f[0], f[2], f[1], f[0]] for f in F]
    m.show()
    v = Spy.seen
    h.true(v is not None and len(v.datas) == 1 and v.shown == 1, 'one object is shown')
    displayed(h, v.datas[0], P, F, 'view')
    h.eq([list(r) for r in m.vertices], P, 'vertices unchanged')


def command(h, opts):
    P, f = c25.inputs(h)
    install(h)
    argv = ['-q', h.choose('o', ['-sh', '--show'])]
    want = P
    if opts == 'moved':
        t = point(h, 't', 1, 9)
        argv = ['-t'] + c25.numbers(h, t) + argv
        want = [add(p, t) for p in P]
    V, F = c25.run(h, argv, f)
    v = Spy.seen
    h.true(v is not None and len(v.datas) == 1 and v.shown == 1, 'one object is shown')
    displayed(h, v.datas[0], want, c25.FACES, 'view')
    c25.check(h, V, F, want, c25.FACES, 'mesh written')


INSTANCES = [Inst('show ' + k, show, conn=k, after=None, bound='%d faces' % len(CONN[k])) for k in CONN]
INSTANCES += [Inst('show TQ ' + a, show, conn='TQ', after=a, bound='2 faces') for a in ('moved', 'flipped')]
INSTANCES += [Inst('command ' + o, command, textual=True, opts=o, bound='3 faces') for o in ('alone', 'moved')]
