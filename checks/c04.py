import re

from .formats import *

BOUNDS = 'up to 3 faces (107 but for STL), triangles and quadrangles in any mix, any coordinates in the stated ranges, two or three writes'
OUTSIDE = 'coordinates of more than six integer digits; formats without a writer'
ASSUMPTIONS = ['the files of the vtk library are modelled by their points (in single precision) and cells']

WRITERS = ['mar', 'nem', 'pnl', 'nat', 'hst', 'tec', 'gdf', 'diodore-dat', 'vtk', 'obj', 'stl', 'vtp', 'vtu']
CONN = [[[0, 1, 2, 3], [4, 5, 1, 0]], [[0, 1, 2, 0], [2, 3, 4, 5]], [[0, 1, 2, 3], [3, 2, 4, 3], [5, 4, 2, 5]],
        [[0, 1, 2, 0], [2, 1, 3, 2]], [[0, 3, 5, 2]]]


def text(h, p):
    s = h.read_text(p)
    return None if s is None else re.sub(r'\d+:\d\d:\d\d', 'T', s)


def ext(fmt):
    return {'diodore-dat': 'DAT'}.get(fmt, fmt)


def write(h, fmt, other, cls):
    F, n = h.choose('conn', CONN) if cls != 'long' else ribbon(107), 6
    if cls == 'long':
        n = 110
        P = many_nodes(h, n)
    elif fmt == 'stl' or other == 'stl':
        P = flat(h)
    else:
        P = nodes(h, n, cls)
    V, A = node_arr(h, P), h.arr(F, int)
    mm = h.mod('mmio')

    def unchanged(when):
        h.true(tuple(int(x) for x in V.shape) == (n, 3) and tuple(int(x) for x in A.shape) == (len(F), 4),
               when + ': shape of the mesh saved')
        h.eq([list(p) for p in V], P, when + ': vertices of the mesh saved', tol=1e-12)
        h.true([[int(i) for i in f] for f in A] == F, when + ': faces of the mesh saved')
    a, b = h.path('a.' + ext(fmt)), h.path('b.' + ext(other))
    mm.write_mesh(a, V, A, fmt)
    unchanged('saved once')
    t1 = text(h, a)
    h.true(bool(t1), 'a file is written')
    mm.write_mesh(b, V, A, other)
    unchanged('saved twice')
    mm.write_mesh(a, V, A, fmt)
    unchanged('saved three times')
    h.true(text(h, a) == t1, 'the same file when saved again')


INSTANCES = [Inst('%s, %s, %s' % (f, o, f), write, textual=True, fmt=f, other=o, cls='unit', bound='3 writes')
             for f, o in zip(WRITERS, WRITERS[1:] + WRITERS[:1])]
INSTANCES += [Inst('%s, %s, %s / long' % (f, o, f), write, textual=True, fmt=f, other=o, cls='long', bound='3 writes of 107 faces')
              for f, o in zip(WRITERS, WRITERS[1:] + WRITERS[:1]) if 'stl' not in (f, o)]
