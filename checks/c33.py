from .c03 import *

BOUNDS = ('hand-written files of one to three shapes or sections, up to 6 points and 5 faces; any coordinates in the stated ranges, '
          'in plain or exponent notation; VRML shapes at the top, in a group and in a transform with any translation and scale')
OUTSIDE = ('VRML rotations, nested transforms, reused nodes and other geometry than indexed face sets; binary files; scalars and other data beside the '
           'geometry; what the library does of malformed files')
ASSUMPTIONS = ['the vtk library reads its documented formats (model of symx/vtkmodel.py, replayed with the real library), with '
               'coordinates in single precision']


def faces_text(F, off, sep=' ', end=''):
    return ['%s%s' % (sep.join(str(i + off) for i in f), end) for f in F]


def load(h, fmt, name, text):
    h.write_text(name, text)
    V, F = h.mod('mmio').load_mesh(h.path(name), fmt)
    return V, F


def legacy(h, cls, layout):
    F, P, style = start(h, cls)
    L = ['# vtk DataFile Version 3.0', 'a hull', 'ASCII', 'DATASET POLYDATA', 'POINTS %d %s' % (len(P), 'float' if layout else 'double')]
    rows = [point(h, p, style) for p in P]
    if layout == 1:  # several points on each line
        rows = ['  '.join(rows[:3]), '  '.join(rows[3:])]
    size = sum(len(f) + 1 for f in F)
    L += rows + ['POLYGONS %d %d' % (len(F), size)] + ['%d %s' % (len(f), t) for f, t in zip(F, faces_text(F, 0))]
    V, G = load(h, 'vtk', 'a.vtk', '\n'.join(L + ['']))
    h.true(int(V.shape[0]) == len(P), 'number of points')
    compare(h, V, G, P, F, order='file')


def obj(h, cls, layout):
    F, P, style = start(h, cls)
    L = ['# a hull', 'o hull'] + ['v ' + point(h, p, style) for p in P]
    for k, f in enumerate(F):
        if layout == 1:
            L.append('g part%d' % k)
        L.append('f ' + ' '.join(str(i + 1) for i in f))
    V, G = load(h, 'obj', 'a.obj', '\n'.join(L + ['']))
    h.true(int(V.shape[0]) == len(P), 'number of points')
    compare(h, V, G, P, F, order='file')


def stl(h, cls, upper):
    F = h.choose('conn', [[[0, 1, 2], [2, 1, 3]], [[3, 2, 0], [4, 3, 0], [1, 2, 4]], [[1, 0, 3]]])
    P = spread(h, 5, cls)
    style = style_of(h)
    w = (lambda s: s.upper()) if upper else (lambda s: s)
    rows = [point(h, p, style) for p in P]
    L = ['solid hull']
    for f in F:
        L += [w('  facet normal') + ' 0 0 1', w('    outer loop')] + [w('      vertex ') + rows[i] for i in f] + [w('    endloop'), w('  endfacet')]
    V, G = load(h, 'stl', 'a.stl', '\n'.join(L + [w('endsolid'), '']))
    h.true(int(V.shape[0]) == len(set(i for f in F for i in f)), 'number of points')
    compare(h, V, G, P, F, order='file')


def vrml(h, cls, layout):
    """each shape: its own points and faces, at its place"""
    F, P, style = start(h, cls, [0])
    sets = {'one': [[[0, 1, 2], [2, 1, 3, 4]]], 'two': [[[3, 2, 1, 0]], [[4, 3, 0]]], 'moved': [[[0, 1, 2, 3]]],
            'groups': [[[0, 1, 2]], [[3, 2, 1, 0], [1, 0, 4]]], 'group': [[[0, 1, 2]], [[2, 3, 4]], [[1, 2, 3, 4]]]}[layout]
    texts, pts, faces = [], [], []
    for F in sets:
        used = sorted(set(i for f in F for i in f))
        T = ', '.join(point(h, P[i], style) for i in used)
        C = ', '.join(', '.join(str(used.index(i)) for i in f) + ', -1' for f in F)
        texts.append('Shape {\n geometry IndexedFaceSet {\n coord Coordinate { point [ %s ] }\n coordIndex [ %s ]\n }\n}\n' % (T, C))
        faces.append([[used.index(i) for i in f] for f in F])
        pts.append([P[i] for i in used])

    def move(name):
        t = [h.real(name + 't' + c, 2, 8) for c in 'xyz']
        s = [h.real(name + 's' + c, 2, 8) for c in 'xyz']
        head = 'Transform { translation %s scale %s\n children [\n' % (' '.join(h.text('t', x) for x in t), ' '.join(h.text('t', x) for x in s))
        return head, t, s

    place = lambda Q, t, s: [[a * q + b for a, q, b in zip(s, p, t)] for p in Q]
    if layout in ('one', 'two'):
        body = ''.join(texts)
    elif layout == 'moved':
        head, t, s = move('a')
        body = head + texts[0] + ']}\n'
        pts = [place(pts[0], t, s)]
    else:
        body = 'Group { children [\n' + texts[0] + texts[1] + ']}\n' + ''.join(texts[2:])
    V, G = load(h, 'wrl', 'a.wrl', '#VRML V2.0 utf8\n' + body)
    want, Q = [], []
    for ps, fs in zip(pts, faces):
        want += [[i + len(Q) for i in f] for f in fs]
        Q += ps
    h.true(int(V.shape[0]) == len(Q), 'number of points')
    # any order of the shapes: faces are compared as a set of positions
    shape_ok(h, V, G, len(want), 'mesh')
    G = [[int(i) for i in g] for g in G]
    for f in G:
        h.true(all(0 <= i < int(V.shape[0]) for i in f), 'faces refer to existing points')
    left = list(range(len(G)))
    for k, f in enumerate(want):
        h.true(h.bor(*[h.band(*[close(h, a, Q[i]) for a, i in zip(r, f)]) for g in G
                       if (g[0] == g[3]) == (len(f) == 3) for r in rotations([list(V[i]) for i in g[:len(f)]])]),
               'face %d is there, at its place and in order' % k)


def close(h, p, q):
    """points of the file are in single precision, then scaled (at most 64 times) and moved"""
    return h.band(*[h.band(a - b <= t, b - a <= t)
                    for a, b, t in ((a, b, h.abs(b) * h.const('1e-5') + h.const('1e-4')) for a, b in zip(p, q))])


def version(h, v):
    try:
        load(h, 'wrl', 'a.wrl', '#VRML V%s utf8\n' % v)
    except NotImplementedError:
        return h.true(True, 'refused')
    h.fail('VRML %s is refused' % v)


INSTANCES = []
for _c in ('unit', 'mid', 'close'):
    INSTANCES += [Inst('legacy vtk / %s / %d' % (_c, l), legacy, textual=True, cls=_c, layout=l, bound='5 points') for l in (0, 1)]
    INSTANCES += [Inst('obj / %s / %d' % (_c, l), obj, textual=True, cls=_c, layout=l, bound='5 points') for l in (0, 1)]
INSTANCES += [Inst('stl / %s' % u, stl, textual=True, cls='unit', upper=u, bound='5 points') for u in (False, True)]
INSTANCES += [Inst('vrml / %s' % l, vrml, textual=True, cls='unit', layout=l, bound='5 points')
              for l in ('one', 'two', 'moved', 'group', 'groups')]
INSTANCES += [Inst('vrml / one, close points', vrml, textual=True, cls='close', layout='one', bound='5 points')]
INSTANCES += [Inst('vrml 1.0 refused', version, textual=True, v='1.0', bound='-')]
