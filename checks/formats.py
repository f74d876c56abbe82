"""Meshes and comparisons shared by the checks of the file formats"""
from fractions import Fraction

from symx.harness import Inst
from .common import *

# ranges of coordinates
CLASSES = {'unit': ('1.5', '8.5'), 'neg': ('-8.5', '-1.5'), 'wide': ('-899999', '-100001'),
           'big': ('100001', '899999'), 'small': ('0.0011', '0.0089'), 'tiny': ('-0.0000089', '-0.0000011'),
           'mid': ('-899', '-101'), 'any': ('-899999', '899999'), 'near': ('-20', '20'), 'about1': ('-1.5', '1.5'),
           'up': ('0.4', '20')}
# digits printed after the point, or after the first significant digit
DIGITS = {'mar': (6, 'f'), 'nem': (6, 'f'), 'pnl': (6, 'f'), 'nat': (6, 'e'), 'hst': (6, 'e'), 'tec': (6, 'e'),
          'gdf': (6, 'e'), 'dat': (5, 'e')}
FORMATS = {'mar': 'mar', 'nem': 'nem', 'pnl': 'pnl', 'nat': 'nat', 'hst': 'hst', 'tec': 'tec', 'gdf': 'gdf',
           'dat': 'diodore-dat'}


def nodes(h, n, cls='unit', free=None, name='v'):
    """n vertices of coordinates in the class (of each axis); free: {(vertex, axis): class}"""
    out = []
    for i in range(n):
        p = []
        for a in range(3):
            c = cls if isinstance(cls, str) else cls[a]
            lo, hi = CLASSES[(free or {}).get((i, a), c)]
            p.append(h.real('%s%d%s' % (name, i, 'xyz'[a]), lo, hi))
        out.append(p)
    return out


def spread(h, n, cls='unit', free=None, name='v'):
    """as nodes, with abscissas that are far apart"""
    for i in range(n):
        CLASSES['x%d' % i] = (i + Fraction(5, 4), i + Fraction(7, 4))
    free = dict(free or {})
    free.update({(i, 0): 'x%d' % i for i in range(n)})
    return nodes(h, n, cls, free, name)


def panels(h, kinds, lo=1000, hi=8990, name='f'):
    """faces with any node numbers in [lo, hi]; kinds: 't' triangle, 'q' quadrangle, '?' either"""
    out = []
    for i, k in enumerate(kinds):
        if k == '?':
            k = h.choose('%s%dk' % (name, i), ['t', 'q'])
        f = [h.int('%s%d%s' % (name, i, 'abcd'[j]), lo, hi) for j in range(3 if k == 't' else 4)]
        for a in range(len(f)):
            for b in range(a):
                h.assume(f[a] != f[b])
        out.append(f + [f[0]] if k == 't' else f)
    return out


def is_tri(h, f):
    """decides whether the first and last entries are the same"""
    return bool(f[0] == f[3])


def rounding(h, x, fmt, times=1):
    n, k = DIGITS[fmt]
    t = h.const(Fraction(51, 10 ** (n + 2))) * times
    return t if k == 'f' else h.abs(x) * t + h.const('1e-11')


def within_format(h, got, want, fmt, times=1):
    return h.band(*[h.band(g - w <= t, w - g <= t) for g, w, t in
                    ((g, w, rounding(h, w, fmt, times)) for g, w in zip(got, want))])


def rotations(f):
    return [f[k:] + f[:k] for k in range(len(f))]


def same_numbers(h, got, want, label):
    """the face got (four node numbers) visits the nodes of the face wanted, in the same cyclic order"""
    if want[0] is want[3] or (not h.symbolic and want[0] == want[3]):
        h.true(got[0] == got[3], label + ': triangles stay triangles')
        g, w = list(got[:3]), list(want[:3])
    else:
        h.true(got[0] != got[3], label + ': quadrangles stay quadrangles')
        g, w = list(got), list(want)
    h.true(h.bor(*[h.band(*[a == b for a, b in zip(r, w)]) for r in rotations(g)]), label + ': nodes in order')


def face_arr(h, F):
    return h.arr([list(f) for f in F], int)


def node_arr(h, P):
    return h.arr([list(p) for p in P], float)


def shape_ok(h, V, F, nf, label):
    h.true(len(V.shape) == 2 and V.shape[1] == 3, label + ': shape of the vertices')
    h.true(len(F.shape) == 2 and F.shape[1] == 4, label + ': shape of the faces')
    h.true(int(F.shape[0]) == nf, label + ': number of faces')


def flat(h, name=''):
    """six points of a convex outline in a horizontal plane, anywhere; no change of width of their coordinates"""
    x0, y0, z = h.real('x0' + name, '0.1', '0.3'), h.real('y0' + name, '0.1', '0.3'), h.real('z' + name, '-8', '-7')
    return [[x0 + h.const(x), y0 + h.const(y), z] for x, y in ((1, 1), (3, 1), (4, 2), (5, 4), (3, 5), (1, 4))]


def ribbon(n, kinds='qtqqt'):
    """n faces along a ribbon of n + 3 nodes"""
    out = []
    for k in range(n):
        f = [k, k + 1, k + 3, k + 2] if kinds[k % len(kinds)] == 'q' else [k + 2, k + 1, k + 3, k + 2]
        r = k % 3 if f[0] != f[3] else 0
        out.append(f[r:] + f[:r])
    return out


def many_nodes(h, n, every=10):
    """n nodes, most of them at fixed places"""
    out = []
    for i in range(n):
        if i % every == every - 1 or i == n - 1:
            lo = i + Fraction(5, 4)
            out.append([h.real('v%dx' % i, lo, lo + Fraction(1, 2)), h.real('v%dy' % i, *CLASSES['neg']), h.real('v%dz' % i, *CLASSES['unit'])])
        else:
            out.append([h.const(Fraction(4 * i + 6, 4)), h.const(Fraction((i * 7) % 32 - 49, 8)), h.const(Fraction((i * 5) % 16 + 17, 8))])
    return out
