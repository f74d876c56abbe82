import contextlib
import inspect
import io
import sys
import types

from .formats import *

BOUNDS = ('meshes of up to 5 vertices with a triangle and a quadrangle; each option alone and the listed pairs and triples of options; '
          'any real value of the options in the stated ranges (angles in degrees within 400 of zero), planes given by key, by four '
          'numbers or by index')
OUTSIDE = ('--quality; --show is decided by C29; gmsh, which meshes the lids, is replaced by a fan of triangles; order of translation and scaling as in the help of '
           'the command; exponents in the numbers of the command line')
ASSUMPTIONS = ['the operations on meshes are those of the classes, decided by the checks of C10 to C18; argparse is executed as installed']

FACES = [[0, 1, 2, 0], [0, 1, 2, 3], [1, 4, 3, 2]]


class Catch(object):
    """receives the mesh written by the command"""
    def __init__(self, h):
        self.h, self.got = h, []

    def writer(self, filename, vertices, faces):
        self.got.append((filename, self.h.np.array(vertices), self.h.np.array(faces)))


def numbers(h, xs):
    return [h.text('t', x) for x in xs]


def write_mar(h, name, P, F):
    t = ['2 0'] + ['%d  %s' % (i + 1, '  '.join(h.text('t', x) for x in p)) for i, p in enumerate(P)] + ['0 0. 0. 0.']
    t += ['  '.join('%d' % (i + 1) for i in f) for f in F] + ['0 0 0 0']
    h.write_text(h.path(name), '\n'.join(t) + '\n')
    return h.path(name)


def run(h, argv, infile, out='out.mar'):
    """runs the command, gives the vertices and faces it writes"""
    cli, mm = h.mod('cli'), h.mod('mmio')
    c = Catch(h)
    h.stub(mm, 'extension_dict', dict(mm.extension_dict, mar=(mm.extension_dict['mar'][0], c.writer)))
    h.stub(mm, 'write_MAR', c.writer)
    args = ['meshmagick', infile] + list(argv) + (['-o', h.path(out)] if out else [])
    h.stub(sys, 'argv', args)
    err = io.StringIO()
    try:
        with contextlib.redirect_stderr(err):
            cli.main()
    except SystemExit:
        h.fail('command refused: ' + err.getvalue().strip().split('error: ')[-1])
    if not out:
        return c
    h.true(len(c.got) == 1, 'one mesh is written')
    name, V, F = c.got[0]
    h.true(str(name) == str(h.path(out)), 'name of the output file')
    return V, F


def inputs(h, n=5, F=FACES):
    # coordinates of one sign each, so that the text of the number is known; points apart from each other
    P = []
    for i in range(n):
        lo = [1 + 7 * i if (i + a) % 2 else -7 - 7 * i for a in range(3)]
        P.append([h.real('p%d%s' % (i, c), l, l + 6) for c, l in zip('xyz', lo)])
    return P, write_mar(h, 'in.mar', P, F)


def check(h, V, F, want, faces, what):
    shape_ok(h, V, F, len(faces), what)
    h.true(int(V.shape[0]) == len(want), what + ': number of vertices')
    h.eq([list(v) for v in V], want, what + ': vertices')
    for k, f in enumerate(faces):
        g = [int(i) for i in F[k]]
        m = 3 if f[0] == f[3] else 4
        h.true((g[0] == g[3]) == (f[0] == f[3]) and list(g[:m]) in rotations(f[:m]), what + ': face %d' % k)


def Rmat(h, angles):
    a = [h.pi * x / 180 for x in angles]
    c, s = [h.cos(x) for x in a], [h.sin(x) for x in a]
    X = [[1, 0, 0], [0, c[0], -s[0]], [0, s[0], c[0]]]
    Y = [[c[1], 0, s[1]], [0, 1, 0], [-s[1], 0, c[1]]]
    Z = [[c[2], -s[2], 0], [s[2], c[2], 0], [0, 0, 1]]
    return matmul(Z, matmul(Y, X))


def signed(h, name, hi, free):
    """a value of either sign"""
    if free:
        return h.real(name, -hi, hi)
    if sum(map(ord, name)) % 2:
        return h.real(name, '0.001', hi)
    return h.real(name, -hi, '-0.001')


KEYS = {'Oxy': (2, 1), 'Oxz': (1, 1), 'Oyz': (0, 1), '/Oxy': (2, -1), '/Oxz': (1, -1), '/Oyz': (0, -1)}


def act(h, what, free=False):
    """arguments of an option and the action they stand for on points"""
    if what in ('t', 'r'):
        v = [signed(h, 'vec_' + what + c, 300, free) for c in 'xyz']
        if what == 't':
            return ['-t'] + numbers(h, v), lambda p: add(p, v)
        M = Rmat(h, v)
        return ['-r'] + numbers(h, v), lambda p: matvec(M, p)
    if what in ('tx', 'ty', 'tz'):
        d = signed(h, what, 300, free)
        v = [0, 0, 0]
        v['xyz'.index(what[1])] = d
        return ['-' + what] + numbers(h, [d]), lambda p: add(p, v)
    if what in ('rx', 'ry', 'rz'):
        d = signed(h, what, 400, free)
        v = [h.const(0)] * 3
        v['xyz'.index(what[1])] = d
        M = Rmat(h, v)
        return ['-' + what] + numbers(h, [d]), lambda p: matvec(M, p)
    if what in ('s', 'sx', 'sy', 'sz'):
        k = h.real(what, '0.001', 50)
        return ['-' + what] + numbers(h, [k]), lambda p: [x * k if what in ('s', 's' + c) else x for x, c in zip(p, 'xyz')]
    raise KeyError(what)


LONG = {'-t': '--translate', '-tx': '--translatex', '-ty': '--translatey', '-tz': '--translatez', '-r': '--rotate',
        '-rx': '--rotatex', '-ry': '--rotatey', '-rz': '--rotatez', '-s': '--scale', '-sx': '--scalex', '-sy': '--scaley',
        '-sz': '--scalez'}


def chain(h, ops, loud=False, long=False):
    """options given in the reverse of the order in which they apply"""
    P, f = inputs(h)
    acts = [act(h, o, free=len(ops) == 1) for o in ops]
    argv = [] if loud else ['-q']
    for av, _ in reversed(acts):
        argv += [LONG[av[0]] if long else av[0]] + av[1:]
    V, F = run(h, argv, f)
    want = P
    for _, g in acts:
        want = [g(p) for p in want]
    check(h, V, F, want, FACES, ' then '.join(ops))


def nothing(h):
    """no option: the mesh is written as it is"""
    P, f = inputs(h)
    V, F = run(h, h.choose('quiet', [[], ['-q'], ['--quiet']]), f)
    check(h, V, F, P, FACES, 'no transformation')


def flip(h):
    P, f = inputs(h)
    V, F = run(h, h.choose('name', [['-q', '-fn'], ['--flip-normals']]), f)
    rev = [[x[0], x[2], x[1], x[0]] if x[0] == x[3] else x[::-1] for x in FACES]
    check(h, V, F, P, rev, 'normals flipped')


def plane_of(h, how):
    """(arguments before, arguments of the option, unit normal, scalar)"""
    if how == 'key':
        k = h.choose('key', sorted(KEYS))
        n = [0, 0, 0]
        n[KEYS[k][0]] = KEYS[k][1]
        return [], [k], n, 0
    if how == 'key with planes':
        k = h.choose('key', ['Oyz', '/Oxz'])
        n = [0, 0, 0]
        n[KEYS[k][0]] = KEYS[k][1]
        return ['-p', 'Oxy', '-p', 'Oyz'], [k], n, 0
    if how == 'index of a key':
        k = h.choose('key', sorted(KEYS))
        n = [0, 0, 0]
        n[KEYS[k][0]] = KEYS[k][1]
        # the plane is distinct from the others, at every place in lists of one to three planes
        o = [x for x in ('Oxy', '/Oyz', 'Oxz', '/Oxy') if x != k]
        m, i = h.choose('index', [(1, 0), (2, 0), (2, 1), (3, 0), (3, 1), (3, 2)])
        names = o[:m - 1]
        names.insert(i, k)
        pl = []
        for j, x in enumerate(names):
            pl += ['--plane' if j % 2 else '-p', x]
        return pl, ['%d' % i], n, 0
    # the normal need not be a unit vector: 3, 4, 12 and 13; 1, 2, 2 and 3
    a, l = h.choose('normal', [((0, 0, 1), 1), ((-1, 0, 0), 1), ((0, 3, -4), 5), ((1, 2, 2), 3)])
    c = h.real('c', '-9.5', '9.5')
    n = [h.const(x) / l for x in a]
    t = ['%d' % x if l == 1 else '%.1f' % x for x in a] + numbers(h, [c])
    if how == 'numbers':
        return [], t, n, c
    i = h.choose('place', [0, 1, 2])
    pre = [['-p', 'Oyz'], ['-p', '/Oxz']]
    pre.insert(i, ['-p'] + t)
    return sum(pre, []), ['%d' % i], n, c


def reflect(h, n, c, p):
    d = (dot(n, p) - c) * 2
    return [x - d * y for x, y in zip(p, n)]


def mirror(h, how):
    P, f = inputs(h)
    pre, a, n, c = plane_of(h, how)
    V, F = run(h, ['-q'] + pre + ['--mirror'] + a, f)
    h.true(len(F) == len(FACES), 'number of faces')
    h.eq([list(v) for v in V], [reflect(h, n, c, p) for p in P], 'mirrored vertices')


SYMF = [[0, 1, 2, 0], [0, 2, 3, 0]]


def block(h, name, n, d, m):
    """m points apart from each other along any axis, in a ball of radius 9 about a point at the signed distance d from the
    origin in the direction n"""
    lo = [[2 * i + 1, 9 - 2 * i, 1 + 2 * ((2 * i + 1) % 5)] for i in range(m)]
    b = [x * d for x in n]
    return [[h.real('%s%d%s' % (name, i, c), 0, '0.25') + y + z for c, y, z in zip('xyz', l, b)] for i, l in enumerate(lo)]


def sym_mesh(h, n):
    """four points on one side of the plane"""
    return block(h, 'q', n, 30, 4)


def symmetrize(h, how):
    pre, a, n, c = plane_of(h, how) if how != 'default' else ([], [], [0, 1, 0], 0)
    P = sym_mesh(h, n)
    f = write_mar(h, 'in.mar', P, SYMF)
    V, F = run(h, ['-q'] + pre + ['-sym'] + a, f)
    h.true(len(F) == 2 * len(SYMF), 'number of faces')
    want = P + [reflect(h, n, c, p) for p in P]
    h.true(int(V.shape[0]) == len(want), 'number of vertices')
    A = [list(v) for v in V]
    F = [[int(i) for i in g] for g in F]
    for g, w in zip(F[:2], SYMF):
        h.true(g[0] == g[3], 'triangles')
        h.true(h.bor(*[h.band(*[close(h, A[i], P[j]) for i, j in zip(r, w[:3])]) for r in rotations(g[:3])]), 'original faces')
    for g, w in zip(F[2:], SYMF):
        h.true(g[0] == g[3], 'triangles')
        Q = [want[4 + j] for j in w[:3]][::-1]
        h.true(h.bor(*[h.band(*[close(h, A[i], q) for i, q in zip(r, Q)]) for r in rotations(g[:3])]),
               'symmetric faces, reversed')


def close(h, p, q):
    t = h.const('1e-6')
    return h.band(*[h.band(a - b <= t, b - a <= t) for a, b in zip(p, q)])


def sym_then_rotate(h):
    """symmetry comes before any rotation"""
    n = [0, 1, 0]
    P = sym_mesh(h, n)
    f = write_mar(h, 'in.mar', P, SYMF)
    av, g = act(h, 'rz')
    V, F = run(h, ['-q'] + av + ['-sym'], f)
    want = [g(p) for p in P] + [g(reflect(h, n, 0, p)) for p in P]
    same_points(h, V, want, 'symmetrized, then rotated')


def same_points(h, V, want, what):
    h.true(int(V.shape[0]) == len(want), what + ': number of vertices')
    h.eq([list(v) for v in V], want, what)


def clip(h, how):
    """two triangles on each side of a plane far from them"""
    pre, a, n, c = plane_of(h, how) if how != 'default' else ([], [], [0, 0, 1], 0)
    P, Q = block(h, 'p', n, 30, 3), block(h, 'q', n, -30, 3)
    f = write_mar(h, 'in.mar', P + Q, [[0, 1, 2, 0], [3, 5, 4, 3]])
    V, F = run(h, ['-q'] + pre + ['-c'] + a, f)
    shape_ok(h, V, F, 1, 'clipped')
    K = [Q[0], Q[2], Q[1]]
    A = [list(V[int(i)]) for i in F[0][:3]]
    h.true(h.bor(*[h.band(*[close(h, a_, b_) for a_, b_ in zip(r, K)]) for r in rotations(A)]),
           'the part opposite to the normal is kept')


def clip_two(h):
    """two planes, one after the other"""
    P = [[h.real('q%d%s' % (i, x), 3 * i + 10 + j, 3 * i + 12 + j) for j, x in enumerate('xyz')] for i in range(3)]
    B = [P, [[-p[0], p[1], -p[2]] for p in P], [[p[0], p[1], -p[2]] for p in P], [[-p[0], p[1], p[2]] for p in P]]
    f = write_mar(h, 'in.mar', sum(B, []), [[3 * i, 3 * i + 1, 3 * i + 2, 3 * i] for i in range(4)])
    a = h.choose('planes', [['-c', 'Oxy', '-c', 'Oyz'], ['-c', '-c', 'Oyz'], ['-p', 'Oyz', '-c', '0', '-c', 'Oxy'],
                            ['-c', 'Oxy', '-c', '/Oyz']])
    V, F = run(h, ['-q'] + a, f)
    shape_ok(h, V, F, 1, 'clipped')
    K = B[2] if '/Oyz' in a else B[1]
    A = [list(V[int(i)]) for i in F[0][:3]]
    h.true(h.bor(*[h.band(*[close(h, a_, b_) for a_, b_ in zip(r, K)]) for r in rotations(A)]), 'part below both planes')


def forms(h):
    """two planes in any two of the ways to give them: (arguments before, arguments of each one, axis, sign and offset of each one)"""
    pl, args, what = [], [], []
    kinds = h.choose('kinds', ['numbers key', 'key numbers', 'numbers numbers', 'index key', 'numbers index', 'index index'])
    for k, kind in enumerate(kinds.split()):
        ax = (2, 0)[k]
        c = h.const(0)
        if kind == 'key':
            a = [('Oyz', 'Oxz', 'Oxy')[ax]]
        else:
            c = h.real('c%d' % k, '0.5', '5.5') if k == 0 else h.real('c%d' % k, '-5.5', '-0.5')
            a = ['0'] * 3
            a[ax] = '1'
            a += numbers(h, [c])
            if kind == 'index':
                pl = ['-p'] + a + pl if kinds == 'index index' else pl + ['-p', 'Oxz', '-p'] + a
                a = ['%d' % ((1 - k) if kinds == 'index index' else 1)]
        args.append(a)
        what.append((ax, c))
    return pl, args, what


def clip_forms(h):
    """planes of several forms do not influence each other"""
    P = [[h.real('q%d%s' % (i, x), 3 * i + 10 + j, 3 * i + 12 + j) for j, x in enumerate('xyz')] for i in range(3)]
    B = [P, [[-p[0], p[1], -p[2]] for p in P], [[p[0], p[1], -p[2]] for p in P], [[-p[0], p[1], p[2]] for p in P]]
    # a face across each plane
    a, b = h.real('cut', 20, 40), h.real('depth', -60, -50)
    B += [[[-a, 0, b], [-a, -a, b], [a, 0, b - 5]], [[-a - 5, -60, -a], [-a, -60 - a, a], [-a, -60, -a]]]
    f = write_mar(h, 'in.mar', sum(B, []), [[3 * i, 3 * i + 1, 3 * i + 2, 3 * i] for i in range(len(B))])
    pl, args, what = forms(h)
    V, F = run(h, ['-q'] + pl + sum([['-c'] + x for x in args], []), f)
    A = [list(v) for v in V]
    e = h.const('1e-6')
    for i in range(len(A)):
        for ax, c in what:
            h.true(A[i][ax] - c <= e, 'the mesh is under both planes')
    for ax, c in what:
        h.true(h.bor(*[h.band(A[i][ax] - c <= e, c - A[i][ax] <= e) for i in range(len(A))]), 'the mesh reaches each plane')


def sym_forms(h):
    """planes of several forms: the mesh is symmetrized by the first one, then by the second one"""
    n = [0, 0, 1]
    P = [[h.real('q%d%s' % (i, x), 3 * i + 10 + j, 3 * i + 12 + j) for j, x in enumerate('xyz')] for i in range(3)]
    f = write_mar(h, 'in.mar', P, [[0, 1, 2, 0]])
    pl, args, what = forms(h)
    V, F = run(h, ['-q'] + pl + sum([['-sym'] + x for x in args], []), f)
    want = [(p, ()) for p in P]
    for k, (ax, c) in enumerate(what):
        want = want + [([2 * c - x if j == ax else x for j, x in enumerate(p)], w + (k,)) for p, w in want]
    shape_ok(h, V, F, 4, 'symmetrized')
    h.true(int(V.shape[0]) == 12, 'number of vertices')
    A = [list(v) for v in V]
    G = [[A[int(i)] for i in g[:3]] for g in F]
    for w in [(), (0,), (1,), (0, 1)]:
        Q = [p for p, x in want if x == w]
        if len(w) == 1:
            Q = Q[::-1]
        h.true(h.bor(*[h.band(*[close(h, p, q) for p, q in zip(r, Q)]) for g in G for r in rotations(g)]),
               'image %s of the face' % (w,))


def combined(h):
    """mirror, symmetry and clipping by planes of several forms, on one command line"""
    P = [[h.real('q%d%s' % (i, x), 3 * i + 10 + j, 3 * i + 12 + j) for j, x in enumerate('xyz')] for i in range(3)]
    f = write_mar(h, 'in.mar', P + [[-p[0], p[1], p[2]] for p in P], [[0, 1, 2, 0], [3, 4, 5, 3]])
    c, d, e = h.real('c', '0.5', '1.5'), h.real('d', '-1.5', '-0.5'), h.real('e', '0.25', '4.5')
    opts = [['--mirror', '0', '0', '1'] + numbers(h, [c]), ['-sym', '1'], ['-c', '/Oyz'], ['-p'] + ['1', '0', '0'] + numbers(h, [e]),
            ['-p', '0', '-1', '0'] + numbers(h, [d])]
    o = h.choose('order', [(0, 1, 2, 3, 4), (3, 4, 0, 1, 2), (2, 3, 1, 4, 0)])
    V, F = run(h, ['-q'] + sum([opts[i] for i in o], []), f)
    # the planes: z = c, y = -d, x = 0 (the part x > 0 is kept)
    M = [[p[0], p[1], 2 * c - p[2]] for p in P]
    S = [[p[0], -2 * d - p[1], p[2]] for p in M]
    shape_ok(h, V, F, 2, 'mesh')
    A = [list(v) for v in V]
    for Q, what in ((M[::-1], 'mirrored'), (S, 'symmetric')):
        h.true(h.bor(*[h.band(*[close(h, A[int(i)], q) for i, q in zip(r, Q)]) for g in F for r in rotations(list(g[:3]))]), what)


def move_then_clip(h):
    """the mesh is moved before it is clipped"""
    P = [[h.real('q%d%s' % (i, x), 3 * i + 10 + j, 3 * i + 12 + j) for j, x in enumerate('xyz')] for i in range(3)]
    B = [P, [[p[0], p[1], p[2] + 40] for p in P]]
    f = write_mar(h, 'in.mar', sum(B, []), [[0, 1, 2, 0], [3, 4, 5, 3]])
    d = h.real('d', -45, -25)
    V, F = run(h, ['-q', '-c', '-tz'] + numbers(h, [d]), f)
    shape_ok(h, V, F, 1, 'clipped')
    A = [list(V[int(i)]) for i in F[0][:3]]
    K = [[p[0], p[1], p[2] + d] for p in P]
    h.true(h.bor(*[h.band(*[close(h, a_, b_) for a_, b_ in zip(r, K)]) for r in rotations(A)]), 'part below the plane')


def merge(h, given):
    """vertices closer than the tolerance are merged, the others are not"""
    tol = {'default': None, '1e-3': '1e-3', '0.1': '0.1'}[given]
    t = h.const('1e-8') if tol is None else h.const(tol)
    P = [[h.real('q%d%s' % (i, x), 3 * i + 1, 3 * i + 2) for x in 'xyz'] for i in range(3)]
    d = h.real('d', 0, '0.5')
    side = h.choose('side', ['near', 'far'])
    h.assume(d <= t / 4 if side == 'near' else d >= t * 4)
    f = write_mar(h, 'in.mar', P + [[P[0][0], P[0][1], P[0][2] + d]], [[0, 1, 2, 0], [3, 2, 1, 3]])
    V, F = run(h, ['-q', h.choose('option', ['-md', '--merge-duplicates'])] + ([tol] if tol else []), f)
    if side == 'far':
        h.true(int(V.shape[0]) == 4, 'distinct vertices are not merged')
    else:
        h.true(h.bor(int(V.shape[0]) == 3, d * 4 > t), 'duplicate vertices are merged')


def same_as(h, opt, n, F, method):
    """the option does what the method of the mesh does"""
    P, f = inputs(h, n, F=F)
    V, G = run(h, ['-q', opt], f)
    m = h.mod('mesh').Mesh(h.arr(P, float), h.arr(F, int))
    m.heal_triangles()
    getattr(m, method)()
    h.true(len(G) == len(m.faces) and len(V) == len(m.vertices), 'size of the mesh')
    h.eq([list(v) for v in V], [list(v) for v in m.vertices], 'vertices')
    h.true([[int(i) for i in g] for g in G] == [[int(i) for i in g] for g in m.faces], 'faces')


TETRA = [[0, 2, 1, 0], [0, 1, 3, 0], [1, 2, 3, 1], [2, 0, 3, 2]]


def tetra(h, wrong, free=True):
    """a tetrahedron"""
    if free:
        P = [[h.real('q%d%s' % (i, x), lo, lo + 1) for x, lo in zip('xyz', b)] for i, b in
             enumerate([(0, 0, 0), (5, 0, 0), (0, 5, 0), (0, 0, 5)])]
    else:
        t = h.real('t', 3, 6)
        P = [[h.const(x) for x in p] for p in [(0, 0, 0), (4, 0, 0), (0, 4, 0), (0, 0, 0)]]
        P[3][2] = t
    F = [list(f) for f in TETRA]
    for k in wrong:
        F[k] = [F[k][0], F[k][2], F[k][1], F[k][0]]
    return P, F


def heal(h, opt, wrong, free=True):
    """normals are made consistent and outward"""
    P, F = tetra(h, wrong, free)
    f = write_mar(h, 'in.mar', P, F)
    V, G = run(h, ['-q', opt], f)
    check(h, V, G, P, TETRA, 'healed')


def heal_mesh(h):
    """unused and duplicate vertices and wrong normals at once"""
    P, F = tetra(h, [1], False)
    F[2] = [4 if i == 1 else i for i in F[2]]
    f = write_mar(h, 'in.mar', P + [list(P[1]), [40, 40, 40]], F)
    V, G = run(h, ['-q', '-hm'], f)
    shape_ok(h, V, G, 4, 'healed')
    h.true(int(V.shape[0]) == 4, 'unused and duplicate vertices are removed')
    A = [[list(V[int(i)]) for i in g[:3]] for g in G]
    for k, w in enumerate(TETRA):
        h.true(h.bor(*[h.band(*[close(h, a, P[i]) for a, i in zip(r, w[:3])]) for r in rotations(A[k])]),
               'face %d outward' % k)


def concat(h):
    P, f = inputs(h)
    Q = [point(h, 'q%d' % i, 45 + 7 * i, 50 + 7 * i) for i in range(3)]
    f2 = write_mar(h, 'other.mar', Q, [[2, 1, 0, 2]])
    V, F = run(h, ['-q', h.choose('option', ['-cc', '--concatenate-file']), f2], f)
    check(h, V, F, P + Q, FACES + [[7, 6, 5, 7]], 'concatenated')


# ------------------------------------------------------------------------------------------- values given to computations
def bound(fn, a, k):
    b = inspect.signature(fn).bind(*a, **k)
    b.apply_defaults()
    return b.arguments


class Hydro(object):
    def __init__(self, h, corr=None):
        self.h, self.calls = h, []
        hs = h.mod('hydrostatics')
        self.sig = {n: getattr(hs, n) for n in ('compute_hydrostatics', 'displacement_equilibrium', 'full_equilibrium')}
        self.bc = [h.real('xb', -4, 4), h.real('yb', -4, 4), h.real('zb', -4, 4)]
        self.mass = h.real('mass', 1000, 9000)
        self.z = h.real('zc', -3, 3)
        a = h.real('turn', '0.1', '0.9')
        self.R = [[1, 0, 0], [0, h.cos(a), -h.sin(a)], [0, h.sin(a), h.cos(a)]]
        self.Rarr = h.arr(self.R, float)
        h.stub(hs, 'compute_hydrostatics', self.compute)
        h.stub(hs, 'displacement_equilibrium', self.disp)
        h.stub(hs, 'full_equilibrium', self.full)
        h.stub(hs, 'get_hydrostatic_report', self.report)

    def note(self, name, a, k):
        b = dict(bound(self.sig[name], a, k))
        b['vertices'] = self.h.np.array(b['mesh'].vertices)
        self.calls.append((name, b))
        return b

    def compute(self, *a, **k):
        self.note('compute_hydrostatics', a, k)
        self.data = {'buoyancy_center': self.h.arr(self.bc, float), 'disp_mass': self.mass * 1000, 'tag': len(self.calls)}
        return self.data

    def disp(self, *a, **k):
        self.note('displacement_equilibrium', a, k)
        return self.z

    def full(self, *a, **k):
        self.note('full_equilibrium', a, k)
        return self.z, self.Rarr

    def report(self, data):
        return 'report of %d' % data['tag']


def hydro(h, mode, opts):
    P, f = inputs(h)
    w = Hydro(h)
    argv = ['-q', h.choose('hs', ['-hs', '--hydrostatics'])]
    rho, g = 1025, h.const('9.81')
    if 'wd' in opts:
        rho = h.real('rho', 900, 1100)
        argv += [h.choose('wdo', ['-wd', '--water-density'])] + numbers(h, [rho])
    if 'g' in opts:
        g = h.real('grav', 9, 11)
        argv += [h.choose('go', ['-g', '--grav'])] + numbers(h, [g])
    lpp, ap = None, False
    if 'lpp' in opts:
        lpp = h.real('lpp', 11, 90)
        argv += ['-lpp'] + numbers(h, [lpp])
    if 'ap' in opts:
        ap = True
        argv += [h.choose('apo', ['-ap', '--orig-at-ap'])]
    zg = h.real('zg', -4, 4)
    cog = [h.real('g' + c, -4, 4) for c in 'xyz']
    md = h.real('md', 1000, 9000)
    if 'z' in mode:
        argv += [h.choose('zo', ['-zg', '--zcog'])] + numbers(h, [zg])
    if 'd' in mode:
        argv += [h.choose('do', ['-mdisp', '--mass-displacement'])] + numbers(h, [md])
    if 'c' in mode:
        argv += [h.choose('co', ['-cog', '--cog'])] + numbers(h, cog)
    rep = h.path('report.txt')
    if 'report' in opts:
        argv += ['--hs-report', rep]
    V, F = run(h, argv, f)
    for name, b in w.calls:
        if name == 'compute_hydrostatics' and b is not w.calls[-1][1] and mode != 'c':
            continue
        h.eq(b['rho_water'], rho, name + ': density of water')
        if name != 'compute_hydrostatics' or b is w.calls[-1][1]:
            h.eq(b['grav'], g, name + ': gravity')
        h.eq([list(v) for v in b['vertices']], P, name + ': mesh')
        if name == 'compute_hydrostatics':
            if b is not w.calls[-1][1]:
                continue
            if 'lpp' in opts:
                h.true(b['lpp'] is not None, name + ': length between perpendiculars given')
                h.eq(b['lpp'], lpp, name + ': length between perpendiculars')
            h.true(bool(b['orig_at_ap']) == ap, name + ': origin at the after perpendicular')
        else:
            h.eq(b['disp_tons'], md if 'd' in mode else w.mass, name + ': displacement')
        if name == 'full_equilibrium':
            h.eq(list(b['cog']), cog, name + ': centre of gravity')
    names = [n for n, _ in w.calls]
    h.true(('full_equilibrium' in names) == ('c' in mode) and
           ('displacement_equilibrium' in names) == (mode in ('dz', 'd')), 'kind of equilibrium')
    last = w.calls[-1][1]
    h.true(w.calls[-1][0] == 'compute_hydrostatics' and bool(last['at_cog']), 'results at the centre of gravity')
    h.eq(list(last['cog']), cog if 'c' in mode else [w.bc[0], w.bc[1], zg], 'centre of gravity of the results')
    Rm = w.R if 'c' in mode else [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
    z = w.z if 'c' in mode or 'd' in mode else 0
    h.eq(last['z_corr'], z, 'vertical correction of the results')
    h.eq([list(r) for r in last['rotmat_corr']], Rm, 'rotation of the results')
    h.eq([list(v) for v in V], [add(matvec(Rm, p), [0, 0, z]) for p in P], 'mesh written at equilibrium')
    out = 'report of %d' % w.data['tag']
    h.true(out in h.console(), 'report printed')
    if 'report' in opts:
        h.true(out in (h.read_text(rep) or ''), 'report written')


class Done(Exception):
    pass


def inertia(h, kind, opts):
    """density and thickness given to the computation"""
    P, f = inputs(h)
    Mesh = h.mod('mesh').Mesh
    name = {'plain': 'eval_plain_mesh_inertias', 'shell': 'eval_shell_mesh_inertias'}[kind]
    old = getattr(Mesh, name)
    seen = []

    def spy(*a, **k):
        seen.append(bound(old, a, k))
        m = h.mod('inertia').RigidBodyInertia(h.const(2000), h.arr([h.const(1)] * 3, float), h.const(1), h.const(1),
                                              h.const(1), h.const(0), h.const(0), h.const(0))
        return m
    h.stub(Mesh, name, spy)
    argv = [{'plain': h.choose('o', ['-pi', '--plain-inertia']), 'shell': h.choose('o', ['-si', '--shell-inertia'])}[kind], '-q']
    rho = {'plain': 1023, 'shell': 7850}[kind]
    th = h.const('0.02')
    if 'rho' in opts:
        rho = h.real('rho', 100, 9000)
        argv += ['--rho-medium'] + numbers(h, [rho])
    if 'name' in opts:
        d = h.mod('densities')
        k = h.choose('medium', [m for m in sorted(d.list_medium())][:4])
        rho = d.get_density(k)
        argv += ['--rho-medium', k]
    if 'th' in opts:
        th = h.real('th', '0.001', '0.9')
        argv += ['--thickness'] + numbers(h, [th])
    V, F = run(h, argv, f)
    h.true(len(seen) == 1, 'inertia is evaluated')
    h.eq(seen[0]['rho_medium'], rho, 'density of the medium')
    if kind == 'shell':
        h.eq(seen[0]['thickness'], th, 'thickness')
    check(h, V, F, P, FACES, 'mesh unchanged')


class Gmsh(object):
    """stands for gmsh: a polygon is meshed as a fan of triangles around its first corner"""
    def __init__(self, h):
        self.h, self.polygons, self.made = h, [], 0
        fake = types.ModuleType('pygmsh')
        fake.geo = types.ModuleType('pygmsh.geo')
        fake.geo.Geometry = lambda: self
        fake.write = self.write
        h.stub_module('gmsh', types.ModuleType('gmsh'))
        h.stub_module('pygmsh', fake)
        h.enter_scratch()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def add_polygon(self, points, mesh_size=None, **k):
        self.polygons.append(([list(p)[:2] + (list(p)[2:] or [0]) for p in points], mesh_size))

    def generate_mesh(self, *a, **k):
        self.made += 1

    def write(self, name, *a, **k):
        h = self.h
        h.true(self.made == len(self.polygons), 'the lid is meshed before it is written')
        P = self.polygons[-1][0]
        t = ['$MeshFormat', '2.2 0 8', '$EndMeshFormat', '$Nodes', str(len(P))]
        t += ['%d %s' % (i + 1, ' '.join(h.text('l', x) for x in p)) for i, p in enumerate(P)]
        t += ['$EndNodes', '$Elements', str(len(P) - 2)]
        t += ['%d 2 2 0 1 1 %d %d' % (i, i + 1, i + 2) for i in range(1, len(P) - 1)] + ['$EndElements', '']
        h.write_text(name, '\n'.join(t))


def lid(h, sizes, size=None):
    P, f = inputs(h)
    g = Gmsh(h)
    argv, polys = ['-q'], []
    for k, n in enumerate(sizes):
        xy = [[h.real('l%d%dx' % (k, i), 50 + 10 * i + 100 * k, 59 + 10 * i + 100 * k), h.real('l%d%dy' % (k, i), 1, 9)] for i in range(n)]
        polys.append(xy)
        argv += ['-lid'] + numbers(h, [x for p in xy for x in p])
    if size:
        ms = h.real('ms', '0.1', '9')
        argv += [size] + numbers(h, [ms])
    V, F = run(h, argv, f)
    h.true(len(g.polygons) == len(sizes), 'one polygon for each lid')
    if size:
        want = ms
    else:
        L = []
        for c in FACES:
            c = c[:3] if c[0] == c[3] else c
            for i in range(len(c)):
                d = sub(P[c[i]], P[c[i - 1]])
                L.append(h.sqrt(dot(d, d)))
        want = sum(L[1:], L[0]) / len(L)
    for (Q, s), xy in zip(g.polygons, polys):
        h.true(len(Q) == len(xy), 'corners of the lid')
        for q, p in zip(Q, xy):
            h.eq(q, p + [0], 'corners of the lid')
        if size:
            h.eq(s, want, 'mesh size of the lid')
    if not size:
        h.eq(g.polygons[0][1], want, 'mesh size of the first lid')
    # vertices and faces of the mesh, then those of each lid
    want, faces = list(P), list(FACES)
    for xy in polys:
        o = len(want)
        want += [p + [0] for p in xy]
        faces += [[o, o + i, o + i + 1, o] for i in range(1, len(xy) - 1)]
    check(h, V, F, want, faces, 'mesh with its lids')


def lid_refused(h, n):
    """an odd number of coordinates, or fewer than three points, is refused and nothing is written"""
    P, f = inputs(h)
    Gmsh(h)
    xs = [h.real('x%d' % i, 50 + 10 * i, 59 + 10 * i) for i in range(n)]
    try:
        run(h, ['-q', '-ms', '1', '-lid'] + numbers(h, xs), f)
    except KeyError:
        return h.true(True, 'refused')
    h.fail('%d coordinates for a lid are refused' % n)


def I(name, fn, **k):
    return Inst(name, fn, textual=True, **k)


INSTANCES = [I('no option', nothing, bound='5 vertices'), I('flip normals', flip, bound='5 vertices')]
for _o in ('t', 'tx', 'ty', 'tz', 'r', 'rx', 'ry', 'rz', 's', 'sx', 'sy', 'sz'):
    INSTANCES.append(I('-' + _o, chain, ops=[_o], bound='one option'))
INSTANCES += [
    I('long names, translations', chain, ops=['t', 'tx', 'ty', 'tz'], long=True, bound='4 options'),
    I('long names, rotations', chain, ops=['r'], long=True, bound='1 option'),
    I('long names, rotations about axes', chain, ops=['rx', 'ry', 'rz'], long=True, bound='3 options'),
    I('long names, scalings', chain, ops=['s', 'sx', 'sy', 'sz'], long=True, bound='4 options'),
]
for _p in (['t', 'r'], ['tx', 'rz'], ['tz', 'ry'], ['t', 's'], ['ty', 'sy'], ['rx', 'sz'], ['r', 's'], ['tx', 'rx', 'sx'], ['t', 'rz', 's']):
    INSTANCES.append(I(' then '.join('-' + o for o in _p), chain, ops=_p, bound='%d options' % len(_p)))
for _w in ('key', 'key with planes', 'index of a key', 'numbers', 'index of numbers'):
    INSTANCES += [I('mirror / ' + _w, mirror, how=_w, bound='one plane'),
                  I('symmetrize / ' + _w, symmetrize, how=_w, bound='one plane'),
                  I('clip / ' + _w, clip, how=_w, bound='one plane')]
INSTANCES += [
    I('symmetrize / default plane', symmetrize, how='default', bound='one plane'),
    I('clip / default plane', clip, how='default', bound='one plane'),
    I('clip / two planes', clip_two, bound='two planes'),
    I('clip / two planes of several forms', clip_forms, bound='two planes'),
    I('symmetrize / two planes of several forms', sym_forms, bound='two planes'),
    I('mirror, symmetrize and clip', combined, bound='three options, two planes'),
    I('symmetrize then rotate', sym_then_rotate, bound='two options'),
    I('translate then clip', move_then_clip, bound='two options'),
    I('merge / default tolerance', merge, given='default', bound='one pair of near vertices'),
    I('merge / 1e-3', merge, given='1e-3', bound='one pair of near vertices'),
    I('merge / 0.1', merge, given='0.1', bound='one pair of near vertices'),
    I('triangulate', same_as, opt='-tq', n=5, F=FACES, method='triangulate_quadrangles', bound='2 quadrangles'),
    I('triangulate, long name', same_as, opt='--triangulate-quadrangles', n=4, F=[[0, 1, 2, 3]],
      method='triangulate_quadrangles', bound='1 quadrangle'),
    I('heal normals', heal, opt='-hn', wrong=[2], bound='tetrahedron'),
    I('heal normals, inward', heal, opt='--heal-normals', wrong=[0, 1, 2, 3], bound='tetrahedron'),
    I('heal mesh', heal, opt='--heal-mesh', wrong=[0, 3], free=False, bound='tetrahedron'),
    I('heal mesh, vertices', heal_mesh, bound='tetrahedron with a duplicate and an unused vertex'),
    I('concatenate', concat, bound='5 and 3 vertices'),
]
for _m in ('z', 'dz', 'dc', 'c', 'dcz'):
    INSTANCES += [I('hydrostatics / ' + _m, hydro, mode=_m, opts=['wd', 'g'], bound='5 vertices'),
                  I('hydrostatics / ' + _m + ' / defaults', hydro, mode=_m, opts=['report'], bound='5 vertices'),
                  I('hydrostatics / ' + _m + ' / perpendiculars', hydro, mode=_m, opts=['lpp'], bound='5 vertices')]
INSTANCES += [I('hydrostatics / origin at AP', hydro, mode='z', opts=['ap'], bound='5 vertices'),
              I('hydrostatics / origin at AP, equilibrium', hydro, mode='dc', opts=['ap'], bound='5 vertices')]
for _k in ('plain', 'shell'):
    INSTANCES += [I('inertia / %s / %s' % (_k, ' '.join(_o) or 'default'), inertia, kind=_k, opts=_o, bound='5 vertices')
                  for _o in ([], ['rho'], ['name'], ['rho', 'th'])]

INSTANCES += [I('lid', lid, sizes=[3], size='-ms', bound='one lid of three points'),
              I('lid of five points', lid, sizes=[5], size='-mesh_size', bound='one lid of five points'),
              I('two lids', lid, sizes=[4, 3], size='-ms', bound='two lids'),
              I('lid / default size', lid, sizes=[4], bound='one lid of four points'),
              I('lid / odd', lid_refused, n=7, bound='7 coordinates'), I('lid / two points', lid_refused, n=4, bound='4 coordinates')]
