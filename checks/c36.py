import contextlib
import io

from .formats import *
from .c05 import main, word
from .c25 import KEYS, write_mar, numbers, LONG

BOUNDS = ('plane keys of 1 to 5 arbitrary printable characters that are none of the six keys; indices of one to three digits, '
          'positive or negative, out of one to three defined planes; 2, 3, 5 or 6 values for a plane; 1, 2 or 4 values of any '
          'size for options that take three; medium names of 1 to 6 characters; hydrostatics without the height of the centre '
          'of gravity; missing files')
OUTSIDE = ('words that are not numbers among the values of a plane are taken from a list; null normals; values that are not physical '
           '(negative densities or scales)')
ASSUMPTIONS = ['argparse is executed as installed']



# crosses every plane that could be taken by mistake
FIXED = [['-9.5', '-8.25', '-7.5'], ['8.5', '-9.5', '6.5'], ['9.5', '8.25', '-6.5'], ['-7.5', '9.25', '8.5']]


def source(h, fixed=False):
    P = [[h.const(x) for x in p] for p in FIXED] if fixed else [
        [h.real('p%d%s' % (i, c), l, l + 6) for c, l in zip('xyz', (1 + 7 * i, -7 - 7 * i, 7 * i + 3))] for i in range(4)]
    return write_mar(h, 'in.mar', P, [[0, 1, 2, 0], [0, 1, 2, 3]])


def refused(h, args, what, fixed=False):
    """the command stops with an error and leaves no file"""
    src = source(h, fixed)
    before = h.files()
    out = h.choose('out', ['file', 'format'])
    a = [src, '-q'] + (['-o', h.path('out.mar')] if out == 'file' else ['-ofmt', 'nat']) + list(args)
    with contextlib.redirect_stderr(io.StringIO()):
        err = main(h, a)
    h.true(err is not None, what + ': refused')
    h.true(not isinstance(err, (AttributeError, NameError, UnboundLocalError)), what + ': refused with a report about the request')
    h.true(h.files() == before, what + ': no file is created')


WHERE = {'plane': ['-p', '--plane'], 'mirror': ['--mirror'], 'symmetrize': ['-sym', '--symmetrize'],
         'clip': ['-c', '--clip-by-plane']}
DEF = [[], ['-p', 'Oxy'], ['-p', '0', '0', '1', '2.5', '-p', '/Oxz'], ['-p', 'Oyz', '-p', 'Oxy', '--plane', '1', '0', '0', '0.5']]


def opt(h, where):
    return h.choose('option', WHERE[where])


def bad_key(h, where, n, defined):
    """a key that is none of the documented ones"""
    w = word_(h, n)
    for k in KEYS:
        h.assume(h.bnot(h.same_text(w, k)))
    for ch in '-+.0123456789_':
        h.assume(h.bnot(h.same_text(w[0], ch)))
    for k in ('nan', 'inf'):
        h.assume(h.bnot(h.same_text(w.lower(), k)))
    refused(h, DEF[defined] + [opt(h, where), w], 'unknown key of a plane', where == 'clip')


def word_(h, n):
    return h.chars('c', n)


def bad_index(h, where, n, defined, sign):
    """an index of no defined plane"""
    w = h.chars('d', n, 48, 57)
    for i in range(1 if sign or n > 1 else defined):
        h.assume(h.bnot(h.same_text(w[0], str(i))))
    refused(h, DEF[defined] + [opt(h, where), sign + w if sign else w], 'index of no plane', where == 'clip')


def bad_count(h, where, n):
    """a number of values that defines no plane"""
    v = [h.real('v%d' % i, '0.5', 9) if i % 2 else h.real('v%d' % i, -9, '-0.5') for i in range(n)]
    t = ['0', '0', '1'][:n - 1] + numbers(h, v[:max(1, n - 3)]) if h.choose('normal', ['z', 'any']) == 'z' else numbers(h, v)
    refused(h, h.choose('pre', DEF[:2]) + [opt(h, where)] + t, '%d values for a plane' % n, where == 'clip')


def bad_value(h, where):
    v = ['0', '0', '1', '2']
    v[h.choose('place', range(4))] = h.choose('junk', ['a', '1,5', '0x', '1.2.3', 'Oxy', '1e', '/'])
    refused(h, h.choose('pre', DEF[:2]) + [opt(h, where)] + v, 'a value of the plane is no number')


def second(h, where, kind):
    """the first plane is right, the second is not"""
    c = h.real('c', '0.5', 9)
    good = h.choose('good', ['key', 'index', 'numbers'])
    good = {'key': ['Oyz'], 'index': ['0'], 'numbers': ['0', '0', '1'] + numbers(h, [c])}[good]
    o = opt(h, where)
    if where == 'plane' and len(good) == 1:
        good = ['/Oxy']
    if kind == 'key':
        w = h.chars('k', 3)
        for k in KEYS:
            h.assume(h.bnot(h.same_text(w, k)))
        for ch in '-+.0123456789_':
            h.assume(h.bnot(h.same_text(w[0], ch)))
        bad = [w]
    elif kind == 'index':
        w = h.chars('k', 1, 48, 57)
        h.assume(h.bnot(h.same_text(w, '0')))
        if where == 'plane':
            bad = [w]
        else:
            bad = [w]
    else:
        bad = numbers(h, [h.real('w%d' % i, '0.5', 9) for i in range(h.choose('n', [2, 3, 5]))])
    refused(h, ['-p', '/Oyz', o] + good + [o] + bad, 'second plane', fixed=True) if where != 'plane' else \
        refused(h, [o] + good + [o] + bad, 'second plane', fixed=True)


def three(h, names, n):
    """options that take three values"""
    v = [h.real('v%d' % i, '0.5', 900) if i % 2 else h.real('v%d' % i, -900, '-0.5') for i in range(n)]
    refused(h, [h.choose("name", names)] + numbers(h, v), '%d values' % n)


def one(h, names):
    """options that take one value: none, or a word"""
    src = h.choose('value', [[], ['a'], ['1,5'], ['x1'], ['1..2'], ['--'], ['Oxy']])
    refused(h, [h.choose("name", names)] + src, 'no number')


def medium(h, n):
    """the names of media are known in any letter case"""
    d = h.mod('densities')
    w = word_(h, n)
    for k in [m.upper() for m in d.list_medium()]:
        h.assume(h.bnot(h.same_text(w.upper(), k)))
    for ch in '-+.0123456789_':
        h.assume(h.bnot(h.same_text(w[0], ch)))
    for k in ('nan', 'inf', 'infinity'):
        h.assume(h.bnot(h.same_text(w.lower(), k)))
    refused(h, [h.choose('what', ['-pi', '-si', '-i']), '--rho-medium', w], 'unknown medium')


def hydro(h, disp):
    """the height of the centre of gravity is needed when the centre of gravity is not given"""
    a = ['-hs']
    if disp:
        a += ['-mdisp'] + numbers(h, [h.real('disp', '0.1', 900)])
    h.stub(h.mod('hydrostatics'), 'displacement_equilibrium', lambda *a, **k: h.const(0))
    h.stub(h.mod('hydrostatics'), 'compute_hydrostatics',
           lambda *a, **k: {'buoyancy_center': h.arr([h.const(0)] * 3, float), 'disp_mass': h.const(1)})
    h.stub(h.mod('hydrostatics'), 'get_hydrostatic_report', lambda *a, **k: 'report')
    refused(h, a + ['--hs-report', h.path('report.txt')], 'hydrostatics without zcog')


def concat(h, n):
    w = word(h, 'c', n)
    h.assume(h.bnot(h.same_text(w[0], '-')))
    refused(h, [h.choose('name', ['-cc', '--concatenate-file']), h.path('x') + w + '.mar'], 'missing file to concatenate')


def unknown_option(h, n):
    """an option that does not exist"""
    refused(h, [h.choose('o', ['--translates', '-zz', '--mirrors', '--clips', '-xy'])], 'unknown option')


def T(name, fn, **k):
    return Inst(name, fn, textual=True, **k)


INSTANCES = []
for _w in ('plane', 'mirror', 'symmetrize', 'clip'):
    for _n, _d in ((1, 0), (3, 0), (4, 0), (3, 1), (4, 2), (2, 3), (5, 0)):
        if _w != 'plane' or _d < 2:
            INSTANCES.append(T('%s / key of %d characters, %d planes' % (_w, _n, _d), bad_key, where=_w, n=_n, defined=_d,
                               bound='%d arbitrary characters' % _n))
    if _w != 'plane':
        for _n, _d, _s in ((1, 1, ''), (1, 2, ''), (1, 3, ''), (2, 1, ''), (2, 3, ''), (3, 2, ''), (1, 1, '-'), (1, 3, '-'), (2, 2, '-')):
            INSTANCES.append(T('%s / index %s%d digits, %d planes' % (_w, _s, _n, _d), bad_index, where=_w, n=_n, defined=_d, sign=_s,
                               bound='%d digits' % _n))
    for _n in (2, 3, 5, 6):
        INSTANCES.append(T('%s / %d values' % (_w, _n), bad_count, where=_w, n=_n, bound='%d values' % _n))
    INSTANCES.append(T('%s / no number' % _w, bad_value, where=_w, bound='7 words at 4 places'))
    for _k in ('key', 'index', 'count'):
        if _w != 'mirror':
            INSTANCES.append(T('%s / second plane, %s' % (_w, _k), second, where=_w, kind=_k, bound='two planes'))
for _o in (['-t', '--translate'], ['-r', '--rotate'], ['-cog', '--cog']):
    INSTANCES += [T('%s / %d values' % (_o[0], _n), three, names=_o, n=_n, bound='%d values' % _n) for _n in (1, 2, 4)]
for _o in ('-tx', '-ty', '-tz', '-rx', '-ry', '-rz', '-s', '-sx', '-sy', '-sz'):
    INSTANCES.append(T('%s / no number' % _o, one, names=[_o, LONG[_o]], bound='7 words'))
for _o in (['-zg', '--zcog'], ['-mdisp', '--mass-displacement'], ['-wd', '--water-density'], ['-g', '--grav'], ['-lpp', '--lpp'],
           ['--thickness'], ['-ms', '-mesh_size']):
    INSTANCES.append(T('%s / no number' % _o[0], one, names=_o, bound='7 words'))
INSTANCES += [T('medium of %d characters' % n, medium, n=n, bound='%d arbitrary characters' % n) for n in (1, 3, 6)]
INSTANCES += [T('hydrostatics without zcog', hydro, disp=False, bound=''), T('displacement without zcog', hydro, disp=True, bound='any displacement')]
INSTANCES += [T('concatenate / %d' % n, concat, n=n, bound='%d arbitrary characters' % n) for n in (1, 4)]
INSTANCES += [T('unknown option', unknown_option, n=1, bound='5 names')]
