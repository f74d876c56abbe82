from .formats import *

BOUNDS = ('every announced extension in every letter case; every announced name; explicit formats '
          'with any extension of 3 (reading) or 4 (writing) lower case letters; unsupported extensions and names of 1 to 15 '
          'characters, names of missing files of 1 to 8 characters, all of them (any printable ASCII character but / and the dot)')
OUTSIDE = ('letter case of names given explicitly; names with blanks or non-ASCII characters; announced formats are recognised on '
           'one mesh per format; VRML')
ASSUMPTIONS = ['the files of the vtk library are modelled by their points and cells; argparse is executed as installed']

# format: extension, names, function that reads, function that writes
TABLE = [('mar', ['nemoh', 'mar'], 'load_MAR', 'write_MAR'), ('nem', ['nemoh_mesh', 'nem'], 'load_NEM', 'write_NEM'),
         ('gdf', ['wamit', 'gdf'], 'load_GDF', 'write_GDF'), ('inp', ['diodore-inp', 'inp'], 'load_INP', None),
         ('dat', ['diodore-dat'], 'load_DAT', 'write_DAT'), ('hst', ['hydrostar', 'hst'], 'load_HST', 'write_HST'),
         ('nat', ['natural', 'nat'], 'load_NAT', 'write_NAT'), ('msh', ['gmsh', 'msh'], 'load_MSH', None),
         ('rad', ['rad', 'radioss'], 'load_RAD', None), ('stl', ['stl'], 'load_STL', 'write_STL'),
         ('vtu', ['vtu'], 'load_VTU', 'write_VTU'), ('vtp', ['vtp'], 'load_VTP', 'write_VTP'),
         ('vtk', ['paraview-legacy', 'vtk'], 'load_VTK', 'write_VTK'), ('tec', ['tecplot', 'tec'], 'load_TEC', 'write_TEC'),
         ('med', ['med', 'salome'], 'load_MED', None), ('obj', ['obj'], 'load_OBJ', 'write_OBJ'),
         ('pnl', ['pnl', 'hams'], 'load_PNL', 'write_PNL')]
KNOWN = sorted({k for e, ks, r, w in TABLE for k in [e] + ks} | {'vrml', 'wrl'})

V0 = [['0.5', '0.25', '-1.5'], ['2.5', '0.25', '-1.5'], ['2.5', '2.25', '-1.5'], ['0.5', '2.25', '-1.5'], ['1.5', '3.25', '-1.5']]
F0 = [[0, 1, 2, 0], [2, 3, 4, 2], [0, 1, 2, 3]]
T0 = [[0, 1, 2, 0], [2, 3, 4, 2], [0, 2, 3, 0]]


def row(e):
    return [t for t in TABLE if t[0] == e][0]


def mesh(h, e):
    return h.arr([[h.const(x) for x in p] for p in V0], float), h.arr(T0 if e == 'stl' else F0, int)


def source(h, e, name):
    """writes a mesh in the format into the file"""
    mm = h.mod('mmio')
    V, F = mesh(h, e)
    nodes_ = '\n'.join('  %d  %s' % (i + 1, '  '.join(p)) for i, p in enumerate(V0))
    faces = [f[:3] if f[0] == f[3] else f for f in F0]
    if row(e)[3]:
        getattr(mm, row(e)[3])(name, V, F)
    elif e == 'inp':
        h.write_text(h.path('Hull.DAT'), nodes_ + '\n*RETURN\n' + '\n'.join(
            '  %d  %s' % (k + 1, '  '.join('%d' % (i + 1) for i in f)) for k, f in enumerate(faces) if len(f) == 3) + '\n*RETURN\n')
        h.write_text(name, '*DIODORE\n*FRAME,NAME=FR1\n0.0,0.0,0.0\n\n*NODE,INPUT=Hull,FRAME=FR1\n'
                     '*ELEMENT,INPUT=Hull,TYPE=T3C000,ELSTRUCTURE=HULL\n$\n')
    elif e == 'rad':
        h.write_text(name, '#RADIOSS STARTER\n/BEGIN\n/NODE\n%s\n/SHELL\n%s\n/END\n' % (
            nodes_, '\n'.join('%d 1 1 %s' % (k + 1, ' '.join('%d' % (i + 1) for i in f)) for k, f in enumerate(F0))))
    elif e == 'msh':
        h.write_text(name, '$MeshFormat\n2.2 0 8\n$EndMeshFormat\n$Nodes\n5\n%s\n$EndNodes\n$Elements\n3\n%s\n$EndElements\n' % (
            nodes_, '\n'.join('%d %d 0 %s' % (k + 1, len(f) - 1, ' '.join('%d' % (i + 1) for i in f)) for k, f in enumerate(faces))))
    elif e == 'med':
        g = 'ENS_MAA/hull/-0000000000000000001-0000000000000000001/'
        h.write_h5(name, {g + 'NOE/COO': h.arr([h.const(p[a]) for a in range(3) for p in V0], float),
                          g + 'MAI/TR3/NOD': h.arr([f[j] + 1 for j in range(3) for f in faces if len(f) == 3], int),
                          g + 'MAI/QU4/NOD': h.arr([f[j] + 1 for j in range(4) for f in faces if len(f) == 4], int)})


def plain_ext(e):
    return e.upper() if e == 'dat' else e


def direct(h, e, name):
    return getattr(h.mod('mmio'), row(e)[2])(name)


def same_mesh(h, A, B, what):
    (V, F), (W, G) = A, B
    h.true(len(V) == len(W) and len(F) == len(G) and len(G) > 0, what + ': size of the mesh')
    h.eq([list(v) for v in V], [list(v) for v in W], what + ': vertices', tol=1e-5)
    for f, g in zip(ring(F), ring(G)):
        h.true(f in rotations(g), what + ': faces')


def ring(F):
    """faces as cycles of vertices"""
    out = []
    for f in F:
        f = [int(i) for i in f]
        out.append([i for k, i in enumerate(f) if i != f[k - 1]])
    return out


def main(h, args):
    """runs the command; the error it stops with, or None"""
    h.argv(['meshmagick'] + list(args))
    try:
        h.mod('cli').main()
    except SystemExit as e:
        return e if e.code else None
    except Exception as e:
        return e
    return None


def ran(h, args, what):
    e = main(h, args)
    h.true(e is None, what + ': accepted' + ('' if e is None else ' (%s)' % type(e).__name__))


def word(h, name, n):
    """any characters but / and the dot"""
    s = h.chars(name, n)
    for i in range(n):
        for ch in '/.':
            h.assume(h.bnot(h.same_text(s[i], ch)))
    return s


def read_ext(h, e):
    """the extension, in any letter case, selects the reader"""
    ref = h.path('ref.' + plain_ext(e))
    source(h, e, ref)
    want = direct(h, e, ref)
    name = h.path('in.') + h.cased('case', e)
    source(h, e, name) if e != 'dat' else same_file(h, ref, name)
    out = h.path('out.mar')
    ran(h, [name, '-o', out, '-q'], 'extension')
    same_mesh(h, h.mod('mmio').load_MAR(out), want, 'file read')


def same_file(h, a, b):
    h.write_text(b, h.read_text(a))


def write_ext(h, e):
    """the extension, in any letter case, selects the writer"""
    ref = h.path('ref.' + plain_ext(e))
    getattr(h.mod('mmio'), row(e)[3])(ref, *mesh(h, e))
    want = direct(h, e, ref)
    src = h.path('in.mar')
    h.mod('mmio').write_MAR(src, *mesh(h, e))
    ext = h.cased('case', e)
    out = h.path('out.') + ext
    ran(h, [src, '-q', '-o', out], 'extension')
    if e == 'dat' and not h.exists(out):
        out = h.path('out.DAT')
    h.true(h.exists(out), 'the file is written')
    same_mesh(h, direct(h, e, out), want, 'file written')


def read_name(h, e, n):
    """an explicit name overrides the extension"""
    ref = h.path('ref.' + plain_ext(e))
    source(h, e, ref)
    want = direct(h, e, ref)
    name = h.path('in')
    if n:
        name = name + '.' + (h.chars('c', n, 97, 122) if n != 'mar' else 'gdf' if e == 'mar' else 'mar')
    source(h, e, name) if e != 'dat' else same_file(h, ref, name)
    out = h.path('out.mar')
    key = h.choose('name', row(e)[1])
    ran(h, [name, '-q', h.choose('option', ['-ifmt', '--input-format']), key, '-o', out], 'explicit format')
    same_mesh(h, h.mod('mmio').load_MAR(out), want, 'file read')
    same_mesh(h, h.mod('mmio').load_mesh(ref, key), want, 'load_mesh')


def write_name(h, e, n):
    ref = h.path('ref.' + plain_ext(e))
    mm = h.mod('mmio')
    getattr(mm, row(e)[3])(ref, *mesh(h, e))
    want = direct(h, e, ref)
    src = h.path('in.mar')
    mm.write_MAR(src, *mesh(h, e))
    key = h.choose('name', row(e)[1])
    args = [src, '-q', h.choose('option', ['-ofmt', '--output-format']), key]
    if n == 'none':
        ran(h, args, 'explicit format')
        out = h.path('in.' + key)
        if e == 'dat' and not h.exists(out):
            out = h.path('in.' + key.upper())
    else:
        x = h.chars('c', n, 97, 122) if n != 'mar' else 'gdf' if e == 'mar' else 'mar'
        out = h.path('out.') + x
        ran(h, args + ['-o', out], 'explicit format')
        if e == 'dat' and not h.exists(out):
            out = h.path('out.') + x.upper()
    h.true(h.exists(out), 'the file is written')
    same_mesh(h, direct(h, e, out), want, 'file written')
    mm.write_mesh(ref, mesh(h, e)[0], mesh(h, e)[1], key)
    same_mesh(h, direct(h, e, ref), want, 'write_mesh')


def no_writer(h, e):
    """formats that are only read: refused, nothing is created"""
    src = h.path('in.mar')
    mm = h.mod('mmio')
    V, F = mesh(h, e)
    mm.write_MAR(src, V, F)
    before = h.files()
    how = h.choose('how', ['extension', 'name', 'function'])
    if how == 'function':
        key = h.choose('name', row(e)[1])
        try:
            mm.write_mesh(h.path('out.' + e), V, F, key)
        except Exception:
            err = True
        else:
            err = None
    elif how == 'extension':
        err = main(h, [src, '-q', '-o', h.path('out.') + h.cased('case', e)])
    else:
        err = main(h, [src, '-q', '-ofmt', h.choose('name', row(e)[1])])
    if err is None:
        h.true(len(h.files()) > len(before), 'refused, or written')
    else:
        h.true(h.files() == before, 'no file is created')


def unknown_word(h, n, any_case):
    """a name that is not one of the announced ones"""
    s = word(h, 'c', n)
    for k in KNOWN:
        h.assume(h.bnot(h.same_text(s.lower() if any_case else s, k)))
    return s


def unsupported(h, n):
    mm = h.mod('mmio')
    src = h.path('in.mar')
    V, F = mesh(h, 'mar')
    mm.write_MAR(src, V, F)
    how = h.choose('how', ['load_mesh', 'write_mesh', '-o', '-ifmt', '-ofmt', '-ofmt -o', 'in', '-cc'])
    s = unknown_word(h, n, how in ('-o', 'in', '-cc'))
    err = None
    before = h.files()
    if how in ('load_mesh', 'write_mesh'):
        try:
            if how == 'load_mesh':
                mm.load_mesh(src, s)
            else:
                mm.write_mesh(h.path('out.mar'), V, F, s)
        except Exception as e:
            err = e
    elif how in ('in', '-cc'):
        name = h.path('other.') + s
        same_file(h, src, name)
        before = h.files()
        err = main(h, [name, '-q', '-o', h.path('out.mar')] if how == 'in' else
                   [name, '-q', '-o', h.path('out.mar'), '-cc', src])
    else:
        h.assume(h.bnot(h.same_text(s[0], '-')))
        args = {'-o': ['-o', h.path('out.') + s], '-ifmt': ['-ifmt', s, '-o', h.path('out.mar')], '-ofmt': ['-ofmt', s],
                '-ofmt -o': ['-ofmt', s, '-o', h.path('out.mar')]}[how]
        err = main(h, [src, '-q'] + args)
    h.true(err is not None, how + ': refused')
    h.true(h.files() == before, how + ': no file is created')


def no_extension(h):
    mm = h.mod('mmio')
    src, bare = h.path('in.mar'), h.path('bare')
    V, F = mesh(h, 'mar')
    mm.write_MAR(src, V, F)
    same_file(h, src, bare)
    before = h.files()
    args = h.choose('how', [[bare, '-o', h.path('out.mar')], [src, '-o', h.path('out')]])
    h.true(main(h, args + ['-q']) is not None, 'refused')
    h.true(h.files() == before, 'no file is created')


def missing(h, n):
    """a missing file is refused and named"""
    mm = h.mod('mmio')
    how = h.choose('how', ['load_mesh', 'reader', 'in', '-cc'])
    w = word(h, 'c', n)
    h.assume(h.bnot(h.same_text(w[0], '-')))
    src = h.path('in.mar')
    mm.write_MAR(src, *mesh(h, 'mar'))
    err, name = None, h.path('x') + w
    before = h.files()
    if how in ('load_mesh', 'reader'):
        e = h.choose('format', [t[0] for t in TABLE])
        name = name + '.' + e
        try:
            if how == 'reader':
                direct(h, e, name)
            else:
                mm.load_mesh(name, row(e)[1][0])
        except Exception as x:
            err = x
    else:
        name = name + '.mar'
        a = ['-q', '-o', h.path('out.mar')]
        err = main(h, [name] + a if how == 'in' else [src] + a + ['-cc', name])
    h.true(err is not None, how + ': refused')
    h.true(isinstance(err, (IOError, OSError)) or isinstance(err, SystemExit), how + ': the error is about the file')
    h.true(h.shown(' '.join([str(err)] + [str(a) for a in getattr(err, 'args', ())]), name), how + ': the error names the file')
    h.true(h.files() == before, how + ': no file is created')


def T(name, fn, **k):
    return Inst(name, fn, textual=True, **k)


INSTANCES = []
for _t in TABLE:
    _e = _t[0]
    INSTANCES.append(T('read / ' + _e, read_ext, e=_e, bound='every letter case'))
    if _t[3]:
        INSTANCES.append(T('write / ' + _e, write_ext, e=_e, bound='every letter case'))
    else:
        INSTANCES.append(T('no writer / ' + _e, no_writer, e=_e, bound='every letter case'))
    for _n in ('mar', 0, 3):
        INSTANCES.append(T('read as / %s / %s' % (_e, _n), read_name, e=_e, n=_n, bound='any extension of that length'))
    if _t[3]:
        for _n in ('mar', 'none', 4):
            INSTANCES.append(T('write as / %s / %s' % (_e, _n), write_name, e=_e, n=_n, bound='any extension of that length'))
INSTANCES += [T('unsupported / %d' % n, unsupported, n=n, bound='all names of %d characters' % n)
              for n in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 14, 15)]
INSTANCES += [T('no extension', no_extension, bound='')]
INSTANCES += [T('missing / %d' % n, missing, n=n, bound='all names of %d characters' % n) for n in (1, 2, 5, 8)]
