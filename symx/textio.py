"""Text model: formatting a symbolic number produces a concrete representative text of its lexical class (sign, number
of integer digits, exponent), registered so that parsing that very token gives back the symbolic value up to the
rounding of the format.  Files live in a per-path dictionary."""
import io
import math
import random
import re
from fractions import Fraction

import numpy as np

from . import core, sstr
from .core import Rx, lift, const, Unsupported
from .poly import Poly

_SPEC = re.compile(r'^(?:(?P<fill>.)?(?P<align>[<>=^]))?(?P<sign>[-+ ])?(?P<alt>#)?(?P<zero>0)?(?P<width>\d+)?'
                   r'(?P<comma>[,_])?(?:\.(?P<prec>\d+))?(?P<type>[a-zA-Z%])?$')


def _key(tok):
    return tok.strip().lstrip('+').upper()


def register(tok, val):
    c = core.cur()
    k = _key(tok)
    c.textreg[k] = val


def _digits(n, lead):
    c = core.cur()
    if not hasattr(c, 'tokrnd'):
        c.tokrnd = random.Random(99)
    s = str(c.tokrnd.randint(1, 9)) if lead else str(c.tokrnd.randint(0, 9))
    return s + ''.join(str(c.tokrnd.randint(0, 9)) for _ in range(n - 1))


def format_value(x, spec):
    m = _SPEC.match(spec)
    if not m:
        raise ValueError('Invalid format specifier %r' % spec)
    typ = m.group('type') or ''
    prec = m.group('prec')
    if x.num is None:
        return format(float('nan'), spec)
    if x.is_const():
        v = x.const()
        if x.isint:
            return format(int(v), spec)
        if typ in ('d', 'x', 'o', 'b', 'c'):
            raise ValueError("Unknown format code '%s' for object of type 'float'" % typ)
        return format(float(v), spec)
    c = core.cur()
    if typ in ('d', 'x', 'o', 'b', 'c') and not x.isint:
        raise ValueError("Unknown format code '%s' for object of type 'float'" % typ)
    if not getattr(c, 'textual', False):
        return '<num>'
    if x.isint and typ in ('', 'd'):
        v = _int_rep(x)
        s = format(v, spec)
        register(str(v), x)
        return s
    if typ in ('', 'g', 'G', 'f', 'F', 'e', 'E'):
        v, reg = _float_rep(x, typ, int(prec) if prec is not None else None)
        s = format(v, spec)
        register(s if not m.group('fill') or m.group('fill') == ' ' else s.strip(m.group('fill')), reg)
        return s
    raise Unsupported('format %r of a symbolic number' % spec)


def _int_rep(x):
    c = core.cur()
    key = ('introp', x.num)
    h = c.cache_fun.get(key)
    if h is not None:
        return h
    neg = bool(x < 0)
    a = -x if neg else x
    d = 1
    while not bool(a < 10 ** d):
        d += 1
        if d > 12:
            raise Unsupported('integer text too long')
    for _ in range(1000):
        v = int(_digits(d, d > 1))
        v = -v if neg else v
        if _key(str(v)) not in c.textreg:
            break
    else:
        raise Unsupported('too many symbolic integers of %d digits' % d)
    c.cache_fun[key] = v
    c.textreg[_key(str(v))] = x
    return v


def _float_rep(x, typ, prec):
    """(representative float, registered value)"""
    c = core.cur()
    key = ('floatrep', x.num, x.den, typ.upper(), prec)
    h = c.cache_fun.get(key)
    if h is not None:
        return h
    t = typ.upper()
    neg = bool(x < 0)
    a = -x if neg else x
    p = 6 if prec is None else prec
    if t in ('F', ''):
        if t == '':
            p = 6
            half = Fraction(0)
        else:
            half = Fraction(1, 2) / Fraction(10) ** p
        d = 0
        while not bool(a < 10 ** d - half):
            d += 1
            if d > 12:
                raise Unsupported('float text too long')
        for _ in range(100):
            txt = (_digits(d, True) if d else '0') + '.' + (_digits(max(p, 3), True))
            v = float(txt)
            v = -v if neg else v
            s = format(v, '.%df' % p) if t == 'F' else format(v, '')
            if _key(s) not in c.textreg:
                break
        reg = x if t == '' else _near(x, half)
    else:
        # exponent class
        if t == 'G':
            p = max(p, 1) - 1
        half = Fraction(1, 2) / Fraction(10) ** p
        e = None
        lo, hi = -12, 19
        # find e with 10^e <= a(rounded) < 10^(e+1): class bound (10 - half) * 10^e
        zero = False
        for k in range(lo, hi):
            if bool(a < (10 - half) * (Fraction(10) ** k)):
                e = k
                break
        if e is None:
            raise Unsupported('exponent out of range')
        if e == lo:
            zero = True
        for _ in range(100):
            v = float(_digits(1, True) + '.' + _digits(max(p, 3), True) + 'e%d' % e)
            v = -v if neg else v
            s = format(v, '.%d%s' % (p if t == 'E' else p + 1, typ))
            if _key(s) not in c.textreg:
                break
        reg = _near(x, half * Fraction(10) ** e)
    c.cache_fun[key] = (v, reg)
    return v, reg


def _near(x, half):
    c = core.cur()
    v = c.new_var('txt%d' % len(c.vars))
    v.ev = lambda pt: pt.rx(x)
    enclose(v, x, half)
    me = Rx(Poly.var(v.idx))
    v.side = [(me - x) <= half, (x - me) <= half]
    return me


def enclose(v, x, err):
    """bounds of a new variable that is within err of x"""
    c = core.cur()
    err = lift(err)
    if x.den or not err.is_const():
        return None
    r = c.prange(x.num)
    if r is not None:
        v.lo, v.hi = r[0] - err.const(), r[1] + err.const()
    return r


def _word_float(s):
    """float() of a word of symbolic characters: refused when no number starts that way"""
    from . import sstr
    first = sstr.SStr(s.c[:1])
    for ch in '+-.0123456789_':
        if first == ch:
            raise Unsupported('number written in symbolic characters')
    low = s.lower()
    for w in ('nan', 'inf', 'infinity'):
        if low == w:
            raise Unsupported('number written in symbolic characters')
    raise ValueError('could not convert string to float: %r' % s.tok)


def _word_int(s):
    """int() of a word of symbolic characters"""
    from . import sstr
    ch = [sstr.SStr(s.c[i:i + 1]) for i in range(len(s.c))]
    sign = 1
    if len(ch) > 1:
        for k, v in (('+', 1), ('-', -1)):
            if ch[0] == k:
                sign, ch = v, ch[1:]
                break
    n = lift(0)
    for x in ch:
        k = x.c[0]
        k = ord(k) if isinstance(k, str) else k[0]
        if not (bool(lift(k) >= 48) and bool(lift(k) <= 57)):
            if x is not ch[0] and x is not ch[-1] and x == '_':
                raise Unsupported('number written in symbolic characters')
            raise ValueError('invalid literal for int() with base 10: %r' % s.tok)
        n = n * 10 + (k - 48)
    return n * sign


def parse_float(s):
    c = core.cur()
    w = word_of(s)
    if w is not None:
        return _word_float(w)
    h = c.textreg.get(_key(s)) if c.textreg else None
    if h is not None:
        return Rx(h.num, h.den, False)
    f = float(s)            # ValueError as python
    if f != f or f in (float('inf'), float('-inf')):
        return lift(f)
    return const(Fraction(s.strip().replace('_', '')))


def word_of(s):
    """the string of symbolic characters that s is or stands for"""
    from . import sstr
    if isinstance(s, sstr.SStr):
        return s
    return getattr(core.cur(), 'sstrs', {}).get(s) if isinstance(s, str) else None


def parse_int(s, *a):
    c = core.cur()
    w = word_of(s)
    if w is not None and not a:
        return _word_int(w)
    if isinstance(s, bytes):
        s = s.decode()
    h = c.textreg.get(_key(s)) if c.textreg and not a else None
    if h is not None and h.isint:
        return h
    return int(s, *a)


# --------------------------------------------------------------------------------------------------- % formatting
_PCT = re.compile(r'%(?:\((?P<key>[^)]*)\))?(?P<flags>[-+ #0]*)(?P<width>\*|\d+)?(?:\.(?P<prec>\*|\d+))?'
                  r'[hlL]?(?P<type>[diouxXeEfFgGcrsa%])')


def symmod(l, r):
    if not isinstance(l, str):
        return l % r
    args = r if isinstance(r, tuple) else None
    i = [0]

    def sub(m):
        t = m.group('type')
        if t == '%':
            return '%'
        if m.group('key') is not None:
            v = r[m.group('key')]
        elif args is None:
            if i[0]:
                raise TypeError('not enough arguments for format string')
            v = r
            i[0] += 1
        else:
            def nxt():
                if i[0] >= len(args):
                    raise TypeError('not enough arguments for format string')
                i[0] += 1
                return args[i[0] - 1]
            if m.group('width') == '*' or m.group('prec') == '*':
                raise Unsupported('* in format')
            v = nxt()
        if isinstance(v, np.ndarray) and v.ndim == 0:
            v = v[()]
        fl, w, p = m.group('flags'), m.group('width') or '', m.group('prec')
        if isinstance(v, core.Bx):
            v = bool(v)
        if isinstance(v, Rx):
            if t in 'diu':
                if not v.isint:
                    from .npshim import trunc
                    if v.is_const():
                        v = int(v.const())
                    elif not getattr(core.cur(), 'textual', False):
                        return '<num>'
                    else:
                        v = lift(trunc(v))
                if isinstance(v, Rx):
                    s = format_value(v, '')
                    return _pad(s, fl, w)
            elif t in 'eEfFgG':
                if v.isint:
                    v = Rx(v.num, v.den, False)
                s = format_value(v, ('+' if '+' in fl else ' ' if ' ' in fl else '') + '.%s%s' % (p or '6', t))
                return _pad(s, fl, w)
            elif t in 'sra':
                return _pad(str(v), fl, w)
            else:
                raise Unsupported('%%%s' % t)
        return ('%' + fl + w + ('.' + p if p is not None else '') + t) % (v,)

    out = _PCT.sub(sub, l)
    if args is not None and i[0] < len(args):
        raise TypeError('not all arguments converted during string formatting')
    if args is None and i[0] == 0 and not isinstance(r, dict):
        raise TypeError('not all arguments converted during string formatting')
    return out


def _pad(s, flags, width):
    if not width:
        return s
    w = int(width)
    if '-' in flags:
        return s.ljust(w)
    return s.rjust(w)


# --------------------------------------------------------------------------------------------------- files
class Endless(Exception):
    """a file read past its end over and over"""


class VFile(io.StringIO):
    empty = 0

    def _more(self, s):
        if not s:
            self.empty += 1
            if self.empty > 500:
                raise Endless('the end of %s is read for ever' % self._vname)
        return s

    def readline(self, *a):
        return self._more(io.StringIO.readline(self, *a))

    def __init__(self, name, mode, content):
        self._mode = mode
        self._vname = name
        io.StringIO.__init__(self, content if not mode.startswith('w') else '', newline='\n')
        if 'a' in mode:
            self.seek(0, 2)
        self._vfs = core.cur().vfs
        if mode[0] in 'wa':
            self._vfs[name] = self.getvalue()

    @property
    def name(self):
        return self._vname

    def write(self, s):
        if self._mode[0] == 'r' and '+' not in self._mode:
            raise io.UnsupportedOperation('not writable')
        if not isinstance(s, str):
            raise TypeError('write() argument must be str, not %s' % type(s).__name__)
        n = io.StringIO.write(self, s)
        # a large file is recorded when it is closed or flushed
        self._size = getattr(self, '_size', 0) + len(s)
        if self._size < 300000:
            self._vfs[self._vname] = self.getvalue()
        return n

    def flush(self):
        if self._mode[0] in 'wa':
            self._vfs[self._vname] = self.getvalue()

    def writelines(self, ls):
        for l in ls:
            self.write(l)

    def read(self, *a):
        if self._mode[0] in 'wa' and '+' not in self._mode:
            raise io.UnsupportedOperation('not readable')
        return self._more(io.StringIO.read(self, *a))

    def close(self):
        if not self.closed and self._mode[0] in 'wa':
            self._vfs[self._vname] = self.getvalue()
        io.StringIO.close(self)


class Encoded(str):
    """text of a file with an encoding that is not the one of the system"""
    def __new__(cls, s, encoding):
        x = str.__new__(cls, s)
        x.encoding = encoding
        return x


class H5Data(object):
    def __init__(self, data):
        self.data = dict(data)


class _H5Set(object):
    def __init__(self, v):
        self.v = v
        self.shape, self.size, self.ndim = v.shape, v.size, v.ndim

    def __getitem__(self, i):
        return self.v.copy() if i == slice(None) or i == () or i is Ellipsis else self.v[i].copy()

    def __len__(self):
        return len(self.v)

    def __array__(self, *a, **k):
        return self.v.copy()


class _H5Group(object):
    def __init__(self, data, base=''):
        self._data, self._base = data, base

    def _names(self):
        out = set()
        for k in self._data:
            p = k.split('/')
            out.update('/'.join(p[:i + 1]) for i in range(len(p)))
        b = self._base
        return sorted((n[len(b):] for n in out if n.startswith(b)), key=lambda s: s.split('/'))

    def _get(self, n):
        k = self._base + n.strip('/')
        if k in self._data:
            return _H5Set(self._data[k])
        if any(x.startswith(k + '/') for x in self._data):
            return _H5Group(self._data, k + '/')
        raise KeyError("Unable to open object (object '%s' doesn't exist)" % n)

    __getitem__ = _get

    def __contains__(self, n):
        try:
            self._get(n)
        except KeyError:
            return False
        return True

    def get(self, n, d=None):
        return self._get(n) if n in self else d

    def visit(self, f):
        for n in self._names():
            r = f(n)
            if r is not None:
                return r

    def visititems(self, f):
        for n in self._names():
            r = f(n, self._get(n))
            if r is not None:
                return r

    def keys(self):
        return [n for n in self._names() if '/' not in n]

    def __iter__(self):
        return iter(self.keys())

    def values(self):
        return [self._get(n) for n in self.keys()]

    def items(self):
        return [(n, self._get(n)) for n in self.keys()]


class _H5File(_H5Group):
    def __init__(self, name, mode='r', *a, **k):
        v = core.cur().vfs.get(sstr.vkey(name))
        if v is not None and not isinstance(v, H5Data):
            raise OSError('Unable to open file (file signature not found)')
        if not isinstance(v, H5Data):
            raise FileNotFoundError(2, 'Unable to open file', name)
        if mode != 'r':
            raise Unsupported('hdf5 file opened for writing')
        _H5Group.__init__(self, v.data)

    def close(self):
        self._data = {}

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class H5Module(object):
    File, Dataset, Group = _H5File, _H5Set, _H5Group


_GMSH = []


def gmshparser():
    """the installed gmshparser, with numbers and files of the engine while a path is executed"""
    if not _GMSH:
        import builtins
        import importlib
        m = importlib.import_module('gmshparser')
        from . import npshim
        m.open = lambda *a, **k: (sopen if core.CUR is not None else builtins.open)(*a, **k)
        for n in ('helpers', 'nodes_parser', 'nodes_parser_v1', 'nodes_parser_v2'):
            s = importlib.import_module('gmshparser.' + n)
            s.float = lambda x: (npshim.SFloat if core.CUR is not None else builtins.float)(x)
        _GMSH.append(m)
    return _GMSH[0]


def sopen(name, mode='r', *a, **k):
    c = core.cur()
    name = sstr.vkey(name)
    if 'b' in mode:
        raise Unsupported('binary file')
    mode = mode.replace('t', '')
    if mode.startswith('r') and name not in c.vfs:
        raise FileNotFoundError(2, 'No such file or directory', name)
    if mode.startswith('x') and name in c.vfs:
        raise FileExistsError(17, 'File exists', name)
    text = c.vfs.get(name, '')
    if isinstance(text, H5Data):
        raise Unsupported('text of a hdf5 file')
    if isinstance(text, Encoded) and not mode.startswith('w'):
        k = dict(k)
        for n, v in zip(('buffering', 'encoding', 'errors'), a):
            k[n] = v
        text = text.encode(text.encoding).decode(k.get('encoding') or 'utf-8', k.get('errors') or 'strict')
    return VFile(name, mode.replace('U', ''), text)
