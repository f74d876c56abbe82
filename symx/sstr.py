"""Strings of symbolic characters.  A character is a one-letter str or (variable, mode) where the variable ranges over
printable character codes and mode is one of None, 'u', 'l' (upper / lower applied).  Length is concrete."""
from . import core
from .core import Bx, Rx, band, bor, lift, Unsupported


def _is(c, ch):
    """condition: symbolic character c is ch"""
    x, mode = c
    eq = lambda k: core.mkb(x == k)
    o = ord(ch)
    if mode is None:
        return eq(o)
    if mode == 'u':
        if 'a' <= ch <= 'z':
            return Bx('c', False)
        return bor(eq(o), eq(o + 32)) if 'A' <= ch <= 'Z' else eq(o)
    if 'A' <= ch <= 'Z':
        return Bx('c', False)
    return bor(eq(o), eq(o - 32)) if 'a' <= ch <= 'z' else eq(o)


def _known(c):
    """a letter of unknown case that was put in upper or lower case"""
    k = getattr(core.CUR, 'lettercase', {}).get(core.lift(c[0]).num) if c[1] else None
    return k and (k.upper() if c[1] == 'u' else k.lower())


def _low(c):
    """canonical comparison of two symbolic characters is only supported when they are the same"""
    return c


class SStr(object):
    def __init__(self, chars):
        self.c = tuple(chars)
        c = core.CUR
        if c is not None:
            reg = c.__dict__.setdefault('sstrs', {})
            # one token per content
            toks = c.__dict__.setdefault('sstrtok', {})
            k = tuple(x if isinstance(x, str) else _known(x) or (core.lift(x[0]).num, x[1]) for x in self.c)
            if all(isinstance(x, str) for x in k):
                self.tok = ''.join(k)
                return
            if k not in toks:
                toks[k] = '\u27e6%d\u27e7' % len(toks)
                reg[toks[k]] = self
            self.tok = toks[k]

    def __len__(self):
        return len(self.c)

    def __bool__(self):
        return bool(self.c)

    def __str__(self):
        return self.tok

    def __format__(self, spec):
        return self.tok

    def __repr__(self):
        return "'%s'" % self.tok

    def __iter__(self):
        return iter([self[i] for i in range(len(self.c))])

    def __getitem__(self, i):
        if isinstance(i, slice):
            return simplify(self.c[i])
        return simplify([self.c[i]])

    def _map(self, mode):
        out = []
        for x in self.c:
            if isinstance(x, str):
                out.append(x.upper() if mode == 'u' else x.lower())
            else:
                out.append((x[0], mode))
        return SStr(out)

    def upper(self):
        return self._map('u')

    def lower(self):
        return self._map('l')

    casefold = lower

    def eqcond(self, o):
        oc = o.c if isinstance(o, SStr) else (tuple(o) if isinstance(o, str) else None)
        if oc is None or len(oc) != len(self.c):
            return Bx('c', False)
        parts = []
        for a, b in zip(self.c, oc):
            if isinstance(a, str) and isinstance(b, str):
                if a != b:
                    return Bx('c', False)
            elif isinstance(a, str):
                parts.append(_is(b, a))
            elif isinstance(b, str):
                parts.append(_is(a, b))
            elif a == b or (a[0].num == b[0].num and a[1] == b[1]):
                continue
            else:
                raise Unsupported('comparison of two symbolic characters')
        return band(*parts) if parts else Bx('c', True)

    def __eq__(self, o):
        return bool(self.eqcond(o))

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        raise Unsupported('hash of a symbolic string')

    def __add__(self, o):
        return SStr(self.c + (o.c if isinstance(o, SStr) else tuple(o)))

    def __radd__(self, o):
        return SStr(tuple(o) + self.c)

    def __contains__(self, o):
        n = len(o)
        return any(bool(SStr(self.c[i:i + n]).eqcond(o)) for i in range(len(self.c) - n + 1))

    def startswith(self, p, *a):
        if a:
            raise Unsupported('startswith with bounds')
        if isinstance(p, tuple):
            return any(self.startswith(x) for x in p)
        return bool(SStr(self.c[:len(p)]).eqcond(p))

    def endswith(self, p):
        if isinstance(p, tuple):
            return any(self.endswith(x) for x in p)
        return bool(SStr(self.c[len(self.c) - len(p):]).eqcond(p)) if len(p) <= len(self.c) else False

    def _find(self, sub, rng):
        n = len(sub)
        for i in rng:
            if bool(SStr(self.c[i:i + n]).eqcond(sub)):
                return i
        return -1

    def find(self, sub, start=0):
        return self._find(sub, range(start, len(self.c) - len(sub) + 1))

    def rfind(self, sub):
        return self._find(sub, range(len(self.c) - len(sub), -1, -1))

    def index(self, sub):
        i = self.find(sub)
        if i < 0:
            raise ValueError('substring not found')
        return i

    def _strip(self, chars, l, r):
        c = self.c
        chars = ' \t\n\r\x0b\x0c' if chars is None else chars
        while l and c and any(bool(SStr(c[:1]).eqcond(x)) for x in chars):
            c = c[1:]
        while r and c and any(bool(SStr(c[-1:]).eqcond(x)) for x in chars):
            c = c[:-1]
        return simplify(c)

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def partition(self, sep):
        i = self.find(sep)
        return (self[:i], sep, self[i + len(sep):]) if i >= 0 else (self, '', '')

    def rpartition(self, sep):
        i = self.rfind(sep)
        return (self[:i], sep, self[i + len(sep):]) if i >= 0 else ('', '', self)

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            raise Unsupported('split on blanks of a symbolic string')
        out, s = [], self
        while maxsplit != 0 and isinstance(s, SStr):
            i = s.find(sep)
            if i < 0:
                break
            out.append(s[:i])
            s = s[i + len(sep):]
            maxsplit -= 1
        if isinstance(s, str) and maxsplit != 0:
            return out + s.split(sep, maxsplit)
        return out + [s]

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit != 1:
            return self.split(sep)
        a, s, b = self.rpartition(sep)
        return [a, b] if s else [b]

    def replace(self, a, b):
        if len(a) != 1:
            raise Unsupported('replace')
        out = []
        for x in self.c:
            out.extend(b if bool(SStr([x]).eqcond(a)) else [x])
        return simplify(out)


def simplify(chars):
    chars = tuple(chars)
    if all(isinstance(x, str) for x in chars):
        return ''.join(chars)
    return SStr(chars)


def splitext(p):
    """genericpath._splitext with '/' and '.'"""
    sep = p.rfind('/')
    dot = p.rfind('.')
    if dot > sep:
        k = sep + 1
        while k < dot:
            if not p[k:k + 1] == '.':
                return p[:dot], p[dot:]
            k += 1
    return p, p[:0]


def basename(p):
    return p[p.rfind('/') + 1:]


def dirname(p):
    h = p[:p.rfind('/') + 1]
    return h.rstrip('/') or h


class _IKey(object):
    """symbolic integer used as a key"""
    __slots__ = ('x',)

    def __init__(self, x):
        self.x = x


def _symint(k):
    return isinstance(k, core.Rx) and k.isint and not k.is_const()


def _plain(k):
    if isinstance(k, core.Rx) and k.isint and k.is_const():
        return int(k.const())
    return k


class SDict(dict):
    """dictionary display of the code under test: accepts symbolic strings and integers as keys"""
    def __init__(self, *a, **k):
        dict.__init__(self)
        self._nsym = 0
        self.update(*a, **k)

    def _find(self, k):
        """key under which k is stored, or None"""
        if isinstance(k, SStr):
            for x in dict.__iter__(self):
                if isinstance(x, str) and len(x) == len(k) and bool(k.eqcond(x)):
                    return x
            return None
        k = _plain(k)
        if _symint(k):
            for x in dict.__iter__(self):
                if isinstance(x, _IKey) and x.x.num == k.num and x.x.den == k.den:
                    return x
            for x in dict.__iter__(self):
                y = x.x if isinstance(x, _IKey) else x
                if (isinstance(y, int) or _symint(y)) and bool(y == k):
                    return x
            return None
        if dict.__contains__(self, k):
            return k
        if self._nsym and isinstance(k, int):
            for x in dict.__iter__(self):
                if isinstance(x, _IKey) and bool(x.x == k):
                    return x
        return None

    def _easy(self, k):
        return not self._nsym and not isinstance(k, SStr) and not _symint(k)

    def __getitem__(self, k):
        if self._easy(k):
            return dict.__getitem__(self, k)
        x = self._find(k)
        if x is None:
            raise KeyError(getattr(k, 'tok', k))
        return dict.__getitem__(self, x)

    def __setitem__(self, k, v):
        if self._easy(k):
            return dict.__setitem__(self, k, v)
        x = self._find(k)
        if x is None:
            x = _plain(k)
            if _symint(x):
                x = _IKey(x)
                self._nsym += 1
        dict.__setitem__(self, x, v)

    def __delitem__(self, k):
        if self._easy(k):
            return dict.__delitem__(self, k)
        self.pop(k)

    def __contains__(self, k):
        if self._easy(k):
            return dict.__contains__(self, k)
        return self._find(k) is not None

    def get(self, k, d=None):
        return self[k] if k in self else d

    def setdefault(self, k, d=None):
        if k not in self:
            self[k] = d
        return self[k]

    def pop(self, k, *d):
        x = self._find(k)
        if x is None:
            if d:
                return d[0]
            raise KeyError(getattr(k, 'tok', k))
        if isinstance(x, _IKey):
            self._nsym -= 1
        return dict.pop(self, x)

    def update(self, *a, **k):
        if a:
            o = a[0]
            for x in (o.keys() if hasattr(o, 'keys') else ()):
                self[x] = o[x]
            if not hasattr(o, 'keys'):
                for x, v in o:
                    self[x] = v
        for x, v in k.items():
            self[x] = v

    def __iter__(self):
        if not self._nsym:
            return dict.__iter__(self)
        return iter([x.x if isinstance(x, _IKey) else x for x in dict.__iter__(self)])

    def keys(self):
        return dict.keys(self) if not self._nsym else list(self)

    def items(self):
        if not self._nsym:
            return dict.items(self)
        return [(x.x if isinstance(x, _IKey) else x, v) for x, v in dict.items(self)]

    def copy(self):
        return SDict(self)


def sdict(*a, **k):
    return SDict(*a, **k)


def find_tokens(s):
    """text with tokens of symbolic strings in it, as a symbolic string"""
    reg = core.CUR.__dict__.get('sstrs', {}) if core.CUR is not None else {}
    if '\u27e6' not in s:
        return s
    out, i = [], 0
    while i < len(s):
        j = s.find('\u27e7', i) + 1 if s[i] == '\u27e6' else 0
        if j and s[i:j] in reg:
            out.extend(reg[s[i:j]].c)
            i = j
        else:
            out.append(s[i])
            i += 1
    return simplify(out)


def vkey(name):
    """name of a file, as a key"""
    return str(find_tokens(str(name)))
