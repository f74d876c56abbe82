"""numpy stand-in used by the code under test when it is executed symbolically.

Float and integer arrays are object-dtype arrays of exact symbolic numbers (class SArr); boolean arrays are ordinary
boolean arrays, because every element-wise comparison forks the path.  Everything not overridden here is numpy's own
implementation working on the object arrays."""
import types
from fractions import Fraction

import numpy as np

from . import core
from .core import Rx, Bx, lift, const, Unsupported


class _Meta(type):
    def __instancecheck__(cls, x):
        if cls is SArr:
            return isinstance(x, _np_ndarray)
        return type.__instancecheck__(cls, x)


_np_ndarray = np.ndarray


class DKind(object):
    """dtype stand-in"""
    def __init__(self, kind, name):
        self.kind, self.name = kind, name
        self.type = self
        self.str = name
        self.itemsize = 8

    def __eq__(self, o):
        try:
            return kind_of(o) == self.kind
        except Exception:
            return False

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.kind)

    def __call__(self, x=0):
        if self.kind == 'f':
            return SFloat(x)
        if self.kind == 'i':
            return SInt(x)
        return bool(x)

    def __repr__(self):
        return "dtype('%s')" % self.name


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, float) or (isinstance(x, Rx) and not x.isint)

    def __eq__(cls, o):
        return o is cls or o is float

    def __hash__(cls):
        return hash(float)


class SFloat(metaclass=_FloatMeta):
    def __new__(cls, x=0):
        if isinstance(x, str) or hasattr(x, 'eqcond'):
            from . import textio
            return textio.parse_float(x)
        if isinstance(x, bytes):
            return cls(x.decode())
        if isinstance(x, np.ndarray):
            if x.size != 1:
                raise TypeError('only size-1 arrays can be converted to Python scalars')
            x = np.asarray(x).reshape(-1)[0]
        if x is None or isinstance(x, (list, tuple, dict, complex)):
            return float(x)
        r = lift(x)
        if r is NotImplemented:
            return lift(float(x))
        return Rx(r.num, r.den, False) if r.num is not None else r

    fromhex = float.fromhex


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, int) or (isinstance(x, Rx) and x.isint)

    def __eq__(cls, o):
        return o is cls or o is int

    def __hash__(cls):
        return hash(int)


class SInt(metaclass=_IntMeta):
    def __new__(cls, x=0, *a):
        if isinstance(x, (str, bytes)) or hasattr(x, 'eqcond'):
            from . import textio
            return textio.parse_int(x, *a)
        if isinstance(x, np.ndarray):
            if x.size != 1:
                raise TypeError('only size-1 arrays can be converted to Python scalars')
            x = np.asarray(x).reshape(-1)[0]
        if isinstance(x, Rx):
            return trunc(x)
        return int(x)


def trunc(x):
    if x.isint:
        return int(x.const()) if x.is_const() else x
    if x.num is None:
        raise ValueError('cannot convert float NaN to integer')
    if x.is_const():
        return int(x.const())
    # truncation towards zero of a symbolic real
    if bool(x >= 0):
        return core._divmod(x, const(1))[0]
    return -core._divmod(-x, const(1))[0]


def kind_of(dt):
    """'f', 'i', 'b', 'o', or None for a dtype specification"""
    if dt is None:
        return None
    if isinstance(dt, DKind):
        return dt.kind
    if dt is SFloat or dt is float:
        return 'f'
    if dt is SInt or dt is int:
        return 'i'
    if dt is bool or dt is np.bool_:
        return 'b'
    if dt is object or dt is str:
        return 'o'
    if isinstance(dt, str):
        if dt == 'float':
            return 'f'
        if dt == 'int':
            return 'i'
    k = np.dtype(dt).kind
    return {'f': 'f', 'i': 'i', 'u': 'i', 'b': 'b', 'O': 'o', 'U': 'o', 'S': 'o'}.get(k, 'o')


def elem(x, kind):
    """convert a scalar for storage in an array of the given kind"""
    if kind == 'f':
        t = type(x)
        if t is Rx:
            return Rx(x.num, x.den, False) if x.isint else x
        if isinstance(x, (str, bytes)):
            return SFloat(x)
        if isinstance(x, np.ndarray):
            if x.size == 1:
                return elem(np.asarray(x).reshape(-1)[0], kind)
            raise ValueError('setting an array element with a sequence.')
        if x is None:
            return core.NAN
        r = lift(x)
        if r is NotImplemented:
            raise TypeError('float() argument must be a string or a real number, not %r' % type(x).__name__)
        return Rx(r.num, r.den, False) if r.num is not None else r
    if kind == 'i':
        t = type(x)
        if t is int:
            return x
        if t is Rx:
            return trunc(x)
        if isinstance(x, (str, bytes)):
            return SInt(x)
        if isinstance(x, np.ndarray):
            if x.size == 1:
                return elem(np.asarray(x).reshape(-1)[0], kind)
            raise ValueError('setting an array element with a sequence.')
        if isinstance(x, (bool, np.bool_, Bx)):
            return int(bool(x))
        return int(x)
    if kind == 'b':
        return bool(x)
    return x


_NONE = object()


class SArr(np.ndarray, metaclass=_Meta):
    _k = None
    __array_priority__ = 2000

    def __array_finalize__(self, obj):
        if obj is None:
            return
        k = getattr(obj, '_k', None)
        if self.dtype == bool:
            k = 'b'
        elif k == 'b':
            k = None
        self._k = k

    # -- kind
    @property
    def kind(self):
        if np.ndarray.dtype.__get__(self) == bool:
            return 'b'
        if self._k in ('f', 'i', 'o'):
            return self._k
        return _infer(self)

    def __reduce__(self):
        return (_rebuild, (np.asarray(self).tolist(), self.shape, self.kind))

    def __deepcopy__(self, memo):
        return self.copy()

    def copy(self, order='C'):
        r = np.ndarray.copy(self)
        r._k = self._k
        return r

    __copy__ = copy

    # -- indexing
    def __getitem__(self, idx):
        idx = fix_index(idx)
        if isinstance(idx, _Select):
            return select(self, idx)
        r = np.ndarray.__getitem__(self, idx)
        if isinstance(r, np.ndarray):
            if isinstance(r, SArr):
                r._k = self._k
            return r
        return r

    def __setitem__(self, idx, val):
        idx = fix_index(idx)
        if isinstance(idx, _Select):
            raise Unsupported('assignment at a symbolic index')
        k = self.kind if self.size else (self._k or 'o')
        if k in ('f', 'i'):
            if isinstance(val, np.ndarray) and val.ndim:
                a = np.asarray(val)
                if a.dtype != object or _needs(a, k):
                    out = np.empty(a.shape, dtype=object)
                    src = a.reshape(-1)
                    dst = out.reshape(-1)
                    for i in range(src.size):
                        dst[i] = elem(src[i], k)
                    val = dst.reshape(a.shape)
                else:
                    val = a
            elif isinstance(val, (list, tuple)) or hasattr(val, '__next__') or isinstance(val, map):
                val = np.asarray(conv(val, k))
            else:
                val = elem(val, k)
                np.ndarray.__setitem__(self.view(np.ndarray), idx, val)
                return
        elif k == 'b':
            if isinstance(val, np.ndarray):
                val = np.asarray(val, dtype=bool)
        np.ndarray.__setitem__(self.view(np.ndarray), idx, val)

    def fill(self, v):
        self[...] = v

    def astype(self, dt, *a, **k):
        kd = kind_of(dt)
        if kd == 'b':
            return wrap(np.array([bool(x) for x in np.asarray(self).reshape(-1)], dtype=bool).reshape(self.shape))
        return conv(self, kd)

    @property
    def dtype(self):
        d = np.ndarray.dtype.__get__(self)
        if d == bool:
            return d
        return {'f': FLOAT64, 'i': INT64}.get(self._k or _infer(self), d)

    # -- reductions
    def min(self, axis=None, out=None, **kw):
        return _minmax(self, axis, 'min')

    def max(self, axis=None, out=None, **kw):
        return _minmax(self, axis, 'max')

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return asum(self, axis, keepdims)

    def mean(self, axis=None, dtype=None, out=None, **kw):
        return amean(self, axis)

    def dot(self, o, out=None):
        return shim.dot(self, o)

    def any(self, axis=None, out=None, **kw):
        return shim.any(self, axis=axis)

    def all(self, axis=None, out=None, **kw):
        return shim.all(self, axis=axis)

    def tolist(self):
        return _tolist(np.asarray(self).tolist())

    def argsort(self, axis=-1, kind=None, **kw):
        if self.ndim != 1:
            raise Unsupported('argsort of nd')
        idx = _sorted_idx(list(np.asarray(self)))
        return conv(idx, 'i')

    def sort(self, axis=-1, kind=None, **kw):
        if self.ndim == 1:
            l = list(np.asarray(self))
            idx = _sorted_idx(l)
            self[:] = conv([l[i] for i in idx], self.kind)
            return
        raise Unsupported('sort of nd')

    def round(self, n=0, out=None):
        return wrap(_map(lambda x: round(x, n) if n else round(x, 0), self), self.kind)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return do_ufunc(ufunc, method, inputs, kw)

    def __contains__(self, x):
        return any(bool(y == x) for y in np.asarray(self).reshape(-1))

    def __float__(self):
        raise TypeError('only length-1 arrays can be converted to Python scalars')

    def __int__(self):
        if self.size == 1:
            return int(np.asarray(self).reshape(-1)[0])
        raise TypeError('only length-1 arrays can be converted to Python scalars')

    def __index__(self):
        if self.ndim == 0:
            return int(np.asarray(self)[()])
        raise TypeError('only integer scalar arrays can be converted to a scalar index')

    def __format__(self, spec):
        if self.size == 1 and self.ndim == 0:
            return format(np.asarray(self)[()], spec)
        if spec:
            raise TypeError('unsupported format string passed to numpy.ndarray.__format__')
        return str(np.asarray(self))

    def tofile(self, f, *a):
        raise Unsupported('tofile')

    def tobytes(self, *a):
        raise Unsupported('tobytes')


FLOAT64 = DKind('f', 'float64')
INT64 = DKind('i', 'int64')


def _rebuild(lst, shape, kind):
    return conv(lst, kind).reshape(shape)


def _tolist(x):
    return x


def _infer(a):
    a = np.asarray(a)
    if np.ndarray.dtype.__get__(a) == bool:
        return 'b'
    k = None
    for x in a.reshape(-1):
        if isinstance(x, Rx):
            if not x.isint:
                return 'f'
            k = 'i'
        elif isinstance(x, (float, Fraction)):
            return 'f'
        elif isinstance(x, (bool, np.bool_)):
            k = k or 'b'
        elif isinstance(x, (int, np.integer)):
            k = 'i'
        else:
            return 'o'
    return k or 'f'


def _needs(a, k):
    for x in a.reshape(-1):
        t = type(x)
        if k == 'f':
            if not (t is Rx and not x.isint):
                return True
        elif not (t is int or (t is Rx and x.isint)):
            return True
    return False


class _Select(object):
    def __init__(self, idx, rest):
        self.idx, self.rest = idx, rest


def fix_index(idx):
    if isinstance(idx, tuple):
        return tuple(_fix1(x) for x in idx)
    return _fix1(idx)


def _fix1(x):
    t = type(x)
    if t is int or t is slice or x is None or x is Ellipsis:
        if t is slice:
            if any(isinstance(y, Rx) for y in (x.start, x.stop, x.step)):
                f = lambda y: int(y.__index__()) if isinstance(y, Rx) else y
                return slice(f(x.start), f(x.stop), f(x.step))
        return x
    if isinstance(x, Rx):
        if not x.isint:
            raise IndexError('only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or '
                             'boolean arrays are valid indices')
        return x.__index__()
    if isinstance(x, np.ndarray):
        a = x.view(np.ndarray)
        d = np.ndarray.dtype.__get__(a)
        if d == object:
            if a.size == 0:
                k = getattr(x, '_k', None)
                if k == 'f':
                    raise IndexError('arrays used as indices must be of integer (or boolean) type')
                return a.astype(np.intp)
            if all(type(y) is bool or type(y) is np.bool_ for y in a.reshape(-1)):
                return a.astype(bool)
            out = np.empty(a.shape, dtype=np.intp)
            o = out.reshape(-1)
            for i, y in enumerate(a.reshape(-1)):
                if isinstance(y, Rx) and not y.isint:
                    raise IndexError('arrays used as indices must be of integer (or boolean) type')
                o[i] = y.__index__()
            return out
        return a
    if isinstance(x, (list, tuple, range)):
        l = list(x)
        if not l:
            return np.zeros(0, dtype=np.intp)
        return _fix1(np.asarray(conv(l)).view(np.ndarray))
    if isinstance(x, Bx):
        return bool(x)
    return x


def _flat(x):
    return np.asarray(x).reshape(-1)


def wrap(a, kind=None):
    if isinstance(a, np.ndarray):
        if a.ndim == 0:
            return a[()]
        if a.dtype not in (np.dtype(object), np.dtype(bool)):
            if a.dtype.kind in 'fiu':
                return conv(a, 'f' if a.dtype.kind == 'f' else 'i')
            return a
        r = a.view(SArr)
        if np.ndarray.dtype.__get__(r) != bool:
            r._k = kind if kind else _infer(r)
        return r
    return a


def _map(f, a):
    a = np.asarray(a)
    out = np.empty(a.shape, dtype=object)
    s, d = a.reshape(-1), out.reshape(-1)
    for i in range(s.size):
        d[i] = f(s[i])
    return d.reshape(a.shape)


def conv(x, kind=None, ndmin=0):
    """array constructor"""
    if isinstance(x, np.ndarray):
        a = x.view(np.ndarray)
        if kind is None:
            if a.dtype == bool:
                return wrap(a.copy())
            kind = x.kind if isinstance(x, SArr) else {'f': 'f', 'i': 'i', 'u': 'i'}.get(a.dtype.kind) or _infer(a)
        if kind == 'b':
            return wrap(np.array([bool(y) for y in a.reshape(-1)], dtype=bool).reshape(a.shape))
        if a.dtype == object and not _needs(a, kind):
            out = a.copy()
        else:
            out = _map(lambda y: elem(y, kind), a)
    else:
        if isinstance(x, (map, zip, filter)) or hasattr(x, '__next__'):
            # numpy makes a 0-d object array out of an iterator
            out = np.empty((), dtype=object)
            out[()] = x
            if kind in ('f', 'i'):
                raise TypeError('float() argument must be a string or a real number, not %r' % type(x).__name__)
            return out
        if isinstance(x, (set, dict, type({}.keys()), type({}.values()))):
            out = np.empty((), dtype=object)
            out[()] = x
            return out
        if not isinstance(x, (list, tuple, range)):
            if isinstance(x, (bool, np.bool_)) and kind in (None, 'b'):
                return np.array(bool(x)).view(SArr)
            out = np.empty((), dtype=object)
            out[()] = elem(x, kind) if kind else x
            r = out.view(SArr)
            r._k = kind
            return r
        shape = _shape(x)
        flat = []
        _collect(x, len(shape), flat)
        if kind is None:
            if flat and all(isinstance(y, (bool, np.bool_, Bx)) for y in flat):
                kind = 'b'
            elif flat and any(isinstance(y, str) for y in flat):
                kind = 'o'
            else:
                t = np.empty(len(flat), dtype=object)
                for i, y in enumerate(flat):
                    t[i] = y
                kind = _infer(t)
        if kind == 'b':
            return wrap(np.array([bool(y) for y in flat], dtype=bool).reshape(shape))
        out = np.empty(len(flat), dtype=object)
        for i, y in enumerate(flat):
            out[i] = elem(y, kind)
        out = out.reshape(shape)
    r = out.view(SArr)
    r._k = kind
    if ndmin and r.ndim < ndmin:
        r = r.reshape((1,) * (ndmin - r.ndim) + r.shape)
    return r


def _shape(x):
    if isinstance(x, np.ndarray):
        return x.shape
    if isinstance(x, (list, tuple, range)):
        if len(x) == 0:
            return (0,)
        s = _shape(x[0])
        for y in x[1:]:
            if _shape(y) != s:
                raise ValueError('setting an array element with a sequence. The requested array has an inhomogeneous '
                                 'shape after 1 dimensions.')
        return (len(x),) + s
    return ()


def _collect(x, depth, out):
    if depth == 0:
        if isinstance(x, np.ndarray):
            x = x[()]
        out.append(x)
        return
    if isinstance(x, np.ndarray):
        out.extend(x.view(np.ndarray).reshape(-1).tolist() if x.dtype != object else list(_flat(x)))
        return
    for y in x:
        _collect(y, depth - 1, out)


def select(a, s):
    raise Unsupported('symbolic selection')


def _sorted_idx(l):
    import functools

    def cmp(i, j):
        if bool(l[i] < l[j]):
            return -1
        if bool(l[j] < l[i]):
            return 1
        return 0
    # insertion sort: few comparisons for nearly sorted data, stable
    idx = []
    for i in range(len(l)):
        j = len(idx)
        while j > 0 and bool(lift(l[i]) < lift(l[idx[j - 1]])):
            j -= 1
        idx.insert(j, i)
    return idx


def _minmax(a, axis, which):
    x = np.asarray(a)
    if x.size == 0:
        raise ValueError('zero-size array to reduction operation %s which has no identity' %
                         ('minimum' if which == 'min' else 'maximum'))
    if axis is None:
        return _back(core.ite_minmax(list(x.reshape(-1)), which), getattr(a, 'kind', None))
    out = np.apply_along_axis(lambda v: [core.ite_minmax(list(v), which)], axis, x) if False else None
    x = np.moveaxis(x, axis, -1)
    shp = x.shape[:-1]
    res = np.empty(shp, dtype=object)
    r = res.reshape(-1)
    xx = x.reshape(-1, x.shape[-1])
    for i in range(xx.shape[0]):
        r[i] = _back(core.ite_minmax(list(xx[i]), which), getattr(a, 'kind', None))
    return wrap(r.reshape(shp))


def _back(x, kind):
    if kind == 'i' and isinstance(x, Rx) and x.is_const():
        return int(x.const())
    return x


def asum(a, axis=None, keepdims=False):
    x = np.asarray(a)
    if x.dtype == bool:
        return wrap(np.sum(x, axis=axis, keepdims=keepdims)) if axis is not None else int(np.sum(x))
    k = a.kind if isinstance(a, SArr) else _infer(x)
    if x.size == 0:
        shp = np.zeros(x.shape).sum(axis=axis, keepdims=keepdims)
        if np.ndim(shp) == 0:
            return const(0) if k != 'i' else 0
        return conv(np.zeros(shp.shape), k)
    r = np.add.reduce(x, axis=axis, keepdims=keepdims) if axis is not None else np.add.reduce(x.reshape(-1))
    return wrap(r, k) if isinstance(r, np.ndarray) else r


def amean(a, axis=None):
    x = np.asarray(a)
    n = x.size if axis is None else x.shape[axis]
    s = asum(conv(x, 'f'), axis)
    if n == 0:
        return core.NAN
    return s / const(n)


# ---------------------------------------------------------------------------------------------------------------------
_UN = {'sqrt': core.rsqrt, 'fabs': core.rabs, 'absolute': core.rabs,
       'cos': lambda x: core.trig(x)[0], 'sin': lambda x: core.trig(x)[1],
       'tan': lambda x: core.trig(x)[1] / core.trig(x)[0],
       'arccos': core.racos, 'arcsin': core.rasin, 'arctan': lambda x: core.ratan2(x, 1),
       'radians': lambda x: lift(x).radians(), 'deg2rad': lambda x: lift(x).radians(),
       'degrees': lambda x: lift(x).degrees(), 'rad2deg': lambda x: lift(x).degrees(),
       'square': lambda x: x * x, 'reciprocal': lambda x: const(1) / lift(x), 'conjugate': lambda x: x,
       'positive': lambda x: x,
       'sign': lambda x: (1 if bool(x > 0) else (-1 if bool(x < 0) else 0)) if isinstance(x, int) or lift(x).isint
       else const(1 if bool(x > 0) else (-1 if bool(x < 0) else 0)),
       'floor': lambda x: core.rx_int(core._divmod(x, const(1))[0]) if False else _ffloor(x),
       'ceil': lambda x: -_ffloor(-lift(x)),
       'rint': lambda x: round(lift(x), 0)}
_UNB = {'isnan': lambda x: isinstance(x, Rx) and x.isnan(),
        'isfinite': lambda x: not (isinstance(x, Rx) and x.num is None), 'isinf': lambda x: isinstance(x, Rx) and core.isinf(x)}
_BIN = {'arctan2': core.ratan2, 'hypot': lambda a, b: core.rsqrt(lift(a) * a + lift(b) * b),
        'minimum': lambda a, b: core.ite_minmax([a, b], 'min'), 'maximum': lambda a, b: core.ite_minmax([a, b], 'max'),
        'fmin': lambda a, b: core.ite_minmax([a, b], 'min'), 'fmax': lambda a, b: core.ite_minmax([a, b], 'max'),
        'copysign': core.copysign,
        'divide': lambda a, b: lift(a) / lift(b), 'true_divide': lambda a, b: lift(a) / lift(b),
        'power': lambda a, b: lift(a) ** b if isinstance(a, Rx) or isinstance(b, Rx) else a ** b,
        'float_power': lambda a, b: lift(a) ** b,
        'floor_divide': lambda a, b: a // b, 'remainder': lambda a, b: a % b, 'mod': lambda a, b: a % b}
_CMP = {'less': lambda a, b: a < b, 'less_equal': lambda a, b: a <= b, 'greater': lambda a, b: a > b,
        'greater_equal': lambda a, b: a >= b, 'equal': lambda a, b: a == b, 'not_equal': lambda a, b: a != b}


def _ffloor(x):
    q = core._divmod(lift(x), const(1))[0]
    return Rx(q.num, q.den, False)


def _unsarr(x):
    if isinstance(x, SArr):
        return x.view(np.ndarray)
    return x


def _obj(x):
    """object ndarray view of an operand"""
    if isinstance(x, np.ndarray):
        a = x.view(np.ndarray)
        if a.dtype == bool or a.dtype == object:
            return a
        return np.asarray(conv(a)).view(np.ndarray)
    if isinstance(x, (list, tuple)):
        return np.asarray(conv(x)).view(np.ndarray)
    if isinstance(x, (float, np.floating)):
        o = np.empty((), dtype=object)
        o[()] = lift(x)
        return o
    o = np.empty((), dtype=object)
    o[()] = int(x) if isinstance(x, np.integer) else x
    return o


def _ufunc_where(ufunc, ins, out, where):
    m = _obj(where)
    if m.dtype != bool:
        m = np.array([bool(y) for y in m.reshape(-1)], dtype=bool).reshape(m.shape)
    ins = np.broadcast_arrays(*(ins + [m]))
    m = ins.pop() if isinstance(ins, list) else ins[-1]
    ins = ins if isinstance(ins, list) else list(ins[:-1])
    if out is None:
        raise Unsupported('ufunc where= without out=')
    for i in np.ndindex(*m.shape):
        if m[i]:
            out[i] = do_ufunc(ufunc, '__call__', [x[i] for x in ins], {})
    return out


def do_ufunc(ufunc, method, inputs, kw):
    name = ufunc.__name__
    out = kw.pop('out', None)
    if method == '__call__':
        ins = [_obj(x) for x in inputs]
        wherekw = kw.get('where', True)
        if wherekw is not True and wherekw is not None:
            o = out[0] if isinstance(out, tuple) else out
            return _ufunc_where(ufunc, ins, o, wherekw)
        if name in ('logical_and', 'logical_or', 'logical_not', 'logical_xor', 'bitwise_and', 'bitwise_or', 'invert',
                    'bitwise_xor') and all(x.dtype == bool or (x.dtype == object and name.startswith('logical'))
                                           for x in ins):
            ins = [x if x.dtype == bool else np.array([bool(y) for y in x.reshape(-1)], dtype=bool).reshape(x.shape)
                   for x in ins]
            r = ufunc(*ins)
        elif all(x.dtype == bool for x in ins):
            if name in ('subtract', 'divide', 'true_divide'):
                ins = [_map(int, x) for x in ins]
                r = ufunc(*ins)
            else:
                r = ufunc(*ins)
        elif name in _CMP:
            f = np.frompyfunc(_CMP[name], 2, 1)
            r = f(*ins)
            r = np.asarray(r, dtype=object)
            r = np.array([bool(y) for y in r.reshape(-1)], dtype=bool).reshape(r.shape)
        elif name in _UN:
            r = np.frompyfunc(_UN[name], 1, 1)(*ins)
        elif name in _UNB:
            r = np.array([_UNB[name](y) for y in ins[0].reshape(-1)], dtype=bool).reshape(ins[0].shape)
        elif name in _BIN:
            r = np.frompyfunc(_BIN[name], 2, 1)(*ins)
        elif name in ('add', 'subtract', 'multiply', 'negative', 'matmul'):
            if name != 'matmul':
                ins = [_map(int, x) if x.dtype == bool else x for x in ins]
            with np.errstate(all='ignore'):
                r = ufunc(*ins)
        else:
            try:
                r = ufunc(*ins)
            except TypeError as e:
                raise Unsupported('ufunc %s: %s' % (name, e))
        if out is not None:
            o = out[0] if isinstance(out, tuple) else out
            if isinstance(o, SArr):
                o[...] = r
            else:
                np.ndarray.__setitem__(o, Ellipsis, r)
            return o
        if isinstance(r, np.ndarray):
            return wrap(r)
        return r
    if method == 'reduce':
        a = inputs[0]
        axis = kw.get('axis', 0)
        keep = kw.get('keepdims', False)
        if name == 'add':
            return asum(wrap(_obj(a)), axis, keep)
        if name in ('minimum', 'maximum'):
            return _minmax(wrap(_obj(a)), axis, name[:3])
        if name in ('logical_and', 'logical_or'):
            x = _obj(a)
            if x.dtype != bool:
                x = np.array([bool(y) for y in x.reshape(-1)], dtype=bool).reshape(x.shape)
            return wrap(ufunc.reduce(x, axis=axis, keepdims=keep))
        r = ufunc.reduce(_obj(a), axis=axis, keepdims=keep)
        return wrap(r) if isinstance(r, np.ndarray) else r
    if method == 'outer':
        r = np.multiply.outer(*[_obj(x) for x in inputs]) if name == 'multiply' else \
            getattr(ufunc, method)(*[_obj(x) for x in inputs])
        return wrap(r)
    if method == 'at':
        a, idx = inputs[0], fix_index(inputs[1])
        getattr(ufunc, 'at')(a.view(np.ndarray), idx, *[_obj(x) for x in inputs[2:]])
        return None
    if method == 'accumulate':
        return wrap(ufunc.accumulate(_obj(inputs[0]), **kw))
    raise Unsupported('ufunc method %s.%s' % (name, method))


def _generic(fn, name):
    def call(*a, **k):
        a = [_prep(x) for x in a]
        k = {n: _prep(v) for n, v in k.items()}
        try:
            r = fn(*a, **k)
        except TypeError as e:
            if 'object' in str(e) or 'ufunc' in str(e):
                raise Unsupported('numpy.%s on symbolic data: %s' % (name, e))
            raise
        return _post(r)
    call.__name__ = name
    return call


def _prep(x):
    if isinstance(x, SArr):
        return x.view(np.ndarray)
    if isinstance(x, (list, tuple)) and any(isinstance(y, (np.ndarray, Rx, float, list, tuple)) for y in x):
        t = type(x)
        if all(isinstance(y, (np.ndarray, list, tuple)) for y in x):
            return t([_prep(y) if isinstance(y, np.ndarray) else _prep2(y) for y in x])
        return _prep2(x)
    if isinstance(x, DKind):
        return object
    if x is SFloat or x is SInt:
        return object
    return x


def _prep2(x):
    """list data -> object array when it holds symbolic or float data"""
    try:
        c = conv(x)
    except Exception:
        return x
    return c.view(np.ndarray)


def _post(r):
    if isinstance(r, np.ndarray):
        return wrap(r)
    if isinstance(r, (list, tuple)) and type(r) in (list, tuple):
        return type(r)(_post(x) for x in r)
    if isinstance(r, np.floating):
        return lift(r)
    if isinstance(r, np.integer):
        return int(r)
    return r


class Shim(types.ModuleType):
    """module object standing for numpy"""
    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        v = getattr(np, name)            # AttributeError like the real one
        if isinstance(v, np.ufunc):
            def call(*a, **k):
                return do_ufunc(v, '__call__', a, k)
            call.__name__ = name
            call.reduce = lambda *a, **k: do_ufunc(v, 'reduce', a, k)
            call.outer = lambda *a, **k: do_ufunc(v, 'outer', a, k)
            call.at = lambda *a, **k: do_ufunc(v, 'at', a, k)
            call.accumulate = lambda *a, **k: do_ufunc(v, 'accumulate', a, k)
            return call
        if isinstance(v, float):
            if name in ('nan', 'NaN', 'NAN'):
                return core.NAN
            if name == 'pi':
                return core.pi()
            if name in ('inf', 'Inf'):
                return v
            return lift(v)
        if isinstance(v, type) or isinstance(v, types.ModuleType):
            return v
        if callable(v):
            return _generic(v, name)
        return v


shim = Shim('numpy')


def _reg(name=None):
    def deco(f):
        setattr(shim, name or f.__name__, f)
        return f
    return deco


shim.ndarray = SArr
shim.float64 = shim.float32 = shim.float_ = shim.double = FLOAT64
shim.int64 = shim.int32 = shim.int_ = shim.intp = shim.uint32 = shim.uint64 = INT64
shim.bool_ = bool
shim.newaxis = None


@_reg()
def dtype(x, *a):
    k = kind_of(x)
    return {'f': FLOAT64, 'i': INT64}.get(k) or np.dtype(bool if k == 'b' else object)


@_reg()
def array(x, dtype=None, copy=True, order=None, subok=False, ndmin=0):
    r = conv(x, kind_of(dtype), ndmin)
    return r


@_reg()
def asarray(x, dtype=None, order=None, **kw):
    k = kind_of(dtype)
    if isinstance(x, SArr) and (k is None or x.kind == k):
        return x if type(x) is SArr else x.view(SArr)
    return conv(x, k)


@_reg()
def asanyarray(x, dtype=None, **kw):
    if isinstance(x, SArr) and dtype is None:
        return x
    return asarray(x, dtype)


@_reg()
def ascontiguousarray(x, dtype=None):
    return asarray(x, dtype)


def _shp(s):
    if isinstance(s, (tuple, list)):
        return tuple(int(lift(y).__index__()) if isinstance(y, Rx) else int(y) for y in s)
    if isinstance(s, Rx):
        return s.__index__()
    return s


def _full(shape, v, kind):
    if kind == 'b':
        return np.full(_shp(shape), bool(v)).view(SArr)
    a = np.empty(_shp(shape), dtype=object)
    a.fill(elem(v, kind))
    r = a.view(SArr)
    r._k = kind
    return r


@_reg()
def zeros(shape, dtype=None, order=None):
    return _full(shape, 0, kind_of(dtype) or 'f')


@_reg()
def ones(shape, dtype=None, order=None):
    return _full(shape, 1, kind_of(dtype) or 'f')


@_reg()
def empty(shape, dtype=None, order=None):
    return _full(shape, 0, kind_of(dtype) or 'f')


@_reg()
def full(shape, v, dtype=None):
    k = kind_of(dtype)
    if k is None:
        k = _infer(_obj(v))
    return _full(shape, v, k)


def _like(a):
    if isinstance(a, np.ndarray):
        return a.shape, (a.kind if isinstance(a, SArr) else conv(a).kind)
    c = conv(a)
    return c.shape, c.kind


@_reg()
def zeros_like(a, dtype=None, **kw):
    s, k = _like(a)
    return _full(s, 0, kind_of(dtype) or k)


@_reg()
def ones_like(a, dtype=None, **kw):
    s, k = _like(a)
    return _full(s, 1, kind_of(dtype) or k)


@_reg()
def empty_like(a, dtype=None, **kw):
    s, k = _like(a)
    return _full(s, 0, kind_of(dtype) or k)


@_reg()
def full_like(a, v, dtype=None, **kw):
    s, k = _like(a)
    return _full(s, v, kind_of(dtype) or k)


@_reg()
def copy(a, **kw):
    return conv(a)


@_reg()
def eye(n, m=None, k=0, dtype=None):
    return conv(np.eye(_shp(n), m, k), kind_of(dtype) or 'f')


@_reg()
def identity(n, dtype=None):
    return eye(n, dtype=dtype)


@_reg()
def arange(*a, **k):
    k.pop('dtype', None)
    a = [x.__index__() if isinstance(x, Rx) and x.isint else x for x in a]
    if any(isinstance(x, (Rx, float)) for x in a):
        raise Unsupported('arange of reals')
    return conv(np.arange(*a), 'i')


@_reg()
def linspace(a, b, n=50, endpoint=True, **kw):
    a, b = lift(a), lift(b)
    d = (n - 1) if endpoint else n
    return conv([a + (b - a) * const(Fraction(i, d)) for i in range(n)], 'f')


def _f(x):
    """operand as plain object ndarray, floats exact"""
    return _obj(x)


@_reg()
def dot(a, b, out=None):
    a, b = _obj(a), _obj(b)
    if a.dtype == bool:
        a = _map(int, a)
    if b.dtype == bool:
        b = _map(int, b)
    if a.size == 0 or b.size == 0:
        r = np.dot(np.zeros(a.shape), np.zeros(b.shape))
        return conv(r, 'f') if np.ndim(r) else const(0)
    r = np.dot(a, b)
    return wrap(r) if isinstance(r, np.ndarray) else r


@_reg()
def matmul(a, b):
    r = np.matmul(_obj(a), _obj(b))
    return wrap(r) if isinstance(r, np.ndarray) else r


@_reg()
def inner(a, b):
    r = np.inner(_obj(a), _obj(b))
    return wrap(r) if isinstance(r, np.ndarray) else r


@_reg()
def vdot(a, b):
    return dot(_obj(a).reshape(-1), _obj(b).reshape(-1))


@_reg()
def outer(a, b):
    return wrap(np.multiply.outer(_obj(a).reshape(-1), _obj(b).reshape(-1)))


@_reg()
def cross(a, b, axisa=-1, axisb=-1, axisc=-1, axis=None):
    a, b = _obj(a), _obj(b)
    if axis is not None:
        axisa = axisb = axisc = axis
    a = np.moveaxis(a, axisa, -1)
    b = np.moveaxis(b, axisb, -1)
    if a.shape[-1] != 3 or b.shape[-1] != 3:
        if a.shape[-1] == 2 and b.shape[-1] == 2:
            return wrap(a[..., 0] * b[..., 1] - a[..., 1] * b[..., 0])
        raise ValueError('incompatible dimensions for cross product\n(dimension must be 2 or 3)')
    a, b = np.broadcast_arrays(a, b)
    out = np.empty(a.shape, dtype=object)
    out[..., 0] = a[..., 1] * b[..., 2] - a[..., 2] * b[..., 1]
    out[..., 1] = a[..., 2] * b[..., 0] - a[..., 0] * b[..., 2]
    out[..., 2] = a[..., 0] * b[..., 1] - a[..., 1] * b[..., 0]
    out = np.moveaxis(out, -1, axisc)
    return wrap(out, 'f' if a.size == 0 else None)


@_reg()
def sum(a, axis=None, dtype=None, out=None, keepdims=False, **kw):
    return asum(a if isinstance(a, np.ndarray) else conv(a), axis, keepdims)


@_reg()
def mean(a, axis=None, **kw):
    return amean(a if isinstance(a, np.ndarray) else conv(a), axis)


@_reg()
def average(a, axis=None, weights=None, **kw):
    a = conv(a, 'f')
    if weights is None:
        return amean(a, axis)
    w = conv(weights, 'f')
    if a.ndim == w.ndim or axis is None:
        return asum(wrap(_obj(a * w)), axis) / asum(w, axis)
    wv = np.moveaxis(np.asarray(w).reshape((1,) * (a.ndim - 1) + w.shape), -1, axis)
    return asum(wrap(_obj(a) * wv), axis) / asum(w)


@_reg('min')
def _min(a, axis=None, **kw):
    return _minmax(a if isinstance(a, np.ndarray) else conv(a), axis, 'min')


@_reg('max')
def _max(a, axis=None, **kw):
    return _minmax(a if isinstance(a, np.ndarray) else conv(a), axis, 'max')


shim.amin, shim.amax = _min, _max


@_reg()
def ptp(a, axis=None):
    return _max(a, axis) - _min(a, axis)


@_reg('any')
def _any(a, axis=None, **kw):
    x = _obj(a)
    if x.dtype != bool:
        if axis is None:
            for y in x.reshape(-1):
                if bool(y):
                    return True
            return False
        x = np.array([bool(y) for y in x.reshape(-1)], dtype=bool).reshape(x.shape)
    r = np.any(x, axis=axis)
    return wrap(r) if isinstance(r, np.ndarray) else bool(r)


@_reg('all')
def _all(a, axis=None, **kw):
    x = _obj(a)
    if x.dtype != bool:
        if axis is None:
            for y in x.reshape(-1):
                if not bool(y):
                    return False
            return True
        x = np.array([bool(y) for y in x.reshape(-1)], dtype=bool).reshape(x.shape)
    r = np.all(x, axis=axis)
    return wrap(r) if isinstance(r, np.ndarray) else bool(r)


@_reg()
def isclose(a, b, rtol=None, atol=None, equal_nan=False):
    rtol = const(Fraction(1, 10 ** 5)) if rtol is None else rtol
    atol = const(Fraction(1, 10 ** 8)) if atol is None else atol

    def f(x, y):
        x, y = lift(x), lift(y)
        if x.num is None or y.num is None:
            return False
        d = x - y
        tol = lift(atol) + lift(rtol) * core.rabs(y)
        return core.band(d <= tol, -d <= tol)
    A, B = _obj(a), _obj(b)
    if A.ndim == 0 and B.ndim == 0:
        return f(A[()], B[()])
    r = np.asarray(np.frompyfunc(f, 2, 1)(A, B), dtype=object)
    return wrap(np.array([bool(y) for y in r.reshape(-1)], dtype=bool).reshape(r.shape))


@_reg()
def allclose(a, b, rtol=None, atol=None, equal_nan=False):
    r = isclose(a, b, rtol, atol)
    return bool(r) if not isinstance(r, np.ndarray) else _all(r)


@_reg()
def array_equal(a, b, **kw):
    A, B = _obj(a), _obj(b)
    if A.shape != B.shape:
        return False
    for x, y in zip(A.reshape(-1), B.reshape(-1)):
        if not bool(x == y):
            return False
    return True


@_reg()
def where(c, *a):
    if a:
        C = _obj(c)
        X, Y = _obj(a[0]), _obj(a[1])
        C, X, Y = np.broadcast_arrays(C, X, Y)
        out = np.empty(C.shape, dtype=object)
        o = out.reshape(-1)
        for i, (cc, x, y) in enumerate(zip(C.reshape(-1), X.reshape(-1), Y.reshape(-1))):
            o[i] = x if bool(cc) else y
        return wrap(o.reshape(C.shape))
    return nonzero(c)


@_reg()
def nonzero(c):
    x = _obj(c)
    if x.dtype != bool:
        x = np.array([bool(y) for y in x.reshape(-1)], dtype=bool).reshape(x.shape)
    return tuple(conv(i, 'i') for i in np.nonzero(x))


@_reg()
def flatnonzero(c):
    return nonzero(_obj(c).reshape(-1))[0]


@_reg()
def argwhere(c):
    return conv(np.argwhere(_obj(c).astype(bool)), 'i')


@_reg()
def count_nonzero(c, axis=None):
    x = _obj(c)
    if x.dtype != bool:
        x = np.array([bool(y) for y in x.reshape(-1)], dtype=bool).reshape(x.shape)
    r = np.count_nonzero(x, axis=axis)
    return conv(r, 'i') if isinstance(r, np.ndarray) else int(r)


def _cat(fn):
    def call(seq, axis=None, **kw):
        arrs = [x if isinstance(x, np.ndarray) else conv(x) for x in seq]
        kinds = [x.kind if isinstance(x, SArr) else conv(x).kind for x in arrs]
        objs = [_obj(x) for x in arrs]
        if all(k == 'b' for k in kinds):
            r = fn(objs, axis=axis) if axis is not None else fn(objs)
            return wrap(r)
        k = 'f' if 'f' in kinds else ('i' if 'i' in kinds else kinds[0])
        # numpy: an empty float list concatenated with ints gives floats; keep kind of data
        r = fn([o.astype(object) for o in objs], axis=axis) if axis is not None else fn([o.astype(object)
                                                                                        for o in objs])
        return conv(wrap(r, k), k) if k in 'fi' else wrap(r)
    return call


@_reg()
def concatenate(seq, axis=0, **kw):
    if axis is None:
        return _cat(np.concatenate)([_obj(x).reshape(-1) for x in seq], axis=0)
    return _cat(np.concatenate)(seq, axis=axis)


shim.concat = concatenate
shim.vstack = shim.row_stack = _cat(np.vstack)
shim.hstack = _cat(np.hstack)
shim.column_stack = _cat(np.column_stack)
shim.dstack = _cat(np.dstack)


class _RC(object):
    def __init__(self, columns):
        self.columns = columns

    def __getitem__(self, key):
        key = key if isinstance(key, tuple) else (key,)
        arrs = []
        for x in key:
            if isinstance(x, slice):
                if isinstance(x.step, complex):
                    raise Unsupported('np.r_ with a complex step')
                x = arange(x.start or 0, x.stop, x.step or 1)
            elif isinstance(x, str):
                raise Unsupported('np.r_ with a string')
            x = conv(x)
            arrs.append(x.reshape(1) if x.ndim == 0 else x)
        if self.columns:
            return _cat(np.column_stack)(arrs)
        return concatenate(arrs)


shim.r_, shim.c_ = _RC(False), _RC(True)


@_reg()
def take_along_axis(a, indices, axis):
    i = _obj(indices)
    return wrap(np.take_along_axis(_obj(conv(a)), i.astype(int), axis=axis), conv(a).kind)


@_reg()
def isscalar(x):
    return isinstance(x, (Rx, int, float, str, bool, np.generic))


@_reg()
def issubdtype(a, b):
    k = kind_of(a)
    name = getattr(b, '__name__', str(b))
    if name in ('floating', 'inexact', 'float64', 'float'):
        return k == 'f'
    if name in ('integer', 'signedinteger', 'int64', 'int'):
        return k == 'i'
    if name == 'number':
        return k in 'fi'
    return kind_of(b) == k


@_reg()
def interp(x, xp, fp, left=None, right=None, period=None):
    if period is not None:
        raise Unsupported('interp with a period')
    xp, fp = [lift(y) for y in _obj(xp).reshape(-1)], [lift(y) for y in _obj(fp).reshape(-1)]

    def one(t):
        t = lift(t)
        if bool(t < xp[0]):
            return fp[0] if left is None else lift(left)
        if bool(t > xp[-1]):
            return fp[-1] if right is None else lift(right)
        for i in range(len(xp) - 1):
            if bool(t <= xp[i + 1]):
                return fp[i] + (fp[i + 1] - fp[i]) * (t - xp[i]) / (xp[i + 1] - xp[i])
        return fp[-1]
    a = _obj(x)
    if a.ndim == 0:
        return one(a[()])
    return conv([one(t) for t in a.reshape(-1)], 'f').reshape(a.shape)


class _Finfo(object):
    def __init__(self, real):
        for n in ('eps', 'max', 'min', 'tiny', 'resolution', 'smallest_normal', 'epsneg'):
            setattr(self, n, lift(float(getattr(real, n))))


@_reg()
def finfo(t=float):
    return _Finfo(np.finfo(float))


@_reg()
def stack(seq, axis=0, **kw):
    return _cat(np.stack)(seq, axis=axis)


@_reg()
def append(arr, values, axis=None):
    if axis is None:
        return concatenate([conv(arr).reshape(-1), conv(values).reshape(-1)])
    return concatenate([arr, values], axis=axis)


def _keepkind(name):
    fn = getattr(np, name)

    def call(a, *args, **kw):
        a = a if isinstance(a, np.ndarray) else conv(a)
        k = a.kind if isinstance(a, SArr) else None
        args = [_pl(x) for x in args]
        kw = {n: _pl(v) for n, v in kw.items()}
        r = fn(a.view(np.ndarray), *args, **kw)
        if isinstance(r, np.ndarray):
            return wrap(r, k) if r.dtype != bool else wrap(r)
        if isinstance(r, (list, tuple)):
            return type(r)(wrap(x, k) if x.dtype != bool else wrap(x) for x in r)
        return r
    call.__name__ = name
    return call


def _pl(x):
    if isinstance(x, SArr) and x.kind == 'i':
        return np.array([y.__index__() if isinstance(y, Rx) else int(y) for y in x.view(np.ndarray).reshape(-1)],
                        dtype=int).reshape(x.shape)
    if isinstance(x, np.ndarray) and x.dtype == object:
        return _fix1(x)
    if isinstance(x, Rx):
        return x.__index__()
    return x


for _n in ('roll', 'transpose', 'reshape', 'ravel', 'fliplr', 'flipud', 'flip', 'rollaxis', 'moveaxis', 'swapaxes',
           'squeeze', 'atleast_1d', 'atleast_2d', 'repeat', 'tile', 'diag', 'take', 'delete', 'expand_dims',
           'broadcast_to', 'split', 'array_split', 'rot90', 'triu', 'tril', 'diagonal', 'compress'):
    setattr(shim, _n, _keepkind(_n))


@_reg()
def insert(arr, idx, values, axis=None):
    a = conv(arr)
    v = _obj(conv(values, a.kind))
    return wrap(np.insert(a.view(np.ndarray), _pl(idx), v, axis=axis), a.kind)


@_reg()
def trace(a, **kw):
    x = _obj(a)
    r = x[0, 0]
    for i in range(1, min(x.shape)):
        r = r + x[i, i]
    return r


@_reg()
def einsum(spec, *ops, **kw):
    arrs = [_obj(x) for x in ops]
    if any(a.size == 0 for a in arrs):
        r = np.einsum(spec, *[np.zeros(a.shape) for a in arrs])
        return conv(r, 'f')
    r = np.einsum(spec, *arrs)
    return wrap(r) if isinstance(r, np.ndarray) else r


@_reg()
def cumsum(a, axis=None, **kw):
    x = _obj(a)
    if axis is None:
        x = x.reshape(-1)
        axis = 0
    if x.dtype == bool:
        x = _map(int, x)
    return wrap(np.add.accumulate(x, axis=axis))


@_reg()
def prod(a, axis=None, **kw):
    x = _obj(a)
    if axis is None:
        r = const(1)
        for y in x.reshape(-1):
            r = r * y
        return _back(r, 'i' if _infer(x) == 'i' else None)
    return wrap(np.multiply.reduce(x, axis=axis))


@_reg()
def diff(a, n=1, axis=-1, **kw):
    x = _obj(a)
    return wrap(np.diff(x, n=n, axis=axis))


@_reg()
def clip(a, lo, hi, **kw):
    def f(x):
        if lo is not None:
            x = core.ite_minmax([x, lo], 'max')
        if hi is not None:
            x = core.ite_minmax([x, hi], 'min')
        return x
    if isinstance(a, np.ndarray):
        return wrap(_map(f, a))
    return f(lift(a))


@_reg()
def argsort(a, axis=-1, **kw):
    return conv(a).argsort()


@_reg()
def sort(a, axis=-1, **kw):
    x = conv(a)
    if x.ndim == 1:
        x.sort()
        return x
    if x.ndim == 2 and axis in (1, -1):
        out = conv(x)
        for i in range(out.shape[0]):
            l = list(np.asarray(x)[i])
            out[i] = [l[j] for j in _sorted_idx(l)]
        return out
    raise Unsupported('sort')


@_reg()
def lexsort(keys, axis=-1):
    ks = [list(_obj(k)) for k in keys]
    n = len(ks[0])

    def less(i, j):
        for k in reversed(ks):
            if bool(k[i] < k[j]):
                return True
            if bool(k[j] < k[i]):
                return False
        return False
    idx = []
    for i in range(n):
        j = len(idx)
        while j > 0 and less(i, idx[j - 1]):
            j -= 1
        idx.insert(j, i)
    return conv(idx, 'i')


def _arg(which):
    def call(a, axis=None, **kw):
        x = _obj(a)
        if axis is not None and x.ndim > 1:
            x = np.moveaxis(x, axis, -1)
            return conv([call(r) for r in x.reshape(-1, x.shape[-1])], 'i').reshape(x.shape[:-1])
        x = x.reshape(-1)
        b = 0
        for i in range(1, x.size):
            if which == 'min':
                if bool(x[i] < x[b]):
                    b = i
            elif bool(x[i] > x[b]):
                b = i
        return b
    return call


shim.argmin, shim.argmax = _arg('min'), _arg('max')
SArr.argmin = lambda self, axis=None, **k: shim.argmin(self, axis)
SArr.argmax = lambda self, axis=None, **k: shim.argmax(self, axis)
SArr.nonzero = lambda self: nonzero(self)
SArr.cumsum = lambda self, axis=None, **k: cumsum(self, axis)
SArr.prod = lambda self, axis=None, **k: prod(self, axis)
SArr.clip = lambda self, lo=None, hi=None, **k: clip(self, lo, hi)
SArr.trace = lambda self, **k: trace(self)


@_reg()
def unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None, **kw):
    x = conv(a)
    if axis is not None:
        rows = [list(r) for r in np.asarray(x)]
        if axis != 0:
            raise Unsupported('unique axis')
        idx = []

        def less(p, q):
            for u, v in zip(rows[p], rows[q]):
                if bool(u < v):
                    return True
                if bool(v < u):
                    return False
            return False
        order = []
        for i in range(len(rows)):
            j = len(order)
            while j > 0 and less(i, order[j - 1]):
                j -= 1
            order.insert(j, i)

        def same(p, q):
            return all(bool(u == v) for u, v in zip(rows[p], rows[q]))
    else:
        l = list(np.asarray(x).reshape(-1))
        order = _sorted_idx(l)
        same = lambda p, q: bool(l[p] == l[q])
    first, inv, cnt = [], [0] * len(order), []
    for i in order:
        if first and same(first[-1], i):
            cnt[-1] += 1
        else:
            first.append(i)
            cnt.append(1)
        inv[i] = len(first) - 1
    vals = conv([x.reshape(-1)[i] for i in first] if axis is None else [rows[i] for i in first], x.kind)
    out = [vals]
    if return_index:
        out.append(conv(first, 'i'))
    if return_inverse:
        out.append(conv(inv, 'i'))
    if return_counts:
        out.append(conv(cnt, 'i'))
    return out[0] if len(out) == 1 else tuple(out)


@_reg()
def isin(a, b, **kw):
    bl = list(_obj(b).reshape(-1)) if isinstance(b, np.ndarray) else list(b)
    x = _obj(a)
    return wrap(np.array([any(bool(u == v) for v in bl) for u in x.reshape(-1)], dtype=bool).reshape(x.shape))


shim.in1d = isin


@_reg()
def bincount(a, minlength=0, weights=None):
    l = [int(y) for y in _obj(a).reshape(-1)]
    n = max(l + [-1]) + 1
    out = [0] * max(n, minlength)
    for i, y in enumerate(l):
        out[y] = out[y] + (1 if weights is None else weights[i])
    return conv(out)


@_reg()
def meshgrid(*a, **k):
    return [wrap(x) for x in np.meshgrid(*[_obj(y) for y in a], **k)]


@_reg()
def ndim(a):
    return _obj(a).ndim


@_reg()
def shape(a):
    return _obj(a).shape if isinstance(a, np.ndarray) else _shape(a)


@_reg()
def size(a, axis=None):
    return _obj(a).size if axis is None else _obj(a).shape[axis]


@_reg()
def round(a, decimals=0, **kw):
    import builtins
    if isinstance(a, np.ndarray):
        return wrap(_map(lambda y: builtins.round(lift(y), decimals), a))
    return builtins.round(lift(a), decimals)


shim.around = round


@_reg()
def fromiter(it, dtype=None, count=-1):
    return conv(list(it), kind_of(dtype))


@_reg()
def fromstring(s, dtype=None, sep='', count=-1):
    return conv(s.split(sep if sep.strip() else None), kind_of(dtype) or 'f')


@_reg()
def apply_along_axis(f, axis, a, *args, **kw):
    x = conv(a)
    y = np.moveaxis(np.asarray(x), axis, -1)
    rows = [f(wrap(r, x.kind), *args, **kw) for r in y.reshape(-1, y.shape[-1])]
    return conv(rows).reshape(y.shape[:-1] + _shape(rows[0]))


@_reg()
def vectorize(f, *a, **k):
    def call(*xs):
        r = np.frompyfunc(f, len(xs), 1)(*[_obj(x) for x in xs])
        return wrap(r) if isinstance(r, np.ndarray) else r
    return call


@_reg()
def genfromtxt(fname, dtype=None, skip_header=0, max_rows=None, usecols=None, delimiter=None, **kw):
    lines = fname.readlines() if hasattr(fname, 'readlines') else (
        None if isinstance(fname, str) else list(fname))
    if lines is None:
        from . import textio
        with textio.sopen(fname, 'r') as f:
            lines = f.readlines()
    lines = [l.decode() if isinstance(l, bytes) else l for l in lines][skip_header:]
    lines = [l.split('#')[0] for l in lines]
    lines = [l for l in lines if l.strip()]
    if max_rows is not None:
        lines = lines[:max_rows]
    rows = [l.split(delimiter) for l in lines]
    if usecols is not None:
        rows = [[r[c] for c in (usecols if isinstance(usecols, (list, tuple)) else [usecols])] for r in rows]
    a = conv(rows, kind_of(dtype) or 'f')
    if kw.get('unpack'):
        a = a.T
    return a.reshape(-1) if 1 in a.shape and kw.get('ndmin', 0) < 2 else a


shim.loadtxt = genfromtxt


class _Linalg(types.ModuleType):
    def __getattr__(self, name):
        v = getattr(np.linalg, name)
        if isinstance(v, type):
            return v
        raise Unsupported('numpy.linalg.%s' % name)


linalg = _Linalg('numpy.linalg')
shim.linalg = linalg


def _norm(x, ord=None, axis=None, keepdims=False):
    a = _obj(x)
    if isinstance(ord, Rx):
        ord = core.ext(ord) if ord.num is None else ord.const()
    if ord in (1, np.inf, -np.inf) and (axis is not None or a.ndim == 1):
        m = wrap(_obj(_map(lambda y: core.rabs(y), a)), 'f')
        return m.sum(axis=axis, keepdims=keepdims) if ord == 1 else (_max if ord > 0 else _min)(m, axis=axis)
    if ord not in (None, 2, 'fro') or (ord == 2 and a.ndim != 1 and axis is None):
        raise Unsupported('norm ord')
    if isinstance(axis, tuple):
        raise Unsupported('norm of matrices')
    if axis is None:
        s = const(0)
        for y in a.reshape(-1):
            s = s + lift(y) * y
        r = core.rsqrt(s)
        if keepdims:
            return conv([r], 'f').reshape((1,) * a.ndim)
        return r
    a = np.moveaxis(a, axis, -1)
    out = np.empty(a.shape[:-1], dtype=object)
    o = out.reshape(-1)
    aa = a.reshape(-1, a.shape[-1]) if a.size else np.empty((o.size, 0), dtype=object)
    for i in range(o.size):
        s = const(0)
        for y in aa[i]:
            s = s + lift(y) * y
        o[i] = core.rsqrt(s)
    out = o.reshape(a.shape[:-1])
    r = out.view(SArr)
    r._k = 'f'
    if keepdims:
        r = np.expand_dims(r, axis)
    return r


linalg.norm = _norm


def _det(a):
    a = _obj(a)
    n = a.shape[0]
    if n == 1:
        return a[0, 0]
    if n == 2:
        return a[0, 0] * a[1, 1] - a[0, 1] * a[1, 0]
    s = const(0)
    for j in range(n):
        minor = np.delete(np.delete(a, 0, 0), j, 1)
        t = lift(a[0, j]) * _det(minor)
        s = s + t if j % 2 == 0 else s - t
    return s


linalg.det = _det


def _solve(a, b):
    a, b = _obj(a), _obj(b)
    n = a.shape[0]
    d = lift(_det(a))
    if not core.nonzero(d):
        raise np.linalg.LinAlgError('Singular matrix')
    if b.ndim == 1:
        out = []
        for j in range(n):
            m = a.copy()
            m[:, j] = b
            out.append(_det(m) / d)
        return conv(out, 'f')
    return conv([list(np.asarray(_solve(a, b[:, k]))) for k in range(b.shape[1])], 'f').T


linalg.solve = _solve
linalg.cross = lambda a, b, axis=-1: shim.cross(a, b, axis=axis)
linalg.matmul = lambda a, b: shim.matmul(a, b)
linalg.outer = lambda a, b: shim.outer(a, b)
linalg.trace = lambda a: shim.trace(a)
linalg.vector_norm = lambda a, axis=None, ord=2, keepdims=False: _norm(a, None if ord == 2 else ord, axis, keepdims)


def _multi_dot(arrays, out=None):
    r = arrays[0]
    for a in arrays[1:]:
        r = shim.dot(r, a)
    return r


def _matrix_power(a, n):
    if n < 0:
        a, n = linalg.inv(a), -n
    r = eye(_obj(a).shape[0])
    for _ in range(n):
        r = shim.dot(r, a)
    return r


linalg.multi_dot, linalg.matrix_power = _multi_dot, _matrix_power
linalg.inv = lambda a: _solve(a, eye(_obj(a).shape[0]))


class _Random(types.ModuleType):
    pass


shim.random = _Random('numpy.random')
shim.set_printoptions = lambda *a, **k: None
shim.seterr = lambda *a, **k: {}


class _errstate(object):
    def __init__(self, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


shim.errstate = _errstate
