"""Loads the modules of /repo/meshmagick from source for symbolic execution."""
import ast
import builtins
import math
import os
import sys
import types
from fractions import Fraction

from . import core, npshim, textio, sstr
from .core import Rx, lift, const

REPO = os.environ.get('SYMX_REPO', '/repo')
PKG = 'smm'


class Tr(ast.NodeTransformer):
    def visit_Constant(self, n):
        if type(n.value) is float:
            return ast.copy_location(ast.Call(ast.Name('__symF__', ast.Load()), [ast.Constant(repr(n.value))], []), n)
        return n

    def visit_JoinedStr(self, n):
        # constants inside format specs must stay strings
        out = []
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                v.value = self.visit(v.value)
            out.append(v)
        n.values = out
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div):
            return ast.copy_location(ast.Call(ast.Name('__symdiv__', ast.Load()), [n.left, n.right], []), n)
        if isinstance(n.op, ast.Mod):
            return ast.copy_location(ast.Call(ast.Name('__symmod__', ast.Load()), [n.left, n.right], []), n)
        if isinstance(n.op, ast.Pow):
            return ast.copy_location(ast.Call(ast.Name('__sympow__', ast.Load()), [n.left, n.right], []), n)
        return n

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div) and isinstance(n.target, ast.Name):
            return ast.copy_location(ast.Assign([ast.Name(n.target.id, ast.Store())], ast.Call(
                ast.Name('__symidiv__', ast.Load()), [ast.Name(n.target.id, ast.Load()), n.value], [])), n)
        if isinstance(n.op, ast.Mod) and isinstance(n.target, ast.Name):
            return ast.copy_location(ast.Assign([ast.Name(n.target.id, ast.Store())], ast.Call(
                ast.Name('__symmod__', ast.Load()), [ast.Name(n.target.id, ast.Load()), n.value], [])), n)
        return n

    def visit_Dict(self, n):
        self.generic_visit(n)
        if n.keys and all(k is not None for k in n.keys):
            # pairs, so that the keys are not hashed before
            n = ast.copy_location(ast.List([ast.Tuple([k, v], ast.Load()) for k, v in zip(n.keys, n.values)],
                                           ast.Load()), n)
        return ast.copy_location(ast.Call(ast.Name('__symdict__', ast.Load()), [n], []), n)

    def visit_DictComp(self, n):
        self.generic_visit(n)
        l = ast.copy_location(ast.ListComp(ast.Tuple([n.key, n.value], ast.Load()), n.generators), n)
        return ast.copy_location(ast.Call(ast.Name('__symdict__', ast.Load()), [l], []), n)

    def visit_MatchValue(self, n):
        return n


def _symF(s, cache={}):
    r = cache.get(s)
    if r is None:
        f = float(s)
        if f in (float('inf'), float('-inf')) or f != f:
            r = core.NAN if f != f else f
        else:
            r = const(Fraction(s))
        cache[s] = r
    return r


def _num(x):
    return isinstance(x, (int, float)) and not isinstance(x, bool)


def _symdiv(a, b):
    if _num(a) and _num(b):
        if b == 0:
            raise ZeroDivisionError('division by zero')
        return lift(a) / lift(b)
    return a / b


def _symidiv(a, b):
    if _num(a) and _num(b):
        return _symdiv(a, b)
    a /= b
    return a


def _sympow(a, b):
    if isinstance(a, float) or isinstance(b, float) or (_num(a) and _num(b) and b < 0):
        return lift(a) ** b
    return a ** b


class ModProxy(types.ModuleType):
    def __init__(self, name, real, over):
        types.ModuleType.__init__(self, name)
        self.__dict__['_real'] = real
        self.__dict__.update(over)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return getattr(self.__dict__['_real'], n)


class _SText(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.str, sstr.SStr))

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.str)

    def __getattr__(cls, n):
        f = getattr(builtins.str, n)
        if n in ('upper', 'lower', 'strip', 'casefold'):
            return lambda s, *a: getattr(s, n)(*a)
        return f


class SText(metaclass=_SText):
    def __new__(cls, *a, **k):
        if len(a) == 1 and isinstance(a[0], sstr.SStr):
            return a[0]
        return builtins.str(*a, **k)


def _vfs_has(p):
    return sstr.vkey(p) in core.cur().vfs


def _symtext(p):
    return sstr.find_tokens(p) if isinstance(p, builtins.str) else p


def _splitext(p):
    p = _symtext(p)
    return sstr.splitext(p) if isinstance(p, sstr.SStr) else os.path.splitext(p)


def _basename(p):
    p = _symtext(p)
    return sstr.basename(p) if isinstance(p, sstr.SStr) else os.path.basename(p)


def _dirname(p):
    p = _symtext(p)
    return sstr.dirname(p) if isinstance(p, sstr.SStr) else os.path.dirname(p)


def _split(p):
    return _dirname(p), _basename(p)


def _join(a, *ps):
    if not any(isinstance(_symtext(p), sstr.SStr) for p in (a,) + ps):
        return os.path.join(a, *ps)
    out = a
    for p in ps:
        p = _symtext(p)
        if (p if isinstance(p, str) else p[:1]).startswith('/') or not len(out):
            out = p
        else:
            out = out + ('' if out[-1:] == '/' else '/') + p
    return out


def _abspath(p):
    p = _symtext(p)
    return p if isinstance(p, sstr.SStr) else os.path.abspath(p)


def _remove(p):
    c = core.cur()
    if sstr.vkey(p) not in c.vfs:
        raise FileNotFoundError(2, 'No such file or directory', p)
    del c.vfs[sstr.vkey(p)]


def _mtime(p):
    """a date that changes each time the file is written"""
    c = core.cur()
    k = sstr.vkey(p)
    if k not in c.vfs:
        raise FileNotFoundError(2, 'No such file or directory', p)
    seen = c.__dict__.setdefault('vfs_dates', {}).setdefault(k, [])
    if not seen or seen[-1] is not c.vfs[k]:
        seen.append(c.vfs[k])
    return const(1600000000 + len(seen))


ospath = ModProxy('os.path', os.path, dict(isfile=_vfs_has, exists=_vfs_has, splitext=_splitext,
                                              basename=_basename, abspath=_abspath, dirname=_dirname,
                                           split=_split, join=_join, getmtime=_mtime))
osmod = ModProxy('os', os, dict(path=ospath, remove=_remove, unlink=_remove,
                               system=lambda *a: core.cur().kill(core.Unsupported('os.system'))))


def _mathmod():
    f = {'sqrt': lambda x: _msqrt(x), 'fabs': lambda x: core.rabs(_fl(x)), 'cos': lambda x: core.trig(x)[0],
         'sin': lambda x: core.trig(x)[1], 'tan': lambda x: core.trig(x)[1] / core.trig(x)[0],
         'acos': core.racos, 'asin': core.rasin, 'atan2': core.ratan2, 'atan': lambda x: core.ratan2(x, 1),
         'radians': lambda x: lift(x).radians(), 'degrees': lambda x: lift(x).degrees(),
         'copysign': core.copysign, 'hypot': lambda *a: _msqrt(sum((lift(x) * x for x in a), const(0))),
         'floor': lambda x: npshim.trunc(npshim._ffloor(x)), 'ceil': lambda x: -npshim.trunc(npshim._ffloor(-lift(x))),
         'pow': lambda a, b: lift(a) ** b, 'isclose': _misclose, 'trunc': lambda x: npshim.trunc(lift(x)),
         'isnan': lambda x: isinstance(x, Rx) and x.isnan(),
         'isfinite': lambda x: not (isinstance(x, Rx) and x.num is None), 'isinf': lambda x: isinstance(x, Rx) and core.isinf(x),
         'fsum': lambda l: sum(l, const(0)), 'dist': lambda a, b: _msqrt(sum(((lift(x) - y) * (lift(x) - y)
                                                                             for x, y in zip(a, b)), const(0)))}
    m = types.ModuleType('math')
    for k in dir(math):
        if not k.startswith('_'):
            v = getattr(math, k)
            if callable(v):
                setattr(m, k, f.get(k) or _guard(v, k))
            else:
                setattr(m, k, v)
    del m.pi
    del m.tau

    class M(types.ModuleType):
        def __getattr__(self, n):
            if n == 'pi':
                return core.pi()
            if n == 'tau':
                return core.pi() * 2
            raise AttributeError(n)
    mm = M('math')
    mm.__dict__.update({k: v for k, v in m.__dict__.items() if not k.startswith('__')})
    return mm


def _fl(x):
    r = lift(x)
    return Rx(r.num, r.den, False) if r.num is not None else r


def _misclose(a, b, rel_tol=None, abs_tol=0):
    a, b = lift(a), lift(b)
    rel_tol = const(Fraction(1, 10 ** 9)) if rel_tol is None else lift(rel_tol)
    m = core.ite_minmax([core.rabs(a), core.rabs(b)], 'max')
    tol = core.ite_minmax([rel_tol * m, lift(abs_tol)], 'max')
    return bool(core.rabs(a - b) <= tol)


def _msqrt(x):
    x = lift(x)
    r = core.rsqrt(x)
    if r.num is None and x.num is not None:
        raise ValueError('math domain error')
    return r


def _guard(v, k):
    def call(*a):
        if any(isinstance(x, Rx) and not x.is_const() for x in a):
            raise core.Unsupported('math.%s of a symbolic value' % k)
        a = [(int(x.const()) if x.isint else float(x.const())) if isinstance(x, Rx) else x for x in a]
        r = v(*a)
        return lift(r) if isinstance(r, float) else r
    return call


class PiConst(object):
    """math.pi bound at import time: a fresh reference to the symbolic constant at each use"""


def _sprint(*a, **k):
    c = core.CUR
    if k.get('file') is not None and hasattr(k['file'], 'write') and k['file'] not in (sys.stdout, sys.stderr):
        sep, end = k.get('sep'), k.get('end')
        text = (' ' if sep is None else sep).join(x if isinstance(x, str) else SText(x) for x in a)
        k['file'].write(text + ('\n' if end is None else end))
        return
    if c is not None:
        if not hasattr(c, 'printed'):
            c.printed = []
        c.printed.append(k.get('sep', ' ').join(x if isinstance(x, str) else ('<val>' if isinstance(x, Rx) else str(type(x))
                         if isinstance(x, core.np_nd) else str(x)) for x in a))


import numpy as _np
core.np_nd = _np.ndarray


def _smin(*a, **k):
    return _mm(a, k, 'min', builtins.min)


def _smax(*a, **k):
    return _mm(a, k, 'max', builtins.max)


def _mm(a, k, which, real):
    if k.get('key') is None:
        xs = list(a[0]) if len(a) == 1 else list(a)
        if not xs and 'default' in k:
            return k['default']
        if xs and any(isinstance(x, Rx) for x in xs) and all(isinstance(x, (Rx, int, float)) for x in xs):
            return core.ite_minmax(xs, which)
        return real(xs, **{n: v for n, v in k.items() if n != 'default'})
    return real(*a, **k)


def _sabs(x):
    return abs(x)


def _sround(x, n=None):
    if isinstance(x, float):
        x = lift(x)
    return round(x, n) if n is not None else round(x)


def _ssum(it, start=0):
    s = start
    for x in it:
        s = s + x
    return s


class Loader(object):
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.mods = {}
        self.sources = {}
        self.stubs = {}
        self.math = _mathmod()
        b = dict(vars(builtins))
        b.update({'float': npshim.SFloat, 'int': npshim.SInt, 'open': textio.sopen, 'print': _sprint,
                  'min': _smin, 'max': _smax, 'round': _sround, 'sum': _ssum,
                  '__import__': self._import, '__symF__': _symF, '__symdiv__': _symdiv, '__symmod__': textio.symmod,
                  '__symidiv__': _symidiv, '__sympow__': _sympow, '__symdict__': sstr.SDict,
                  'dict': sstr.SDict, 'str': SText})
        self.builtins = b

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level > 0 or name.split('.')[0] == 'meshmagick':
            if level > 0:
                full = name
            else:
                full = name.split('.', 1)[1] if '.' in name else ''
            if not full:
                pkg = self.package()
                for f in fromlist or ():
                    if f != '*' and not hasattr(pkg, f):
                        setattr(pkg, f, self.load(f))
                return pkg
            m = self.load(full)
            if fromlist:
                return m
            return self.package()
        root = name.split('.')[0]
        if root == 'numpy':
            if name == 'numpy.linalg' and fromlist:
                return npshim.linalg
            return npshim.shim
        if root == 'math':
            return self.math
        if root == 'os':
            if name == 'os.path' and fromlist:
                return ospath
            return osmod
        if root in self.stubs:
            return self.stubs[root]
        if root == 'h5py':
            return textio.H5Module
        if root == 'gmshparser':
            return textio.gmshparser()
        if root in ('vtk', 'vtkmodules'):
            from . import vtkstub
            return vtkstub.module
        return builtins.__import__(name, globals, locals, fromlist, 0)

    def package(self):
        if '' not in self.mods:
            m = types.ModuleType(PKG)
            m.__path__ = []
            self.mods[''] = m
            self._exec(m, os.path.join(self.repo, 'meshmagick', '__init__.py'))
        return self.mods['']

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        if name == 'MMviewer':
            m = types.ModuleType(PKG + '.MMviewer')

            class MMViewer(object):
                def __init__(self, *a, **k):
                    raise core.Unsupported('viewer')
            m.MMViewer = MMViewer
            self.mods[name] = m
            return m
        path = os.path.join(self.repo, 'meshmagick', name.replace('.', '/') + '.py')
        if not os.path.isfile(path):
            raise ModuleNotFoundError("No module named 'meshmagick.%s'" % name)
        m = types.ModuleType(PKG + '.' + name)
        self.mods[name] = m
        try:
            self._exec(m, path)
        except BaseException:
            del self.mods[name]
            raise
        setattr(self.package(), name, m)
        return m

    def _exec(self, m, path):
        src = open(path, encoding='utf-8').read()
        self.sources[path] = src
        tree = ast.parse(src, path)
        tree = ast.fix_missing_locations(Tr().visit(tree))
        code = compile(tree, path, 'exec')
        m.__file__ = path
        m.__package__ = PKG
        m.__dict__['__builtins__'] = self.builtins
        saved = core.CUR
        core.CUR = None
        try:
            exec(code, m.__dict__)
        finally:
            core.CUR = saved


_LOADER = None


def get():
    global _LOADER
    if _LOADER is None:
        _LOADER = Loader()
    return _LOADER
