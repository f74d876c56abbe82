"""Symbolic values, path exploration and solver interface.

Rx  exact symbolic number (rational function over real / integer variables)
Bx  symbolic truth value; bool(Bx) forks the path
Ctx one path of one harness
"""
import math
import os
import random
import sys
import time
from fractions import Fraction

from .poly import Poly, RULES, ONE, rat_sqrt, rat_sqfree, norm_coef
from . import poly as _poly

_Z = None


def z3mod():
    global _Z
    if _Z is None:
        try:
            import z3
        except ImportError:
            import types
            import importlib.util
            base = '/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3'
            spec = importlib.util.spec_from_file_location('z3', base + '/__init__.py',
                                                          submodule_search_locations=[base])
            m = importlib.util.module_from_spec(spec)
            sys.modules['z3'] = m
            spec.loader.exec_module(m)
            import z3
        _Z = z3
    return _Z


class PathEnd(BaseException):
    """assumption false on this path"""


class Unsupported(BaseException):
    """the engine met something it does not model"""


class Budget(BaseException):
    pass


class Unknown(BaseException):
    """solver gave up on an obligation"""


CUR = None          # current Ctx


def cur():
    c = CUR
    if c is None:
        c = _global_ctx()
    if c.dead is not None:
        raise c.dead
    return c


_GLOBAL = None


def _global_ctx():
    global _GLOBAL
    if _GLOBAL is None:
        _GLOBAL = Ctx(None, [])
    return _GLOBAL


# ----------------------------------------------------------------------------------------------------------------------
class Var(object):
    __slots__ = ('idx', 'name', 'kind', 'lo', 'hi', 'ev', 'side', 'z', 'input', 'nonneg', 'trig', 'deps')

    def __init__(self, idx, name, kind):
        self.idx, self.name, self.kind = idx, name, kind
        self.lo = self.hi = None
        self.ev = None
        self.side = []
        self.z = None
        self.input = False
        self.nonneg = None
        self.trig = None
        self.deps = ()


# ----------------------------------------------------------------------------------------------------------------------
# Booleans
class Bx(object):
    __slots__ = ('k', 'a', 'b', '_z', '_v', '_i')
    # k: 'c' const (a), 'cmp' (a=op, b=Poly), 'and'/'or' (a=list), 'not' (a)

    def __init__(self, k, a, b=None):
        self.k, self.a, self.b = k, a, b
        self._z = None
        self._v = None
        self._i = None

    def vars(self):
        if self._v is None:
            if self.k == 'c':
                self._v = frozenset()
            elif self.k == 'cmp':
                self._v = self.b.vars()
            elif self.k == 'not':
                self._v = self.a.vars()
            else:
                s = frozenset()
                for x in self.a:
                    s |= x.vars()
                self._v = s
        return self._v

    def key(self):
        if self.k == 'c':
            return ('c', self.a)
        if self.k == 'cmp':
            return ('cmp', self.a, self.b)
        if self.k == 'not':
            return ('not', self.a.key())
        return (self.k, tuple(x.key() for x in self.a))

    def ev(self, pt, eps=1e-9):
        """True / False / None (too close to call)"""
        k = self.k
        if k == 'c':
            return self.a
        if k == 'cmp':
            for v in self.b.vars():
                if pt.get(v) is None:
                    return None
            x, g = self.b.evalf_mag(pt.vals)
            if x != x:
                return None
            op = self.a
            if self._ints():
                # integer variables: the value is exact up to a denominator
                tol = 1e-9 * (1 + g) if g < 1e6 else eps * (1 + g)
                if op == '<':
                    return x < -tol
                if op == '<=':
                    return x <= tol
                return (abs(x) <= tol) == (op == '==')
            tol = eps * (1 + g)
            if op == '<':
                return True if x < -tol else (False if x > tol else None)
            if op == '<=':
                return True if x < -tol else (False if x > tol else None)
            if op == '==':
                return None if abs(x) <= tol else False
            return None if abs(x) <= tol else True
        if k == 'not':
            r = self.a.ev(pt, eps)
            return None if r is None else not r
        if k == 'and':
            res = True
            for x in self.a:
                r = x.ev(pt, eps)
                if r is False:
                    return False
                if r is None:
                    res = None
            return res
        res = False
        for x in self.a:
            r = x.ev(pt, eps)
            if r is True:
                return True
            if r is None:
                res = None
        return res

    def _ints(self):
        if self._i is None:
            vs = cur().vars
            self._i = all(vs[v].kind == 'i' for v in self.b.vars())
        return self._i

    def __bool__(self):
        if self.k == 'c':
            return self.a
        return cur().decide(self)

    def __invert__(self):
        return bnot(self)

    def __and__(self, o):
        return band(self, mkb(o))

    __rand__ = __and__

    def __or__(self, o):
        return bor(self, mkb(o))

    __ror__ = __or__
    __add__ = __or__
    __radd__ = __or__

    def __eq__(self, o):
        o = mkb(o)
        return bor(band(self, o), band(bnot(self), bnot(o)))

    def __ne__(self, o):
        return bnot(self == o)

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __repr__(self):
        return 'Bx(%s)' % (self.key(),)


TRUE = Bx('c', True)
FALSE = Bx('c', False)


def mkb(x):
    if isinstance(x, Bx):
        return x
    return TRUE if x else FALSE


def bnot(x):
    if x.k == 'c':
        return FALSE if x.a else TRUE
    if x.k == 'not':
        return x.a
    if x.k == 'cmp':
        op, p = x.a, x.b
        if op == '<':          # not p<0  -> -p <= 0
            return Bx('cmp', '<=', -p)
        if op == '<=':
            return Bx('cmp', '<', -p)
        if op == '==':
            return Bx('cmp', '!=', p)
        return Bx('cmp', '==', p)
    return Bx('or' if x.k == 'and' else 'and', [bnot(y) for y in x.a])


def band(*xs):
    out = []
    for x in xs:
        if x.k == 'c':
            if not x.a:
                return FALSE
            continue
        if x.k == 'and':
            out.extend(x.a)
        else:
            out.append(x)
    if not out:
        return TRUE
    return out[0] if len(out) == 1 else Bx('and', out)


def bor(*xs):
    out = []
    for x in xs:
        if x.k == 'c':
            if x.a:
                return TRUE
            continue
        if x.k == 'or':
            out.extend(x.a)
        else:
            out.append(x)
    if not out:
        return FALSE
    return out[0] if len(out) == 1 else Bx('or', out)


def cmp0(op, p):
    """p op 0 with constant folding"""
    if p.is_const():
        c = p.const_value()
        r = {'<': c < 0, '<=': c <= 0, '==': c == 0, '!=': c != 0}[op]
        return TRUE if r else FALSE
    c = p.content()
    if c < 0 and op in ('==', '!='):
        p = p.scale(Fraction(1) / c)
    else:
        p = p.scale(Fraction(1) / abs(c))
    return Bx('cmp', op, p)


# ----------------------------------------------------------------------------------------------------------------------
class Point(object):
    __slots__ = ('vals', 'ctx', 'busy')

    def __init__(self, ctx):
        self.vals = {}
        self.ctx = ctx

    def get(self, i):
        v = self.vals.get(i)
        if v is None and i not in self.vals:
            var = self.ctx.vars[i]
            self.vals[i] = None
            if var.ev is not None:
                try:
                    v = var.ev(self)
                except (ValueError, ZeroDivisionError, OverflowError):
                    v = None
                if v is not None and v != v:
                    v = None
            elif var.input:
                v = self.ctx.sample(var)
            self.vals[i] = v
        return v

    def rx(self, r):
        """numeric value of an Rx or None"""
        if r.num is None:
            return None
        for v in r.vars():
            if self.get(v) is None:
                return None
        n = r.num.evalf(self.vals)
        for p, e in r.den:
            d = p.evalf(self.vals)
            if d == 0:
                return None
            n /= d ** e
        return n


# ----------------------------------------------------------------------------------------------------------------------
class Stats(object):
    def __init__(self):
        self.paths = 0
        self.decisions = 0
        self.queries = 0
        self.sat = self.unsat = self.unknown = 0
        self.solver_s = 0.0
        self.obligations = 0
        self.by_solver = 0
        self.by_normal_form = 0
        self.sample_feasible = 0
        self.aborted = 0
        self.functions = set()
        self.max_query_s = 0.0


class Ctx(object):
    """One path. `stack` collects the alternative prefixes met."""
    NPOINTS = 12

    def __init__(self, engine, prefix):
        self.engine = engine
        self.prefix = prefix
        self.trace = []
        self.pos = 0
        self.pc = []
        self.pcset = set()
        self.sos = set()
        self.ivl = {}
        self.vars = []
        self.names = {}
        self.inputs = {}            # name -> Var (or value for choices)
        self.input_spec = {}
        self.dead = None
        self.stats = engine.stats if engine else Stats()
        self.trig_atoms = {}
        self.cache_sqrt = {}
        self.factors = []
        self.cache_fun = {}
        self.points = None
        self.seed = engine.seed if engine else 1
        self._rnd = random.Random(12345 + 7919 * self.seed)
        self.zc = {}
        self.known = {}
        self.values = {}            # concretised ints
        self.textreg = {}
        self.vfs = {}
        self.notes = []
        self.cleanup = []
        RULES.sq = {}
        self.rules = RULES.sq
        self._slice_cache = {}
        self._ranges = {}
        self._ranged = {}
        self._dry = 0
        self.pi_var = None
        self._make_pi()         # always variable 0, so that constants built at import time stay valid

    def _make_pi(self):
        v = self.new_var('pi')
        v.nonneg = True
        v.ev = lambda pt: math.pi
        P = Poly.var(v.idx)
        v.side = [Bx('cmp', '<', Poly.const(Fraction(314159265, 10 ** 8)) - P),
                  Bx('cmp', '<', P - Poly.const(Fraction(314159266, 10 ** 8)))]
        self.pi_var = v

    # -- variables ---------------------------------------------------------------------------------------------------
    def new_var(self, name, kind='r'):
        n = name
        k = 1
        while n in self.names:
            k += 1
            n = '%s~%d' % (name, k)
        v = Var(len(self.vars), n, kind)
        self.vars.append(v)
        self.names[n] = v
        if self.points:
            for p in self.points:
                p.vals.pop(v.idx, None)
        return v

    def rx(self, v):
        return Rx(Poly.var(v.idx), (), v.kind == 'i')

    def sample(self, var):
        vlo, vhi = self.bounds(var)
        lo = vlo if vlo is not None else Fraction(-4)
        hi = vhi if vhi is not None else lo + 8
        if vlo is None and vhi is not None:
            lo = hi - 8
        if hi <= lo:
            return float(lo)
        if var.kind == 'i':
            return float(self._rnd.randint(int(math.ceil(lo)), int(math.floor(hi))))
        x = self._rnd.random()
        # rational values with short decimals keep replays readable
        x = float(lo) + (float(hi) - float(lo)) * (0.02 + 0.96 * x)
        d = 4096
        while d < 2 ** 40:
            y = Fraction(int(x * d), d)
            if lo < y < hi:
                return float(y)
            d *= 64
        return x

    def bounds(self, var):
        """bounds of a variable, tightened by the comparisons of this path"""
        lo, hi = var.lo, var.hi
        h = self.ivl.get(Poly.var(var.idx))
        if h is not None:
            if h[0] is not None and (lo is None or h[0] > lo):
                lo = h[0]
                if var.kind == 'i':
                    lo = Fraction(math.floor(lo) + 1 if h[1] else math.ceil(lo))
            if h[2] is not None and (hi is None or h[2] < hi):
                hi = h[2]
                if var.kind == 'i':
                    hi = Fraction(math.ceil(hi) - 1 if h[3] else math.floor(hi))
        return lo, hi

    def get_points(self):
        if self.points is None:
            self.points = [Point(self) for _ in range(self.NPOINTS)]
            # filter by pc so far
            self.points = [p for p in self.points if all(c.ev(p) for c in self.pc)]
        if not self.points and self._dry < 3:
            # look again within the tightened bounds
            more = self.more_points(60, 4)
            self._dry = 0 if more else self._dry + 1
            self.points.extend(more)
        return self.points

    def more_points(self, n=200, want=3):
        """rejection sampling for new points on the path"""
        out = []
        for _ in range(n):
            p = Point(self)
            ok = True
            for c in self.pc:
                if not c.ev(p):
                    ok = False
                    break
            if ok:
                out.append(p)
                if len(out) >= want:
                    break
        return out

    # -- constraints -------------------------------------------------------------------------------------------------
    def add(self, b):
        if b.k == 'c':
            return
        if b.k == 'and':
            for x in b.a:
                self.add(x)
            return
        k = b.key()
        if k in self.pcset:
            return
        self.pcset.add(k)
        self.pc.append(b)
        self._slice_cache = {}
        if b.k == 'cmp' and b.a != '!=':
            self._note_interval(b)
        if self.points is not None:
            self.points = [p for p in self.points if b.ev(p)]

    @staticmethod
    def _ikey(p):
        """(primitive non-constant part, k, c) with p = k * part + c"""
        c = p.t.get(ONE, 0)
        if c:
            t = dict(p.t)
            del t[ONE]
            r = Poly(t)
        else:
            r = p
        k = r.content()
        if k != 1:
            r = r.scale(Fraction(1) / k)
        return r, k, c

    def _note_interval(self, b):
        r, k, c = self._ikey(b.b)
        x = -Fraction(c) / k
        lo, ls, hi, hs = self.ivl.get(r, (None, False, None, False))
        op = b.a
        if op == '==':
            lo, ls, hi, hs = x, False, x, False
        else:
            st = op == '<'
            if k > 0:
                if hi is None or x < hi or (x == hi and st):
                    hi, hs = x, st
            else:
                if lo is None or x > lo or (x == lo and st):
                    lo, ls = x, st
        self.ivl[r] = (lo, ls, hi, hs)
        if len(r.t) == 1 and len(r.vars()) == 1:
            self._ranged = {k: v for k, v in self._ranged.items() if v is not None}

    def by_interval(self, b):
        """True / False when earlier comparisons of the same expression settle b"""
        if b.k != 'cmp' or not self.ivl:
            return None
        r, k, c = self._ikey(b.b)
        h = self.ivl.get(r)
        if h is None:
            return None
        x = -Fraction(c) / k
        lo, ls, hi, hs = h
        op = b.a
        below = hi is not None and (hi < x or (hi == x and hs))        # r < x
        above = lo is not None and (lo > x or (lo == x and ls))        # r > x
        le = hi is not None and hi <= x
        ge = lo is not None and lo >= x
        if op == '==' or op == '!=':
            if below or above:
                return op == '!='
            if le and ge:
                return op == '=='
            return None
        if k < 0:
            below, above, le, ge = above, below, ge, le
        if op == '<':
            return True if below else (False if ge else None)
        return True if le else (False if above else None)

    # -- ranges ------------------------------------------------------------------------------------------------------
    def vrange(self, i):
        """enclosure of the values of a variable, or None"""
        v = self.vars[i]
        if v is self.pi_var:
            return Fraction(314159265, 10 ** 8), Fraction(314159266, 10 ** 8)
        lo, hi = self.bounds(v)
        if lo is not None and hi is not None:
            return (lo, hi) if lo <= hi else None
        q = self.rules.get(i)
        if q is None:
            return None
        r = self.prange(q)
        if r is None or r[1] < 0:
            return None
        top = Fraction(math.sqrt(float(r[1])) * (1 + 1e-9) + 1e-30)
        if not v.nonneg:
            return -top, top
        bot = Fraction(math.sqrt(float(r[0])) * (1 - 1e-9)) if r[0] > 0 else Fraction(0)
        if lo is not None:
            bot = max(bot, lo)
        if hi is not None:
            top = min(top, hi)
        return (bot, top) if bot <= top else None

    def box(self, p):
        box = {}
        for i in p.vars():
            b = self.vrange(i)
            if b is None:
                return None
            box[i] = b
        return box

    def never_zero(self, p, depth=5):
        """p has no zero in its box, by bisection of the widest variable"""
        box = self.box(p)
        todo = [(box, depth)]
        n = 0
        while todo:
            box, d = todo.pop()
            n += 1
            r = self.prange(p, box)
            if r is None or n > 24:
                return False
            if r[0] > 0 or r[1] < 0:
                continue
            if d == 0:
                return False
            i = max(box, key=lambda v: box[v][1] - box[v][0])
            a, b = box[i]
            m = (a + b) / 2
            if p.evalf({v: float(sum(x) / 2) for v, x in box.items()}) == 0:
                return False
            todo.append((dict(box), d - 1))
            todo[-1][0][i] = (a, m)
            todo.append((dict(box), d - 1))
            todo[-1][0][i] = (m, b)
        return True

    def prange(self, p, box=None):
        """enclosure of a polynomial over the box of its variables (centred form), or None"""
        vs = sorted(p.vars())
        if len(p.t) > 600 or len(vs) > 24:
            return None
        if box is None:
            box = self.box(p)
            if box is None:
                return None
        key = (p, tuple(box[i] for i in vs))
        hit = self._ranges.get(key)
        if hit is not None:
            return hit
        mid = {i: norm_coef((b[0] + b[1]) / 2) for i, b in box.items()}
        rad = {i: norm_coef((b[1] - b[0]) / 2) for i, b in box.items()}
        powers = {}
        acc = {}
        n = 0
        for m, c in p.t.items():
            cur_ = {ONE: c}
            for v, e in m:
                f = powers.get((v, e))
                if f is None:
                    x, r = mid[v], rad[v]
                    f = []
                    for k in range(e + 1):
                        co = math.comb(e, k) * x ** (e - k) * r ** k
                        if co:
                            f.append(((v, k),) if k else ONE)
                            f.append(co)
                    powers[(v, e)] = f
                nxt = {}
                for m0, c0 in cur_.items():
                    for j in range(0, len(f), 2):
                        mm = m0 + f[j]
                        nxt[mm] = c0 * f[j + 1]
                cur_ = nxt
            n += len(cur_)
            if n > 20000:
                return None
            for m0, c0 in cur_.items():
                acc[m0] = acc.get(m0, 0) + c0
        lo = hi = Fraction(acc.pop(ONE, 0))
        for m0, c0 in acc.items():
            if all(e % 2 == 0 for _, e in m0):
                if c0 > 0:
                    hi += c0
                else:
                    lo += c0
            else:
                lo -= abs(c0)
                hi += abs(c0)
        self._ranges[key] = (lo, hi)
        return lo, hi

    def by_range(self, b):
        """True / False when the bounds of the variables settle a comparison"""
        if b.k != 'cmp':
            return None
        k = b.key()
        hit = self._ranged.get(k, 0)
        if hit != 0:
            return hit
        res = None
        r = self.prange(b.b)
        if r is not None:
            lo, hi = r
            op = b.a
            if op == '<':
                res = True if hi < 0 else (False if lo >= 0 else None)
            elif op == '<=':
                res = True if hi <= 0 else (False if lo > 0 else None)
            elif lo > 0 or hi < 0 or self.never_zero(b.b):
                res = op == '!='
        self._ranged[k] = res
        return res

    # -- z3 ----------------------------------------------------------------------------------------------------------
    def zvar(self, i):
        v = self.vars[i]
        if v.z is None:
            z3 = z3mod()
            nm = 'v%d_%s' % (i, v.name)
            v.z = z3.Int(nm) if v.kind == 'i' else z3.Real(nm)
        return v.z

    def zpoly(self, p):
        r = self.zc.get(p)
        if r is not None:
            return r
        z3 = z3mod()
        allint = all(self.vars[v].kind == 'i' for v in p.vars())
        terms = []
        for m, c in p.t.items():
            fs = []
            for v, e in m:
                z = self.zvar(v)
                if not allint and self.vars[v].kind == 'i':
                    z = z3.ToReal(z)
                for _ in range(e):
                    fs.append(z)
            c = Fraction(c)
            if allint and c.denominator == 1:
                cc = z3.IntVal(c.numerator)
            else:
                cc = z3.RealVal('%d/%d' % (c.numerator, c.denominator))
            if not fs:
                terms.append(cc)
            else:
                t = fs[0]
                for f in fs[1:]:
                    t = t * f
                terms.append(t if c == 1 else cc * t)
        r = z3.Sum(terms) if len(terms) > 1 else (terms[0] if terms else z3.RealVal(0))
        self.zc[p] = r
        return r

    def zb(self, b):
        if b._z is not None:
            return b._z
        z3 = z3mod()
        k = b.k
        if k == 'c':
            r = z3.BoolVal(b.a)
        elif k == 'cmp':
            # clear denominators for integer polys
            p = b.b
            c = p.content()
            if c != 0:
                p = p.scale(Fraction(1) / abs(c))
            t = self.zpoly(p)
            if b.a == '<':
                r = t < 0
            elif b.a == '<=':
                r = t <= 0
            elif b.a == '==':
                r = t == 0
            else:
                r = t != 0
        elif k == 'not':
            r = z3.Not(self.zb(b.a))
        elif k == 'and':
            r = z3.And([self.zb(x) for x in b.a])
        else:
            r = z3.Or([self.zb(x) for x in b.a])
        b._z = r
        return r

    def roots(self, b):
        """variables of b and of the definitions of its derived variables"""
        out, todo = set(), list(b.vars())
        while todo:
            i = todo.pop()
            if i not in out:
                out.add(i)
                for s in self.vars[i].side:
                    todo.extend(s.vars())
        return out

    def slice(self, bs, full=True, deep=False):
        """constraints relevant to bs: side conditions of the variables involved and path constraints; with deep, also
        the path constraints on other functions of the same inputs"""
        vs = set()
        for b in bs:
            vs |= b.vars()
        out = []
        seen_side = set()
        todo = list(vs)
        pending = list(self.pc)
        changed = True
        while changed:
            changed = False
            while todo:
                i = todo.pop()
                if i in seen_side:
                    continue
                seen_side.add(i)
                for s in self.vars[i].side:
                    out.append(s)
                    for j in s.vars():
                        if j not in vs:
                            vs.add(j)
                            todo.append(j)
            if full:
                rest = []
                for c in pending:
                    if (self.roots(c) if deep else c.vars()) & vs:
                        out.append(c)
                        changed = True
                        for j in c.vars():
                            if j not in vs:
                                vs.add(j)
                                todo.append(j)
                    else:
                        rest.append(c)
                pending = rest
        if not full:
            out.extend(c for c in pending if c.vars() <= vs)
        return out, vs

    def solve(self, cons, timeout_ms, want_model=False):
        """cons: list of Bx. Returns ('sat', model) / ('unsat', None) / ('unknown', None)"""
        z3 = z3mod()
        key = None
        eng = self.engine
        vs = set()
        for c in cons:
            vs |= c.vars()
        if eng is not None and not want_model:
            key = frozenset(self._nkey(c) for c in cons)
            hit = eng.qcache.get(key)
            if hit is not None:
                return hit, None
        hasint = any(self.vars[v].kind == 'i' for v in vs)
        nonlin = any(self._nonlin(c) for c in cons)
        st = self.stats
        t0 = time.time()
        res = 'unknown'
        model = None
        if hasint:
            plans = [('', timeout_ms)]
        elif nonlin:
            plans = [('QF_NRA', timeout_ms), ('', timeout_ms)]
            if not want_model and self._linear_unsat(cons):
                st.unsat += 1
                st.solver_s += time.time() - t0
                if key is not None:
                    eng.qcache[key] = 'unsat'
                return 'unsat', None
        else:
            plans = [('QF_LRA', timeout_ms)]
        zs = [self.zb(c) for c in cons]
        for logic, to in plans:
            s = z3.SolverFor(logic) if logic else z3.Solver()
            s.set('timeout', int(to))
            if zs:
                s.add(zs)
            r = s.check()
            st.queries += 1
            if r == z3.sat:
                res = 'sat'
                model = s.model()
                break
            if r == z3.unsat:
                res = 'unsat'
                break
        dt = time.time() - t0
        st.solver_s += dt
        st.max_query_s = max(st.max_query_s, dt)
        if res == 'sat':
            st.sat += 1
        elif res == 'unsat':
            st.unsat += 1
        else:
            st.unknown += 1
        if key is not None and res != 'unknown':
            eng.qcache[key] = res
        if os.environ.get('SYMX_DEBUG') and dt > 1:
            print('  slow query %.1fs %s n=%d vars=%d' % (dt, res, len(cons), len(vs)), file=sys.stderr)
            if dt > 4 and os.environ.get('SYMX_DEBUG') == '2':
                for c in cons:
                    print('    ', self.show(c), file=sys.stderr)
        return res, model

    def _linear_unsat(self, cons):
        """unsat when every monomial is taken as an independent real (even powers nonnegative)"""
        z3 = z3mod()
        if sum(len(c.b.t) if c.k == 'cmp' else 10 for c in cons) > 3000:
            return False
        monos = {}
        extra = []

        def lin(p):
            terms = []
            for m, k in p.t.items():
                k = Fraction(k)
                cc = z3.RealVal('%d/%d' % (k.numerator, k.denominator))
                if not m:
                    terms.append(cc)
                    continue
                x = monos.get(m)
                if x is None:
                    x = monos[m] = z3.Real('m%d' % len(monos))
                    if all(e % 2 == 0 or self.vars[v].nonneg for v, e in m):
                        extra.append(x >= 0)
                terms.append(cc * x)
            return z3.Sum(terms) if terms else z3.RealVal(0)

        def tr(b):
            if b.k == 'c':
                return z3.BoolVal(b.a)
            if b.k == 'cmp':
                t = lin(b.b)
                return t < 0 if b.a == '<' else t <= 0 if b.a == '<=' else t == 0 if b.a == '==' else t != 0
            if b.k == 'not':
                return z3.Not(tr(b.a))
            if b.k == 'and':
                return z3.And([tr(x) for x in b.a])
            return z3.Or([tr(x) for x in b.a])
        zs = [tr(c) for c in cons]
        for p in self.sos:
            if all(m in monos or not m for m in p.t):
                extra.append(lin(p) >= 0)
        s = z3.SolverFor('QF_LRA')
        s.set('timeout', 1000)
        s.add(zs)
        s.add(extra)
        self.stats.queries += 1
        r = s.check()
        return r == z3.unsat

    def show(self, b):
        return str(self.zb(b)).replace('\n', ' ')[:600]

    def _nonlin(self, c):
        if c.k == 'cmp':
            return any(sum(e for _, e in m) > 1 for m in c.b.t)
        if c.k == 'c':
            return False
        if c.k == 'not':
            return self._nonlin(c.a)
        return any(self._nonlin(x) for x in c.a)

    def _nkey(self, c):
        """cache key stable across paths: variables by name"""
        if c.k == 'cmp':
            return (c.a, frozenset((tuple((self.vars[v].name, e) for v, e in m), k) for m, k in c.b.t.items()))
        if c.k == 'c':
            return c.a
        if c.k == 'not':
            return ('not', self._nkey(c.a))
        return (c.k, tuple(self._nkey(x) for x in c.a))

    def model_point(self, model, vs):
        """Point whose inputs in vs come from the z3 model"""
        z3 = z3mod()
        base = self.points[0] if self.points else None
        p = Point(self)
        if base is not None:
            for v in self.vars:
                if v.input and v.idx in base.vals and base.vals[v.idx] is not None:
                    p.vals[v.idx] = base.vals[v.idx]
        trigvars = set()
        for ent in self.trig_atoms.values():
            trigvars |= ent[1].num.vars() | ent[2].num.vars()
        for i in vs:
            v = self.vars[i]
            if not v.input and v.ev is not None and i not in trigvars:
                continue
            val = model.eval(self.zvar(i), model_completion=True)
            p.vals[i] = z3num(val)
        p.vals['solver'] = True
        return p

    # -- decisions ---------------------------------------------------------------------------------------------------
    def feasible(self, b):
        """can b hold on this path? (unknown counts as yes)"""
        if b.k == 'c':
            return b.a
        h = self.by_interval(b)
        if h is False or self.by_range(b) is False:
            return False
        pts = self.get_points()
        for p in pts:
            if b.ev(p):
                self.stats.sample_feasible += 1
                return True
        cons, vs = self.slice([b])
        res, model = self.solve(cons + [b], self.engine.branch_ms if self.engine else 5000, want_model=True)
        if res == 'sat':
            p = self.model_point(model, vs | set(b.vars()))
            ok = b.ev(p)
            if ok is not False and all(c.ev(p) is not False for c in self.pc):
                if self.points is not None and all(c.ev(p) for c in self.pc):
                    self.points.append(p)
                return True
            # a point outside the path: a constraint on a derived quantity was left out
            more, vs = self.slice([b], deep=True)
            if len(more) > len(cons):
                res, model = self.solve(more + [b], self.engine.branch_ms if self.engine else 5000, want_model=True)
                if res == 'unsat':
                    return False
                if res == 'sat':
                    p = self.model_point(model, vs | set(b.vars()))
                    if self.points is not None and b.ev(p) and all(c.ev(p) for c in self.pc):
                        self.points.append(p)
            return True
        if res == 'unknown':
            self.notes.append('feasibility unknown: both sides explored')
            return True
        return False

    def implied(self, b):
        """b certainly holds on this path (quick)"""
        if b.k == 'c':
            return b.a
        if b.key() in self.pcset:
            return True
        h = self.by_interval(b)
        if h is None:
            h = self.by_range(b)
        if h is not None:
            return h
        for p in self.get_points():
            if b.ev(p) is False:
                return False
        cons, vs = self.slice([b])
        res, _ = self.solve(cons + [bnot(b)], self.engine.branch_ms if self.engine else 5000)
        return res == 'unsat'

    def decide(self, b):
        if self.dead is not None:
            raise self.dead
        k = b.key()
        if k in self.pcset:
            return True
        nb = bnot(b)
        nk = nb.key()
        if nk in self.pcset:
            return False
        hit = self.known.get(k)
        if hit is not None:
            return hit
        hit = self.by_interval(b)
        if hit is not None:
            return hit
        if self.engine is None:
            # no path: only constants may be decided here
            raise Unsupported('symbolic decision outside a path')
        hit = self.by_range(b)
        if hit is not None:
            self.known[k] = hit
            self.known[nk] = not hit
            return hit
        if self.pos < len(self.prefix):
            v, forced = self.prefix[self.pos]
        else:
            eng = self.engine
            eng.tick()
            pts = self.get_points()
            t = any(b.ev(p) for p in pts)
            f = any(nb.ev(p) for p in pts)
            if not t:
                t = self.feasible(b)
                if not t:
                    f = True
            if not f:
                f = self.feasible(nb)
            if t and f:
                eng.push(self.trace + [(False, False)])
                v, forced = True, False
            elif t:
                v, forced = True, True
            elif f:
                v, forced = False, True
            else:
                # infeasible path (a previous 'unknown')
                self.kill(PathEnd('infeasible'))
        self.pos += 1
        self.trace.append((v, forced))
        self.stats.decisions += 1
        if forced:
            self.known[k] = v
            self.known[nk] = not v
        else:
            self.add(b if v else nb)
        return v

    def kill(self, exc):
        self.dead = exc
        raise exc

    def concretise(self, x):
        """python int value of an integer Rx, forking over the feasible values"""
        if x.num.is_const():
            c = x.num.const_value()
            if type(c) is Fraction:
                raise Unsupported('non integer index')
            return int(c)
        key = x.num
        if key in self.values:
            return self.values[key]
        if self.engine is None:
            raise Unsupported('symbolic integer outside a path')
        n = 0
        while True:
            n += 1
            if n > 64:
                self.kill(Unsupported('too many values for a symbolic integer'))
            # a candidate value
            if self.pos < len(self.prefix):
                cand = self.prefix[self.pos][0]
                if not isinstance(cand, tuple):
                    self.kill(Unsupported('prefix mismatch'))
            else:
                cand = None
            if cand is None:
                val = None
                pts = self.get_points()
                for p in pts:
                    r = p.rx(x)
                    if r is not None and abs(r - round(r)) < 1e-9:
                        val = int(round(r))
                        break
                if val is None:
                    probe = self.new_var('probe', 'i')
                    eqb = Bx('cmp', '==', Poly.var(probe.idx) - x.num)
                    cons, vs = self.slice([eqb])
                    res, model = self.solve(cons + [eqb], 10000, want_model=True)
                    if res != 'sat':
                        self.kill(PathEnd('infeasible'))
                    val = int(z3num(model.eval(self.zvar(probe.idx), model_completion=True)))
                b = cmp0('==', (x - val).num)
                other = self.feasible(bnot(b))
                if other:
                    self.engine.push(self.trace + [((val, False), False)])
                cand = (val, True)
                self.trace.append((cand, not other))
            else:
                self.trace.append(self.prefix[self.pos])
            self.pos += 1
            self.stats.decisions += 1
            val, eq = cand
            b = cmp0('==', (x - val).num)
            if eq:
                self.add(b)
                self.values[key] = val
                return val
            self.add(bnot(b))


def z3num(val):
    z3 = z3mod()
    if z3.is_int_value(val):
        return float(val.as_long())
    if z3.is_rational_value(val):
        return float(Fraction(val.numerator_as_long(), val.denominator_as_long()))
    if z3.is_algebraic_value(val):
        a = val.approx(30)
        return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
    raise Unsupported('model value %s' % val)


# ----------------------------------------------------------------------------------------------------------------------
def fold_den(fs):
    """dict poly->exp to canonical tuple"""
    return tuple(sorted(((p, e) for p, e in fs.items() if e), key=lambda x: (len(x[0].t), hash(x[0]))))


class Rx(object):
    """num / prod(den) ; num None = NaN"""
    __slots__ = ('num', 'den', 'isint', '_vars', 'nn')

    def __init__(self, num, den=(), isint=False, nn=False):
        self.num = num
        self.den = den
        self.isint = isint
        self._vars = None
        self.nn = nn            # nonnegative by construction (a sum of squares)

    # numpy must treat us as scalars
    def vars(self):
        if self._vars is None:
            s = self.num.vars()
            for p, _ in self.den:
                s = s | p.vars()
            self._vars = s
        return self._vars

    def is_const(self):
        return self.num is not None and not self.den and self.num.is_const()

    def const(self):
        return Fraction(self.num.const_value())

    # -- arithmetic
    def __neg__(self):
        if self.num is None:
            return NINF if self is PINF else PINF if self is NINF else self
        return Rx(-self.num, self.den, self.isint)

    def __pos__(self):
        return self

    def __add__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        if self.num is None or o.num is None:
            return from_float(ext(self) + ext(o))
        isint = self.isint and o.isint
        if isnn(self) and isnn(o):
            r = self._add(o, isint)
            r.nn = True
            return r
        return self._add(o, isint)

    def _add(self, o, isint):
        if self.den == o.den:
            return simp(self.num + o.num, self.den, isint)
        if not o.num.t:
            return self if not (self.isint and not o.isint) else Rx(self.num, self.den)
        if not self.num.t:
            return o if not (o.isint and not self.isint) else Rx(o.num, o.den)
        da, db = dict(self.den), dict(o.den)
        na, nb = self.num, o.num
        l = dict(da)
        for p, e in db.items():
            if e > l.get(p, 0):
                l[p] = e
        for p, e in l.items():
            k = e - da.get(p, 0)
            if k:
                na = na * p.pow(k)
            k = e - db.get(p, 0)
            if k:
                nb = nb * p.pow(k)
        return simp(na + nb, fold_den(l), isint)

    __radd__ = __add__

    def __sub__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return self + (-o)

    def __rsub__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return o + (-self)

    def __mul__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        if self.num is None or o.num is None:
            return from_float(ext(self, True) * ext(o, True))
        isint = self.isint and o.isint
        nn = self is o or (self.nn and o.nn) or (len(self.num.t) == len(o.num.t) and self.den == o.den and
                                                 self.num.t == o.num.t)
        if not nn and (self.nn or o.nn):
            nn = isnn(self) and isnn(o)
        if not self.den and not o.den:
            return Rx(self.num * o.num, (), isint, nn)
        # cross simplification
        na, nb = self.num, o.num
        da, db = dict(self.den), dict(o.den)
        nb, da = cancel(nb, da)
        na, db = cancel(na, db)
        for p, e in db.items():
            da[p] = da.get(p, 0) + e
        r = simp(na * nb, fold_den(da), isint)
        r.nn = nn
        return r

    __rmul__ = __mul__

    def inv(self):
        """1/self assuming nonzero"""
        n = self.num
        num = Poly.const(1)
        for p, e in self.den:
            num = num * p.pow(e)
        c = n.content()
        n = n.scale(Fraction(1) / c)
        num = num.scale(Fraction(1) / c)
        den = {}
        mc = n.mono_content()
        if mc:
            n = n.div_mono(mc)
            for v, e in mc:
                if v in RULES.sq:
                    # 1/s = s/e
                    q = RULES.sq[v]
                    num = num * Poly.var(v).pow(e)
                    r = Rx(num, fold_den(den)) * Rx(q, ()).inv_pow(e)
                    num, den = r.num, dict(r.den)
                else:
                    p = Poly.var(v)
                    den[p] = den.get(p, 0) + e
        if not n.is_const():
            # rationalise a + b*s when exactly one rule variable occurs and it helps
            rn = self._conj(n)
            if rn is not None:
                cj, nn = rn
                r = Rx(num * cj, fold_den(den))
                return r * Rx(nn).inv()
            den[n] = den.get(n, 0) + 1
        else:
            num = num.scale(Fraction(1) / n.const_value())
        return simp(num, fold_den(den), False)

    def _conj(self, n):
        sv = [v for v in n.vars() if v in RULES.sq and RULES.sq[v].is_const()]
        if len(sv) == 1:
            v = sv[0]
            a, b = {}, {}
            for m, c in n.t.items():
                if any(w == v for w, _ in m):
                    b[m] = -c
                    a[m] = -c
                else:
                    a[m] = c
            cj = Poly(a)
            return cj, n * cj
        return None

    def inv_pow(self, e):
        r = self.inv()
        x = r
        for _ in range(e - 1):
            x = x * r
        return x

    def __truediv__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        if self.num is None or o.num is None:
            if o.num is None:
                return from_float(ext(self) / ext(o))
            return NAN if ext(o, True) == 0 else from_float(ext(self) / ext(o, True))
        if o.is_const():
            c = o.num.const_value()
            if c == 0:
                return NAN
            return Rx(self.num.scale(Fraction(1) / c), self.den, False, self.nn and c > 0)
        if not nonzero(o):
            return NAN
        return self * o.inv()

    def __rtruediv__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return o / self

    def __pow__(self, n):
        if isinstance(n, Rx):
            if n.is_const():
                n = n.const()
            else:
                raise Unsupported('symbolic exponent')
        if isinstance(n, float):
            n = Fraction(repr(n))
        n = Fraction(n)
        if n.denominator == 1:
            n = n.numerator
            if n < 0:
                return Rx(Poly.const(1)) / (self ** (-n))
            if n == 2:
                return self * self
            r = Rx(Poly.const(1), (), self.isint)
            for _ in range(n):
                r = r * self
            return r
        if n.denominator == 2:
            s = self.sqrt()
            return s ** n.numerator
        raise Unsupported('power %s' % n)

    def __rpow__(self, o):
        if self.is_const() and self.const().denominator == 1:
            return lift(o) ** self.const().numerator
        raise Unsupported('symbolic exponent')

    def __floordiv__(self, o):
        if self.is_const():
            o = lift(o)
            if o.is_const():
                r = self.const() // o.const()
                return const(r, self.isint and o.isint)
        return _divmod(self, o)[0]

    def __mod__(self, o):
        o = lift(o)
        if self.is_const() and o.is_const():
            return const(self.const() % o.const(), self.isint and o.isint)
        return _divmod(self, o)[1]

    def __rfloordiv__(self, o):
        return lift(o) // self

    def __rmod__(self, o):
        if isinstance(o, str):
            return NotImplemented
        return lift(o) % self

    def __divmod__(self, o):
        return self // o, self % o

    def __abs__(self):
        return rabs(self)

    fabs = __abs__

    # -- comparisons
    def _cmp(self, o, op, swap=False):
        o = lift(o)
        if o is NotImplemented:
            return NotImplemented
        if self.num is None or o.num is None:
            a, b = ext(self), ext(o)
            if swap:
                a, b = b, a
            return TRUE if (a < b if op == '<' else a <= b) else FALSE
        if not swap and self.nn and not o.num.t and op == '<':
            return FALSE
        if swap and o.nn and not self.num.t and op == '<':
            return FALSE
        if swap and self.nn and not o.num.t and op == '<=':
            return TRUE
        if not swap and o.nn and not self.num.t and op == '<=':
            return TRUE
        d = (o - self) if swap else (self - o)
        return sgn_cmp(op, d)

    def __lt__(self, o):
        return self._cmp(o, '<')

    def __le__(self, o):
        return self._cmp(o, '<=')

    def __gt__(self, o):
        return self._cmp(o, '<', True)

    def __ge__(self, o):
        return self._cmp(o, '<=', True)

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        o = lift(o)
        if o is NotImplemented:
            return NotImplemented
        if self.num is None or o.num is None:
            return TRUE if ext(self) == ext(o) else FALSE
        return sgn_cmp('==', self - o)

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        o = lift(o)
        if o is NotImplemented:
            return NotImplemented
        if self.num is None or o.num is None:
            return FALSE if ext(self) == ext(o) else TRUE
        return sgn_cmp('!=', self - o)

    def __bool__(self):
        return bool(self != 0)

    def __hash__(self):
        if self.isint:
            return hash(cur().concretise(self))
        if self.is_const():
            return hash(self.const())
        return hash((self.num, self.den))

    def __index__(self):
        if not self.isint:
            raise TypeError("'float' object cannot be interpreted as an integer")
        return cur().concretise(self)

    def __int__(self):
        if self.isint:
            return cur().concretise(self)
        if self.is_const():
            return int(self.const())
        raise Unsupported('int() of a symbolic real')

    def __float__(self):
        if self.is_const():
            return float(self.const())
        raise Unsupported('float() of a symbolic value reached C code')

    def __trunc__(self):
        return int(self)

    def __round__(self, n=None):
        if self.is_const():
            r = round(self.const(), n) if n is not None else round(self.const())
            return const(r, n is None)
        return rounded(self, n or 0)

    def item(self):
        return self

    def conjugate(self):
        return self

    def tolist(self):
        return self

    def astype(self, t):
        return self

    def copy(self):
        return self

    def is_integer(self):
        if self.is_const():
            return self.const().denominator == 1
        raise Unsupported('is_integer')

    @property
    def real(self):
        return self

    @property
    def T(self):
        return self

    @property
    def size(self):
        return 1

    @property
    def ndim(self):
        return 0

    @property
    def shape(self):
        return ()

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    # -- numpy object-ufunc protocol
    def sqrt(self):
        return rsqrt(self)

    def is_poly_pi(self):
        c = cur()
        return not self.den and c.pi_var is not None and list(self.num.t) == [((c.pi_var.idx, 1),)]

    def cos(self):
        return trig(self)[0]

    def sin(self):
        return trig(self)[1]

    def tan(self):
        c, s = trig(self)
        return s / c

    def arccos(self):
        return racos(self)

    def arcsin(self):
        return rasin(self)

    def arctan2(self, o):
        return ratan2(self, lift(o))

    def radians(self):
        return self * pi() / 180

    deg2rad = radians

    def degrees(self):
        return self * 180 / pi()

    rad2deg = degrees

    def isnan(self):
        return self.num is None and not isinf(self)

    def __format__(self, spec):
        from . import textio
        return textio.format_value(self, spec)

    def __str__(self):
        from . import textio
        return textio.format_value(self, '')

    def __repr__(self):
        if self.num is None:
            return repr(ext(self))
        if self.is_const():
            return 'Rx(%s)' % self.const()
        return 'Rx(%r / %r)' % (self.num, self.den)


NAN = Rx(None)
PINF = Rx(None)
NINF = Rx(None)


def isinf(x):
    return x is PINF or x is NINF


def ext(x, sign=False):
    """float standing for x next to an infinite or undefined number; with sign: forks on the sign of x"""
    if x.num is None:
        return float('inf') if x is PINF else float('-inf') if x is NINF else float('nan')
    if not sign:
        return 0.
    return 1. if bool(x > 0) else -1. if bool(x < 0) else 0.


def from_float(v):
    return const(Fraction(v)) if abs(v) < 10 else PINF if v > 0 else NINF if v < 0 else NAN




def isnn(x):
    if x.nn:
        return True
    if x.is_const():
        return x.num.const_value() >= 0
    return False


def primitive(p):
    k = p.content()
    return p.scale(Fraction(1) / abs(k)) if k != 1 and k != 0 else p


def syn_nonneg(p):
    """every term nonnegative, or shown to be a sum of squares"""
    c = cur()
    if c.sos and primitive(p) in c.sos:
        return True
    vs = c.vars
    for m, k in p.t.items():
        if k < 0:
            return False
        for v, e in m:
            if e % 2 and not vs[v].nonneg:
                return False
    return True


def const(c, isint=False):
    return Rx(Poly.const(c), (), isint)


ZERO = const(0)
_CACHE_CONST = {}


def lift(x):
    if type(x) is Rx:
        return x
    if isinstance(x, bool):
        return const(int(x), True)
    if isinstance(x, int):
        return const(x, True)
    if isinstance(x, Fraction):
        return const(x)
    if isinstance(x, float):
        if x != x:
            return NAN
        if x in (float('inf'), float('-inf')):
            return PINF if x > 0 else NINF
        return const(Fraction(repr(float(x))))
    if isinstance(x, Bx):
        return const(int(bool(x)), True)
    if isinstance(x, Rx):
        return x
    t = type(x).__module__
    if t == 'numpy':
        import numpy as np
        if isinstance(x, np.bool_):
            return const(int(x), True)
        if isinstance(x, np.integer):
            return const(int(x), True)
        if isinstance(x, np.floating):
            return lift(float(x))
        if isinstance(x, np.ndarray) and x.ndim == 0:
            return lift(x[()])
    return NotImplemented


def cancel(num, den):
    """cancel factors of den (dict) dividing num"""
    if not den:
        return num, den
    out = dict(den)
    for p, e in list(den.items()):
        while e:
            q = num.exact_div(p) if num.t and len(num.t) >= len(p.t) or len(p.t) == 1 else None
            if q is None:
                break
            num = q
            e -= 1
        if e:
            out[p] = e
        else:
            del out[p]
    return num, out


def simp(num, den, isint):
    if not den:
        return Rx(num, (), isint)
    if not num.t:
        return Rx(num, (), isint)
    n, d = cancel(num, dict(den))
    return Rx(n, fold_den(d), isint and not d)


# ----------------------------------------------------------------------------------------------------------------------
def poly_sign_known(p):
    """+1 when p > 0 follows syntactically (products of squares / known-positive variables)"""
    c = cur()
    if p.is_const():
        v = p.const_value()
        return 1 if v > 0 else (-1 if v < 0 else 0)
    return None


def den_sign_poly(x):
    """polynomial with the sign of the denominator (product of odd factors), 1 when positive"""
    c = cur()
    r = Poly.const(1)
    for p, e in x.den:
        if e % 2 == 0:
            continue
        s = c_sign(p)
        if s == 1:
            continue
        if s == -1:
            r = -r
            continue
        r = r * p
    return r


def c_sign(p):
    """sign of polynomial p on the current path if certain: 1, -1, or None. p is assumed nonzero"""
    c = cur()
    if p.is_const():
        v = p.const_value()
        return 1 if v > 0 else -1
    if syn_nonneg(p):
        return 1
    if syn_nonneg(-p):
        return -1
    if len(p.t) == 1:
        m, k = p.lead()
        if all(e % 2 == 0 or c.vars[v].nonneg for v, e in m):
            return 1 if k > 0 else -1
    else:
        # all terms nonnegative
        ok = True
        for m, k in p.t.items():
            if k < 0 or not all(e % 2 == 0 or c.vars[v].nonneg for v, e in m):
                ok = False
                break
        if ok:
            return 1
    key = ('sign', p)
    h = c.known.get(key)
    if h is not None:
        return h or None
    npt = (len(c.pc), p)
    h = c._slice_cache.get(npt)
    if h is not None:
        return h or None
    pts = c.get_points()
    pos = Bx('cmp', '<', -p)
    neg = Bx('cmp', '<', p)
    sp = any(pos.ev(q) for q in pts)
    sn = any(neg.ev(q) for q in pts)
    if sp and sn:
        c._slice_cache[npt] = 0
        return None
    if not sn and c.implied(Bx('cmp', '<=', -p)):
        c.known[key] = 1
        return 1
    if not sp and c.implied(Bx('cmp', '<=', p)):
        c.known[key] = -1
        return -1
    c._slice_cache[npt] = 0
    return None


def sgn_cmp(op, d):
    if d.num is None:
        return TRUE if op == '!=' else FALSE
    if not d.den or op in ('==', '!='):
        n = d.num
        if op in ('==', '!=') and n.t and len(n.t) > 0:
            # drop monomial factors known nonzero is left to the solver
            pass
        return sgn_poly(op, n)
    n = d.num * den_sign_poly(d)
    return sgn_poly(op, n)


def pos_var(i):
    """variable known to be > 0 on this path"""
    c = cur()
    v = c.vars[i]
    if v.lo is not None and v.lo > 0:
        return True
    if i == 0:
        return True
    h = c.ivl.get(Poly.var(i))
    if h is not None and h[0] is not None and (h[0] > 0 or (h[0] == 0 and h[1])):
        return True
    if v.nonneg:
        if i in RULES.sq:
            b = cmp0('!=', RULES.sq[i])
            if b.k == 'c':
                return b.a
            if b.key() in c.pcset or c.known.get(b.key()) or c.by_interval(b):
                return True
        if cmp0('!=', Poly.var(i)).key() in c.pcset:
            return True
    return False


def syn_positive(p):
    """every term nonnegative and one of them positive"""
    if not syn_nonneg(p):
        return False
    for m, k in p.t.items():
        if all(pos_var(v) for v, e in m):
            return True
    return False


def sgn_poly(op, n):
    if n.t and not n.is_const():
        if op in ('==', '!=', '<='):
            neg = -n
            if syn_positive(n):
                return TRUE if op == '!=' else FALSE
            if op != '<=' and syn_positive(neg):
                return TRUE if op == '!=' else FALSE
        elif op == '<' and syn_positive(-n):
            return TRUE
        if op == '<' and syn_nonneg(n):
            return FALSE
        if op == '<=' and syn_nonneg(-n):
            return TRUE
    return cmp0(op, n)


def nonzero(x):
    """forks; False on the path where x == 0"""
    p = x.num
    if p.is_const():
        return p.const_value() != 0
    c = cur()
    # factor: each sq variable / monomial
    b = sgn_poly('!=', p)
    if b.k == 'c':
        return b.a
    if c.engine is None:
        raise Unsupported('division by symbolic outside a path')
    mc = p.mono_content()
    if mc:
        q = p.div_mono(mc)
        for v, e in mc:
            if v in RULES.sq:
                if not bool(sgn_poly('!=', RULES.sq[v])):
                    return False
            elif not bool(sgn_poly('!=', Poly.var(v))):
                return False
        if q.is_const():
            return True
        return bool(sgn_poly('!=', q))
    return bool(b)


# ----------------------------------------------------------------------------------------------------------------------
def sqrt_poly(p):
    """sqrt of a polynomial known to be >= 0 : Rx without denominator"""
    c = cur()
    if not p.t:
        return const(0)
    k = p.content()
    if k < 0:
        k = -k
    q = p.scale(Fraction(1) / k)
    a, b = rat_sqfree(k)
    out = const(a)
    if q.is_const():
        # q = +-1
        if b == 1:
            return out
        return out * _sqrt_var(Poly.const(b))
    # square monomial content
    mc = q.mono_content()
    if mc:
        inner = []
        for v, e in mc:
            if e // 2:
                inner.append((v, e // 2))
        if inner:
            inner = tuple(inner)
            q = q.div_mono(tuple((v, 2 * e) for v, e in inner))
            out = out * rabs(Rx(Poly({inner: 1})))
    if q.is_const():
        return out * sqrt_poly(q.scale(b)) if b != 1 else out * sqrt_poly(q)
    r = q.sqrt_exact() if b == 1 else None
    if r is not None:
        return out * rabs(Rx(r))
    # known factors: squares of hinted polynomials, radicands already met
    if len(q.t) > 1:
        for f in c.factors:
            f2 = f.mul_raw(f)
            while len(q.t) >= len(f2.t):
                r = q.exact_div(f2)
                if r is None:
                    break
                out = out * rabs(Rx(f))
                q = r
                if q.is_const():
                    return out * sqrt_poly(q.scale(b))
        for f in list(c.cache_sqrt):
            if 1 < len(f.t) < len(q.t):
                r = q.exact_div(f)
                if r is not None and c_sign(r) == 1:
                    return out * Rx(Poly.var(c.cache_sqrt[f].idx)) * sqrt_poly(r.scale(b))
    return out * _sqrt_var(q.scale(b))


def _sqrt_var(q):
    c = cur()
    v = c.cache_sqrt.get(q)
    if v is None:
        v = c.new_var('sqrt%d' % len(c.cache_sqrt))
        v.nonneg = True

        def ev(pt, q=q):
            for i in q.vars():
                if pt.get(i) is None:
                    return None
            x = q.evalf(pt.vals)
            if x < -1e-7:
                return None
            return math.sqrt(max(x, 0.))
        v.ev = ev
        c.cache_sqrt[q] = v
        v.side = [Bx('cmp', '<=', -Poly.var(v.idx)),
                  Bx('cmp', '==', Poly({((v.idx, 2),): 1}) - q)]
        RULES.sq[v.idx] = q
    return Rx(Poly.var(v.idx))


def rsqrt(x):
    x = lift(x)
    if x.num is None:
        return PINF if x is PINF else NAN
    if x.is_const():
        if x.const() < 0:
            return NAN
        return sqrt_poly(x.num)
    if not x.nn and bool(x < 0):
        return NAN
    # x = n/d ; make denominators squares
    num = x.num
    outden = const(1)
    for p, e in x.den:
        if e % 2:
            num = num * p
            e += 1
        f = rabs(Rx(p))
        for _ in range(e // 2):
            outden = outden * f
    r = sqrt_poly(num)
    if x.den:
        r = r * outden.inv() if not outden.is_const() else r / outden
    return r


def rabs(x):
    x = lift(x)
    if x.num is None:
        return PINF if isinf(x) else NAN
    if x.is_const():
        return const(abs(x.const()), x.isint)
    if x.isint:
        return x if bool(x >= 0) else -x
    if not x.num.t:
        return x
    # pull out content and square / nonneg monomials
    c = cur()
    n = x.num
    k = n.content()
    sgn = n
    q = n.scale(Fraction(1) / abs(k))
    mc = q.mono_content()
    out = const(abs(k))
    core = q
    if mc:
        core = q.div_mono(mc)
        for v, e in mc:
            if e // 2 * 2:
                out = out * Rx(Poly.var(v).pow(e // 2 * 2))
            if e % 2:
                out = out * _abs_core(Poly.var(v))
    out = out * _abs_core(core)
    for p, e in x.den:
        d = Rx(p) if e % 2 == 0 else _abs_core(p)
        f = const(1)
        if e % 2 == 0:
            for _ in range(e):
                f = f * Rx(p)
        else:
            for _ in range(e - 1):
                f = f * Rx(p)
            f = f * d
        out = out * f.inv() if not f.is_const() else out / f
    return out


def _abs_core(p):
    if p.is_const():
        return const(abs(Fraction(p.const_value())))
    c = cur()
    s = c_sign(p)
    if s == 1:
        return Rx(p)
    if s == -1:
        return Rx(-p)
    k = p.content()
    if k < 0:
        p = -p
    key = ('abs', p)
    v = c.cache_fun.get(key)
    if v is None:
        v = c.new_var('abs%d' % len(c.cache_fun))
        v.nonneg = True

        def ev(pt, p=p):
            for i in p.vars():
                if pt.get(i) is None:
                    return None
            return abs(p.evalf(pt.vals))
        v.ev = ev
        P = Poly.var(v.idx)
        v.side = [Bx('cmp', '<=', -P), Bx('or', [Bx('cmp', '==', P - p), Bx('cmp', '==', P + p)])]
        q = p.mul_raw(p).reduce()
        RULES.sq[v.idx] = q
        c.cache_fun[key] = v
    return Rx(Poly.var(v.idx))


def ite_minmax(xs, which):
    """symbolic min/max without forking"""
    xs = [lift(x) for x in xs]
    if any(x.num is None for x in xs):
        if any(x.num is None and not isinf(x) for x in xs):
            return NAN
        best, other = (NINF, PINF) if which == 'min' else (PINF, NINF)
        if any(x is best for x in xs):
            return best
        xs = [x for x in xs if x is not other]
        if not xs:
            return other
    if all(x.is_const() for x in xs):
        vals = [x.const() for x in xs]
        return const(min(vals) if which == 'min' else max(vals), all(x.isint for x in xs))
    # drop duplicates
    uniq = []
    for x in xs:
        if not any(x.num == y.num and x.den == y.den for y in uniq):
            uniq.append(x)
    xs = uniq
    if len(xs) == 1:
        return xs[0]
    c = cur()
    # cheap dominance test on sample points + solver
    key = (which, frozenset((x.num, x.den) for x in xs))
    v = c.cache_fun.get(key)
    if v is None:
        isint = all(x.isint for x in xs)
        v = c.new_var('%s%d' % (which, len(c.cache_fun)), 'i' if isint else 'r')

        def ev(pt, xs=xs):
            vals = [pt.rx(x) for x in xs]
            if any(u is None for u in vals):
                return None
            return min(vals) if which == 'min' else max(vals)
        v.ev = ev
        me = Rx(Poly.var(v.idx), (), isint)
        side = []
        eqs = []
        for x in xs:
            side.append((me <= x) if which == 'min' else (me >= x))
            eqs.append(sgn_cmp('==', me - x))
        side.append(bor(*eqs))
        v.side = side
        c.cache_fun[key] = v
    return Rx(Poly.var(v.idx), (), v.kind == 'i')


def where(b, x, y):
    """if-then-else without forking"""
    b = mkb(b)
    if b.k == 'c':
        return x if b.a else y
    x, y = lift(x), lift(y)
    if x.num == y.num and x.den == y.den:
        return x
    c = cur()
    k = b.key()
    if k in c.pcset:
        return x
    v = c.new_var('ite%d' % len(c.vars), 'i' if x.isint and y.isint else 'r')

    def ev(pt):
        t = b.ev(pt)
        if t is None:
            return None
        return pt.rx(x if t else y)
    v.ev = ev
    me = Rx(Poly.var(v.idx), (), v.kind == 'i')
    v.side = [bor(bnot(b), sgn_cmp('==', me - x)), bor(b, sgn_cmp('==', me - y))]
    return me


def _divmod(a, b):
    a, b = lift(a), lift(b)
    if not b.is_const() or b.const() == 0:
        if b.is_const():
            raise ZeroDivisionError('integer division or modulo by zero')
        b = const(cur().concretise(b), True) if b.isint else b
        if not b.is_const():
            raise Unsupported('symbolic modulus')
    if a.is_const():
        return const(a.const() // b.const(), a.isint and b.isint), const(a.const() % b.const(), a.isint and b.isint)
    c = cur()
    key = ('divmod', a.num, a.den, b.const())
    h = c.cache_fun.get(key)
    if h is None:
        q = c.new_var('q%d' % len(c.vars), 'i')
        k = b.const()

        def ev(pt):
            x = pt.rx(a)
            return None if x is None else float(math.floor(x / float(k)))
        q.ev = ev
        Q = Rx(Poly.var(q.idx), (), True)
        r = a - Q * b
        q.side = [r >= 0, r < b] if k > 0 else [r <= 0, r > b]
        h = (Q, r)
        c.cache_fun[key] = h
    return h


def rounded(x, n):
    """fresh value within half a unit of 10^-n"""
    c = cur()
    key = ('round', x.num, x.den, n)
    h = c.cache_fun.get(key)
    if h is None:
        v = c.new_var('rnd%d' % len(c.vars))
        v.ev = lambda pt: (lambda t: None if t is None else round(t, n))(pt.rx(x))
        me = Rx(Poly.var(v.idx))
        u = Fraction(1, 2) * Fraction(10) ** (-n)
        v.side = [(me - x) <= u, (x - me) <= u]
        h = me
        c.cache_fun[key] = h
    return h


# ----------------------------------------------------------------------------------------------------------------------
# trigonometry
def pi():
    return Rx(Poly.var(0))


def _cmul(a, b):
    return a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0]


def _cpow(a, n):
    if n < 0:
        return _cpow((a[0], -a[1]), -n)
    r = (const(1), const(0))
    for _ in range(n):
        r = _cmul(r, a)
    return r


def trig_atom(key, unit, value):
    """register atom: returns (C,S) of the angle unit*value; value Rx"""
    c = cur()
    cv = c.new_var('c%d' % len(c.trig_atoms))
    sv = c.new_var('s%d' % len(c.trig_atoms))
    ang = value * unit

    def evc(pt):
        x = pt.rx(ang)
        return None if x is None else math.cos(x)

    def evs(pt):
        x = pt.rx(ang)
        return None if x is None else math.sin(x)
    cv.ev, sv.ev = evc, evs
    one = Poly.const(1)
    cc = Poly({((cv.idx, 2),): 1})
    rel = Bx('cmp', '==', cc + Poly({((sv.idx, 2),): 1}) - one)
    cv.side = [rel]
    sv.side = [rel]
    if ang.is_poly_pi():
        # multiple of pi: a tight enclosure of the constants
        q = float(ang.num.t[((0, 1),)]) * math.pi
        for v, x in ((cv, math.cos(q)), (sv, math.sin(q))):
            e = Fraction(x)
            t = Poly.var(v.idx)
            v.side = v.side + [Bx('cmp', '<=', t - Poly.const(e + Fraction(1, 10 ** 12))),
                               Bx('cmp', '<=', Poly.const(e - Fraction(1, 10 ** 12)) - t)]
    RULES.sq[sv.idx] = one - cc
    C, S = Rx(Poly.var(cv.idx)), Rx(Poly.var(sv.idx))
    # a zero angle has cos 1 and sin 0 : tie the atom to the value it measures
    z = sgn_cmp('==', value)
    tie = bor(bnot(z), band(sgn_cmp('==', C - 1), sgn_cmp('==', S)))
    if tie.k != 'c':
        cv.side.append(tie)
        sv.side.append(tie)
    entry = (Fraction(unit), C, S)
    c.trig_atoms[key] = entry
    return entry


def register_angle(x, unit, C, S, half=None):
    """x: Rx monomial variable whose unit*x has cos C, sin S"""
    c = cur()
    (m, k), = x.num.t.items()
    c.trig_atoms[m] = (Fraction(unit) * Fraction(k), C, S)


def _trig_mono(m, k):
    """cos,sin of k*m"""
    c = cur()
    if c.pi_var is not None and m == ((c.pi_var.idx, 1),):
        q = Fraction(k) % 2
        tab = {Fraction(0): (1, 0), Fraction(1, 2): (0, 1), Fraction(1): (-1, 0), Fraction(3, 2): (0, -1)}
        if q in tab:
            a, b = tab[q]
            return const(a), const(b)
        if q.denominator == 4:
            h = sqrt_poly(Poly.const(Fraction(1, 2)))
            tb = {1: (1, 1), 3: (-1, 1), 5: (-1, -1), 7: (1, -1)}
            a, b = tb[q.numerator]
            return h * a, h * b
        if q.denominator in (3, 6):
            n6 = q * 6
            h3 = sqrt_poly(Poly.const(Fraction(3, 4)))
            hf = const(Fraction(1, 2))
            tb = {1: (h3, hf), 2: (hf, h3), 4: (-hf, h3), 5: (-h3, hf), 7: (-h3, -hf), 8: (-hf, -h3), 10: (hf, -h3),
                  11: (h3, -hf)}
            return tb[int(n6)]
    ent = c.trig_atoms.get(m)
    k = Fraction(k)
    if ent is None:
        ent = trig_atom(m, abs(k) / 2, Rx(Poly({m: 1})))
    u, C, S = ent
    n = k / u
    if n.denominator == 1:
        return _cpow((C, S), n.numerator)
    if n.denominator == 2 and len(m) == 1 and c.vars[m[0][0]].trig:
        # half angle of an inverse-function result whose range is known
        kind = c.vars[m[0][0]].trig
        half = c.cache_fun.get(('half', m))
        if half is None:
            # x in (-pi, pi]: cos(x/2) >= 0 ; sin has the sign of x
            ch = rsqrt((C + 1) / 2)
            if kind == 'acos':
                sh = rsqrt((1 - C) / 2)
            else:
                if bool(ch == 0):
                    sh = const(1)
                else:
                    sh = S / (ch * 2)
            half = (ch, sh)
            c.cache_fun[('half', m)] = half
        return _cpow(half, (n * 2).numerator)
    # unrelated unit
    key = (m, abs(k))
    ent = c.trig_atoms.get(key)
    if ent is None:
        ent = trig_atom(key, abs(k) / 2, Rx(Poly({m: 1})))
        c.notes.append('trig atoms with unrelated units')
    return _cpow((ent[1], ent[2]), (k / ent[0]).numerator)


def trig(x):
    x = lift(x)
    if x.num is None:
        return NAN, NAN
    if x.is_const() and x.const() == 0:
        return const(1), const(0)
    if x.den:
        # x = n / d : a single atom keyed by the primitive fraction
        k = x.num.content()
        n = x.num.scale(Fraction(1) / k)
        key = ('frac', n, x.den)
        c = cur()
        ent = c.trig_atoms.get(key)
        if ent is None:
            ent = trig_atom(key, abs(Fraction(k)) / 2, Rx(n, x.den))
        q = Fraction(k) / ent[0]
        if q.denominator != 1:
            ent = c.trig_atoms.get((key, k)) or trig_atom((key, k), abs(Fraction(k)) / 2, Rx(n, x.den))
            q = Fraction(k) / ent[0]
        return _cpow((ent[1], ent[2]), q.numerator)
    r = (const(1), const(0))
    for m, k in sorted(x.num.t.items()):
        r = _cmul(r, _trig_mono(m, k))
    return r


def _angle_result(key, C, S, ev, lo, hi, extra, kind):
    c = cur()
    v = c.new_var('ang%d' % len(c.vars))
    v.ev = ev
    v.trig = kind
    me = Rx(Poly.var(v.idx))
    v.side = [b for b in extra(me) if b.k != 'c']
    if isinstance(lo, float):
        # arguments are constants: the value is known within 1e-12
        v.lo, v.hi = Fraction(lo), Fraction(hi)
        v.side += [me >= v.lo, me <= v.hi]
    c.trig_atoms[((v.idx, 1),)] = (Fraction(1), C, S)
    c.cache_fun[key] = me
    return me


def _known(x, f):
    if not x.is_const():
        return None, None
    t = f(float(x.const()))
    return t - 1e-12, t + 1e-12


def racos(x):
    x = lift(x)
    if x.num is None:
        return NAN
    c = cur()
    key = ('acos', x.num, x.den)
    if key in c.cache_fun:
        return c.cache_fun[key]
    if bool(x > 1) or bool(x < -1):
        raise ValueError('math domain error')
    if x.is_const():
        for val, ang in ((1, const(0)), (-1, pi()), (0, pi() / 2)):
            if x.const() == val:
                return ang
    S = rsqrt(1 - x * x)
    P = pi()

    def extra(me):
        return [me >= 0, me <= P,
                bor(bnot(sgn_cmp('==', me)), sgn_cmp('==', x - 1)), bor(sgn_cmp('==', me), sgn_cmp('!=', x - 1)),
                bor(bnot(sgn_cmp('==', me - P)), sgn_cmp('==', x + 1)),
                bor(sgn_cmp('==', me - P), sgn_cmp('!=', x + 1))]

    def ev(pt):
        t = pt.rx(x)
        return None if t is None else math.acos(max(-1., min(1., t)))
    r = _angle_result(key, x, S, ev, *_known(x, math.acos), extra, 'acos')
    c.vars[list(r.num.vars())[0]].nonneg = True
    return r


def rasin(x):
    x = lift(x)
    if x.num is None:
        return NAN
    c = cur()
    key = ('asin', x.num, x.den)
    if key in c.cache_fun:
        return c.cache_fun[key]
    if bool(x > 1) or bool(x < -1):
        raise ValueError('math domain error')
    if x.is_const() and x.const() == 0:
        return const(0)
    Cc = rsqrt(1 - x * x)
    P = pi()

    def extra(me):
        return [me * 2 >= -P, me * 2 <= P, bor(bnot(x > 0), me > 0), bor(bnot(x < 0), me < 0),
                bor(sgn_cmp('!=', x), sgn_cmp('==', me))]

    def ev(pt):
        t = pt.rx(x)
        return None if t is None else math.asin(max(-1., min(1., t)))
    return _angle_result(key, Cc, x, ev, *_known(x, math.asin), extra, 'asin')


def ratan2(y, x):
    y, x = lift(y), lift(x)
    if y.num is None or x.num is None:
        return NAN
    c = cur()
    key = ('atan2', y.num, y.den, x.num, x.den)
    if key in c.cache_fun:
        return c.cache_fun[key]
    if y.is_const() and y.const() == 0:
        if bool(x >= 0):
            return const(0)
        return pi()
    r = rsqrt(x * x + y * y)
    if not nonzero(r):
        return const(0)
    P = pi()
    C, S = x / r, y / r
    xpos = x > 0

    def extra(me):
        return [me > -P, me <= P, bor(bnot(y > 0), band(me > 0, me < P)), bor(bnot(y < 0), me < 0),
                bor(sgn_cmp('!=', y), bnot(xpos), sgn_cmp('==', me)),
                bor(sgn_cmp('!=', y), bnot(x < 0), sgn_cmp('==', me - P))]

    def ev(pt):
        a, b = pt.rx(y), pt.rx(x)
        return None if a is None or b is None else math.atan2(a, b)
    known = (None, None)
    if x.is_const() and y.is_const():
        t = math.atan2(y.const(), x.const())
        known = (t - 1e-12, t + 1e-12)
    res = _angle_result(key, C, S, ev, *known, extra, 'atan2')
    if not c.feasible(y < 0):
        c.vars[list(res.num.vars())[0]].nonneg = True
    return res


def copysign(x, y):
    return rabs(x) if bool(lift(y) >= 0) else -rabs(x)


# ----------------------------------------------------------------------------------------------------------------------
class Engine(object):
    """Depth-first exploration of one harness."""
    def __init__(self, seed=1, max_paths=4000, time_s=600, branch_ms=4000, prove_ms=30000):
        self.seed = seed
        self.stack = []
        self.stats = Stats()
        self.qcache = {}
        self.max_paths = max_paths
        self.deadline = time.time() + time_s
        self.branch_ms = branch_ms
        self.prove_ms = prove_ms
        self.t0 = time.time()

    def push(self, prefix):
        self.stack.append(prefix)

    def tick(self):
        if time.time() > self.deadline:
            raise Budget('time budget of the harness used up')

    def explore(self, fn):
        """fn(ctx) runs one path; yields ctx after each"""
        global CUR
        self.stack = [[]]
        while self.stack:
            if self.stats.paths >= self.max_paths:
                raise Budget('path budget (%d) used up' % self.max_paths)
            prefix = self.stack.pop()
            ctx = Ctx(self, prefix)
            CUR = ctx
            self.stats.paths += 1
            err = None
            try:
                fn(ctx)
            except PathEnd:
                self.stats.aborted += 1
                ctx.ended = True
            except Exception as e:
                err = e
            finally:
                CUR = ctx
            if ctx.dead is not None and isinstance(ctx.dead, PathEnd):
                if not getattr(ctx, 'ended', False):
                    self.stats.aborted += 1
                    ctx.ended = True
                err = None
            elif ctx.dead is not None:
                raise ctx.dead
            ctx.exc = err
            yield ctx
        CUR = None
