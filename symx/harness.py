"""Harness API.  A harness is a function fn(h, **params) that builds inputs with h, runs code of /repo through
h.mod(...) and states what must hold with h.eq / h.near / h.true.  The same function runs with two back ends:
SymH (symbolic, solver decides) and ConH (concrete, the real modules: replays and path witnesses)."""
import argparse
import contextlib
import importlib
import io
import math
import os
import random
import shutil
import sys
import tempfile
import time
import traceback
import warnings
from fractions import Fraction

import numpy as np

from . import core, loader, npshim
from .poly import Poly
from .core import cmp0, Rx, Bx, lift, const, PathEnd, Unsupported, Budget, Unknown, mkb, bnot, band, bor, sgn_cmp

REPO = loader.REPO


class Found(BaseException):
    """obligation refuted; ends the path"""


class AssumeFailed(BaseException):
    pass


class ConFail(BaseException):
    def __init__(self, label, detail):
        self.label, self.detail = label, detail


def flatten(x):
    if isinstance(x, np.ndarray):
        a = x.view(np.ndarray)
        return a.shape, list(a.reshape(-1))
    if isinstance(x, (list, tuple)):
        sh, out = None, []
        for y in x:
            s, f = flatten(y)
            if sh is not None and s != sh:
                sh = 'ragged'
            else:
                sh = s
            out.extend(f)
        return ((len(x),) + (sh if isinstance(sh, tuple) else ())) if sh != 'ragged' else 'ragged', out
    return (), [x]


# ======================================================================================================================
class SymH(object):
    symbolic = True

    def __init__(self, ctx, inst):
        self.ctx = ctx
        self.inst = inst
        self.np = npshim.shim
        self.record = []
        self.names = set()
        self.reached = 0
        ctx.textual = inst.textual

    def mod(self, name):
        return loader.get().load(name)

    # inputs
    def real(self, name, lo=None, hi=None):
        c = self.ctx
        if name in self.names:
            raise AssertionError('two inputs are called ' + name)
        self.names.add(name)
        v = c.new_var(name)
        v.input = True
        v.lo = Fraction(str(lo)) if lo is not None else None
        v.hi = Fraction(str(hi)) if hi is not None else None
        P = core.Poly.var(v.idx)
        if lo is not None:
            v.side.append(Bx('cmp', '<=', core.Poly.const(v.lo) - P))
            if v.lo >= 0:
                v.nonneg = True
        if hi is not None:
            v.side.append(Bx('cmp', '<=', P - core.Poly.const(v.hi)))
        return Rx(P)

    def int(self, name, lo, hi):
        c = self.ctx
        v = c.new_var(name, 'i')
        v.input = True
        v.lo, v.hi = Fraction(lo), Fraction(hi)
        P = core.Poly.var(v.idx)
        v.side.append(Bx('cmp', '<=', core.Poly.const(lo) - P))
        v.side.append(Bx('cmp', '<=', P - core.Poly.const(hi)))
        if lo >= 0:
            v.nonneg = True
        return Rx(P, (), True)

    def choose(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        i = self.int(name, 0, len(options) - 1)
        return options[self.ctx.concretise(i)]

    def chars(self, name, n, lo=33, hi=126):
        """string of n arbitrary printable characters"""
        from . import sstr
        return sstr.SStr([(self.int('%s%d' % (name, i), lo, hi), None) for i in range(n)])

    def cased(self, name, s):
        """s in an arbitrary letter case"""
        from . import sstr
        out = []
        for i, ch in enumerate(s):
            if ch.isalpha():
                x = ord(ch.upper()) + 32 * self.int('%s%d' % (name, i), 0, 1)
                self.ctx.__dict__.setdefault('lettercase', {})[x.num] = ch
                out.append((x, None))
            else:
                out.append(ch)
        return sstr.SStr(out)

    def same_text(self, a, b):
        """condition: two texts are equal"""
        from . import sstr
        if isinstance(a, sstr.SStr):
            return a.eqcond(b)
        if isinstance(b, sstr.SStr):
            return b.eqcond(a)
        return mkb(a == b)

    def console(self):
        """what the code printed so far"""
        return '\n'.join(getattr(self.ctx, 'printed', []))

    def shown(self, msg, s):
        """the message shows the text s"""
        from . import sstr
        msg = str(msg)
        if not isinstance(s, sstr.SStr):
            return s in msg
        for t, x in self.ctx.__dict__.get('sstrs', {}).items():
            if t in msg and len(x) == len(s) and x.c == s.c:
                return True
        return False

    def text(self, name, x, style='f'):
        """text of a number as a user would type it; style 'e': with an exponent"""
        from . import textio
        x = lift(x)
        if x.is_const():
            return repr(int(x.const())) if x.isint else repr(float(x.const()))
        c = self.ctx
        if x.isint:
            return textio.format_value(x, '')
        neg = bool(x < 0)
        for k in range(1000):
            t = ('-' if neg else '') + '%d.%03d' % (100 + len(c.textreg) + k, 117 + len(c.textreg))
            if style == 'e':
                t = '%.6E' % float(t)
            if textio._key(t) not in c.textreg:
                break
        textio.register(t, x)
        return t

    def stub_module(self, name, mod):
        """an external module replaced"""
        st = loader.get().stubs
        old = st.get(name)
        st[name] = mod

        def undo():
            if old is None:
                st.pop(name, None)
            else:
                st[name] = old
        self.ctx.cleanup.append(undo)

    def enter_scratch(self):
        """files of relative names are kept apart"""

    def number(self, token):
        """the number a piece of text shows"""
        from . import textio
        return textio.parse_float(str(token))

    def const(self, x):
        return lift(x) if isinstance(x, int) else core.const(Fraction(str(x)))

    def arr(self, x, dtype=None):
        return npshim.conv(x, {float: 'f', int: 'i', None: None}[dtype])

    def assume(self, b):
        if isinstance(b, np.ndarray):
            b = bool(b.all())
        b = mkb(b)
        if b.k == 'c':
            if not b.a:
                self.ctx.kill(PathEnd('assume'))
            return
        if not self.ctx.feasible(b):
            self.ctx.kill(PathEnd('assume'))
        self.ctx.add(b)

    def let(self, b):
        """assume without a feasibility query"""
        b = mkb(b)
        if b.k == 'c':
            if not b.a:
                self.ctx.kill(PathEnd('assume'))
            return
        self.ctx.add(b)

    def sum_of_squares(self, x, parts):
        """lemma: x is the sum of the squares of parts, hence nonnegative (checked, no effect when it is not)"""
        x = lift(x)
        s = const(0)
        for p in parts:
            s = s + lift(p) * p
        if not (x - s).num.t and all(e % 2 == 0 or core.c_sign(p) == 1 for p, e in x.den):
            self.ctx.sos.add(core.primitive(x.num))

    def unit_vector(self, q):
        """lemma: the components of q, whose squares sum to one, lie in [-1, 1] (checked, no effect when they do not)"""
        q = [lift(x) for x in q]
        s = const(0)
        for x in q:
            s = s + x * x
        if (s - 1).num.t:
            return
        for i, x in enumerate(q):
            self.sum_of_squares(1 - x * x, [y for k, y in enumerate(q) if k != i])
            for b in (x <= 1, x >= -1):
                self.ctx.add(mkb(b))

    def factor(self, x):
        """hint: squares of x may be taken out of square roots (no effect on the meaning)"""
        self.ctx.factors.append(lift(x).num)

    # mathematics
    def sqrt(self, x):
        return core.rsqrt(lift(x))

    def cos(self, x):
        return core.trig(lift(x))[0]

    def sin(self, x):
        return core.trig(lift(x))[1]

    def abs(self, x):
        return core.rabs(lift(x))

    @property
    def pi(self):
        return core.pi()

    def min(self, xs):
        return core.ite_minmax(list(xs), 'min')

    def max(self, xs):
        return core.ite_minmax(list(xs), 'max')

    def bor(self, *b):
        return bor(*[mkb(x) for x in b])

    def band(self, *b):
        return band(*[mkb(x) for x in b])

    def bnot(self, b):
        return bnot(mkb(b))

    # obligations
    def eq(self, a, b, label, tol=None, scale=None, exact=False):
        sa, fa = flatten(a)
        sb, fb = flatten(b)
        if sa != sb:
            self.true(False, label + ' (shape %s vs %s)' % (sa, sb))
        for k, (x, y) in enumerate(zip(fa, fb)):
            self._eq1(x, y, label if len(fa) == 1 else '%s[%d]' % (label, k), tol)

    def _eq1(self, x, y, label, tol):
        if isinstance(x, (str, bytes)) or x is None or y is None or isinstance(y, str):
            return self.true(x == y, label)
        x, y = lift(x), lift(y)
        self.record.append((label, x))
        if x.num is None or y.num is None:
            return self.true(False, label + ' (not a number)')
        d = x - y
        if not d.num.t:
            self._confirm(x, y)
            return
        self._prove(sgn_cmp('==', d), label, d, tol)

    def _confirm(self, x, y):
        """equal after exact normalisation: the solver confirms x != y has no solution"""
        c = self.ctx
        st = c.stats
        st.obligations += 1
        self.reached += 1
        if x.is_const() and y.is_const():
            st.by_normal_form += 1
            return
        if len(x.num.t) + len(y.num.t) > 4000:
            st.by_normal_form += 1
            return
        key = ('confirm', x.num, x.den, y.num, y.den)
        if key in c.engine.qcache:
            st.by_solver += 1
            return
        z3 = core.z3mod()
        t0 = time.time()
        l, r = c.zpoly(x.num), c.zpoly(y.num)
        if x.den != y.den:
            for p, e in y.den:
                for _ in range(e):
                    l = l * c.zpoly(p)
            for p, e in x.den:
                for _ in range(e):
                    r = r * c.zpoly(p)
        s = z3.Solver()
        s.set('timeout', 1000)
        s.add(l != r)
        res = s.check()
        st.queries += 1
        st.solver_s += time.time() - t0
        if res == z3.unsat:
            st.unsat += 1
            st.by_solver += 1
            c.engine.qcache[key] = True
            return
        if res == z3.sat:
            st.sat += 1
        else:
            st.unknown += 1
        st.by_normal_form += 1

    def near(self, a, b, tol, label):
        sa, fa = flatten(a)
        sb, fb = flatten(b)
        if sa != sb:
            self.true(False, label + ' (shape %s vs %s)' % (sa, sb))
        tol = lift(tol) if not isinstance(tol, (str, float)) else const(Fraction(str(tol)))
        for k, (x, y) in enumerate(zip(fa, fb)):
            lab = label if len(fa) == 1 else '%s[%d]' % (label, k)
            x, y = lift(x), lift(y)
            self.record.append((lab, x))
            if x.num is None or y.num is None:
                self.true(False, lab + ' (not a number)')
            d = x - y
            self._prove(band(d <= tol, -d <= tol), lab, None, None)

    def le(self, a, b, label, tol=None):
        self._prove(mkb(lift(a) <= b), label, None, None)

    def true(self, b, label):
        if isinstance(b, np.ndarray):
            b = bool(b.all())
        self._prove(mkb(b), label, None, None)

    def fail(self, label):
        self.true(False, label)

    def _prove(self, b, label, d, tol):
        c = self.ctx
        if c.dead is not None:
            raise c.dead
        st = c.stats
        st.obligations += 1
        self.reached += 1
        if b.k == 'c' and b.a:
            st.by_normal_form += 1
            return
        eng = c.engine
        eng.tick()
        nb = bnot(b)
        if b.k == 'c':
            # fails on every point of the path: the path itself must be shown feasible
            pt = self._witness()
            if pt == 'unsat':
                st.by_solver += 1
                c.kill(PathEnd('infeasible'))
            if pt is not None:
                raise self._refuted(label, pt)
            return self._undecided(label)
        # sample points that already refute it: the solver confirms with the inputs pinned
        for p in c.get_points():
            if nb.ev(p, 1e-6):
                r = self._pinned(nb, p)
                if r:
                    e = self._refuted(label, p)
                    for q in c.get_points():
                        if q is not p and len(c.found.points) < 4 and nb.ev(q, 1e-6):
                            c.found.points.append(self.inputs_at(q))
                    raise e
        cons, vs = c.slice([nb])
        t = time.time()
        res, model = c.solve(cons + [nb], eng.prove_ms)
        if res == 'unsat':
            st.by_solver += 1
            return
        if res == 'sat':
            # the path constraints on functions of the same inputs may exclude it
            more, vs2 = c.slice([nb], deep=True)
            if len(more) > len(cons):
                r2, m2 = c.solve(more + [nb], eng.prove_ms)
                if r2 == 'unsat':
                    st.by_solver += 1
                    return
                if r2 == 'sat':
                    cons, vs = more, vs2
            # look for a violation away from every boundary of the path first: rounding cannot undo it
            pts = []
            for m in (Fraction(1, 20), Fraction(1, 1000), Fraction(1, 10 ** 6)):
                w = [self._wide(x, m) for x in cons + [nb]]
                r2, m2 = c.solve(w, eng.branch_ms, want_model=True)
                if r2 == 'sat':
                    pts.append(c.model_point(m2, vs))
                    break
            if pts:
                e = self._refuted(label, pts[0], vs)
                r2, m2 = c.solve(cons + [nb], min(eng.prove_ms, 4000), want_model=True)
                if r2 == 'sat':
                    c.found.points.insert(1, self.inputs_at(c.model_point(m2, vs)))
                raise e
            if d is not None and not d.den:
                for m in (Fraction(1, 10), Fraction(1, 1000)):
                    w = bor(sgn_cmp('<', const(m) - d), sgn_cmp('<', d + const(m)))
                    r2, m2 = c.solve(cons + [w], eng.branch_ms, want_model=True)
                    if r2 == 'sat':
                        raise self._refuted(label, c.model_point(m2, vs), vs)
            r2, m2 = c.solve(cons + [nb], eng.prove_ms, want_model=True)
            if r2 == 'sat':
                raise self._refuted(label, c.model_point(m2, vs), vs)
        self._undecided(label)

    def _wide(self, b, m):
        """b with a margin m on every comparison"""
        if b.k == 'cmp':
            if b.a == '<' or b.a == '<=':
                return cmp0('<=', b.b + Poly.const(m))
            if b.a == '!=':
                return bor(cmp0('<=', b.b + Poly.const(m)), cmp0('<=', Poly.const(m) - b.b))
            return b
        if b.k == 'and':
            return band(*[self._wide(x, m) for x in b.a])
        if b.k == 'or':
            return bor(*[self._wide(x, m) for x in b.a])
        if b.k == 'not' and b.a.k == 'cmp':
            return self._wide(bnot(b.a), m)
        return b

    def _pinned(self, nb, p):
        c = self.ctx
        cons, vs = c.slice([nb])
        pins = []
        for i in vs | nb.vars():
            v = c.vars[i]
            if v.input:
                x = p.get(i)
                if x is None:
                    return False
                pins.append(sgn_cmp('==', c.rx(v) - const(Fraction(x))))
        res, _ = c.solve(cons + [nb] + pins, 2000)
        return res != 'unsat'

    def _witness(self):
        c = self.ctx
        pts = c.get_points()
        if pts:
            return pts[0]
        pts = c.more_points(300, 1)
        if pts:
            c.points.extend(pts)
            return pts[0]
        # every constraint of the path
        allc = list(c.pc)
        for v in c.vars:
            allc.extend(v.side)
        res, model = c.solve(allc, c.engine.prove_ms, want_model=True)
        if res == 'sat':
            vs = set()
            for b in allc:
                vs |= b.vars()
            return c.model_point(model, vs)
        if res == 'unsat':
            return 'unsat'
        return None

    def _refuted(self, label, pt, vs=None):
        e = Found()
        e.label = label
        e.points = [self.inputs_at(pt)]
        if vs is not None:
            # the other inputs keep a value compatible with the path when one is known
            for p in (self.ctx.get_points() or [])[:3]:
                e.points.append(self.inputs_at(p))
        self.ctx.found = e
        self.ctx.dead = PathEnd('refuted')
        return self.ctx.dead

    def _undecided(self, label):
        self.ctx.undecided = getattr(self.ctx, 'undecided', [])
        self.ctx.undecided.append(label)

    def inputs_at(self, pt):
        c = self.ctx
        out = {}
        for v in c.vars:
            if v.input:
                x = pt.get(v.idx)
                if x is None:
                    x = c.sample(v)
                out[v.name] = int(round(x)) if v.kind == 'i' else x
        # angles whose cosine and sine were chosen by the solver
        for m, ent in c.trig_atoms.items():
            if not (isinstance(m, tuple) and m and isinstance(m[0], tuple) and len(m[0]) == 2):
                continue
            iv = [v for v, e in m if c.vars[v].input]
            if len(iv) != 1 or any(e != 1 for v, e in m if v == iv[0]):
                continue
            u, C, S = ent
            cv, sv = list(C.num.vars())[0], list(S.num.vars())[0]
            if cv in pt.vals and sv in pt.vals and pt.vals[cv] is not None and pt.vals.get('solver'):
                ang = math.atan2(pt.vals[sv], pt.vals[cv])
                k = float(u)
                for v, e in m:
                    if v == iv[0]:
                        continue
                    w = pt.get(v)
                    k *= w ** e
                var = c.vars[iv[0]]
                x0 = ang / k
                per = 2 * math.pi / abs(k)
                for n in (0, 1, -1, 2, -2):
                    x = x0 + n * per
                    if (var.lo is None or x >= float(var.lo) - 1e-12) and (var.hi is None or x <= float(var.hi) + 1e-12):
                        break
                out[var.name] = x
        return out

    # files
    def path(self, name):
        return name

    def write_text(self, name, text, encoding=None):
        from . import textio, sstr
        self.ctx.vfs[sstr.vkey(name)] = textio.Encoded(text, encoding) if encoding else text

    def write_h5(self, name, data):
        from . import textio, sstr
        self.ctx.vfs[sstr.vkey(name)] = textio.H5Data(data)

    def read_text(self, name):
        from . import sstr
        return self.ctx.vfs.get(sstr.vkey(name))

    def exists(self, name):
        from . import sstr
        return sstr.vkey(name) in self.ctx.vfs

    def files(self):
        return sorted(self.ctx.vfs)

    def val(self, f):
        """python value of a concrete symbolic constant"""
        return f

    def argv(self, args):
        """arguments of the command line; some may be symbolic strings"""
        from . import sstr
        self.stub(sys, 'argv', [str(a) for a in args])
        old = argparse.ArgumentParser._get_value

        def value(parser, action, s):
            r = old(parser, action, sstr.find_tokens(s))
            return sstr.find_tokens(r) if isinstance(r, str) else r
        self.stub(argparse.ArgumentParser, '_get_value', value)

    def stub(self, mod, name, value):
        m = self.mod(mod) if isinstance(mod, str) else mod
        old = getattr(m, name)
        setattr(m, name, value)
        self.ctx.cleanup.append(lambda: setattr(m, name, old))


# ======================================================================================================================
class ConH(object):
    symbolic = False

    def __init__(self, inputs, inst, seed=1):
        self.inputs = inputs
        self.inst = inst
        self.np = np
        self.rnd = random.Random(seed)
        self.record = []
        self.tmp = None
        self.cleanup = []
        self.pi = math.pi
        self.used = {}

    def mod(self, name):
        return importlib.import_module('meshmagick.' + name)

    def real(self, name, lo=None, hi=None):
        if name in self.inputs:
            x = float(self.inputs[name])
            if (lo is not None and x < float(lo) - 1e-9 * (1 + abs(float(lo)))) or \
                    (hi is not None and x > float(hi) + 1e-9 * (1 + abs(float(hi)))):
                raise AssumeFailed()
        else:
            l = -4. if lo is None and hi is None else (float(lo) if lo is not None else float(hi) - 8)
            u = float(hi) if hi is not None else l + 8
            x = self.rnd.uniform(l, u)
        self.used[name] = x
        return np.float64(x) if self.inst.np_scalars else x

    def int(self, name, lo, hi):
        x = int(self.inputs[name]) if name in self.inputs else self.rnd.randint(lo, hi)
        self.used[name] = x
        return x

    def choose(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        return options[self.int(name, 0, len(options) - 1)]

    def chars(self, name, n, lo=33, hi=126):
        return ''.join(chr(self.int('%s%d' % (name, i), lo, hi)) for i in range(n))

    def cased(self, name, s):
        return ''.join((ch.lower() if self.int('%s%d' % (name, i), 0, 1) else ch.upper()) if ch.isalpha() else ch
                       for i, ch in enumerate(s))

    def same_text(self, a, b):
        return a == b

    def console(self):
        return self.out.getvalue()

    def shown(self, msg, s):
        return s in str(msg)

    def text(self, name, x, style='f'):
        return repr(x) if not isinstance(x, float) else '%.16E' % x if style == 'e' else \
            np.format_float_positional(x, trim='0')

    def stub_module(self, name, mod):
        old = sys.modules.get(name)
        sys.modules[name] = mod

        def undo():
            if old is None:
                sys.modules.pop(name, None)
            else:
                sys.modules[name] = old
        self.cleanup.append(undo)

    def enter_scratch(self):
        d = os.getcwd()
        os.chdir(self._dir())
        self.cleanup.append(lambda: os.chdir(d))

    def number(self, token):
        return float(token)

    def const(self, x):
        return float(x)

    def arr(self, x, dtype=None):
        return np.array(x, dtype=dtype)

    def assume(self, b):
        if not np.all(b):
            raise AssumeFailed()

    let = assume

    def factor(self, x):
        pass

    def sum_of_squares(self, x, parts):
        pass

    def unit_vector(self, q):
        pass

    sqrt = staticmethod(math.sqrt)
    cos = staticmethod(math.cos)
    sin = staticmethod(math.sin)
    abs = staticmethod(abs)

    def min(self, xs):
        return min(xs)

    def max(self, xs):
        return max(xs)

    def bor(self, *b):
        return any(bool(x) for x in b)

    def band(self, *b):
        return all(bool(x) for x in b)

    def bnot(self, b):
        return not b

    def eq(self, a, b, label, tol=None, scale=None, exact=False):
        sa, fa = flatten(a)
        sb, fb = flatten(b)
        if sa != sb:
            raise ConFail(label, 'shape %s instead of %s' % (sa, sb))
        if not fa:
            return
        if scale is None:
            scale = 1.
            for y in fb:
                if isinstance(y, (int, float, np.number)) and y == y:
                    scale = max(scale, abs(float(y)))
        for k, (x, y) in enumerate(zip(fa, fb)):
            lab = label if len(fa) == 1 else '%s[%d]' % (label, k)
            if isinstance(x, (str, bytes)) or x is None or y is None or isinstance(y, str):
                if not (x == y):
                    raise ConFail(lab, '%r instead of %r' % (x, y))
                continue
            x, y = float(x), float(y)
            self.record.append((lab, x))
            t = 0. if exact else (1e-6 if tol is None else tol) * float(scale)
            if not (abs(x - y) <= t):
                raise ConFail(lab, '%.12g instead of %.12g' % (x, y))

    def near(self, a, b, tol, label):
        sa, fa = flatten(a)
        sb, fb = flatten(b)
        if sa != sb:
            raise ConFail(label, 'shape %s instead of %s' % (sa, sb))
        for k, (x, y) in enumerate(zip(fa, fb)):
            lab = label if len(fa) == 1 else '%s[%d]' % (label, k)
            self.record.append((lab, float(x)))
            if not (abs(float(x) - float(y)) <= float(tol) * 1.02 + 1e-9 * abs(float(y))):
                raise ConFail(lab, '%.12g instead of %.12g within %g' % (x, y, float(tol)))

    def le(self, a, b, label, tol=None):
        t = (1e-6 if tol is None else tol) * max(1., abs(float(b)))
        if not (float(a) <= float(b) + t):
            raise ConFail(label, '%.12g > %.12g' % (float(a), float(b)))

    def true(self, b, label):
        if not np.all(b):
            raise ConFail(label, 'does not hold')

    def fail(self, label):
        raise ConFail(label, 'does not hold')

    # files
    def _dir(self):
        if self.tmp is None:
            self.tmp = tempfile.mkdtemp(prefix='symx_')
        return self.tmp

    def path(self, name):
        return os.path.join(self._dir(), name)

    def write_text(self, name, text, encoding=None):
        p = name if os.path.isabs(name) else self.path(name)
        with open(p, 'w', encoding=encoding) as f:
            f.write(text)

    def write_h5(self, name, data):
        import h5py
        with h5py.File(name, 'w') as f:
            for k, v in data.items():
                f[k] = v

    def read_text(self, name):
        p = name if os.path.isabs(name) else self.path(name)
        if not os.path.isfile(p):
            return None
        with open(p, errors='replace') as f:
            return f.read()

    def exists(self, name):
        return os.path.exists(name if os.path.isabs(name) else self.path(name))

    def files(self):
        return sorted(f for f in os.listdir(self._dir()) if not f.endswith('_debug.vtp'))

    def argv(self, args):
        self.stub(sys, 'argv', list(args))

    def stub(self, mod, name, value):
        m = self.mod(mod) if isinstance(mod, str) else mod
        old = getattr(m, name)
        setattr(m, name, value)
        self.cleanup.append(lambda: setattr(m, name, old))

    def close(self):
        for f in reversed(self.cleanup):
            f()
        if self.tmp and self.tmp.startswith(tempfile.gettempdir()):
            shutil.rmtree(self.tmp, ignore_errors=True)


# ======================================================================================================================
class Inst(object):
    """one harness with its parameters"""
    def __init__(self, name, fn, tier='quick', time_s=240, max_paths=3000, textual=False, branch_ms=4000,
                 prove_ms=20000, witnesses=4, np_scalars=False, bound='', replay_s=60, **params):
        self.name, self.fn, self.params = name, fn, params
        self.tier, self.time_s, self.max_paths = tier, time_s, max_paths
        self.textual = textual
        self.branch_ms, self.prove_ms = branch_ms, prove_ms
        self.witnesses = witnesses
        self.np_scalars = np_scalars
        self.bound = bound
        self.replay_s = replay_s


def _real_import():
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import meshmagick
    assert os.path.abspath(meshmagick.__file__).startswith(os.path.abspath(REPO) + os.sep), meshmagick.__file__
    return meshmagick


def run_concrete(inst, inputs, seed=1, timeout=None):
    """('ok'|'assume'|'fail', label, detail, record)"""
    import signal
    timeout = timeout or inst.replay_s
    _real_import()
    h = ConH(inputs, inst, seed)
    saved, core.CUR = core.CUR, None
    out = io.StringIO()

    def onalarm(*a):
        raise TimeoutError('replay ran over %d s' % timeout)
    old = signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(timeout)
    cwd = os.getcwd()
    os.chdir(h._dir())
    h.out = out
    try:
        with contextlib.redirect_stdout(out), warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            inst.fn(h, **inst.params)
        return 'ok', None, None, h.record
    except AssumeFailed:
        return 'assume', None, None, h.record
    except ConFail as e:
        return 'fail', e.label, e.detail, h.record
    except (Exception, SystemExit) as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if '/meshmagick/' in f.filename]
        w = where[-1] if where else tb[-1]
        if not where:
            return 'harness', 'exception', '%s: %s at %s:%s' % (type(e).__name__, e, w.filename, w.lineno), h.record
        return 'fail', 'exception', '%s: %s at %s:%s' % (type(e).__name__, e, os.path.basename(w.filename),
                                                        w.lineno), h.record
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        os.chdir(cwd)
        h.close()
        core.CUR = saved


_FUNCS = set()
_MON = False


def _monitor():
    global _MON
    if _MON:
        return
    _MON = True
    mon = sys.monitoring
    tid = 4
    try:
        mon.use_tool_id(tid, 'symx')
    except ValueError:
        return
    base = os.path.join(os.path.abspath(REPO), 'meshmagick') + os.sep

    def start(code, off):
        if code.co_filename.startswith(base):
            if core.CUR is None:
                return None
            if code.co_name != '<module>':
                _FUNCS.add('%s:%s' % (code.co_filename[len(base):], code.co_qualname))
        return mon.DISABLE
    mon.register_callback(tid, mon.events.PY_START, start)
    mon.set_events(tid, mon.events.PY_START)


def run_symbolic(inst, seed=1, log=None):
    """explores one instance; returns a result dictionary"""
    _real_import()
    _monitor()
    _FUNCS.clear()
    t0 = time.time()
    eng = core.Engine(seed=seed, max_paths=inst.max_paths, time_s=inst.time_s, branch_ms=inst.branch_ms,
                      prove_ms=inst.prove_ms)
    res = dict(instance=inst.name, bound=inst.bound, status='ok', paths=0, violations=[], unconfirmed=[], undecided=[],
               mismatches=[], witnesses=0, samples=[], reached=0, note=None, seen=[])
    loader.get()
    handled = set()
    state = {}

    def fn(ctx):
        h = SymH(ctx, inst)
        state['h'] = h
        try:
            inst.fn(h, **inst.params)
        finally:
            for f in reversed(ctx.cleanup):
                f()
            ctx.cleanup = []
    try:
        for ctx in eng.explore(fn):
            h = state['h']
            res['reached'] += h.reached
            for u in getattr(ctx, 'undecided', []):
                res['undecided'].append(u)
            found = getattr(ctx, 'found', None)
            if ctx.exc is not None and found is None:
                e = ctx.exc
                tb = traceback.extract_tb(e.__traceback__)
                w = [f for f in tb if '/meshmagick/' in f.filename]
                lab = 'exception'
                if not w:
                    res['status'] = 'error'
                    res['note'] = 'harness/engine error %s: %s\n%s' % (type(e).__name__, e, ''.join(
                        traceback.format_list(tb)[-6:]))
                    break
                ctx.dead = None
                det = '%s: %s at %s:%s' % (type(e).__name__, e, os.path.basename(w[-1].filename), w[-1].lineno)
                if log:
                    log('exception on a path: %s' % det)
                pt = h._witness()
                if pt == 'unsat':
                    continue
                if pt is None:
                    res['undecided'].append('exception ' + det)
                    continue
                found = Found()
                found.label = lab
                found.detail = det
                found.points = [h.inputs_at(pt)] + [h.inputs_at(p) for p in ctx.get_points()[:3]]
            if found is not None:
                key = found.label.split('[')[0]
                if key in handled:
                    continue
                core.CUR = None
                conf = None
                for inp in found.points:
                    r = run_concrete(inst, inp)
                    if r[0] == 'fail':
                        conf = (inp, r)
                        break
                core.CUR = ctx
                if conf:
                    handled.add(key)
                    handled.add(conf[1][1].split('[')[0])
                    res['violations'].append(dict(instance=inst.name, label=conf[1][1], detail=conf[1][2],
                                                  solver_label=found.label, inputs=conf[0]))
                    # the rest of the exploration only looks for other violations
                    eng.deadline = min(eng.deadline, time.time() + 40)
                    if len(res['violations']) >= inst.params.get('max_viol', 6):
                        break
                else:
                    res['unconfirmed'].append(dict(label=found.label + ' ' + getattr(found, 'detail', ''), inputs=found.points[0], replay=r[:3]))
                    if len(res['unconfirmed']) > 20:
                        res['note'] = 'too many unconfirmed counterexamples'
                        break
                continue
            if getattr(ctx, 'ended', False):
                continue
            # witness of the path on the real code
            if res['witnesses'] < inst.witnesses or (res['paths'] % 17 == 0 and res['witnesses'] < 40):
                pts = ctx.get_points()
                if not pts:
                    pt = None
                    try:
                        ctx.dead = None
                        pt = h._witness()
                    except BaseException:
                        pt = None
                    pts = [pt] if pt not in (None, 'unsat') else []
                if pts:
                    inp = h.inputs_at(pts[0])
                    vals = []
                    for lab, x in h.record:
                        try:
                            vals.append((lab, pts[0].rx(x)))
                        except Exception:
                            vals.append((lab, None))
                    core.CUR = None
                    r = run_concrete(inst, inp)
                    core.CUR = ctx
                    if r[0] == 'ok':
                        res['witnesses'] += 1
                        if len(res['samples']) < 2:
                            res['samples'].append(inp)
                        bad = None
                        if len(r[3]) != len(vals):
                            bad = 'path differs (%d values instead of %d)' % (len(r[3]), len(vals))
                        else:
                            for (l1, a), (l2, b) in zip(vals, r[3]):
                                if l1 != l2:
                                    bad = 'path differs (%s / %s)' % (l1, l2)
                                    break
                                if a is not None and abs(a - b) > 1e-4 * max(1, abs(a), abs(b)):
                                    bad = '%s: encoded %.9g real %.9g' % (l1, a, b)
                                    break
                        if bad and len(res['mismatches']) < 5:
                            res['mismatches'].append(dict(what=bad, inputs=inp))
                    elif r[0] == 'fail':
                        key = r[1].split('[')[0]
                        if key not in handled:
                            handled.add(key)
                            res['violations'].append(dict(instance=inst.name, label=r[1], detail=r[2],
                                                          solver_label='witness of a path', inputs=inp))
                            eng.deadline = min(eng.deadline, time.time() + 40)
                    elif r[0] == 'harness':
                        res['status'] = 'error'
                        res['note'] = 'harness error in replay: %s' % r[2]
                        break
            res['paths'] += 1
    except Budget as e:
        res['status'] = 'budget'
        res['note'] = str(e)
    except Unsupported as e:
        res['status'] = 'unsupported'
        tb = traceback.extract_tb(e.__traceback__)
        w = [f for f in tb if '/meshmagick/' in f.filename or '/checks/' in f.filename]
        res['note'] = '%s (at %s:%s)' % (e, os.path.basename(w[-1].filename) if w else '?', w[-1].lineno if w else '?')
    except Exception as e:
        res['status'] = 'error'
        res['note'] = ''.join(traceback.format_exception(e)[-8:])
    finally:
        core.CUR = None
    if res['status'] != 'ok' and not res['violations']:
        # the encoding did not cover the instance: concrete runs are recorded but decide nothing by themselves
        for k in range(6):
            r = run_concrete(inst, {}, seed=seed * 100 + k)
            if r[0] == 'fail':
                res['violations'].append(dict(instance=inst.name, label=r[1], detail=r[2],
                                              solver_label='concrete run (encoding incomplete: %s)' % res['note'],
                                              inputs={}, seed=seed * 100 + k))
                break
    st = eng.stats
    res.update(functions=sorted(_FUNCS), explored=st.paths, decisions=st.decisions, queries=st.queries, sat=st.sat,
               unsat=st.unsat, unknown=st.unknown, solver_s=round(st.solver_s, 3), obligations=st.obligations,
               by_solver=st.by_solver, by_normal_form=st.by_normal_form, max_query_s=round(st.max_query_s, 3),
               aborted=st.aborted, pending=len(eng.stack), wall_s=round(time.time() - t0, 2))
    return res
