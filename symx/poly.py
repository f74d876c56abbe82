"""Sparse multivariate polynomials with exact rational coefficients.

A polynomial is a dict {monomial: coefficient}; a monomial is a tuple of (var, exp) pairs sorted by var index.
Variables carrying a square rule (square roots, absolute values, sines) never appear with an exponent > 1 after
`reduce`: their square is replaced by the polynomial the rule gives (`Rules`)."""
from fractions import Fraction
from math import gcd, isqrt

ONE = ()


class Rules(object):
    """v -> Poly for v*v (per path)."""
    def __init__(self):
        self.sq = {}


RULES = Rules()


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    out = []
    i = j = 0
    la, lb = len(a), len(b)
    while i < la and j < lb:
        va, ea = a[i]
        vb, eb = b[j]
        if va == vb:
            out.append((va, ea + eb))
            i += 1
            j += 1
        elif va < vb:
            out.append(a[i])
            i += 1
        else:
            out.append(b[j])
            j += 1
    if i < la:
        out.extend(a[i:])
    elif j < lb:
        out.extend(b[j:])
    return tuple(out)


def mdiv(a, b):
    """a / b or None"""
    if not b:
        return a
    d = dict(a)
    for v, e in b:
        x = d.get(v, 0) - e
        if x < 0:
            return None
        if x:
            d[v] = x
        else:
            del d[v]
    return tuple(sorted(d.items()))


def mkey(m):
    """graded lexicographic key"""
    return (sum(e for _, e in m), tuple((-v, e) for v, e in m))


def norm_coef(c):
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c


class Poly(object):
    __slots__ = ('t', '_h', '_z', '_vars')

    def __init__(self, t):
        self.t = t
        self._h = None
        self._z = None
        self._vars = None

    @staticmethod
    def const(c):
        c = norm_coef(c)
        return Poly({ONE: c}) if c != 0 else Poly({})

    @staticmethod
    def var(i):
        return Poly({((i, 1),): 1})

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def is_zero(self):
        return not self.t

    def is_const(self):
        return not self.t or (len(self.t) == 1 and ONE in self.t)

    def const_value(self):
        return self.t.get(ONE, 0)

    def vars(self):
        if self._vars is None:
            self._vars = frozenset(v for m in self.t for v, _ in m)
        return self._vars

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __add__(self, o):
        if not self.t:
            return o
        if not o.t:
            return self
        if len(o.t) > len(self.t):
            self, o = o, self
        t = dict(self.t)
        for m, c in o.t.items():
            x = t.get(m, 0) + c
            if x == 0:
                t.pop(m, None)
            else:
                t[m] = norm_coef(x)
        return Poly(t)

    def __sub__(self, o):
        if not o.t:
            return self
        t = dict(self.t)
        for m, c in o.t.items():
            x = t.get(m, 0) - c
            if x == 0:
                t.pop(m, None)
            else:
                t[m] = norm_coef(x)
        return Poly(t)

    def scale(self, k):
        if k == 0:
            return Poly({})
        if k == 1:
            return self
        return Poly({m: norm_coef(c * k) for m, c in self.t.items()})

    def mul_raw(self, o):
        if not self.t or not o.t:
            return Poly({})
        if len(o.t) > len(self.t):
            self, o = o, self
        t = {}
        for mb, cb in o.t.items():
            for ma, ca in self.t.items():
                m = mmul(ma, mb)
                t[m] = t.get(m, 0) + ca * cb
        return Poly({m: norm_coef(c) for m, c in t.items() if c != 0})

    def __mul__(self, o):
        if o.is_const():
            return self.scale(o.const_value())
        if self.is_const():
            return o.scale(self.const_value())
        return self.mul_raw(o).reduce()

    def reduce(self):
        sq = RULES.sq
        if not sq:
            return self
        p = self
        while True:
            todo = None
            for m in p.t:
                for v, e in m:
                    if e >= 2 and v in sq:
                        todo = True
                        break
                if todo:
                    break
            if not todo:
                return p
            acc = {}
            rest = Poly({})
            for m, c in p.t.items():
                hit = None
                for v, e in m:
                    if e >= 2 and v in sq:
                        hit = (v, e)
                        break
                if hit is None:
                    x = acc.get(m, 0) + c
                    acc[m] = x
                    continue
                v, e = hit
                base = tuple((w, f) for w, f in m if w != v)
                if e % 2:
                    base = mmul(base, ((v, 1),))
                q = sq[v]
                r = q
                for _ in range(e // 2 - 1):
                    r = r * q
                rest = rest + Poly({base: c}).mul_raw(r)
            p = Poly({m: norm_coef(c) for m, c in acc.items() if c != 0}) + rest

    def pow(self, n):
        r = Poly.const(1)
        b = self
        while n:
            if n & 1:
                r = r * b
            n >>= 1
            if n:
                b = b * b
        return r

    def lead(self):
        m = max(self.t, key=mkey)
        return m, self.t[m]

    def content(self):
        """rational content with the sign of the leading coefficient"""
        if not self.t:
            return 0
        num = 0
        den = 1
        for c in self.t.values():
            if type(c) is Fraction:
                num = gcd(num, c.numerator)
                den = den * c.denominator // gcd(den, c.denominator)
            else:
                num = gcd(num, c)
        r = norm_coef(Fraction(num, den))
        if self.lead()[1] < 0:
            r = -r
        return r

    def mono_content(self):
        it = iter(self.t)
        d = dict(next(it))
        for m in it:
            md = dict(m)
            for v in list(d):
                e = min(d[v], md.get(v, 0))
                if e:
                    d[v] = e
                else:
                    del d[v]
            if not d:
                break
        return tuple(sorted(d.items()))

    def div_mono(self, m):
        if not m:
            return self
        return Poly({mdiv(k, m): c for k, c in self.t.items()})

    def exact_div(self, d, limit=4000):
        """self / d when the division is exact, else None (plain polynomial ring)"""
        if d.is_const():
            c = d.const_value()
            return self.scale(Fraction(1) / c)
        if not self.t:
            return self
        # quick rejects
        if not d.vars() <= self.vars():
            return None
        dm, dc = d.lead()
        r = dict(self.t)
        q = {}
        steps = 0
        ditems = list(d.t.items())
        while r:
            steps += 1
            if steps > limit:
                return None
            m = max(r, key=mkey)
            c = r[m]
            k = mdiv(m, dm)
            if k is None:
                return None
            f = norm_coef(Fraction(c) / dc)
            q[k] = f
            for em, ec in ditems:
                mm = mmul(em, k)
                x = r.get(mm, 0) - ec * f
                if x == 0:
                    r.pop(mm, None)
                else:
                    r[mm] = norm_coef(x)
        return Poly(q)

    def sqrt_exact(self):
        """polynomial q with q*q == self (leading coefficient positive), or None"""
        if not self.t:
            return self
        m, c = self.lead()
        if c < 0 or any(e % 2 for _, e in m):
            return None
        rc = rat_sqrt(c)
        if rc is None:
            return None
        qm = tuple((v, e // 2) for v, e in m)
        q = Poly({qm: rc})
        r = self - q.mul_raw(q)
        n = 0
        while r.t:
            n += 1
            if n > 40:
                return None
            rm, rcf = r.lead()
            k = mdiv(rm, qm)
            if k is None or mkey(k) >= mkey(qm):
                return None
            t = Poly({k: norm_coef(Fraction(rcf) / (2 * rc))})
            q2 = q + t
            r = r - t.mul_raw(q + q2)
            q = q2
        return q

    def evalf(self, val):
        s = 0.0
        for m, c in self.t.items():
            x = float(c)
            for v, e in m:
                x *= val[v] ** e
            s += x
        return s

    def evalf_mag(self, val):
        """(value, sum of magnitudes)"""
        s = 0.0
        g = 0.0
        for m, c in self.t.items():
            x = float(c)
            for v, e in m:
                x *= val[v] ** e
            s += x
            g += abs(x)
        return s, g

    def __repr__(self):
        return ' + '.join('%s*%s' % (c, '*'.join('v%d^%d' % p for p in m)) for m, c in self.t.items()) or '0'


def rat_sqrt(c):
    c = Fraction(c)
    if c < 0:
        return None
    a, b = isqrt(c.numerator), isqrt(c.denominator)
    if a * a == c.numerator and b * b == c.denominator:
        return norm_coef(Fraction(a, b))
    return None


def rat_sqfree(c):
    """c = a*a*b with b squarefree-ish positive integer (c > 0 rational)"""
    c = Fraction(c)
    n = c.numerator * c.denominator       # c = n / den^2
    a = 1
    p = 2
    m = n
    while p * p <= m and p < 2000:
        while m % (p * p) == 0:
            m //= p * p
            a *= p
        p += 1
    return norm_coef(Fraction(a, c.denominator)), m
