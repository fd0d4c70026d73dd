"""Exact rational functions, used to compare the arithmetic a function performs
with the formula it is meant to compute, rounding left aside.  A polynomial is
{monomial: coefficient}; a monomial is a sorted tuple of (variable, exponent)."""
from fractions import Fraction
from term import lin, cval

def pmul(a, b):
    r = {}
    for m, v in a.items():
        for n, w in b.items():
            d = dict(m)
            for x, e in n: d[x] = d.get(x, 0) + e
            k = tuple(sorted(d.items()))
            s = r.get(k, 0) + v * w
            if s: r[k] = s
            else: r.pop(k, None)
    return r

def padd(a, b, k=1):
    r = dict(a)
    for m, v in b.items():
        s = r.get(m, 0) + k * v
        if s: r[m] = s
        else: r.pop(m, None)
    return r

def monic_den(n, d):
    """cancel a common monomial and scale the denominator"""
    if not n: return {}, {(): Fraction(1)}
    if len(d) == 1:
        (m, v), = d.items()
        common = dict(m)
        for k in n:
            kk = dict(k)
            common = {x: min(e, kk.get(x, 0)) for x, e in common.items()}
        red = lambda k: tuple(sorted((x, e - common.get(x, 0)) for x, e in k if e - common.get(x, 0)))
        return {red(k): w / v for k, w in n.items()}, {red(m): Fraction(1)}
    if len(n) == len(d):
        m = next(iter(d))
        k = n.get(m, 0) / d[m]
        if k and all(n.get(x) == k * v for x, v in d.items()): return {(): k}, {(): Fraction(1)}
    return n, d

class R:
    def __init__(self, n, d=None):
        self.n, self.d = monic_den(n, d or {(): Fraction(1)})
    def __add__(self, o):
        o = const(o)
        if self.d == o.d: return R(padd(self.n, o.n), self.d)
        return R(padd(pmul(self.n, o.d), pmul(o.n, self.d)), pmul(self.d, o.d))
    def __neg__(self): return R({m: -v for m, v in self.n.items()}, self.d)
    def __sub__(self, o): return self + (-const(o))
    def __mul__(self, o):
        o = const(o)
        return R(pmul(self.n, o.n), pmul(self.d, o.d))
    def __truediv__(self, o):
        o = const(o)
        if not o.n: raise ZeroDivisionError
        return R(pmul(self.n, o.d), pmul(self.d, o.n))
    def __pow__(self, k):
        r = const(1)
        for _ in range(k): r = r * self
        return r
    __radd__ = __add__
    __rmul__ = __mul__
    def __rsub__(self, o): return const(o) - self
    def __rtruediv__(self, o): return const(o) / self
    def zero(self): return not self.n
    def same(self, o): return not padd(pmul(self.n, const(o).d), pmul(const(o).n, self.d), -1)
    def vars(self): return {x for p in (self.n, self.d) for m in p for x, _ in m}
    def split(self, x):
        """(a, b) with self = a + b*x; None unless linear in x"""
        if any(y == x for m in self.d for y, _ in m): return None
        a, b = {}, {}
        for m, v in self.n.items():
            e = dict(m).get(x, 0)
            if e == 0: a[m] = v
            elif e == 1: b[tuple(y for y in m if y[0] != x)] = v
            else: return None
        return R(a, self.d), R(b, self.d)
    def positive(self):
        """all coefficients positive: the value is positive for positive variables"""
        return bool(self.n) and (all(v > 0 for p in (self.n, self.d) for v in p.values()))
    def at(self, x, o):
        """o in place of x"""
        def sub(p):
            r = const(0)
            for m, v in p.items():
                t = const(v)
                for y, e in m: t = t * (o ** e if y == x else var(y) ** e)
                r = r + t
            return r
        return sub(self.n) / sub(self.d)

def const(v):
    if isinstance(v, R): return v
    return R({(): Fraction(v)} if v else {})

def var(x): return R({((x, 1),): Fraction(1)})

class Reader:
    """the real number a term stands for before rounding.  names: {term: R}"""
    WAD = 10 ** 18
    def __init__(self, names):
        self.names, self.memo, self.roots = dict(names), {}, {}
    def val(self, t):
        """a decimal: the term counts units of 1e-18"""
        return self(t) / self.WAD
    def __call__(self, t):
        if t not in self.memo: self.memo[t] = self.read(t)
        return self.memo[t]
    def read(self, t):
        if t in self.names: return self.names[t]
        if t.op == "poly":
            c, ms = lin(t)
            r = const(c)
            for m, k in ms.items():
                p = const(k)
                for x in m: p = p * self(x)
                r = r + p
            return r
        if t.op == "div": return self(t.args[0]) / self(t.args[1])
        if t.op == "dpow":
            n = cval(t.args[1])
            if n is None: raise Unread(t)
            return self.val(t.args[0]) ** n * self.WAD
        if t.op == "dsqrt":
            x = "root%d" % len(self.roots)
            self.roots[x] = self.val(t.args[0])
            return var(x) * self.WAD
        raise Unread(t)

class Unread(Exception): pass
