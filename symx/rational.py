"""Real numbers that are quotients of polynomials in the inputs, kept in normal form.

Arithmetic is exact polynomial arithmetic; only comparisons, signs and zero tests reach the solver,
as conditions on polynomials.
"""
from fractions import Fraction

import z3

from . import vals

ONE = {(): Fraction(1)}


def padd(a, b, k=1):
    r = dict(a)
    for m, x in b.items():
        t = r.get(m, 0) + k * x
        if t:
            r[m] = t
        else:
            r.pop(m, None)
    return r


def mmul(m, n):
    d = dict(m)
    for v, e in n:
        d[v] = d.get(v, 0) + e
    return tuple(sorted(d.items()))


def pmul(a, b):
    r = {}
    for m, x in a.items():
        for n, y in b.items():
            k = mmul(m, n)
            t = r.get(k, 0) + x * y
            if t:
                r[k] = t
            else:
                r.pop(k, None)
    return r


def lead(a):
    """leading monomial in a fixed lexicographic order of the variables"""
    vs = sorted({v for m in a for v, _ in m})
    return max(a, key=lambda m: [dict(m).get(v, 0) for v in vs])


def pdiv(a, b):
    """a / b if exact, else None"""
    if not a:
        return {}
    vs = sorted({v for p in (a, b) for m in p for v, _ in m})
    key = lambda m: [dict(m).get(v, 0) for v in vs]
    lb = max(b, key=key)
    q = {}
    a = dict(a)
    while a:
        la = max(a, key=key)
        d = dict(la)
        for v, e in lb:
            d[v] = d.get(v, 0) - e
        if any(e < 0 for e in d.values()):
            return None
        m = tuple(sorted((v, e) for v, e in d.items() if e))
        x = a[la] / b[lb]
        q[m] = x
        a = padd(a, pmul({m: x}, b), -1)
    return q


def fsqrt(x):
    from math import isqrt
    if x < 0:
        return None
    p, q = isqrt(x.numerator), isqrt(x.denominator)
    return Fraction(p, q) if p * p == x.numerator and q * q == x.denominator else None


def psqrt(a):
    """p with p*p = a, or None"""
    if not a:
        return {}
    vs = sorted({v for m in a for v, _ in m})
    key = lambda m: [dict(m).get(v, 0) for v in vs]
    la = max(a, key=key)
    if any(e % 2 for _, e in la):
        return None
    x = fsqrt(a[la])
    if x is None:
        return None
    root = {tuple((v, e // 2) for v, e in la): x}
    lr = next(iter(root))
    for _ in range(200):
        rest = padd(a, pmul(root, root), -1)
        if not rest:
            return root
        m = max(rest, key=key)
        d = dict(m)
        for v, e in lr:
            d[v] = d.get(v, 0) - e
        if any(e < 0 for e in d.values()):
            return None
        k = tuple(sorted((v, e) for v, e in d.items() if e))
        if key(k) >= key(lr):
            return None
        root = padd(root, {k: rest[m] / (2 * x)})
    return None


def term(a):
    """z3 term of a polynomial"""
    ts = []
    for m, x in sorted(a.items()):
        t = z3.Q(x.numerator, x.denominator)
        for v, e in m:
            for _ in range(e):
                t = t * z3.Real(v)
        ts.append(t)
    return z3.simplify(z3.Sum(ts)) if ts else z3.RealVal(0)


class Rat(vals.SymReal):
    """num / product of the denominators (all known not to be zero)"""
    __slots__ = ("num", "den")

    def __init__(self, num, den=()):
        keep = []
        for f in den:
            if list(f) == [()]:
                num = {m: x / f[()] for m, x in num.items()}
                continue
            q = pdiv(num, f)
            if q is None:
                keep.append(f)
            else:
                num = q
        self.num, self.den = num, tuple(keep)

    @staticmethod
    def var(name):
        return Rat({((name, 1),): Fraction(1)})

    @staticmethod
    def lift(o):
        if isinstance(o, Rat):
            return o
        if isinstance(o, (int, float, Fraction)):
            x = Fraction(o)
            return Rat({(): x} if x else {})
        return None

    def dens(self):
        d = ONE
        for f in self.den:
            d = pmul(d, f)
        return d

    @property
    def z(self):
        n = term(self.num)
        return n / term(self.dens()) if self.den else n

    def _add(self, o, k):
        if isinstance(o, complex):
            return vals.SymComplex(self + k * o.real, k * o.imag)
        o = Rat.lift(o)
        if o is None:
            return NotImplemented
        mine, other = list(self.den), []
        for f in o.den:                 # least common multiple of the listed factors
            if f in mine:
                mine.remove(f)
            else:
                other.append(f)
        a, b = self.num, o.num
        for f in other:
            a = pmul(a, f)
        for f in mine:
            b = pmul(b, f)
        return Rat(padd(a, b, k), list(self.den) + other)

    def __add__(self, o): return self._add(o, 1)
    __radd__ = __add__
    def __sub__(self, o): return self._add(o, -1)
    def __rsub__(self, o): return (-self)._add(o, 1)
    def __neg__(self): return Rat({m: -x for m, x in self.num.items()}, self.den)
    def __pos__(self): return self

    def __mul__(self, o):
        if isinstance(o, complex):
            return vals.SymComplex(self * o.real, self * o.imag)
        o = Rat.lift(o)
        return NotImplemented if o is None else Rat(pmul(self.num, o.num), self.den + o.den)
    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, complex):
            return vals.SymComplex(self, 0) / o
        o = Rat.lift(o)
        if o is None:
            return NotImplemented
        if not o.num or vals.ENGINE.branch(term(o.num) == 0):
            raise ZeroDivisionError("division by zero")
        n = self.num
        for f in o.den:
            n = pmul(n, f)
        return Rat(n, self.den + (o.num,))

    def __rtruediv__(self, o):
        if isinstance(o, complex):
            return vals.SymComplex(o.real / self, o.imag / self)
        o = Rat.lift(o)
        return NotImplemented if o is None else o / self

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 8:
            r = Rat(ONE)
            for _ in range(o):
                r = r * self
            return r
        raise TypeError("power")

    def sign(self):
        """a polynomial with the same sign"""
        n = self.num
        for f in self.den:
            n = pmul(n, f)
        return n

    def __abs__(self):
        return -self if bool(self < 0) else self

    def sqrt(self):
        n = psqrt(pmul(self.num, self.dens()))
        if n is None:
            raise TypeError("square root of a polynomial that is not a square")
        return abs(Rat(n, self.den))

    def _cmp(self, o, f):
        d = self - o if Rat.lift(o) is not None else NotImplemented
        if d is NotImplemented:
            return d
        if not d.num:
            return bool(z3.is_true(z3.simplify(f(z3.RealVal(0), z3.RealVal(0)))))
        return vals.mkbool(z3.simplify(f(term(d.sign()), z3.RealVal(0))))

    def __hash__(self): return 7
    def __bool__(self): return bool(self != 0)


def same(a, b):
    """a == b as a condition"""
    r = Rat.lift(a) == Rat.lift(b)
    return vals.zbool(r)
