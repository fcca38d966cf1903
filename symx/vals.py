"""Symbolic proxy values.

SymBool  truth value forks
SymInt   unbounded integer (z3 Int); hashing, indexing and int() fork over its values
BVInt    exact integer held in a bit-vector wide enough that nothing ever overflows
SymVal   opaque value with (optionally) a total order; constant hash, so that dicts and sets
         ask the engine about equality instead of relying on a concrete hash
"""
import z3

from .core import FALSE, TRUE, is_false, is_true

CONST_HASH = False     # symbolic integers hash to a constant (their dicts and sets are symx.containers)
ENGINE = None          # the engine of the current path, set by the driver


def eng():
    return ENGINE


def zbool(x):
    """z3 Bool for a bool, SymBool or z3 Bool."""
    if isinstance(x, SymBool):
        return x.z
    if isinstance(x, z3.BoolRef):
        return x
    return TRUE if x else FALSE


def zint(x):
    if isinstance(x, SymInt):
        return x.z
    if isinstance(x, SymBool):
        return z3.If(x.z, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, z3.ArithRef):
        return x
    if isinstance(x, BVInt):
        return z3.BV2Int(x.z, is_signed=True)
    return z3.IntVal(int(x))


class SymBool:
    __slots__ = ("z",)

    def __init__(self, z):
        self.z = z

    def __bool__(self):
        return ENGINE.branch(self.z)

    def __and__(self, o):
        if isinstance(o, (SymBool, bool)):
            return mkbool(z3.And(self.z, zbool(o)))
        return mkint(zint(self)) & o

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (SymBool, bool)):
            return mkbool(z3.Or(self.z, zbool(o)))
        return mkint(zint(self)) | o

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, (SymBool, bool)):
            return mkbool(z3.Xor(self.z, zbool(o)))
        return mkint(zint(self)) ^ o

    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, (SymBool, bool)):
            return mkbool(self.z == zbool(o))
        if isinstance(o, (int, SymInt)):
            return mkint(zint(self)) == o
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else sym_not(r)

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __repr__(self):
        return "SymBool(%s)" % self.z


def _arith(name):
    def f(self, o):
        return getattr(mkint(zint(self)), name)(o)
    return f


for _n in ("add radd sub rsub mul rmul floordiv rfloordiv mod rmod lt le gt ge lshift rlshift "
           "rshift rrshift neg abs pow").split():
    if _n in ("neg", "abs"):
        setattr(SymBool, "__%s__" % _n, (lambda n: lambda self: getattr(mkint(zint(self)), n)())("__%s__" % _n))
    else:
        setattr(SymBool, "__%s__" % _n, _arith("__%s__" % _n))


def mkbool(z):
    if is_true(z):
        return True
    if is_false(z):
        return False
    return SymBool(z)


def sym_not(x):
    if isinstance(x, SymBool):
        return mkbool(z3.Not(x.z))
    return not x


def mkint(z):
    z = z3.simplify(z)
    if z3.is_int_value(z):
        return z.as_long()
    return SymInt(z)


def _isnum(o):
    return isinstance(o, (int, SymInt, SymBool, BVInt)) and not isinstance(o, float)


class SymInt:
    """Python int over z3's unbounded integers."""
    __slots__ = ("z",)

    def __init__(self, z):
        self.z = z

    def _bin(self, o, f):
        if not _isnum(o):
            return NotImplemented
        return mkint(f(self.z, zint(o)))

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: b + a)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._bin(o, lambda a, b: b * a)

    def _div(self, a, b):
        # Python floor division from z3's Euclidean one
        if b == 0 if isinstance(b, int) else bool(mkbool(zint(b) == 0)):
            raise ZeroDivisionError("integer division or modulo by zero")
        za, zb = zint(a), zint(b)
        q = za / zb
        r = za % zb
        neg = z3.And(zb < 0, r != 0)
        return z3.If(neg, q - 1, q), z3.If(neg, r + zb, r)

    def __floordiv__(self, o): return mkint(self._div(self, o)[0]) if _isnum(o) else NotImplemented
    def __rfloordiv__(self, o): return mkint(self._div(o, self)[0]) if _isnum(o) else NotImplemented
    def __mod__(self, o): return mkint(self._div(self, o)[1]) if _isnum(o) else NotImplemented
    def __rmod__(self, o): return mkint(self._div(o, self)[1]) if _isnum(o) else NotImplemented

    def __divmod__(self, o): return self // o, self % o

    def __neg__(self): return mkint(-self.z)
    def __pos__(self): return self
    def __abs__(self): return mkint(z3.If(self.z < 0, -self.z, self.z))

    def __pow__(self, o, m=None):
        o = int(o)
        r = 1
        for _ in range(o):
            r = self * r
        return r

    def __rpow__(self, o): return o ** int(self)

    # anything bitwise, fractional or container-like falls back to forking on the value
    def __lshift__(self, o): return int(self) << int(o)
    def __rlshift__(self, o): return o << int(self)
    def __rshift__(self, o): return int(self) >> int(o)
    def __rrshift__(self, o): return o >> int(self)
    def __and__(self, o): return int(self) & int(o) if _isnum(o) else NotImplemented
    def __rand__(self, o): return int(o) & int(self) if _isnum(o) else NotImplemented
    def __or__(self, o): return int(self) | int(o) if _isnum(o) else NotImplemented
    def __ror__(self, o): return int(o) | int(self) if _isnum(o) else NotImplemented
    def __xor__(self, o): return int(self) ^ int(o) if _isnum(o) else NotImplemented
    def __rxor__(self, o): return int(o) ^ int(self) if _isnum(o) else NotImplemented
    def __invert__(self): return -self - 1

    def __truediv__(self, o): return int(self) / (int(o) if isinstance(o, (SymInt, SymBool)) else o)
    def __rtruediv__(self, o): return o / int(self)
    def __float__(self): return float(int(self))

    def _cmp(self, o, f):
        if isinstance(o, float):
            return f(int(self), o)
        if not _isnum(o):
            return NotImplemented
        return mkbool(z3.simplify(f(self.z, zint(o))))

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)
    def __eq__(self, o): return self._cmp(o, lambda a, b: a == b)
    def __ne__(self, o): return self._cmp(o, lambda a, b: a != b)

    def __bool__(self): return ENGINE.branch(self.z != 0)
    def __int__(self): return ENGINE.concretize(self.z)
    __index__ = __int__
    def __hash__(self): return 7 if CONST_HASH else hash(int(self))
    def bit_length(self): return int(self).bit_length()
    def __trunc__(self): return self
    def __round__(self, n=None): return self
    def __floor__(self): return self
    def __ceil__(self): return self
    def __str__(self): return str(int(self))
    def __repr__(self): return str(int(self))
    def __format__(self, s): return format(int(self), s)


class BVInt:
    """Python int in a signed bit-vector; every operation widens so that it stays exact."""
    __slots__ = ("z", "lo", "hi")

    def __init__(self, z, lo, hi):
        self.z, self.lo, self.hi = z, lo, hi

    @staticmethod
    def width(lo, hi):
        return max((~lo if lo < 0 else lo).bit_length(), (~hi if hi < 0 else hi).bit_length()) + 1

    @staticmethod
    def make(z, lo, hi):
        z = z3.simplify(z)
        if z3.is_bv_value(z):
            return z.as_signed_long()
        w = BVInt.width(lo, hi)
        if z.size() > w:
            z = z3.simplify(z3.Extract(w - 1, 0, z))
        return BVInt(z, lo, hi)

    @staticmethod
    def of(o):
        """(term, lo, hi) of an operand."""
        if isinstance(o, BVInt):
            return o.z, o.lo, o.hi
        if isinstance(o, SymBool):
            return z3.If(o.z, z3.BitVecVal(1, 2), z3.BitVecVal(0, 2)), 0, 1
        o = int(o)
        return z3.BitVecVal(o, BVInt.width(o, o)), o, o

    @staticmethod
    def ext(z, w):
        return z3.SignExt(w - z.size(), z) if z.size() < w else z

    def _bin(self, o, f, bounds, rev=False):
        if not _isnum(o) or isinstance(o, SymInt):
            return NotImplemented
        a, b = BVInt.of(self), BVInt.of(o)
        if rev:
            a, b = b, a
        lo, hi = bounds(a[1], a[2], b[1], b[2])
        w = max(BVInt.width(lo, hi), a[0].size(), b[0].size())
        return BVInt.make(f(BVInt.ext(a[0], w), BVInt.ext(b[0], w)), lo, hi)

    _badd = staticmethod(lambda a, b, c, d: (a + c, b + d))
    _bsub = staticmethod(lambda a, b, c, d: (a - d, b - c))
    _bmul = staticmethod(lambda a, b, c, d: (min(a * c, a * d, b * c, b * d), max(a * c, a * d, b * c, b * d)))

    def __add__(self, o): return self._bin(o, lambda x, y: x + y, self._badd)
    __radd__ = __add__
    def __sub__(self, o): return self._bin(o, lambda x, y: x - y, self._bsub)
    def __rsub__(self, o): return self._bin(o, lambda x, y: x - y, self._bsub, True)
    def __mul__(self, o): return self._bin(o, lambda x, y: x * y, self._bmul)
    __rmul__ = __mul__

    @staticmethod
    def _bbits(a, b, c, d):
        w = max(BVInt.width(a, b), BVInt.width(c, d)) - 1
        lo = 0 if a >= 0 and c >= 0 else -(1 << w)
        return lo, (1 << w) - 1

    @staticmethod
    def _band(a, b, c, d):
        if a >= 0 and c >= 0:
            return 0, min(b, d)
        if a >= 0:
            return 0, b
        if c >= 0:
            return 0, d
        return BVInt._bbits(a, b, c, d)

    def __and__(self, o): return self._bin(o, lambda x, y: x & y, self._band)
    __rand__ = __and__
    def __or__(self, o): return self._bin(o, lambda x, y: x | y, self._bbits)
    __ror__ = __or__
    def __xor__(self, o): return self._bin(o, lambda x, y: x ^ y, self._bbits)
    __rxor__ = __xor__
    def __invert__(self): return BVInt.make(~self.z, ~self.hi, ~self.lo)
    def __neg__(self): return 0 - self
    def __pos__(self): return self

    def __abs__(self):
        return -self if self < 0 else self

    def _shl(self, a, b):
        (az, al, ah), (bz, bl, bh) = BVInt.of(a), BVInt.of(b)
        if bl < 0:
            if mkbool(bz < 0):
                raise ValueError("negative shift count")
            bl = 0
        if bh > 16:
            bh = ENGINE.upper(bz, bh)
        lo, hi = min(al, al << bh), max(ah, ah << bh)
        w = max(BVInt.width(lo, hi), bz.size() + 1, az.size())
        return BVInt.make(BVInt.ext(az, w) << BVInt.ext(bz, w), lo, hi)

    def __lshift__(self, o):
        if not _isnum(o) or isinstance(o, SymInt):
            return NotImplemented
        return self._shl(self, o)

    def __rlshift__(self, o): return self._shl(o, self)

    def _shr(self, a, b):
        (az, al, ah), (bz, bl, bh) = BVInt.of(a), BVInt.of(b)
        if bl < 0:
            if mkbool(bz < 0):
                raise ValueError("negative shift count")
            bl = 0
        lo, hi = min(al, al >> bl), max(ah, ah >> bl)
        if al < 0:
            hi = max(hi, -1)
        w = max(az.size(), bz.size() + 1)
        return BVInt.make(BVInt.ext(az, w) >> BVInt.ext(bz, w), lo, hi)

    def __rshift__(self, o): return self._shr(self, o) if _isnum(o) else NotImplemented
    def __rrshift__(self, o): return self._shr(o, self)

    def __floordiv__(self, o):
        if isinstance(o, int) and o > 0 and o & (o - 1) == 0:
            return self >> (o.bit_length() - 1)
        return int(self) // int(o)

    def __rfloordiv__(self, o): return o // int(self)

    def __mod__(self, o):
        if isinstance(o, int) and o > 0 and o & (o - 1) == 0:
            return self & (o - 1)
        return int(self) % int(o)

    def __rmod__(self, o): return o % int(self)
    def __divmod__(self, o): return self // o, self % o
    def __pow__(self, o, m=None):
        if m is None and type(o) is int and 1 <= o <= 4:
            r = self
            for _ in range(o - 1):
                r = r * self
            return r
        return pow(int(self), int(o), m)

    def __rpow__(self, o):
        if o == 2:
            return 1 << self
        return o ** int(self)

    def __truediv__(self, o): return int(self) / o
    def __rtruediv__(self, o): return o / int(self)
    def __float__(self): return float(int(self))

    def _cmp(self, o, f):
        if isinstance(o, float):
            return f(int(self), o)
        if not _isnum(o) or isinstance(o, SymInt):
            return NotImplemented
        a, b = BVInt.of(self), BVInt.of(o)
        w = max(a[0].size(), b[0].size())
        return mkbool(z3.simplify(f(BVInt.ext(a[0], w), BVInt.ext(b[0], w))))

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)
    def __eq__(self, o): return self._cmp(o, lambda a, b: a == b)
    def __ne__(self, o): return self._cmp(o, lambda a, b: a != b)
    def __bool__(self): return ENGINE.branch(self.z != 0)
    def __int__(self): return ENGINE.concretize(self.z)
    __index__ = __int__
    def __hash__(self): return 7 if CONST_HASH else hash(int(self))
    def bit_length(self): return int(self).bit_length()
    def bit_count(self): return int(self).bit_count()
    def __str__(self): return str(int(self))
    def __repr__(self): return str(int(self))
    def __format__(self, s): return format(int(self), s)


class SymVal:
    """Opaque hashable value; equality (and order, for Ordered) is decided by the solver."""
    __slots__ = ("z", "name")

    def __init__(self, z, name):
        self.z, self.name = z, name

    def __eq__(self, o):
        if self is o:
            return True
        if not isinstance(o, SymVal):
            return NotImplemented
        return mkbool(z3.simplify(self.z == o.z))

    def __ne__(self, o):
        if self is o:
            return False
        if not isinstance(o, SymVal):
            return NotImplemented
        return mkbool(z3.simplify(self.z != o.z))

    def __hash__(self):
        return 7

    def __repr__(self):
        return "<%s>" % self.name

    __str__ = __repr__


class Ordered(SymVal):
    __slots__ = ()

    def _cmp(self, o, f):
        if not isinstance(o, SymVal):
            return NotImplemented
        return mkbool(z3.simplify(f(self.z, o.z)))

    __hash__ = SymVal.__hash__

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)


class BitVec:
    """Nonnegative integer of fixed width used as a key: constant hash, equality decided by the solver.
    Supports masking only; results stay below 2**width for masks below it."""
    __slots__ = ("z",)

    def __init__(self, z):
        self.z = z

    def _of(self, o):
        if isinstance(o, BitVec):
            return o.z
        if isinstance(o, int) and o < 1 << self.z.size():
            return z3.BitVecVal(o, self.z.size())
        return None

    def _bin(self, o, f):
        t = self._of(o)
        return NotImplemented if t is None else BitVec(z3.simplify(f(self.z, t)))

    def __and__(self, o): return self._bin(o, lambda a, b: a & b)
    __rand__ = __and__
    def __or__(self, o): return self._bin(o, lambda a, b: a | b)
    __ror__ = __or__
    def __xor__(self, o): return self._bin(o, lambda a, b: a ^ b)
    __rxor__ = __xor__

    def __rshift__(self, o): return self._bin(o, lambda a, b: z3.LShR(a, b))

    def __eq__(self, o):
        t = self._of(o)
        return NotImplemented if t is None else mkbool(z3.simplify(self.z == t))

    def __ne__(self, o):
        t = self._of(o)
        return NotImplemented if t is None else mkbool(z3.simplify(self.z != t))

    def __bool__(self): return ENGINE.branch(self.z != 0)
    def __hash__(self): return 7
    def __repr__(self): return "<bits>"
    __str__ = __repr__


def _frac(o):
    if isinstance(o, float):
        n, d = o.as_integer_ratio()
        return z3.Q(n, d)
    return z3.RealVal(o)


class SymReal:
    """Real number; floats meeting it are taken at their exact value (rounding is outside the model)."""
    __slots__ = ("z",)

    def __init__(self, z):
        self.z = z

    @staticmethod
    def of(o):
        if isinstance(o, SymReal):
            return o.z
        if isinstance(o, SymInt):
            return z3.ToReal(o.z)
        if isinstance(o, (int, float)):
            return _frac(o)
        return None

    def _bin(self, o, f):
        t = SymReal.of(o)
        return NotImplemented if t is None else SymReal(z3.simplify(f(self.z, t)))

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    __radd__ = __add__
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    __rmul__ = __mul__

    def __truediv__(self, o):
        t = SymReal.of(o)
        if t is None:
            return NotImplemented
        if ENGINE.branch(t == 0):
            raise ZeroDivisionError("division by zero")
        return SymReal(z3.simplify(self.z / t))

    def __rtruediv__(self, o):
        if ENGINE.branch(self.z == 0):
            raise ZeroDivisionError("division by zero")
        return SymReal(z3.simplify(SymReal.of(o) / self.z))

    def __pow__(self, o):
        if o == 2:
            return self * self
        raise TypeError("power of a symbolic real")

    def __neg__(self): return SymReal(z3.simplify(-self.z))
    def __pos__(self): return self
    def __abs__(self): return SymReal(z3.If(self.z < 0, -self.z, self.z))

    def _cmp(self, o, f):
        t = SymReal.of(o)
        return NotImplemented if t is None else mkbool(z3.simplify(f(self.z, t)))

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)
    def __eq__(self, o): return self._cmp(o, lambda a, b: a == b)
    def __ne__(self, o): return self._cmp(o, lambda a, b: a != b)
    def __bool__(self): return ENGINE.branch(self.z != 0)
    def __hash__(self): return 7
    def __repr__(self): return "<real>"
    __str__ = __repr__
    real = property(lambda self: self)
    imag = 0

    def __format__(self, spec):
        if not FORMAT:
            raise TypeError("formatting a symbolic real")
        return FORMAT[0](self, spec)


FORMAT = []             # how a symbolic real is written: [function of the number and the format]


def sqrt(t):
    """Square root of a term known not to be negative: a fresh number with that square."""
    r = z3.Real("!sqrt(%s)" % t.sexpr())
    ENGINE.assume(z3.And(r >= 0, r * r == t))
    return r


class SymComplex:
    """Complex number with real and imaginary parts that may be symbolic."""
    __slots__ = ("real", "imag")

    def __init__(self, real, imag):
        self.real, self.imag = real, imag

    @staticmethod
    def of(o):
        if isinstance(o, (SymComplex, complex, SymReal, int, float)):
            return o.real, o.imag
        return None

    def _bin(self, o, f):
        t = SymComplex.of(o)
        return NotImplemented if t is None else f(self.real, self.imag, *t)

    def __add__(self, o): return self._bin(o, lambda a, b, c, d: SymComplex(a + c, b + d))
    __radd__ = __add__
    def __sub__(self, o): return self._bin(o, lambda a, b, c, d: SymComplex(a - c, b - d))
    def __rsub__(self, o): return self._bin(o, lambda a, b, c, d: SymComplex(c - a, d - b))
    def __mul__(self, o): return self._bin(o, lambda a, b, c, d: SymComplex(a * c - b * d, a * d + b * c))
    __rmul__ = __mul__

    @staticmethod
    def _div(a, b, c, d):
        if isinstance(d, (int, float)) and d == 0:
            return SymComplex(a / c, b / c)
        n = c * c + d * d
        return SymComplex((a * c + b * d) / n, (b * c - a * d) / n)

    def __truediv__(self, o): return self._bin(o, SymComplex._div)
    def __rtruediv__(self, o): return self._bin(o, lambda a, b, c, d: SymComplex._div(c, d, a, b))
    def __neg__(self): return SymComplex(-self.real, -self.imag)
    def __abs__(self):
        n = self.real * self.real + self.imag * self.imag
        if hasattr(n, "sqrt"):
            return n.sqrt()
        return SymReal(sqrt(z3.simplify(SymReal.of(n))))

    def conjugate(self): return SymComplex(self.real, -self.imag)

    def __eq__(self, o):
        t = SymComplex.of(o)
        if t is None:
            return NotImplemented
        return mkbool(z3.And(SymReal.of(self.real) == SymReal.of(t[0]), SymReal.of(self.imag) == SymReal.of(t[1])))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else sym_not(r)

    def __bool__(self): return bool(self != 0)
    def __hash__(self): return 7
    def __repr__(self): return "<complex>"


SYMBOLIC_INTS = (SymInt, BVInt, BitVec)


# ---------------------------------------------------------------------------
# graphs
# ---------------------------------------------------------------------------

class SymNbrs:
    """Neighbour collection of one vertex: membership of each candidate is an SMT Boolean.

    Acts like a set/list/dict of the neighbours; anything beyond iteration and membership
    works on a real set (or list / dict) made on first use.
    """

    def __init__(self, graph, v):
        self._g, self._v, self._real = graph, v, None

    def _mat(self):
        if self._real is None:
            kind = self._g.kind
            items = list(self._iter())
            if kind == "dict":
                self._real = {w: self._g.value(self._v, w) for w in items}
            else:
                self._real = {"set": set, "list": list, "tuple": tuple, "frozenset": frozenset}[kind](items)
        return self._real

    def _iter(self):
        br = ENGINE.branch
        e = self._g.adj
        v = self._v
        for w in self._g.order(v):
            if br(e[v, w]):
                yield w

    def __iter__(self):
        return iter(self._real) if self._real is not None else self._iter()

    def __contains__(self, w):
        if self._real is not None:
            return w in self._real
        try:
            c = self._g.adj.get((self._v, w))
        except TypeError:
            return w in self._mat()
        return c is not None and ENGINE.branch(c)

    def __len__(self):
        return len(self._mat())

    def __bool__(self):
        if self._real is not None:
            return bool(self._real)
        for _ in self._iter():
            return True
        return False

    def __getitem__(self, w):
        if self._real is None and self._g.kind == "dict":
            if w in self:
                return self._g.value(self._v, w)
            raise KeyError(w)
        return self._mat()[w]

    def __getattr__(self, name):
        return getattr(self._mat(), name)

    def __eq__(self, o): return self._mat() == (o._mat() if isinstance(o, SymNbrs) else o)
    def __ne__(self, o): return not self == o
    __hash__ = None

    def _op(name):
        def f(self, o):
            return getattr(self._mat(), name)(o._mat() if isinstance(o, SymNbrs) else o)
        return f

    for _n in "and or sub xor rand ror rsub rxor le lt ge gt add".split():
        locals()["__%s__" % _n] = _op("__%s__" % _n)
    for _n in "iand ior isub ixor iadd setitem delitem".split():
        pass

    def __ior__(self, o):
        self._mat()
        self._real |= o
        return self

    def __iand__(self, o):
        self._mat()
        self._real &= o
        return self

    def __isub__(self, o):
        self._mat()
        self._real -= o
        return self

    def __setitem__(self, k, x):
        self._mat()[k] = x

    def __delitem__(self, k):
        del self._mat()[k]

    def __reversed__(self): return reversed(list(self))
    def __repr__(self): return repr(self._mat())


class SymGraph:
    """Graph over fixed vertex labels with symbolic adjacency, read-only mapping protocol."""

    def __init__(self, verts, adj, kind="set", order=None, value=None):
        self.verts, self.adj, self.kind = list(verts), adj, kind
        self._order = order
        self._value = value
        self._nbrs = {}
        self._extra = None

    def order(self, v):
        if self._order is not None:
            return self._order(v)
        return [w for w in self.verts if (v, w) in self.adj]

    def value(self, v, w):
        return self._value(v, w) if self._value else None

    def __iter__(self): return iter(list(self.verts))
    def __len__(self): return len(self.verts)
    def __contains__(self, v): return v in self.verts
    def __bool__(self): return bool(self.verts)

    def __getitem__(self, v):
        n = self._nbrs.get(v)
        if n is None:
            if v not in self.verts:
                raise KeyError(v)
            n = self._nbrs[v] = SymNbrs(self, v)
        return n

    def get(self, v, default=None):
        return self[v] if v in self else default

    def keys(self): return dict.fromkeys(self.verts).keys()
    def values(self): return [self[v] for v in self.verts]
    def items(self): return [(v, self[v]) for v in self.verts]
    def copy(self): return {v: self[v] for v in self.verts}
    def __eq__(self, o): return {v: self[v] for v in self.verts} == o
    __hash__ = None
    def __repr__(self): return repr(dict(self.items()))
    def __reversed__(self): return reversed(self.verts)

    def __setitem__(self, v, x):
        if v not in self.verts:
            self.verts.append(v)
        self._nbrs[v] = x

    def __delitem__(self, v):
        self[v]
        self.verts.remove(v)
        self._nbrs.pop(v, None)
