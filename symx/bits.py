"""Integers used as bit masks, some of whose bits are symbolic.

A Mask stands for the integer `known` with the bits in `sym` put in (known has zeros there).
The bit tricks for "drop the lowest bit" (x & (x - 1)) and "lowest bit" (x & ~(x - 1)) stay
symbolic; tests fork on one formula; anything else forks on the undecided bits one by one.
"""
import z3

from . import vals
from .oracle import And, Iff, Not, Or
from .core import is_false, is_true


def make(known, sym):
    out = {}
    for i, b in sym.items():
        if is_true(b):
            known |= 1 << i
        elif not is_false(b):
            out[i] = b
    return Mask(known, out) if out else known


def _plain(f):
    return lambda self, o: f(self.force(), o.force() if isinstance(o, (Mask, Minus)) else o)


class Mask:
    __slots__ = ("known", "sym")

    def __init__(self, known, sym):
        self.known, self.sym = known, sym

    def bit(self, i):
        return self.sym.get(i, bool(self.known >> i & 1))

    def force(self):
        """The plain integer, forking on every symbolic bit."""
        n = self.known
        for i in sorted(self.sym):
            if vals.ENGINE.branch(self.sym[i]):
                n |= 1 << i
        return n

    def _bitwise(self, o, op, plain):
        if isinstance(o, Minus):
            o = o.force()
        if isinstance(o, (int, vals.SymInt, vals.BVInt)) and not isinstance(o, Mask):
            o = Mask(int(o), {})
        if not isinstance(o, Mask):
            return NotImplemented
        where = set(self.sym) | set(o.sym)
        hole = 0
        for i in where:
            hole |= 1 << i
        return make(plain(self.known, o.known) & ~hole, {i: op(self.bit(i), o.bit(i)) for i in where})

    def __and__(self, o):
        if isinstance(o, Minus) and o.same(self):
            return self.dropped() if not o.inverted else self.lowest()
        return self._bitwise(o, And, lambda a, b: a & b)

    __rand__ = __and__

    def __or__(self, o):
        return self._bitwise(o, Or, lambda a, b: a | b)

    __ror__ = __or__

    def __xor__(self, o):
        return self._bitwise(o, lambda a, b: Not(Iff(a, b)), lambda a, b: a ^ b)

    __rxor__ = __xor__

    def __invert__(self):
        hole = 0
        for i in self.sym:
            hole |= 1 << i
        return Mask(~self.known & ~hole, {i: Not(b) for i, b in self.sym.items()})

    def positions(self):
        assert self.known >= 0
        return sorted(set(self.sym) | {i for i in range(self.known.bit_length()) if self.known >> i & 1})

    def dropped(self):
        """x & (x - 1): all but the lowest one bit."""
        below, out, known = [], {}, 0
        for i in self.positions():
            b = self.bit(i)
            out[i] = And(b, Or(below))
            below.append(b)
        return make(0, {i: z3.BoolVal(x) if isinstance(x, bool) else x for i, x in out.items()})

    def lowest(self):
        """x & ~(x - 1)."""
        below, out = [], {}
        for i in self.positions():
            b = self.bit(i)
            out[i] = And(b, Not(Or(below)))
            if b is True:
                break
            below.append(b)
        return make(0, {i: z3.BoolVal(x) if isinstance(x, bool) else x for i, x in out.items()})

    def __sub__(self, o):
        if isinstance(o, int) and o == 1 and self.known >= 0:
            return Minus(self, False)
        return self.force() - o

    def __bool__(self):
        if self.known:
            return True
        return vals.ENGINE.branch(Or(list(self.sym.values())))

    def equal(self, o):
        if isinstance(o, int):
            o = Mask(int(o), {})
        if not isinstance(o, Mask):
            return False
        where = set(self.sym) | set(o.sym)
        hole = 0
        for i in where:
            hole |= 1 << i
        if (self.known ^ o.known) & ~hole:
            return False
        return And([Iff(self.bit(i), o.bit(i)) for i in sorted(where)])

    def __eq__(self, o):
        if isinstance(o, Minus):
            o = o.force()
        if not isinstance(o, (int, Mask)):
            return NotImplemented
        r = self.equal(o)
        return r if isinstance(r, bool) else vals.mkbool(r)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r if isinstance(r, bool) else vals.mkbool(Not(r.z)) if isinstance(r, vals.SymBool) else not r

    def __hash__(self):
        return hash(self.force())

    def __index__(self):
        return self.force()

    __int__ = __index__

    def __format__(self, spec):
        return format(self.force(), spec)

    __lt__ = _plain(lambda a, b: a < b)
    __le__ = _plain(lambda a, b: a <= b)
    __gt__ = _plain(lambda a, b: a > b)
    __ge__ = _plain(lambda a, b: a >= b)
    __add__ = __radd__ = _plain(lambda a, b: a + b)
    __rsub__ = _plain(lambda a, b: b - a)
    __mul__ = __rmul__ = _plain(lambda a, b: a * b)
    __mod__ = _plain(lambda a, b: a % b)
    __floordiv__ = _plain(lambda a, b: a // b)
    __lshift__ = _plain(lambda a, b: a << b)
    __rshift__ = _plain(lambda a, b: a >> b)

    def __neg__(self):
        return Minus(self, True)       # -x == ~(x - 1)

    def bit_length(self):
        return self.force().bit_length()

    def bit_count(self):
        return self.force().bit_count()

    def __repr__(self):
        return "<mask %x +%d>" % (self.known, len(self.sym))


class Minus:
    """x - 1 for a mask x, or its complement."""
    __slots__ = ("x", "inverted")

    def __init__(self, x, inverted):
        self.x, self.inverted = x, inverted

    def same(self, m):
        if m is self.x:
            return True
        return m.known == self.x.known and m.sym.keys() == self.x.sym.keys() and all(
            m.sym[i].eq(self.x.sym[i]) for i in m.sym)

    def force(self):
        n = self.x.force() - 1
        return ~n if self.inverted else n

    def __invert__(self):
        return Minus(self.x, not self.inverted)

    def __and__(self, o):
        if isinstance(o, Mask):
            return o & self
        return self.force() & (o.force() if isinstance(o, Minus) else o)

    __rand__ = __and__

    __or__ = __ror__ = _plain(lambda a, b: a | b)
    __xor__ = __rxor__ = _plain(lambda a, b: a ^ b)
    __eq__ = _plain(lambda a, b: a == b)
    __ne__ = _plain(lambda a, b: a != b)
    __lt__ = _plain(lambda a, b: a < b)
    __gt__ = _plain(lambda a, b: a > b)
    __add__ = __radd__ = _plain(lambda a, b: a + b)
    __sub__ = _plain(lambda a, b: a - b)

    def __hash__(self):
        return hash(self.force())

    def __bool__(self):
        return bool(self.force())

    def __index__(self):
        return self.force()

    __int__ = __index__
