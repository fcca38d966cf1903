"""dict and set that keep symbolic integer and character keys symbolic.

A lookup asks the engine whether the key equals one of the keys present, instead of hashing its
value.  Used for the instrumented modules of properties that set CONTAINERS.  While no symbolic
key is involved these are the builtin types.
"""
import z3

from . import vals

_SYM = ()


def _types():
    global _SYM
    from . import load
    _SYM = (vals.SymInt, vals.BVInt, vals.BitVec, load.SymChar, load.SymStr, load.SymWord, vals.SymReal)
    return _SYM


def is_sym(k):
    t = type(k)
    if t is int or t is str:
        return False
    if t is tuple or t is frozenset or t is SxFrozen:
        return any(is_sym(x) for x in k)
    return isinstance(k, _SYM or _types())


def _member(k, keys):
    """Whether an integer equals one of these, as one query rather than one per key; None if not integers."""
    if isinstance(k, (vals.BVInt, vals.SymInt)) or type(k) is int:
        eqs = []
        for q in keys:
            if q is k:
                return True
            if not (type(q) is int or isinstance(q, (vals.BVInt, vals.SymInt))):
                return None
            e = q == k
            if e is True:
                return True
            if e is not False:
                eqs.append(e.z)
        return bool(vals.mkbool(z3.Or(eqs))) if eqs else False
    return None


class SxDict(dict):
    _nsym = 0                            # some key stored here has been symbolic

    def __init__(self, *a, **k):
        dict.__init__(self)
        if a:
            src = a[0]
            for x in (src.items() if hasattr(src, "items") else src):
                self[x[0]] = x[1]
        for x in k:
            self[x] = k[x]

    def _canon(self, k):
        if not self._nsym and not is_sym(k):
            return k
        for q in dict.keys(self):
            if q is k:
                return q
        for q in dict.keys(self):
            if q == k:
                return q
        return k

    def __contains__(self, k):
        if self._nsym or is_sym(k):
            r = _member(k, dict.keys(self))
            if r is not None:
                return r
        return dict.__contains__(self, self._canon(k))

    def __getitem__(self, k):
        if isinstance(k, vals.BVInt) and len(self) > 1 and all(type(v) is int for v in dict.values(self)):
            return self._select(k)
        c = self._canon(k)
        if c is k and is_sym(k) and not dict.__contains__(self, k):
            raise KeyError("symbolic key")
        return dict.__getitem__(self, c)

    def _select(self, k):
        """Table of plain integers read at a symbolic position: a term, no decision on which entry."""
        if not self.__contains__(k):
            raise KeyError("symbolic key")
        lo, hi = min(dict.values(self)), max(dict.values(self))
        w = vals.BVInt.width(lo, hi)
        r = None
        for q, v in dict.items(self):
            e = q == k
            if e is True:
                return v
            if e is False:
                continue
            v = z3.BitVecVal(v, w)
            r = v if r is None else z3.If(vals.zbool(e), v, r)
        return vals.BVInt.make(r, lo, hi)

    def __setitem__(self, k, v):
        c = self._canon(k)
        if c is k and is_sym(k):
            self._nsym = 1
        dict.__setitem__(self, c, v)

    def __delitem__(self, k): dict.__delitem__(self, self._canon(k))
    def get(self, k, d=None): return dict.get(self, self._canon(k), d)
    def pop(self, k, *a): return dict.pop(self, self._canon(k), *a)

    def setdefault(self, k, d=None):
        c = self._canon(k)
        if c is k and is_sym(k):
            self._nsym = 1
        return dict.setdefault(self, c, d)

    def update(self, *a, **k):
        for x, v in SxDict(*a, **k).items():
            self[x] = v

    def copy(self): return SxDict(self)

    @classmethod
    def fromkeys(cls, it, v=None):
        d = cls()
        for x in it:
            d[x] = v
        return d

    def __eq__(self, o):
        if not isinstance(o, dict):
            return NotImplemented
        if len(self) != len(o):
            return False
        for k in self:
            found = [q for q in o if q is k] or [q for q in o if q == k]
            if not found or not (self[k] == o[found[0]]):
                return False
        return True

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    __hash__ = None


def _mixed(cls, name):
    base = getattr(set, name)

    def f(self, *os):
        if not self._nsym and all(isinstance(o, (set, frozenset)) and not getattr(o, "_nsym", 0) for o in os):
            r = base(set(self), *os)
            return cls(r) if isinstance(r, (set, frozenset)) else r
        if name.startswith("__") and not all(isinstance(o, (set, frozenset)) for o in os):
            return NotImplemented
        return getattr(self, "_" + name.strip("_"))(*os)
    f.__name__ = name
    return f


class _SxBase:
    _nsym = 0

    def _canon(self, k):
        if not self._nsym and not is_sym(k):
            return k
        for q in self:
            if q is k:
                return q
        for q in self:
            if q == k:
                return q
        return k

    def _or(self, *os):
        return type(self)(list(self) + [x for o in os for x in o])
    _union = _or

    def _and(self, *os):
        os = [SxSet(o) for o in os]
        return type(self)([x for x in self if all(x in o for o in os)])
    _intersection = _and

    def _sub(self, *os):
        os = [SxSet(o) for o in os]
        return type(self)([x for x in self if not any(x in o for o in os)])
    _difference = _sub

    def _xor(self, o):
        o = SxSet(o)
        return type(self)([x for x in self if x not in o] + [x for x in o if x not in self])
    _symmetric_difference = _xor

    def _le(self, o):
        o = SxSet(o)
        return all(x in o for x in self)
    _issubset = _le

    def _ge(self, o): return all(x in self for x in o)
    _issuperset = _ge
    def _lt(self, o): return len(self) < len(o) and self._le(o)
    def _gt(self, o): return len(self) > len(o) and self._ge(o)
    def _isdisjoint(self, o): return not any(x in self for x in o)

    def __eq__(self, o):
        if not isinstance(o, (set, frozenset)):
            return NotImplemented
        return len(self) == len(o) and self._ge(o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r


class SxSet(_SxBase, set):
    def __init__(self, it=()):
        set.__init__(self)
        for x in it:
            self.add(x)

    def __contains__(self, k): return set.__contains__(self, self._canon(k))

    def add(self, k):
        c = self._canon(k)
        if c is k and is_sym(k):
            self._nsym = 1
        set.add(self, c)

    def remove(self, k): set.remove(self, self._canon(k))
    def discard(self, k): set.discard(self, self._canon(k))

    def update(self, *os):
        for o in os:
            for x in list(o):
                self.add(x)

    def __ior__(self, o):
        self.update(o)
        return self

    def difference_update(self, *os):
        for o in os:
            for x in list(o):
                self.discard(x)

    def __isub__(self, o):
        self.difference_update(o)
        return self

    def intersection_update(self, *os):
        keep = self._and(*os)
        for x in list(self):
            if not any(x is y for y in keep):
                set.remove(self, x)

    def __iand__(self, o):
        self.intersection_update(o)
        return self

    def copy(self): return SxSet(self)
    __hash__ = None


class SxFrozen(_SxBase, frozenset):
    def __new__(cls, it=()):
        if type(it) is SxFrozen:
            return it
        s = SxSet(it)
        o = frozenset.__new__(cls, list(s))
        o._nsym = s._nsym
        return o

    def __contains__(self, k): return frozenset.__contains__(self, self._canon(k))
    def __hash__(self): return 7 if self._nsym else frozenset.__hash__(self)


for _n in ("__or__ __and__ __sub__ __xor__ __le__ __ge__ __lt__ __gt__ union intersection difference "
           "symmetric_difference issubset issuperset isdisjoint").split():
    setattr(SxSet, _n, _mixed(SxSet, _n))
    setattr(SxFrozen, _n, _mixed(SxFrozen, _n))
