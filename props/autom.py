"""Automata with free transitions and final states."""
from props.common import *


def truth(r):
    """truth value of an acceptance test, which may be a number"""
    from symx import vals
    if isinstance(r, vals.SYMBOLIC_INTS):
        return r.z != 0
    return vals.zbool(r if isinstance(r, vals.SymBool) else bool(r))


def word(c, n, k):
    """n symbols, 0..k-1 known and k unknown"""
    return [c.int("w%d" % i, 0, k) for i in range(n)]


def alphabet(c, k):
    if c.mode == "sym":
        from symx.containers import SxSet
        return SxSet(range(k))
    return set(range(k))


def symbolic(x):
    from symx import vals
    return isinstance(x, vals.SYMBOLIC_INTS)


def pick(rows, q, x, default):
    """entry of a table of terms at a state and symbol that may be terms"""
    from symx import vals
    r = default
    for (s, y), t in rows.items():
        g = And(vals.zint(q) == s, vals.zint(x) == y)
        r = z3.If(g, t, r)
    return z3.simplify(r)


def dfa(c, m, name, n, k):
    """deterministic automaton with free transitions and final states, state 0 initial"""
    T_ = {(s, x): c.int("%s_%d_%d" % (name, s, x), 0, n - 1) for s in range(n) for x in range(k)}
    F_ = {s: c.bool("%sf%d" % (name, s)) for s in range(n)}
    zt = {q: c.z(t) for q, t in T_.items()}
    zf = {s: c.zb(b) for s, b in F_.items()}

    class Free(m.DFA):
        kind = "dfa"

        def __init__(self):
            self.initial = 0
            self.alphabet = alphabet(c, k)

        def transition(self, q, x):
            if symbolic(q) or symbolic(x):
                from symx import vals
                return vals.SymInt(pick(zt, q, x, z3.IntVal(0)))
            return int(T_[q, x])

        def isfinal(self, q):
            if symbolic(q):
                from symx import vals
                return vals.mkbool(z3.simplify(Or([And(q.z == s, b) for s, b in zf.items()])))
            return bool(F_[q])

        def accepts(self, v):
            return runs(zt, zf, n, k, v)

        def accepts_word(self, v):
            return stopping(zt, zf, n, k, v)

        def over(self, other):
            """the same language through another automaton object"""
            other.accepts, other.kind = self.accepts, "dfa"
            return other
    return Free()


def runs(zt, zf, n, k, v):
    """acceptance of a word given as terms, state by state"""
    at = {s: (T if s == 0 else F) for s in range(n)}
    for x in v:
        at = {t: Or([And(at[s], x == y, zt[s, y] == t) for s in range(n) for y in range(k)]) for t in range(n)}
    return Or([And(at[s], zf[s]) for s in range(n)])


def nfa(c, m, name, n, k):
    """nondeterministic automaton with free initial states, transitions and final states"""
    I = [c.bool("%si%d" % (name, s)) for s in range(n)]
    T_ = {(s, x, t): c.bool("%s_%d_%d_%d" % (name, s, x, t)) for s in range(n) for x in range(k) for t in range(n)}
    F_ = [c.bool("%sf%d" % (name, s)) for s in range(n)]
    zt = {q: c.zb(b) for q, b in T_.items()}

    class Free(m.NFA):
        kind = "nfa"

        def __init__(self):
            self.alphabet = alphabet(c, k)

        @property
        def initial(self):
            return frozenset(s for s in range(n) if I[s])

        def transition(self, q, x):
            out = []
            for t in range(n):
                if symbolic(x):
                    b = c.decided(Or([And(x.z == y, zt[q, y, t]) for y in range(k)]))
                else:
                    b = bool(T_[q, x, t])
                if b:
                    out.append(t)
            return frozenset(out)

        def isfinal(self, q):
            return F_[q]

        def accepts(self, v):
            at = {s: c.zb(I[s]) for s in range(n)}
            for x in v:
                at = {t: Or([And(at[s], x == y, zt[s, y, t]) for s in range(n) for y in range(k)]) for t in range(n)}
            return Or([And(at[s], c.zb(F_[s])) for s in range(n)])
    return Free()


def stopping(zt, zf, n, k, v, initial=0):
    """acceptance of the word before the first end mark k"""
    at = {s: (T if s == initial else F) for s in range(n)}
    for x in v:
        at = {t: Or(And(at[t], x == k), Or([And(at[s], x == y, zt[s, y] == t) for s in range(n) for y in range(k)])) for t in range(n)}
    return Or([And(at[s], zf[s]) for s in range(n)])
