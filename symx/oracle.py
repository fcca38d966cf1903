"""Declarative graph facts as SMT formulas over adjacency Booleans."""
import itertools

import z3

from .core import FALSE as F, TRUE as T, is_false, is_true, mk_and, mk_not, mk_or



def And(*xs):
    xs = list(xs[0]) if len(xs) == 1 and not isinstance(xs[0], (z3.BoolRef, bool)) else list(xs)
    out = []
    for x in xs:
        if isinstance(x, bool):
            x = (T if x else F)
        if is_false(x):
            return F
        if not is_true(x):
            out.append(x)
    return T if not out else out[0] if len(out) == 1 else mk_and(out)


def Or(*xs):
    xs = list(xs[0]) if len(xs) == 1 and not isinstance(xs[0], (z3.BoolRef, bool)) else list(xs)
    out = []
    for x in xs:
        if isinstance(x, bool):
            x = (T if x else F)
        if is_true(x):
            return T
        if not is_false(x):
            out.append(x)
    return F if not out else out[0] if len(out) == 1 else mk_or(out)


def Not(x):
    if isinstance(x, bool):
        x = (T if x else F)
    if is_true(x):
        return F
    if is_false(x):
        return T
    return mk_not(x)


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    a = (T if a else F) if isinstance(a, bool) else a
    b = (T if b else F) if isinstance(b, bool) else b
    if is_true(a):
        return b
    if is_true(b):
        return a
    if is_false(a):
        return Not(b)
    if is_false(b):
        return Not(a)
    if a.ast.value == b.ast.value:
        return T
    return a == b


def Sum(bs):
    """Number of true Booleans, as an Int term."""
    bs = list(bs)
    if not bs:
        return z3.IntVal(0)
    return z3.Sum([z3.If(b, 1, 0) for b in bs])


def AtMost(bs, k):
    bs = [b for b in bs if not is_false(b)]
    n = sum(1 for b in bs if is_true(b))
    bs = [b for b in bs if not is_true(b)]
    k -= n
    if k < 0:
        return F
    if len(bs) <= k:
        return T
    return z3.PbLe([(b, 1) for b in bs], k) if k else And([Not(b) for b in bs])


def AtLeast(bs, k):
    bs = [b for b in bs if not is_false(b)]
    n = sum(1 for b in bs if is_true(b))
    bs = [b for b in bs if not is_true(b)]
    k -= n
    if k <= 0:
        return T
    if len(bs) < k:
        return F
    return z3.PbGe([(b, 1) for b in bs], k)


def Exactly(bs, k):
    return And(AtMost(bs, k), AtLeast(bs, k))


def reach(V, E, reflexive=True):
    """R[u, v]: v is reachable from u (by a nonempty walk unless reflexive)."""
    R = {(u, v): E(u, v) for u in V for v in V}
    for k in V:
        S = {}
        for u in V:
            for v in V:
                S[u, v] = Or(R[u, v], And(R[u, k], R[k, v]))
        R = S
    if reflexive:
        for v in V:
            R[v, v] = T
    return R


def within(V, E, s, maxlen=None):
    """D[i][v]: v is at distance at most i from s."""
    n = len(V) if maxlen is None else maxlen + 1
    D = [{v: (T if v == s else F) for v in V}]
    for i in range(n):
        p = D[-1]
        D.append({v: Or(p[v], Or([And(p[u], E(u, v)) for u in V if u != v])) for v in V})
    return D


def at_distance(V, E, s):
    """X[i][v]: v is at distance exactly i from s (i = 0..n-1)."""
    D = within(V, E, s)
    return [D[0]] + [{v: And(D[i][v], Not(D[i - 1][v])) for v in V} for i in range(1, len(V) + 1)]


def connected(V, E, used):
    """The vertices v with used[v] (z3 Booleans) are connected through used vertices (undirected E)."""
    V = list(V)
    W = lambda u, v: And(used[u], used[v], E(u, v))
    R = reach(V, W)
    return And([Implies(And(used[u], used[v]), R[u, v]) for u, v in itertools.combinations(V, 2)])


def pairs(V):
    return itertools.combinations(V, 2)
