"""Hamiltonian cycles of degree-three graphs."""
import z3

from props.common import *

BOUNDS = "every graph of maximum degree three on 1-5 vertices and every larger-degree graph on 5 vertices for " \
         "rejection, graphs with degrees 2-3 on 6 vertices, cubic graphs on 8 vertices containing a fixed spanning " \
         "path, two 5-cycles joined by any perfect matching (Petersen family), an 8-cycle with any chords, a 10-cycle with " \
         "any perfect matching of chosen chords; thorough: all cubic graphs on 8 vertices, degrees 2-3 on 7 vertices, 10- and 12-cycles with any chords; " \
         "completeness against every cyclic arrangement by solver witness"
OUTSIDE = "larger graphs"
EXPECT = ["none", "one", "several", "rejected"]


def _configs():
    out = [dict(name="n%d" % n, n=n, lo=0, hi=3) for n in range(1, 5)]
    out.append(dict(name="n5", n=5, lo=0, hi=3))
    out.append(dict(name="n5 list", n=5, lo=1, hi=3, kind="list", order="rev"))
    out.append(dict(name="n4 unorderable", n=4, lo=1, hi=3, kind="list", labels="mixed", order="rev", merge=0))
    out.append(dict(name="n6", n=6, lo=2, hi=3, most=9))
    out.append(dict(name="reject n5", n=5, reject=True, most=7))
    path8 = [(i, i + 1) for i in range(7)]
    out.append(dict(name="cubic n8 path", n=8, lo=3, hi=3, fixed=path8))
    pet = [(i, (i + 1) % 5) for i in range(5)] + [(5 + i, 5 + (i + 1) % 5) for i in range(5)]
    out.append(dict(name="petersen family", n=10, lo=3, hi=3, fixed=pet,
                    free=[(i, 5 + j) for i in range(5) for j in range(5)]))
    def chords(n, maxlen=None):
        cyc = [(i, (i + 1) % n) for i in range(n)]
        free = [(i, j) for i in range(n) for j in range(i + 2, n) if (i, j) != (0, n - 1)]
        return dict(n=n, lo=3, hi=3, fixed=cyc, free=free)
    odd = [(i, j) for i in range(10) for j in range(i + 3, 10, 2) if (i, j) != (0, 9)]
    out.append(dict(name="10-cycle with some chords", **dict(chords(10), free=odd + [(0, 2), (1, 3), (4, 6), (5, 7), (4, 8)])))
    out.append(dict(name="10-cycle with chords", **dict(chords(10), tiers=["thorough"], merge_s=2400)))
    out.append(dict(name="8-cycle with chords or not", **dict(chords(8), lo=2)))
    out.append(dict(name="12-cycle with chords", **dict(chords(12), tiers=["thorough"])))
    out.append(dict(name="10-cycle with chords or not", **dict(chords(10), lo=2, tiers=["thorough"])))
    out.append(dict(name="cubic n8", n=8, lo=3, hi=3, tiers=["thorough"]))
    out.append(dict(name="n7", n=7, lo=2, hi=3, tiers=["thorough"]))
    out.append(dict(name="n6 lo1", n=6, lo=1, hi=3, tiers=["thorough"]))
    return out


CONFIGS = _configs()


def ham_formula(V, E):
    """Edge variables of an arbitrary Hamiltonian cycle, and the formula saying so."""
    es = [e for e in pairs(V) if not is_false(E(*e))]
    x = {frozenset(e): z3.Bool("!x_%d_%d" % (V.index(e[0]), V.index(e[1]))) for e in es}
    parts = [Implies(x[frozenset(e)], E(*e)) for e in es]
    for v in V:
        parts.append(Exactly([x[frozenset(e)] for e in es if v in e], 2))
    for k in range(2, len(V) - 1):
        for S in itertools.combinations(V[1:], k):
            if k > 2:
                parts.append(Or([x[frozenset(e)] for e in es if (e[0] in S) != (e[1] in S)]))
    return x, And(parts) if len(V) >= 3 else F


PROBES = """
from .cubic_ham import hamiltonian_cycles

def refuse(G):
    try:
        list(hamiltonian_cycles(G))
    except ValueError:
        fact("refused")

def cycles(G):
    seen = set()
    for H in hamiltonian_cycles(G):
        E = []
        for u in sorted(H):
            for v in sorted(H[u]):
                if u < v:
                    E.append((u, v))
                fact("one way", u not in H[v])
        t = tuple(E)
        fact(("cycle", t))
        fact("twice", t in seen)
        seen.add(t)
"""


def merged(m, cfg):
    G, V, E = m.graph()
    n = len(V)
    deg = lambda v: [m.guard(E(v, w)) for w in V if w != v]
    if cfg.get("reject"):
        f = m.run(PROBES, "refuse", [G])
        m.check("larger degrees rejected", Iff(f("refused"), Not(And([AtMost([E(v, w) for w in V if w != v], 3) for v in V]))))
        m.cover("rejected", f("refused"))
        return
    for v in V:
        m.assume(m.I.G.atmost([g ^ 1 for g in deg(v)], n - 1 - cfg["lo"]))
        m.assume(m.I.G.atmost(deg(v), cfg["hi"]))
    f = m.run(PROBES, "cycles", [G])
    m.check("no cycle twice", Not(f("twice")))
    m.check("cycles are undirected", Not(f("one way")))
    got = {k[1]: f(*k) for k in m.facts if k[0] == "cycle"}
    for C in got:
        m.check("cycle of edges", Implies(got[C], And([E(u, v) for u, v in C])))
        nb = {v: [a + b - v for a, b in C if v in (a, b)] for v in V}
        ok = all(len(nb[v]) == 2 for v in V) and len(C) == n
        if ok:
            seen = {V[0]}
            for _ in V:
                seen |= {w for v in seen for w in nb[v]}
            ok = len(seen) == n
        if not ok:
            m.check("one cycle through all vertices", Not(got[C]))
    x, ham = ham_formula(V, E)
    given = [Implies(got[C], Not(And([x[frozenset(e)] for e in C]))) for C in got if all(frozenset(e) in x for e in C)]
    m.check("no further Hamiltonian cycle", Not(And([ham] + given)))
    m.cover("none", Not(Or(list(got.values()))))
    m.cover("one", Exactly(list(got.values()), 1))
    m.cover("several", AtLeast(list(got.values()), 2))


def harness(c, cfg):
    G, V, E = graph(c, cfg)
    m = c.mod("cubic_ham")
    deg = lambda v: [E(v, w) for w in V if w != v]
    if cfg.get("reject"):
        r, exc = c.attempt(lambda: list(m.hamiltonian_cycles(G)))
        small = And([AtMost(deg(v), 3) for v in V])
        c.check("larger degrees rejected", Iff(exc is None, small))
        c.check("with ValueError", exc is None or isinstance(exc, ValueError))
        if exc is not None:
            c.outcome("rejected")
        return
    c.assume(And([AtMost(deg(v), cfg["hi"]) for v in V] + [AtLeast(deg(v), cfg["lo"]) for v in V]))
    found = []
    for H in m.hamiltonian_cycles(G):
        found.append({v: set(H[v]) for v in H})
    c.observe(len(found))
    c.outcome("none" if not found else "one" if len(found) == 1 else "several")
    sets = []
    for H in found:
        c.check("cycle through all vertices", set(H) == set(V) and all(len(H[v]) == 2 for v in H) and
                all(u in H[v] for u in H for v in H[u]))
        c.check("cycle of edges", And([E(u, v) for u in H for v in H[u]]))
        seen, prev, v = [V[0]], None, V[0]
        while True:
            nxt = [w for w in H[v] if w != prev]
            if not nxt:
                break
            prev, v = v, nxt[0]
            if v == V[0]:
                break
            seen.append(v)
            if len(seen) > len(V):
                break
        c.check("single cycle", len(seen) == len(V))
        sets.append(frozenset(frozenset((u, v)) for u in H for v in H[u]))
    c.check("no cycle twice", len(set(sets)) == len(sets))
    x, ham = c.memo("ham", lambda: ham_formula(V, E))
    c.check("no further Hamiltonian cycle", Not(And([ham] + [Not(And([x[e] for e in S])) for S in sets])))
