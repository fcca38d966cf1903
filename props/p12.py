"""Chordal graphs and lexicographic breadth-first search."""
from props.common import *

BOUNDS = "every undirected simple graph on 0-5 labelled vertices, 6 vertices with at least 10 edges or at most 6 " \
         "(thorough: all on 6 vertices), every digraph with loops on 3 vertices for rejection"
OUTSIDE = "larger graphs"
EXPECT = ["chordal", "not chordal", "refused"]


def _configs():
    out = []
    for op in ("chordal", "lex"):
        for n in range(6):
            out.append(dict(name="%s n%d" % (op, n), op=op, n=n))
        out.append(dict(name=op + " list", op=op, n=5, kind="list", order="rev"))
        out.append(dict(name=op + " unorderable", op=op, n=3, kind="list", labels="mixed", order="rev", merge=0))
        out.append(dict(name=op + " n6 dense", op=op, n=6, least=10))
        out.append(dict(name=op + " n6 sparse", op=op, n=6, most=6))
        out.append(dict(name=op + " n6", op=op, n=6, tiers=["thorough"]))
    out.append(dict(name="refuse", op="refuse", n=3, loops=True))
    return out


CONFIGS = _configs()


def chordal_formula(V, E):
    """No chordless cycle of length four or more."""
    bad = []
    for C in cycles(V):
        k = len(C)
        if k >= 4:
            bad.append(And([E(C[i - 1], C[i]) for i in range(k)] +
                           [Not(E(C[i], C[j])) for i in range(k) for j in range(i + 2, k) if (i, j) != (0, k - 1)]))
    return Not(Or(bad))


PROBES = """
from .chordal import is_chordal, perfect_elimination_ordering
from .lex_bfs import lex_bfs

def refuse(G):
    try:
        is_chordal(G)
    except ValueError:
        fact("refused")

def lex(G):
    list_facts("L", lex_bfs(G))

def chordal(G):
    fact("yes", is_chordal(G))
    try:
        L = list(perfect_elimination_ordering(G))
    except ValueError:
        fact("refused")
    else:
        list_facts("L", L)
"""


def merged(m, cfg):
    op = cfg["op"]
    G, V, E = m.graph(directed=op == "refuse")
    f = m.run(HELPERS + PROBES, op, [G])
    if op == "refuse":
        m.check("only undirected graphs accepted", Iff(f("refused"), Not(undirected_formula(V, E))))
        m.cover("refused", f("refused"))
        return
    before = lambda u, v: f("L", "before", u, v)
    if op == "lex":
        merged_list(m, "order", f, "L", V)
        for a, b, d in itertools.permutations(V, 3):
            m.check("lexicographic label rule",
                    Implies(And(before(a, b), before(b, d), E(a, d), Not(E(a, b))),
                            Or([And(before(x, a), E(x, b), Not(E(x, d))) for x in V])))
        return
    ch = chordal_formula(V, E)
    m.check("chordality test", Iff(f("yes"), ch))
    m.check("elimination ordering exactly for chordal graphs", Iff(f("refused"), Not(ch)))
    merged_list(m, "ordering", f, "L", V, lambda v: ch)
    for v, x, y in itertools.permutations(V, 3):
        if V.index(x) < V.index(y):
            m.check("later neighbours are adjacent",
                    Implies(And(before(v, x), before(v, y), E(v, x), E(v, y)), E(x, y)))
    m.cover("chordal", ch)
    m.cover("not chordal", Not(ch))


def harness(c, cfg):
    op = cfg["op"]
    if op == "refuse":
        G, V, E = graph(c, cfg, directed=True)
        und = And([Not(E(v, v)) for v in V] + [Iff(E(u, v), E(v, u)) for u, v in pairs(V)])
        r, exc = c.attempt(c.mod("chordal").is_chordal, G)
        c.check("only undirected graphs accepted", Iff(exc is None, und))
        c.check("with ValueError", exc is None or isinstance(exc, ValueError))
        c.outcome("accepted" if exc is None else "refused")
        return
    G, V, E = graph(c, cfg)
    if op == "lex":
        L = list(c.mod("lex_bfs").lex_bfs(G))
        c.observe(len(L))
        c.check("every vertex once", len(L) == len(V) and set(L) == set(V))
        for k in range(len(L)):
            for j in range(k):
                for i in range(j):
                    a, b, d = L[i], L[j], L[k]
                    c.check("lexicographic label rule",
                            Or(Not(E(a, d)), E(a, b), Or([And(E(x, b), Not(E(x, d))) for x in L[:i]])))
        return
    m = c.mod("chordal")
    r = bool(m.is_chordal(G))
    L, exc = c.attempt(m.perfect_elimination_ordering, G)
    c.observe((r, type(exc).__name__))
    c.outcome("chordal" if r else "not chordal")
    ch = c.memo("ch", lambda: chordal_formula(V, E))
    c.check("chordality test", Iff(r, ch))
    c.check("elimination ordering exactly for chordal graphs", Iff(exc is None, ch))
    c.check("rejected with ValueError", exc is None or isinstance(exc, ValueError))
    if exc is None:
        L = list(L)
        c.check("ordering lists every vertex once", len(L) == len(V) and set(L) == set(V))
        for i, v in enumerate(L):
            for x, y in pairs(L[i + 1:]):
                c.check("later neighbours are adjacent", Or(Not(E(v, x)), Not(E(v, y)), E(x, y)))
