"""Minimum path and chain decompositions, maximum antichains."""
from props.common import *

BOUNDS = "every acyclic digraph on 0-4 vertices in every vertex order, on 5 vertices with at most 5 edges " \
         "(thorough: all on 5 vertices, 6 vertices with at most 6 edges in index order); optimality against every " \
         "alternative by a solver witness"
OUTSIDE = "larger graphs"
EXPECT = ["one path", "several paths"]


def _configs():
    out = []
    for op in ("path", "chain", "anti"):
        for n in range(5):
            out.append(dict(name="%s n%d" % (op, n), op=op, n=n))
        out.append(dict(name=op + " list", op=op, n=4, kind="list", order="rev"))
        out.append(dict(name=op + " unorderable", op=op, n=3, kind="list", labels="mixed", order="rev", merge=0))
        out.append(dict(name=op + " n5 sparse", op=op, n=5, most=5))
        out.append(dict(name=op + " n5", op=op, n=5, tiers=["thorough"]))
        out.append(dict(name=op + " n6 index order", op=op, n=6, upper=True, most=7, tiers=["thorough"]))
    out.append(dict(name="refuse n3", op="refuse", n=3, loops=True))
    out.append(dict(name="n5 index order", op="path", n=5, upper=True))
    out.append(dict(name="chain n5 reverse index order", op="chain", n=5, lower=True))
    out.append(dict(name="anti n5 index order", op="anti", n=5, upper=True))
    return out


CONFIGS = _configs()


PROBES = """
from .partial_order import MinimumPathDecomposition, MinimumChainDecomposition, MaximumAntichain

def refuse(G):
    try:
        MaximumAntichain(G)
    except ValueError:
        fact("refused")

def anti(G):
    for v in MaximumAntichain(G):
        fact(("in", v))

def paths(P):
    count = 0
    seen = set()
    for L in P:
        last = None
        fact("empty", not L)
        for v in L:
            fact(("on", v))
            fact("twice", v in seen)
            seen.add(v)
            if last is not None:
                fact(("next", last, v))
            last = v
        count += 1
    fact(("count", count))

def path(G):
    paths(MinimumPathDecomposition(G))

def chain(G):
    paths(MinimumChainDecomposition(G))
"""


def merged(m, cfg):
    n, op = cfg["n"], cfg["op"]
    sel = None
    if cfg.get("upper"):
        sel = {(i, j) for i in range(n) for j in range(n) if i < j}
    if cfg.get("lower"):
        sel = {(i, j) for i in range(n) for j in range(n) if i > j}
    G, V, E = m.graph(directed=True, pairs=sel)
    W = reach(V, E, reflexive=False)
    acyclic = And([Not(W[v, v]) for v in V])
    if op == "refuse":
        f = m.run(PROBES, "refuse", [G])
        m.check("cyclic graphs refused, acyclic ones not", Iff(f("refused"), Not(acyclic)))
        return
    m.assume(m.guard(acyclic))
    f = m.run(PROBES, op, [G])
    if op == "anti":
        A = {v: f("in", v) for v in V}
        m.check("antichain of vertices", Not(Or([f(*k) for k in m.facts if k[1] not in V])))
        for u, v in pairs(V):
            m.check("pairwise unrelated", Implies(And(A[u], A[v]), And(Not(W[u, v]), Not(W[v, u]))))
        w = {v: m.witness("a%d" % i) for i, v in enumerate(V)}
        free = And([Or(Not(w[u]), Not(w[v]), And(Not(W[u, v]), Not(W[v, u]))) for u, v in pairs(V)])
        for k in range(n):
            m.check("no larger antichain", Implies(AtMost(list(A.values()), k), Not(And(free, AtLeast(list(w.values()), k + 1)))))
        return
    F = E if op == "path" else (lambda u, v: W[u, v])
    m.check("no empty path", Not(f("empty")))
    m.check("no vertex twice", Not(f("twice")))
    for u in V:
        m.check("each vertex on a path", f("on", u))
        for v in V:
            m.check("paths follow edges", Implies(f("next", u, v), F(u, v)))
    m.check("nothing but vertices", Not(Or([f(*k) for k in m.facts if k[0] == "on" and k[1] not in V])))
    w = {(u, v): m.witness("s%d_%d" % (V.index(u), V.index(v))) for u in V for v in V if u != v}
    alt = And([Implies(w[u, v], F(u, v)) for u, v in w] +
              [AtMost([w[u, v] for v in V if v != u], 1) for u in V] +
              [AtMost([w[v, u] for v in V if v != u], 1) for u in V])
    for k in range(n + 1):
        m.check("no decomposition with fewer paths",
                Not(And(f("count", k), alt, AtLeast(list(w.values()), n - k + 1))))
    m.check("number of paths", Or([f("count", k) for k in range(n + 1)]))
    m.cover("one path", f("count", 1))
    m.cover("several paths", f("count", 2))


def harness(c, cfg):
    n = cfg["n"]
    sel = None
    if cfg.get("upper"):
        sel = {(i, j) for i in range(n) for j in range(n) if i < j}
    if cfg.get("lower"):
        sel = {(i, j) for i in range(n) for j in range(n) if i > j}
    G, V, E = c.digraph(n, loops=cfg.get("loops", False), labels=cfg.get("labels", "int"),
                        kind=cfg.get("kind", "set"), order=cfg.get("order"), pairs=sel)
    W = c.memo("W", lambda: reach(V, E, reflexive=False))
    acyclic = c.memo("acyc", lambda: And([Not(W[v, v]) for v in V]))
    m = c.mod("partial_order")
    op = cfg["op"]
    if op == "refuse":
        r, exc = c.attempt(m.MaximumAntichain, G)
        c.check("cyclic graphs refused, acyclic ones not", Iff(exc is None, acyclic))
        c.check("with ValueError", exc is None or isinstance(exc, ValueError))
        return
    c.assume(acyclic)
    if "most" in cfg:
        edge_count(c, V, E, most=cfg["most"], directed=True)
    if op == "anti":
        A = set(m.MaximumAntichain(G))
        c.observe(A)
        c.check("antichain of vertices", A <= set(V))
        c.check("pairwise unrelated", And([And(Not(W[u, v]), Not(W[v, u])) for u, v in pairs(sorted(A, key=V.index))]))
        w = {v: c.wbool("a") for v in V}
        free = And([Or(Not(w[u]), Not(w[v]), And(Not(W[u, v]), Not(W[v, u]))) for u, v in pairs(V)])
        c.check("no larger antichain", Not(And(free, AtLeast(list(w.values()), len(A) + 1))))
        return
    F = E if op == "path" else (lambda u, v: W[u, v])
    P = [list(x) for x in (m.MinimumPathDecomposition(G) if op == "path" else m.MinimumChainDecomposition(G))]
    c.observe(len(P))
    c.outcome("one path" if len(P) == 1 else "several paths")
    allv = [v for L in P for v in L]
    c.check("no empty path", all(P))
    c.check("each vertex on exactly one path", len(allv) == len(V) and set(allv) == set(V))
    c.check("paths follow edges", And([F(L[i], L[i + 1]) for L in P for i in range(len(L) - 1)]))
    w = {(u, v): c.wbool("s") for u in V for v in V if u != v}
    alt = And([Implies(w[u, v], F(u, v)) for u, v in w] +
              [AtMost([w[u, v] for v in V if v != u], 1) for u in V] +
              [AtMost([w[v, u] for v in V if v != u], 1) for u in V])
    c.check("no decomposition with fewer paths", Not(And(alt, AtLeast(list(w.values()), len(V) - len(P) + 1))))
