"""Minimum spanning trees."""
import z3

from props.common import *

BOUNDS = "every undirected graph on 0-4 vertices with arbitrary (unbounded integer) weights, 5 vertices with at most 5 " \
         "edges; every weight function with possibly asymmetric weights on 3 vertices; minimality against every " \
         "spanning forest by solver witness; thorough: 5 vertices with at most 6 edges"
OUTSIDE = "larger graphs; non-integer weights (only compared and added)"
EXPECT = ["tree", "forest", "refused"]

CONFIGS = [dict(name="n%d" % n, n=n) for n in range(4)] + [
    dict(name="n4", n=4), dict(name="n4 unorderable labels", n=4, labels="mixed", order="rev", most=4),
    dict(name="n5 sparse", n=5, least=4, most=4, ), dict(name="C5", n=5, fixed=[(i, (i + 1) % 5) for i in range(5)], free=[]),
    dict(name="asymmetric", n=3, asym=True),
    dict(name="n5 5 edges", n=5, least=5, most=5, tiers=["thorough"]),
    dict(name="n4 ties", n=4, lo=0, hi=1)]


def harness(c, cfg):
    n = cfg["n"]
    V = c.labels(n, cfg.get("labels", "int"))
    adj, wt = {}, {}
    fixed = {tuple(sorted(e)) for e in cfg.get("fixed", [])}
    for j in range(n):
        for i in range(j):
            if (i, j) not in fixed and "free" in cfg and [i, j] not in cfg["free"]:
                continue
            b = T if (i, j) in fixed else c.zbool("e_%d_%d" % (i, j))
            adj[V[i], V[j]] = adj[V[j], V[i]] = b
            wt[V[i], V[j]] = wt[V[j], V[i]] = c.int("w_%d_%d" % (i, j), cfg.get("lo"), cfg.get("hi"))
            if cfg.get("asym"):
                wt[V[j], V[i]] = c.int("w_%d_%d" % (j, i))
    E = lambda u, v: adj.get((u, v), F)
    if "most" in cfg:
        edge_count(c, V, E, most=cfg["most"], least=cfg.get("least"))
    order = None
    if cfg.get("order") == "rev":
        order = lambda v: [w for w in V[::-1] if (v, w) in adj]
    G = c._graph(V, adj, "dict", order, value=lambda u, v: wt[u, v])
    Tree, exc = c.attempt(c.mod("minimum_spanning_tree").MinimumSpanningTree, G)
    if cfg.get("asym"):
        sym = And([Implies(E(u, v), c.z(wt[u, v]) == c.z(wt[v, u])) for u, v in pairs(V)])
        c.check("asymmetric weights refused", Iff(exc is None, sym))
        c.check("with ValueError", exc is None or isinstance(exc, ValueError))
        c.outcome("refused" if exc is not None else "tree")
        return
    c.check("accepted", exc is None)
    Tree = [tuple(e) for e in Tree]
    c.observe(len(Tree))
    c.outcome("tree" if len(Tree) == len(V) - 1 else "forest")
    c.check("tree edges are edges", And([E(u, v) for u, v in Tree]))
    R = c.memo("R", lambda: reach(V, E))
    comp = {v: {v} for v in V}
    for u, v in Tree:
        c.check("acyclic", comp[u] is not comp[v])
        s = comp[u] | comp[v]
        for x in s:
            comp[x] = s
    for u, v in pairs(V):
        c.check("connects what the graph connects", Iff(v in comp[u], R[u, v]))
    es = [e for e in pairs(V) if e in adj]

    def rival():
        x = {e: z3.Bool("!x_%d_%d" % (V.index(e[0]), V.index(e[1]))) for e in es}
        X = lambda u, v: x.get((u, v), x.get((v, u), F))
        RX = reach(V, X)
        return (And([Implies(x[e], E(*e)) for e in es] + [Iff(RX[u, v], R[u, v]) for u, v in pairs(V)]),
                z3.Sum([z3.If(x[e], c.z(wt[e]), 0) for e in es]) if es else z3.IntVal(0))
    ok, total = c.memo("rival", rival, values=True)
    mine = z3.Sum([c.z(wt[u, v]) for u, v in Tree]) if Tree else z3.IntVal(0)
    # a rival connecting the same vertices with less weight contains a lighter spanning forest only for
    # nonnegative weights, so the rival must also be acyclic
    c.check("no lighter spanning forest", Not(And(ok, AtMost_(c, V, es, len(Tree)), total < mine)))


def AtMost_(c, V, es, k):
    return c.memo(("atmost", k), lambda: AtMost([z3.Bool("!x_%d_%d" % (V.index(u), V.index(v))) for u, v in es], k))
