"""Breadth-first levels."""
from props.common import *

BOUNDS = "every digraph with self-loops on 1-3 vertices, every loop-free digraph on 4 vertices, 5 vertices with at " \
         "most 6 edges, undirected graphs on 5 vertices; every start vertex"
OUTSIDE = "larger graphs"
EXPECT = ["deep", "shallow"]

CONFIGS = [dict(name="n%d" % n, n=n, loops=True) for n in (1, 2, 3)] + [
    dict(name="n4", n=4), dict(name="list", n=3, loops=True, kind="list", labels="mixed", order="rev"),
    dict(name="n5", n=5, most=6, root0=True), dict(name="und n5", n=5, und=True),
    dict(name="und n6", n=6, und=True, root0=True),
    dict(name="n4 loops", n=4, loops=True, tiers=["thorough"]),
    dict(name="n5 9 edges", n=5, most=9, root0=True, tiers=["thorough"])]


PROBES = """
from .bfs import breadth_first_levels

def levels(G, root):
    i = 0
    for L in breadth_first_levels(G, root):
        for v in L:
            fact(("level", i, v))
            for w in L[v]:
                fact(("down", i, v, w))
        fact("empty", not L)
        i += 1
    fact(("count", i))
"""


def merged(m, cfg):
    G, V, E = m.graph(directed=not cfg.get("und"))
    for k, root in enumerate(V[:1] if cfg.get("root0") else V):
        m.fixed = {"root": k}
        f = m.run(PROBES, "levels", [G, root])
        D = at_distance(V, E, root)
        m.check("levels nonempty", Not(f("empty")))
        m.check("no more levels than vertices", Or([f("count", i) for i in range(1, len(V) + 1)]))
        for i in range(len(V)):
            for v in V:
                m.check("level %d is the vertices at that distance" % i, Iff(f("level", i, v), D[i][v]))
                for w in V:
                    m.check("edges recorded lead one level down",
                            Iff(f("down", i, v, w), And(D[i][v], E(v, w), D[i + 1][w] if i + 1 < len(V) else False)))
        m.cover("deep", Or([D[i][v] for i in range(2, len(V)) for v in V]))
        m.cover("shallow", Not(Or([D[i][v] for i in range(2, len(V)) for v in V])))
        m.finish()


def harness(c, cfg):
    G, V, E = graph(c, cfg, directed=not cfg.get("und"))
    root = V[0] if cfg.get("root0") else V[c.choice("root", range(len(V)))]
    levels = [{v: set(L[v]) for v in L} for L in c.mod("bfs").breadth_first_levels(G, root)]
    c.observe(levels)
    c.outcome("deep" if len(levels) > 2 else "shallow")
    D = c.memo(("D", V.index(root)), lambda: at_distance(V, E, root))
    c.check("levels nonempty", all(levels))
    c.check("no more levels than vertices", len(levels) <= len(V))
    for i in range(len(V)):
        L = levels[i] if i < len(levels) else {}
        c.check("level %d is the vertices at that distance" % i,
                And(set(L) <= set(V), And([Iff(v in L, D[i][v]) for v in V])))
        for v in L:
            c.check("edges recorded lead one level down",
                    And(L[v] <= set(V), And([Iff(w in L[v], And(E(v, w), D[i + 1][w])) for w in V])))
