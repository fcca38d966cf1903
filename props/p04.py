"""Strongly connected components and condensation."""
from symx.oracle import *

BOUNDS = "all digraphs on 0-3 vertices with self-loops, all loop-free digraphs on 4 vertices, all labelled; " \
         "thorough: self-loops on 4 vertices, loop-free digraphs on 5 vertices with at most 9 edges"
OUTSIDE = "larger graphs"
EXPECT = ["acyclic", "one component", "mixed"]

CONFIGS = [dict(name="n%d" % n, n=n, loops=True) for n in range(4)] + [
    dict(name="n4", n=4, loops=False),
    dict(name="n3 list mixed", n=3, loops=True, kind="list", labels="mixed", order="rev"),
    dict(name="n5 sparse", n=5, loops=False, maxedges=5),
    dict(name="n4 loops", n=4, loops=True, tiers=["thorough"]),
    dict(name="n5 9 edges", n=5, loops=False, maxedges=9, tiers=["thorough"]),
]


PROBES = """
from .strong_connectivity import StronglyConnectedComponents, Condensation

def components(G, V):
    comps = StronglyConnectedComponents(G)
    count = 0
    seen = set()
    for C in comps:
        count += 1
        for u in C:
            fact(("vertex", u))
            fact("twice", u in seen)
            seen.add(u)
            for v in C:
                fact(("same", u, v))
            for v in C[u]:
                fact(("edge", u, v))
    fact("length", len(comps) != count)
    fact(("count", count))

def condensation(G, V):
    cond = Condensation(G)
    count = 0
    for A in cond:
        count += 1
        for u in A:
            fact(("vertex", u))
            for v in A:
                fact(("same", u, v))
        for B in cond[A]:
            fact("known", B not in cond)
            for u in A:
                for v in B:
                    fact(("joined", u, v))
    fact(("count", count))
"""


def merged(m, cfg):
    G, V, E = m.graph(directed=True)
    R = reach(V, E)
    mutual = {(u, v): And(R[u, v], R[v, u]) for u in V for v in V}
    f = m.run(PROBES, "components", [G, V])
    first = [And([Not(mutual[u, v]) for u in V[:i]]) for i, v in enumerate(V)]      # v is the first of its component
    for v in V:
        m.check("components cover the vertices", f("vertex", v))
    m.check("no vertex in two components", Not(f("twice")))
    m.check("component count", Not(f("length")))
    for k in range(len(V) + 1):
        m.check("number of components", Iff(f("count", k), And(AtMost(first, k), AtLeast(first, k))))
    for u in V:
        for v in V:
            m.check("same component iff mutually reachable", Iff(f("same", u, v), mutual[u, v]))
            m.check("component has exactly its internal edges", Iff(f("edge", u, v), And(E(u, v), mutual[u, v])))
    if V:
        m.cover("acyclic", And(first))
        m.cover("one component", AtMost(first, 1))
        m.cover("mixed", And(AtLeast(first, 2), Or([mutual[u, v] for u, v in pairs(V)])))
    f = m.run(PROBES, "condensation", [G, V])
    m.check("condensation edges lead to its vertices", Not(f("known")))
    for v in V:
        m.check("condensation covers the vertices", f("vertex", v))
    for k in range(len(V) + 1):
        m.check("one condensation vertex per component", Iff(f("count", k), And(AtMost(first, k), AtLeast(first, k))))
    for u in V:
        for v in V:
            m.check("condensation vertices are the components", Iff(f("same", u, v), mutual[u, v]))
            some = Or([And(mutual[u, x], mutual[v, y], E(x, y)) for x in V for y in V])
            m.check("condensation edge iff some edge", Iff(f("joined", u, v), And(Not(mutual[u, v]), some)))


def harness(c, cfg):
    G, V, E = c.digraph(cfg["n"], loops=cfg["loops"], kind=cfg.get("kind", "set"),
                        labels=cfg.get("labels", "int"), order=cfg.get("order"))
    if "maxedges" in cfg:
        c.assume(AtMost([E(u, v) for u in V for v in V], cfg["maxedges"]))
    m = c.mod("strong_connectivity")
    comps = m.StronglyConnectedComponents(G)
    n = len(comps)
    comps = [{v: set(C[v]) for v in C} for C in comps]
    c.observe(comps)
    c.check("component count", n == len(comps))
    cond = m.Condensation(G)
    c.observe(len(cond))
    c.outcome("acyclic" if n == len(V) else "one component" if n == 1 else "mixed")
    R = c.memo("R", lambda: reach(V, E))
    mutual = c.memo("M", lambda: {(u, v): And(R[u, v], R[v, u]) for u, v in pairs(V)})
    where = {}
    for i, C in enumerate(comps):
        for v in C:
            if v in where:
                c.fail("vertex %r in two components" % (v,))
            where[v] = i
    c.check("components cover the vertices", set(where) == set(V))
    for u, v in pairs(V):
        c.check("same component iff mutually reachable", Iff(where[u] == where[v], mutual[u, v]))
    for i, C in enumerate(comps):
        for u in C:
            c.check("component edges stay inside", C[u] <= set(C))
            c.check("component has exactly its internal edges",
                    And([Iff(v in C[u], E(u, v)) for v in C]))
    sets = [frozenset(C) for C in comps]
    c.check("one condensation vertex per component", set(cond) == set(sets) and len(cond) == len(sets))
    for A in cond:
        c.check("condensation edges lead to its vertices", set(cond[A]) <= set(sets) and A not in cond[A])
        for B in sets:
            if A != B:
                c.check("condensation edge iff some edge",
                        Iff(B in cond[A], Or([E(u, v) for u in A for v in B])))
