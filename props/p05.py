"""Topological order, acyclicity, transitive closure, bit-parallel reachability."""
from props.common import *

BOUNDS = "every digraph with self-loops on 0-3 vertices, every loop-free digraph on 4 vertices, every acyclic digraph " \
         "on 5 vertices with at most 6 edges (thorough: all acyclic digraphs on 5 vertices); for the ordering test " \
         "every candidate list of length 0-4 over the vertices and a foreign label, on digraphs with 0-3 vertices"
OUTSIDE = "larger graphs"
EXPECT = ["acyclic", "cyclic", "order accepted", "order rejected"]


def _configs():
    out = []
    for n in range(4):
        out.append(dict(name="order n%d" % n, op="order", n=n, loops=True))
        out.append(dict(name="closure n%d" % n, op="closure", n=n, loops=True))
        out.append(dict(name="reach n%d" % n, op="reach", n=n, loops=True))
    for op in ("order", "closure", "reach"):
        out.append(dict(name=op + " n4", op=op, n=4))
        out.append(dict(name=op + " list", op=op, n=3, loops=True, kind="list", labels="mixed", order="rev"))
        if op != "closure":
            out.append(dict(name=op + " dag n5 sparse", op=op, n=5, dag=True, most=6))
        out.append(dict(name=op + " dag n5", op=op, n=5, dag=True, tiers=["thorough"]))
        out.append(dict(name=op + " n4 loops", op=op, n=4, loops=True, tiers=["thorough"]))
    for n in range(4):
        for k in range(0, n + 2):
            out.append(dict(name="test n%d len%d" % (n, k), op="test", n=n, len=k, loops=n < 3))
    out.append(dict(name="test n4 len4", op="test", n=4, len=4, tiers=["thorough"]))
    return out


CONFIGS = _configs()


def is_perm_order(L, V, E):
    if sorted(map(V.index, L)) != list(range(len(V))):
        return False
    return And([Not(E(L[j], L[i])) for j in range(len(L)) for i in range(j + 1)])


PROBES = """
from .partial_order import isAcyclic, TopologicalOrder, TransitiveClosure, isTopologicalOrder
from .acyclic_reachability import Reachability

def order(G):
    fact("acyclic", isAcyclic(G))
    try:
        L = list(TopologicalOrder(G))
    except ValueError:
        fact("refused")
    else:
        list_facts("L", L)
        fact("own test", isTopologicalOrder(G, L))

def closure(G):
    graph_facts("T", TransitiveClosure(G))

def test(G, *L):
    fact("accepted", isTopologicalOrder(G, list(L)))

def reaches(G, V):
    try:
        R = Reachability(G)
    except ValueError:
        fact("refused")
    else:
        for u in V:
            for v in V:
                fact(("reach", u, v), R.reachable(u, v))
"""


def merged(m, cfg):
    op = cfg["op"]
    G, V, E = m.graph(directed=True)
    W = reach(V, E, reflexive=False)
    acyclic = And([Not(W[v, v]) for v in V])
    if cfg.get("dag"):
        m.assume(m.guard(acyclic))
    P = HELPERS + PROBES
    if op == "test":
        n, k = len(V), cfg["len"]
        L = [m.choice("L%d" % i, V + ["foreign"]) for i in range(k)]
        f = m.run(P, "test", [G] + [x[0] for x in L])
        at = lambda i, v: L[i][1](v)
        want = And([Exactly([at(i, v) for i in range(k)], 1) for v in range(n)] +
                   [Not(And(at(i, u), at(j, v), E(V[v], V[u]))) for i in range(k) for j in range(i, k)
                    for u in range(n) for v in range(n)]) if k == n else False
        m.check("ordering test", Iff(f("accepted"), want))
        m.cover("order accepted", f("accepted"))
        m.cover("order rejected", Not(f("accepted")))
        return
    if op == "closure":
        f = m.run(P, "closure", [G])
        merged_graph(m, "closure", f, "T", V, lambda u, v: And(u != v, W[u, v]))
        return
    m.cover("acyclic", acyclic)
    m.cover("cyclic", Not(acyclic))
    if op == "order":
        f = m.run(P, "order", [G])
        m.check("acyclicity test", Iff(f("acyclic"), acyclic))
        m.check("refused exactly if cyclic", Iff(f("refused"), Not(acyclic)))
        merged_list(m, "order", f, "L", V, lambda v: acyclic)
        for u in V:
            for v in V:
                m.check("all edges forward", Implies(And(acyclic, E(u, v)), f("L", "before", u, v)))
                m.check("one position each", Not(And(f("L", "before", u, v), f("L", "before", v, u))))
        m.check("own ordering test accepts it", Implies(acyclic, f("own test")))
    else:
        f = m.run(P, "reaches", [G, V])
        m.check("refused exactly if cyclic", Iff(f("refused"), Not(acyclic)))
        for u in V:
            for v in V:
                m.check("reachability", Implies(acyclic, Iff(f("reach", u, v), Or(u == v, W[u, v]))))


def harness(c, cfg):
    G, V, E = graph(c, cfg, directed=True)
    W = c.memo("W", lambda: reach(V, E, reflexive=False))
    acyclic = c.memo("acyc", lambda: And([Not(W[v, v]) for v in V]))
    if cfg.get("dag"):
        c.assume(acyclic)
    m = c.mod("partial_order")
    op = cfg["op"]
    if op == "order":
        a = m.isAcyclic(G)
        L, exc = c.attempt(m.TopologicalOrder, G)
        c.observe((bool(a), L, type(exc).__name__))
        c.outcome("acyclic" if a else "cyclic")
        c.check("acyclicity test", Iff(bool(a), acyclic))
        if exc is not None:
            c.check("refused with ValueError", isinstance(exc, ValueError))
            c.check("refused only if cyclic", Not(acyclic))
        else:
            L = list(L)
            c.check("lists the vertices", len(L) == len(V) and all(v in V for v in L))
            c.check("every vertex once, all edges forward", is_perm_order(L, V, E))
            c.check("own ordering test accepts it", m.isTopologicalOrder(G, L))
    elif op == "closure":
        T = m.TransitiveClosure(G)
        c.observe({v: set(T[v]) for v in T})
        same_graph(c, "closure", T, V, lambda u, v: And(u != v, W[u, v]))
    elif op == "reach":
        r, exc = c.attempt(c.mod("acyclic_reachability").Reachability, G)
        c.outcome("acyclic" if exc is None else "cyclic")
        if exc is not None:
            c.check("refused with ValueError", isinstance(exc, ValueError))
            c.check("refused only if cyclic", Not(acyclic))
            return
        c.check("accepted only if acyclic", acyclic)
        got = {(u, v): bool(r.reachable(u, v)) for u in V for v in V}
        c.observe(sorted(got.values()))
        for u in V:
            for v in V:
                c.check("reachability", Iff(got[u, v], Or(u == v, W[u, v])))
    else:
        L = [c.choice("L%d" % i, V + ["foreign"]) for i in range(cfg["len"])]
        r = c.observe(m.isTopologicalOrder(G, list(L)))
        c.outcome("order accepted" if r else "order rejected")
        want = is_perm_order(L, V, E) if all(x in V for x in L) else False
        c.check("ordering test", Iff(bool(r), want))
