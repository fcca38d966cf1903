"""Graph utilities: undirectedness, degrees, copies, induced subgraphs, union, independent sets."""
from props.common import *

BOUNDS = "every digraph with self-loops on 0-3 vertices for every utility and every vertex subset, every digraph " \
         "with self-loops on 4 vertices for the undirectedness test, every pair of loop-free digraphs on 3 " \
         "overlapping labels for union, undirected graphs on 5 vertices; set, list, tuple and dict adjacency"
OUTSIDE = "larger graphs"
EXPECT = ["undirected", "directed", "independent", "dependent", "empty", "proper subset"]

def _configs():
    out = []
    for n in range(5):
        out.append(dict(name="undirected n%d" % n, op="undirected", n=n, loops=True))
    out.append(dict(name="undirected list", op="undirected", n=3, loops=True, kind="list", labels="mixed", order="rev"))
    out.append(dict(name="undirected dict", op="undirected", n=3, loops=True, kind="dict", labels="str"))
    out.append(dict(name="undirected n5", op="undirected", n=5, loops=True, tiers=["thorough"]))
    for n, k in [(1, "set"), (2, "list"), (3, "set"), (3, "dict")]:
        out.append(dict(name="degree n%d %s" % (n, k), op="degree", n=n, loops=True, kind=k))
    out.append(dict(name="degree n4", op="degree", n=4))
    out.append(dict(name="degree n4 loops", op="degree", n=4, loops=True, tiers=["thorough"]))
    for n, k in [(0, "set"), (1, "list"), (2, "set"), (3, "set"), (3, "list")]:
        out.append(dict(name="copy n%d %s" % (n, k), op="copy", n=n, loops=True, kind=k))
    for n in range(4):
        out.append(dict(name="induced n%d" % n, op="induced", n=n, loops=True))
        out.append(dict(name="independent n%d" % n, op="independent", n=n, loops=True))
    out.append(dict(name="induced list", op="induced", n=3, loops=True, kind="list", labels="tuple", sub="list"))
    out.append(dict(name="induced n4", op="induced", n=4, tiers=["thorough"]))
    out.append(dict(name="independent n4", op="independent", n=4))
    out.append(dict(name="independent undirected n5", op="independent", n=5, und=True))
    for n, m in [(0, 2), (2, 3), (3, 2), (3, 3)]:
        out.append(dict(name="union n%d n%d" % (n, m), op="union", n=n, m=m))
    out.append(dict(name="union list", op="union", n=3, m=2, kind="list"))
    out.append(dict(name="union three", op="union3", n=2, loops=True))
    return out


CONFIGS = _configs()


PROBES = """
from .graphs import is_undirected, max_degree, min_degree, copy_graph, induced_subgraph, union, is_independent_set

def undirected(G):
    fact("yes", is_undirected(G))

def degree(G):
    fact(("max", max_degree(G)))
    fact(("min", min_degree(G)))

def copy(G):
    for t in (set, list):
        H = copy_graph(G, t)
        graph_facts(("H", t.__name__), H)
        for v in G:
            fact("shared", H[v] is G[v])
            fact("kind", type(H[v]) is not t)
    graph_facts("D", copy_graph(G))

def induced(G, S):
    for t in (set, list):
        H = induced_subgraph(S, G, t)
        graph_facts(("H", t.__name__), H)
        for v in H:
            fact("kind", type(H[v]) is not t)

def independent(G, S):
    fact("yes", is_independent_set(S, G))

def three(A, B, C):
    graph_facts("U", union(A, B, C))
    graph_facts("N", union())

def unite(G, H):
    U = union(G, H)
    graph_facts("U", U)
    for v in G:
        fact("shared", U[v] is G[v])
    for v in H:
        fact("shared", U[v] is H[v])
"""


def merged(m, cfg):
    op = cfg["op"]
    P = HELPERS + PROBES
    G, V, E = m.graph(directed=not cfg.get("und"))
    if op == "undirected":
        f = m.run(P, "undirected", [G])
        m.check("undirectedness test", Iff(f("yes"), undirected_formula(V, E)))
        m.cover("undirected", f("yes"))
        m.cover("directed", Not(f("yes")))
    elif op == "degree":
        f = m.run(P, "degree", [G])
        d = [[E(u, v) for v in V] for u in V]
        for k in range(len(V) + 1):
            m.check("maximum degree", Iff(f("max", k), And(And([AtMost(x, k) for x in d]), Or([AtLeast(x, k) for x in d]))))
            m.check("minimum degree", Iff(f("min", k), And(And([AtLeast(x, k) for x in d]), Or([AtMost(x, k) for x in d]))))
    elif op == "copy":
        f = m.run(P, "copy", [G])
        for name in (("H", "set"), ("H", "list"), "D"):
            merged_graph(m, "copy", f, name, V, E)
        m.check("fresh collections", Not(f("shared")))
        m.check("requested collection type", Not(f("kind")))
    elif op in ("induced", "independent"):
        S, inn = m.subset(["in%d" % i for i in range(len(V))] + ["foreign"], list(V) + ["foreign"], cfg.get("sub", "set"))
        f = m.run(P, op, [G, S])
        if op == "induced":
            for t in ("set", "list"):
                merged_graph(m, "induced subgraph", f, ("H", t), V, lambda u, v: And(inn(u), inn(v), E(u, v)), inn)
            m.check("requested collection type", Not(f("kind")))
        else:
            m.check("independence test", Iff(f("yes"), Not(Or([And(inn(u), inn(v), E(u, v)) for u in V for v in V]))))
            m.cover("independent", f("yes"))
            m.cover("dependent", Not(f("yes")))
        m.cover("empty", Not(Or([inn(v) for v in V])))
        if len(V) > 1:
            m.cover("proper subset", And(inn(V[0]), Not(inn(V[1]))))
    elif op == "union3":
        A = m.graph(directed=True, name="g0", n=2)
        B = m.graph(directed=True, name="g1", n=2, labels="rev")
        f = m.run(P, "three", [G, A[0], B[0]])
        merged_graph(m, "union of three", f, "U", V, lambda u, v: Or(E(u, v), A[2](u, v), B[2](u, v)))
        m.check("union of none", Not(Or([f("N", "vertex", v) for v in V])))
    else:
        H, W, F = m.graph(directed=True, name="f", n=cfg["m"])
        f = m.run(P, "unite", [G, H])
        allv = list(dict.fromkeys(list(V) + list(W)))
        merged_graph(m, "union", f, "U", allv, lambda u, v: Or(E(u, v), F(u, v)))
        m.check("union makes fresh collections", Not(f("shared")))


def harness(c, cfg):
    m = c.mod("graphs")
    op = cfg["op"]
    G, V, E = graph(c, cfg, directed=not cfg.get("und"))
    if op == "undirected":
        r = c.observe(m.is_undirected(G))
        c.outcome("undirected" if r else "directed")
        want = c.memo("w", lambda: And([Not(E(v, v)) for v in V] + [Iff(E(u, v), E(v, u)) for u, v in pairs(V)]))
        c.check("undirectedness test", Iff(bool(r), want))
    elif op == "degree":
        mx, mn = c.observe(m.max_degree(G)), c.observe(m.min_degree(G))
        d = [[E(u, v) for v in V] for u in V]
        c.check("maximum degree", And([AtMost(x, mx) for x in d] + [Or([AtLeast(x, mx) for x in d])]))
        c.check("minimum degree", And([AtLeast(x, mn) for x in d] + [Or([AtMost(x, mn) for x in d])]))
    elif op == "copy":
        for t in (set, list, tuple, frozenset):
            H = m.copy_graph(G, t) if t is not set else m.copy_graph(G)
            c.observe({v: set(H[v]) for v in H})
            same_graph(c, "copy", H, V, E)
            c.check("requested collection type", all(type(H[v]) is t for v in V))
            c.check("fresh collections", all(H[v] is not G[v] for v in V) or t in (tuple, frozenset))
        H = m.copy_graph(G, c.mod("util").map_to_constant(5))
        same_graph(c, "copy to dict", H, V, E)
        c.check("constants", all(x == 5 for v in V for x in H[v].values()))
    elif op in ("induced", "independent"):
        inn = [c.flag("in%d" % i) for i in range(len(V))]
        S = [v for v, b in zip(V, inn) if b]
        c.outcome("empty" if not S else "proper subset" if len(S) < len(V) else "all")
        arg = list(S) if cfg.get("sub") == "list" else set(S)
        extra = c.flag("foreign")
        if extra:
            arg = arg | {"foreign"} if isinstance(arg, set) else arg + ["foreign"]
        if op == "induced":
            for t in (set, list):
                H = m.induced_subgraph(arg, G, t) if t is list else m.induced_subgraph(arg, G)
                c.observe({v: set(H[v]) for v in H})
                same_graph(c, "induced subgraph", H, S, E)
                c.check("requested collection type", all(type(H[v]) is t for v in S))
        else:
            r = c.observe(m.is_independent_set(arg, G))
            c.outcome("independent" if r else "dependent")
            c.check("independence test", Iff(bool(r), And([Not(E(u, v)) for u in S for v in S])))
    elif op == "union":
        H, W, F = c.digraph(cfg["m"], name="f", kind=cfg.get("kind", "set"))
        U = m.union(G, H)
        c.observe({v: set(U[v]) for v in U})
        allv = list(dict.fromkeys(list(V) + list(W)))
        same_graph(c, "union", U, allv, lambda u, v: Or(E(u, v), F(u, v)))
        c.check("union makes fresh collections", all(U[v] is not G[v] for v in V) and all(U[v] is not H[v] for v in W))
    elif op == "union3":
        gs = [(G, V, E)] + [c.digraph(2, name="g%d" % i, labels="rev" if i else "int", loops=True) for i in range(2)]
        U = m.union(*[g[0] for g in gs])
        same_graph(c, "union of three", U, V, lambda u, v: Or([g[2](u, v) for g in gs]))
        c.check("union of none", m.union() == {})
