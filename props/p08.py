"""Biconnected components and the biconnectivity test."""
from props.common import *

BOUNDS = "every undirected simple graph on 0-5 labelled vertices, on 6 vertices with any of 11 possible edges (test: 12), every loop-free " \
         "digraph on 3 vertices for rejection; thorough: every graph on 6 vertices"
OUTSIDE = "larger graphs"
EXPECT = ["biconnected", "not biconnected", "several blocks", "isolated vertex", "rejected"]


def _configs():
    out = []
    for op in ("blocks", "test"):
        for n in range(6):
            out.append(dict(name="%s n%d" % (op, n), op=op, n=n))
        out.append(dict(name=op + " list", op=op, n=5, kind="list", labels="mixed", order="rev"))
        out.append(dict(name=op + " n6", op=op, n=6, batch=1, merge_s=2400, tiers=["thorough"]))
    out.append(dict(name="blocks n6 part", op="blocks", n=6, free=PART))
    out.append(dict(name="test n6 part", op="test", n=6, free=PART12))
    out.append(dict(name="reject n3", op="reject", n=3, loops=True))
    return out


CONFIGS = _configs()


def block_formulas(V, E):
    """same[e, f]: the pairs e and f are edges on a common simple cycle."""
    es = [frozenset(p) for p in pairs(V)]
    occ = {}
    for C in cycles(V):
        p = cyc_present(C, E)
        ce = cyc_edges(C)
        for e, f in pairs(ce):
            occ.setdefault(frozenset((e, f)), []).append(p)
    return {(e, f): Or(occ.get(frozenset((e, f)), [])) for e, f in pairs(es)}


def biconnected_formula(V, E):
    """Connected, and still connected after removing any one vertex."""
    def conn(W):
        if len(W) < 2:
            return T
        R = reach(W, E)
        return And([R[W[0], v] for v in W[1:]])
    return And([conn(V)] + [conn([u for u in V if u != v]) for v in V])


PROBES = """
from .biconnectivity import BiconnectedComponents, is_biconnected

def blocks(G):
    i = 0
    for C in BiconnectedComponents(G):
        fact("empty", not C)
        for v in C:
            fact(("member", i, v))
            alone = True
            for w in C[v]:
                alone = False
                fact(("edge", i, v, w))
            fact(("alone", i, v), alone)
        i += 1
    fact("several", i > 1)

def test(G):
    fact("yes", is_biconnected(G))

def reject(G):
    try:
        list(BiconnectedComponents(G))
    except ValueError:
        fact("refused")
    fact("yes", is_biconnected(G))
"""


def merged(m, cfg):
    op = cfg["op"]
    G, V, E = m.graph(directed=op == "reject")
    if op == "reject":
        f = m.run(PROBES, "reject", [G])
        und = undirected_formula(V, E)
        m.check("asymmetric input refused by the component finder", Iff(f("refused"), Not(und)))
        m.check("only undirected graphs pass", Implies(f("yes"), und))
        m.cover("rejected", f("refused"))
        return
    if op == "test":
        f = m.run(PROBES, "test", [G])
        m.check("biconnectivity test", Iff(f("yes"), biconnected_formula(V, E)))
        m.cover("biconnected", f("yes"))
        m.cover("not biconnected", Not(f("yes")))
        return
    f = m.run(PROBES, "blocks", [G])
    N = 1 + max([k[1] for k in m.facts if isinstance(k, tuple)], default=-1)
    m.check("components are nonempty graphs", Not(f("empty")))
    inn = lambda i, u, v: f("edge", i, u, v)
    for i in range(N):
        for u in V:
            m.check("a vertex without edges is a component only if isolated",
                    Implies(f("alone", i, u), And(And([Not(E(u, w)) for w in V]), And([Not(f("member", i, w)) for w in V if w != u]))))
            for v in V:
                m.check("component edges are symmetric and inside",
                        Implies(inn(i, u, v), And(inn(i, v, u), f("member", i, u), f("member", i, v))))
    for v in V:
        m.check("isolated vertices have their own component once",
                Or(Or([E(v, w) for w in V]), Exactly([f("member", i, v) for i in range(N)], 1)))
    for u, v in pairs(V):
        m.check("each edge in exactly one component",
                And(Implies(E(u, v), Exactly([inn(i, u, v) for i in range(N)], 1)),
                    Implies(Not(E(u, v)), Not(Or([inn(i, u, v) for i in range(N)])))))
    same = block_formulas(V, E)
    for e, g in pairs([frozenset(p) for p in pairs(V)]):
        (a, b), (x, y) = tuple(e), tuple(g)
        together = Or([And(inn(i, a, b), inn(i, x, y)) for i in range(N)])
        m.check("same component iff on a common cycle", Implies(And(E(a, b), E(x, y)), Iff(together, same[e, g])))
    m.cover("several blocks", f("several"))
    m.cover("isolated vertex", Or([f("alone", i, v) for i in range(N) for v in V]))


def harness(c, cfg):
    m = c.mod("biconnectivity")
    if cfg["op"] == "reject":
        G, V, E = graph(c, cfg, directed=True)
        und = And([Not(E(v, v)) for v in V] + [Iff(E(u, v), E(v, u)) for u, v in pairs(V)])
        _, e1 = c.attempt(lambda: list(m.BiconnectedComponents(G)))
        r, e2 = c.attempt(m.is_biconnected, G)
        c.observe((type(e1).__name__, bool(r)))
        c.check("asymmetric input refused by the component finder", Iff(e1 is None, und))
        c.check("with ValueError", e1 is None or isinstance(e1, ValueError))
        c.check("asymmetric input is not biconnected", e2 is None)
        if r:
            c.check("only undirected graphs pass", und)
        c.outcome("rejected" if e1 is not None else "accepted")
        return
    G, V, E = graph(c, cfg)
    if cfg["op"] == "test":
        r = c.observe(bool(m.is_biconnected(G)))
        c.outcome("biconnected" if r else "not biconnected")
        c.check("biconnectivity test", Iff(r, c.memo("b", lambda: biconnected_formula(V, E))))
        return
    B = [{v: set(C[v]) for v in C} for C in m.BiconnectedComponents(G)]
    c.observe(B)
    if len(B) > 1:
        c.outcome("several blocks")
    where = {}
    for i, C in enumerate(B):
        c.check("components are nonempty graphs on the vertices", bool(C) and set(C) <= set(V) and
                all(C[v] <= set(C) for v in C))
        for v in C:
            if not C[v]:
                c.outcome("isolated vertex")
                c.check("a vertex without edges is a component only if isolated",
                        And(len(C) == 1, And([Not(E(v, w)) for w in V])))
            for w in C[v]:
                c.check("component edges are symmetric", v in C[w])
                e = frozenset((v, w))
                c.check("edge in one component", where.setdefault(e, i) == i)
    for v in V:
        c.check("isolated vertices have their own component once",
                Or(Or([E(v, w) for w in V]), sum(1 for C in B if v in C) == 1))
    for u, v in pairs(V):
        c.check("exactly the edges are covered", Iff(frozenset((u, v)) in where, E(u, v)))
    same = c.memo("same", lambda: block_formulas(V, E))
    es = [frozenset(p) for p in pairs(V)]
    for e, f in pairs(es):
        if e in where and f in where:
            c.check("same component iff on a common cycle", Iff(where[e] == where[f], same[e, f]))
