"""Bipartiteness, two-colouring, bipartition, orientation, odd core."""
from props.common import *

BOUNDS = "every undirected simple graph on 0-5 labelled vertices, on 6 vertices with any of 12 (odd core: 11) possible edges, cycles of length 7 " \
         "and 8 with any of a set of chords; thorough: everything on 6 vertices"
OUTSIDE = "larger graphs; asymmetric input"
EXPECT = ["bipartite", "nonbipartite", "odd core empty", "odd core proper"]


def _configs():
    out = []
    for op in ("color", "core"):
        for n in range(6):
            out.append(dict(name="%s n%d" % (op, n), op=op, n=n))
        out.append(dict(name=op + " list", op=op, n=5, kind="list", labels="mixed", order="rev"))
        out.append(dict(name=op + " n6", op=op, n=6, tiers=["thorough"]))
    out.append(dict(name="color n6 part", op="color", n=6, free=PART12))
    out.append(dict(name="core n6 part", op="core", n=6, free=PART))
    out.append(dict(name="color C7", op="color", **dict(n=7, **cycle_plus(7, [(0, 2), (0, 3), (1, 4), (2, 6), (3, 5), (1, 5)]))))
    out.append(dict(name="color C8", op="color", **dict(n=8, **cycle_plus(8, [(0, 3), (1, 6), (2, 5), (0, 4), (2, 7), (3, 5)]))))
    return out


CONFIGS = _configs()


PROBES = """
from .bipartite import is_bipartite, two_color, bipartition, bipartite_orientation, odd_core, NonBipartite

def core(G):
    graph_facts("C", odd_core(G))

def color(G, V):
    fact("yes", is_bipartite(G))
    try:
        col = two_color(G)
    except NonBipartite:
        fact("refused by two_color")
    else:
        for v in col:
            fact(("coloured", v))
            fact(("col", v), col[v])
            fact("two colours", not (col[v] is True or col[v] is False))
    try:
        side = list(bipartition(G))
    except NonBipartite:
        fact("refused by bipartition")
    else:
        list_facts("S", side)
    try:
        graph_facts("O", bipartite_orientation(G))
        graph_facts("L", bipartite_orientation(G, list))
    except NonBipartite:
        fact("refused by orientation")
"""


def merged(m, cfg):
    G, V, E = m.graph()
    P = HELPERS + PROBES
    if cfg["op"] == "core":
        odd = odd_edges(V, E)
        f = m.run(P, "core", [G])
        at = lambda u, v: odd[u, v] if (u, v) in odd else odd[v, u] if u != v else False
        merged_graph(m, "odd core", f, "C", V, at, lambda v: Or([odd[p] for p in odd if v in p]))
        m.cover("odd core empty", Not(Or(list(odd.values()))))
        m.cover("odd core proper", And(Or(list(odd.values())), Not(And([f("C", "vertex", v) for v in V]))))
        return
    f = m.run(P, "color", [G, V])
    yes = f("yes")
    w = {v: m.witness("c%d" % i) for i, v in enumerate(V)}
    m.check("no two-colouring exists", Implies(Not(yes), Or([And(E(u, v), Iff(w[u], w[v])) for u, v in pairs(V)])))
    for e in ("two_color", "bipartition", "orientation"):
        m.check("rejected exactly if not bipartite", Iff(f("refused by " + e), Not(yes)))
    m.check("two colours", Not(f("two colours")))
    for v in V:
        m.check("every vertex coloured", Iff(f("coloured", v), yes))
    for u, v in pairs(V):
        m.check("proper colouring", Implies(And(yes, E(u, v)), Not(Iff(f("col", u), f("col", v)))))
    S = {v: f("S", "item", v) for v in V}
    m.check("bipartition is one colour class", Implies(yes, Or(And([Iff(S[v], f("col", v)) for v in V]),
                                                              And([Not(Iff(S[v], f("col", v))) for v in V]))))
    m.check("bipartition lists nothing twice", Not(Or([f("S", "again", v) for v in V])))
    for name in ("O", "L"):
        out = {(u, v): f(name, "edge", u, v) for u in V for v in V}
        src = {v: Or([out[v, w] for w in V]) for v in V}
        m.check("orientation starts on one side only",
                Implies(yes, Or(And([Implies(src[v], S[v]) for v in V]), And([Not(And(src[v], S[v])) for v in V]))))
        m.check("orientation lists its side",
                Implies(yes, Or(And([Implies(S[v], f(name, "vertex", v)) for v in V]),
                                And([Or(S[v], f(name, "vertex", v)) for v in V]))))
        for u, v in pairs(V):
            m.check("each edge oriented exactly once",
                    Implies(yes, And(Iff(Or(out[u, v], out[v, u]), E(u, v)), Not(And(out[u, v], out[v, u])))))
    m.cover("bipartite", yes)
    m.cover("nonbipartite", Not(yes))


def harness(c, cfg):
    G, V, E = graph(c, cfg)
    m = c.mod("bipartite")
    if cfg["op"] == "core":
        H = m.odd_core(G)
        H = {v: set(H[v]) for v in H}
        c.observe(H)
        odd = c.memo("odd", lambda: odd_edges(V, E))
        got = {(u, v) for u in H for v in H[u]}
        c.outcome("odd core empty" if not got else "odd core proper" if len(H) < len(V) else "odd core all")
        c.check("odd core vertices", set(H) <= set(V) and all(v in V for _, v in got))
        for u, v in pairs(V):
            c.check("odd core edges, both directions", And(Iff((u, v) in got, odd[u, v]), Iff((v, u) in got, odd[u, v])))
        for v in V:
            c.check("odd core vertices are the ends of its edges", Iff(v in H, Or([odd[p] for p in odd if v in p])))
        return
    r = m.is_bipartite(G)
    col, e1 = c.attempt(m.two_color, G)
    side, e2 = c.attempt(lambda: list(m.bipartition(G)))
    ori, e3 = c.attempt(m.bipartite_orientation, G)
    ori2, e4 = c.attempt(m.bipartite_orientation, G, list)
    c.observe((bool(r), col, type(e1).__name__))
    c.outcome("bipartite" if r else "nonbipartite")
    if not r:
        w = {v: c.wbool("c") for v in V}
        c.check("no two-colouring exists", Or([And(E(u, v), Iff(w[u], w[v])) for u, v in pairs(V)]))
        for e in (e1, e2, e3, e4):
            c.check("rejected with NonBipartite", isinstance(e, m.NonBipartite))
        return
    for e in (e1, e2, e3, e4):
        c.check("accepted by all", e is None)
    c.check("every vertex coloured", set(col) == set(V))
    c.check("two colours", all(x is True or x is False for x in col.values()))
    for u, v in pairs(V):
        if col[u] == col[v]:
            c.check("proper colouring", Not(E(u, v)))
    S = set(side)
    c.check("bipartition is one colour class", len(side) == len(S) and
            (S == {v for v in V if col[v]} or S == {v for v in V if not col[v]}))
    for o in (ori, ori2):
        o2 = {v: list(o[v]) for v in o}
        # a vertex of the other side may or may not be listed without outgoing edges
        src = {v for v in o2 if o2[v]}
        c.check("orientation starts on one side only", src <= S or src <= set(V) - S)
        c.check("orientation lists its side", set(o2) <= set(V) and (set(o2) >= S or set(o2) >= set(V) - S))
        for u, v in pairs(V):
            c.check("each edge oriented exactly once",
                    And(Iff(Or(v in o2.get(u, ()), u in o2.get(v, ())), E(u, v)),
                        not (v in o2.get(u, ()) and u in o2.get(v, ()))))
    c.check("requested collection type", all(type(x) is set for x in ori.values()) and all(type(x) is list for x in ori2.values()))


def odd_edges(V, E):
    """An edge of a nonbipartite block lies on an odd cycle, and conversely."""
    occ = {frozenset(p): [] for p in pairs(V)}
    for C in cycles(V, (3, 5, 7)):
        p = cyc_present(C, E)
        for e in cyc_edges(C):
            occ[e].append(p)
    return {(u, v): Or(occ[frozenset((u, v))]) for u, v in pairs(V)}
