"""st-orientation."""
from props.common import *
from props.p08 import biconnected_formula

BOUNDS = "every undirected simple graph on 2-5 labelled vertices, 6 vertices with any of 12 possible edges, a 7-cycle with any of " \
         "8 chords; thorough: every graph on 6 vertices"
OUTSIDE = "larger graphs; the one-vertex graph; asymmetric input"
EXPECT = ["oriented", "rejected"]

CONFIGS = [dict(name="n%d" % n, n=n) for n in (2, 3, 4, 5)] + [
    dict(name="list", n=5, kind="list", labels="mixed", order="rev"),
    dict(name="n5 rot", n=5, kind="list", labels="tuple", order="rot"),
    dict(name="n6 part", n=6, free=PART12),
    dict(name="C7", n=7, **cycle_plus(7, [(0, 2), (0, 3), (1, 4), (2, 6), (3, 5), (1, 5), (2, 4), (3, 6)])),
    dict(name="n6", n=6, tiers=["thorough"]),
    dict(name="n6 rev", n=6, kind="list", order="rev", tiers=["thorough"])]


PROBES = """
from .biconnectivity import st_orientation, NotBiconnected

def orient(G):
    try:
        A = st_orientation(G)
    except NotBiconnected:
        fact("refused")
    else:
        graph_facts("A", A)
"""


def merged(m, cfg):
    G, V, E = m.graph()
    f = m.run(HELPERS + PROBES, "orient", [G])
    yes = Not(f("refused"))
    m.check("oriented exactly if biconnected", Iff(yes, biconnected_formula(V, E)))
    a = {(u, v): f("A", "edge", u, v) for u in V for v in V}
    for v in V:
        m.check("orientation has the vertices", Iff(f("A", "vertex", v), yes))
        m.check("no loops", Not(a[v, v]))
    for u, v in pairs(V):
        m.check("each edge oriented exactly once",
                Implies(yes, And(Iff(Or(a[u, v], a[v, u]), E(u, v)), Not(And(a[u, v], a[v, u])))))
    # a set of vertices in which each has a successor in the set would contain a cycle
    S = {v: m.witness("s%d" % i) for i, v in enumerate(V)}
    m.check("acyclic", Not(And([yes, Or(list(S.values()))] +
                               [Implies(S[v], Or([And(a[v, w], S[w]) for w in V])) for v in V])))
    sink = {v: Not(Or([a[v, w] for w in V])) for v in V}
    source = {v: Not(Or([a[w, v] for w in V])) for v in V}
    m.check("one source and one sink", Implies(yes, And(Exactly(list(sink.values()), 1), Exactly(list(source.values()), 1))))
    m.check("source and sink adjacent", Implies(yes, And([Implies(And(source[u], sink[v]), E(u, v)) for u in V for v in V])))
    m.cover("oriented", yes)
    m.cover("rejected", Not(yes))


def harness(c, cfg):
    G, V, E = graph(c, cfg)
    m = c.mod("biconnectivity")
    O, exc = c.attempt(m.st_orientation, G)
    c.observe((type(exc).__name__, None if O is None else {v: set(O[v]) for v in O}))
    bic = c.memo("b", lambda: biconnected_formula(V, E))
    if exc is not None:
        c.outcome("rejected")
        c.check("rejected with NotBiconnected", isinstance(exc, m.NotBiconnected))
        c.check("rejected only if not biconnected", Not(bic))
        return
    c.outcome("oriented")
    c.check("only biconnected graphs are oriented", bic)
    c.check("orientation has the vertices", set(O) == set(V))
    A = {v: set(O[v]) for v in O}
    for u, v in pairs(V):
        c.check("each edge oriented exactly once",
                And(Iff(v in A[u] or u in A[v], E(u, v)), not (v in A[u] and u in A[v])))
    left = {v: set(A[v]) for v in A}
    while True:
        sinks = [v for v in left if not left[v]]
        if not sinks:
            break
        for v in sinks:
            del left[v]
        for v in left:
            left[v] -= set(sinks)
    c.check("acyclic", not left)
    sinks = [v for v in A if not A[v]]
    sources = [v for v in A if not any(v in A[u] for u in A)]
    c.check("one source and one sink", len(sinks) == 1 and len(sources) == 1)
    c.check("source and sink adjacent", E(sources[0], sinks[0]))
