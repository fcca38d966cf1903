"""Partial cubes."""
from props.common import *

BOUNDS = "every connected undirected graph on 1-5 labelled vertices, every connected bipartite graph on 6 " \
         "vertices up to relabelling, subgraphs of the 3-cube with two further edges, an 8-cycle with free chords; thorough: every " \
         "connected graph on 6 vertices, connected bipartite graphs on 7 with at most 9 edges"
OUTSIDE = "larger graphs; disconnected graphs beyond rejection"
EXPECT = ["partial cube", "not a partial cube", "bipartite not partial cube"]

CUBE = [(i, i ^ (1 << b)) for i in range(8) for b in range(3) if i < i ^ (1 << b)]
SPAN = [(0, 1), (1, 3), (3, 2), (2, 6), (6, 7), (7, 5), (5, 4)]
CONFIGS = [dict(name="n%d" % n, n=n) for n in range(1, 6)] + [
    dict(name="n5 list", n=5, kind="list", order="rev"),
    dict(name="n4 unorderable", n=4, kind="list", labels="mixed", order="rev", merge=0),
    dict(name="n6 bipartite 3+3", n=6, free=[(i, j) for i in range(3) for j in range(3, 6)]),
    dict(name="n6 bipartite 2+4", n=6, free=[(i, j) for i in range(2) for j in range(2, 6)]),
    dict(name="n6 bipartite", n=6, bip=True, tiers=["thorough"], merge_s=3000),
    dict(name="cube", n=8, fixed=SPAN, free=[e for e in CUBE if e not in SPAN] + [(0, 7), (1, 6)]),
    dict(name="C8", n=8, fixed=[(i, (i + 1) % 8) for i in range(8)], free=[(0, 3), (1, 4), (2, 7), (0, 5), (3, 6), (1, 6)]),
    dict(name="n6", n=6, tiers=["thorough"], merge_s=3000),
    dict(name="n7 bipartite", n=7, bip=True, most=9, tiers=["thorough"])]


def dist_formulas(V, E):
    d = {}
    for v in V:
        X = at_distance(V, E, v)
        for w in V:
            for k in range(len(V)):
                d[v, w, k] = X[k][w]
    return d


def partial_cube_formula(V, E, d):
    """Djokovic: bipartite, and for every edge the vertices closer to one end form a convex set."""
    n = len(V)
    even = lambda x, y: Or([d[x, y, k] for k in range(0, n, 2)])
    parts = [Implies(E(u, v), Not(Iff(even(V[0], u), even(V[0], v)))) for u, v in pairs(V)]
    between = {}
    for x, y in pairs(V):
        for z in V:
            if z not in (x, y):
                between[x, z, y] = Or([And(d[x, z, i], d[z, y, j], d[x, y, i + j]) for i in range(1, n) for j in range(1, n - i)])
    for u in V:
        for v in V:
            if u == v:
                continue
            W = {x: Or([And(d[x, u, i], d[x, v, j]) for j in range(n) for i in range(j)]) for x in V}
            conv = [Implies(And(W[x], W[y], between[x, z, y]), W[z]) for x, z, y in between]
            parts.append(Implies(E(u, v), And(conv)))
    return And(parts)


PROBES = """
from .partial_cube import isPartialCube, PartialCubeLabeling, PartialCubeEdgeLabeling, MediumForPartialCube
from .medium import MediumError

def recognise(G):
    fact("pc", isPartialCube(G))

def label(G):
    try:
        H = PartialCubeLabeling(G)
    except MediumError:
        fact("refused")
    else:
        for v in H:
            fact(("label", v, H[v]))

def edges(G):
    try:
        L = PartialCubeEdgeLabeling(G)
    except MediumError:
        fact("refused")
    else:
        for u in L:
            fact(("vertex", u))
            for v in L[u]:
                fact(("edge", u, v))
                for x in L:
                    for y in L[x]:
                        if (u, v) < (x, y):
                            fact(("same", u, v, x, y), L[u][v] == L[x][y])

def moves(G):
    try:
        M = MediumForPartialCube(G)
    except MediumError:
        fact("refused")
    else:
        for u in M:
            fact(("state", u))
            for t in M.tokens():
                fact(("move", u, M(u, t)))
"""


def merged(m, cfg):
    G, V, E = m.graph()
    n = len(V)
    R = reach(V, E)
    m.assume(m.guard(And([R[V[0], v] for v in V[1:]])))
    d = dist_formulas(V, E)
    if cfg.get("bip"):
        even = lambda y: Or([d[V[0], y, k] for k in range(0, n, 2)])
        m.assume(m.guard(And([Implies(E(u, v), Not(Iff(even(u), even(v)))) for u, v in pairs(V)])))
    f = m.run(PROBES, "recognise", [G])
    pc = f("pc")
    m.check("recognition", Iff(pc, partial_cube_formula(V, E, d)))
    m.cover("partial cube", pc)
    m.cover("not a partial cube", Not(pc))
    if "free" in cfg:
        m.cover("bipartite not partial cube", Not(pc))
    f = m.run(PROBES, "label", [G])
    m.check("labels exactly for partial cubes", Iff(f("refused"), Not(pc)))
    lab = {v: {k[2]: f(*k) for k in m.facts if k[0] == "label" and k[1] == v} for v in V}
    m.check("only vertices labelled", Not(Or([f(*k) for k in m.facts if k[0] == "label" and k[1] not in V])))
    for v in V:
        m.check("every vertex labelled", Implies(pc, Or(list(lab[v].values()))))
    for u, v in pairs(V):
        by = {}
        for x, g in lab[u].items():
            for y, h in lab[v].items():
                by.setdefault(bin(x ^ y).count("1"), []).append(And(g, h))
        for k in by:
            m.check("Hamming distance is graph distance", Implies(Or(by[k]), d[u, v, k] if k < n else F))
    e = m.run(PROBES, "edges", [G])
    m.check("partial cubes get edge labels", Not(And(e("refused"), pc)))
    arcs = [(u, v) for u in V for v in V if u != v and not is_false(E(u, v))]
    for v in V:
        m.check("edge labels for the vertices", Implies(pc, e("vertex", v)))
    for u in V:
        for v in V:
            m.check("exactly the edges are labelled", Implies(pc, Iff(e("edge", u, v), E(u, v))))
    bit = {}                                # which coordinate an arc flips, and which way
    for u, v in arcs:
        for x, g in lab[u].items():
            for y, h in lab[v].items():
                bit.setdefault((u, v), {}).setdefault((x ^ y, y > x), []).append(And(g, h))
    bit = {a: {k: Or(t) for k, t in b.items()} for a, b in bit.items()}
    for p, q in pairs(arcs):
        same = Or([And(bit[p][k], bit[q][k]) for k in bit.get(p, {}) if k in bit.get(q, {})])
        m.check("same class exactly if the same coordinate flips the same way",
                Implies(And(pc, E(*p), E(*q)), Iff(e("same", *min(p, q), *max(p, q)), same)))
    h = m.run(PROBES, "moves", [G])
    m.check("medium exactly for partial cubes", Iff(h("refused"), Not(pc)))
    for v in V:
        m.check("medium states are the vertices", Implies(pc, h("state", v)))
    for u, v in arcs:
        m.check("medium moves along the edges", Implies(And(pc, E(u, v)), h("move", u, v)))
        m.check("and only along them", Implies(And(pc, h("move", u, v)), E(u, v)))


def harness(c, cfg):
    G, V, E = graph(c, cfg)
    n = len(V)
    R = c.memo("R", lambda: reach(V, E))
    c.assume(c.memo("conn", lambda: And([R[V[0], v] for v in V[1:]])))
    d = c.memo("d", lambda: dist_formulas(V, E))
    if cfg.get("bip"):
        even = lambda y: Or([d[V[0], y, k] for k in range(0, n, 2)])
        c.assume(c.memo("bip", lambda: And([Implies(E(u, v), Not(Iff(even(u), even(v)))) for u, v in pairs(V)])))
    m = c.mod("partial_cube")
    r = bool(m.isPartialCube(G))
    c.observe(r)
    c.outcome("partial cube" if r else "not a partial cube")
    if not r and (cfg.get("bip") or "free" in cfg):
        c.outcome("bipartite not partial cube")
    c.check("recognition", Iff(r, c.memo("pc", lambda: partial_cube_formula(V, E, d))))
    H, exc = c.attempt(m.PartialCubeLabeling, G)
    c.check("labels exactly for partial cubes", (exc is None) == r)
    c.check("others refused with the medium error", exc is None or isinstance(exc, c.mod("medium").MediumError))
    if exc is not None:
        return
    c.check("every vertex labelled", set(H) == set(V))
    ham = lambda x, y: bin(x ^ y).count("1")
    for u, v in pairs(V):
        k = ham(H[u], H[v])
        c.check("Hamming distance is graph distance", d[u, v, k] if k < n else False)
    L = m.PartialCubeEdgeLabeling(G)
    c.check("edge labels for the vertices", set(L) == set(V))
    es = [(u, v) for u in V for v in L[u]]
    c.check("exactly the edges are labelled", And([Iff((u, v) in es, E(u, v)) for u in V for v in V]))
    for (a, b), (x, y) in pairs(es):
        same = H[a] ^ H[b] == H[x] ^ H[y] and (H[a] & (H[a] ^ H[b])) == (H[x] & (H[a] ^ H[b]))
        c.check("same class exactly if the same coordinate flips the same way", (L[a][b] == L[x][y]) == same)
    M = m.MediumForPartialCube(G)
    c.check("medium states are the vertices", set(M) == set(V))
    for u in V:
        for v in L[u]:
            c.check("medium moves along the edges", any(M(u, t) == v for t in M.tokens()))
