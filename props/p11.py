"""Maximum matching in general graphs."""
from props.common import *

BOUNDS = "every undirected simple graph on 0-5 labelled vertices and on 6 with at most 8 edges (thorough: all) from the greedy start, every graph with every initial " \
         "matching on 4 vertices, every graph on 6 vertices with a fixed initial 2-matching, 8 vertices with a fixed " \
         "3-matching (forcing blossom search) and up to 5 further edges (thorough: 7), skeletons on 8 vertices with nested " \
         "blossoms and free extra edges; optimality by solver witness"
OUTSIDE = "larger graphs"
EXPECT = ["perfect", "not perfect", "augmented"]


def _configs():
    out = [dict(name="n%d" % n, op="max", n=n) for n in range(6)]
    out.append(dict(name="n6 sparse", op="max", n=6, most=8))
    out.append(dict(name="n6", op="max", n=6, tiers=["thorough"]))
    out.append(dict(name="list", op="max", n=5, kind="list", order="rev"))
    out.append(dict(name="unorderable", op="max", n=4, kind="list", labels="mixed", order="rev", merge=0))
    out.append(dict(name="n4 every initial matching", op="max", n=4, initial="all"))
    out.append(dict(name="n5 every initial matching", op="max", n=5, initial="all", tiers=["thorough"]))
    out.append(dict(name="n6 initial", op="max", n=6, initial=[[1, 2], [3, 4]], fixed=[[1, 2], [3, 4]]))
    nested = [(0, 1), (0, 2), (1, 3), (2, 4), (3, 5), (6, 7), (1, 4), (5, 7), (0, 5), (4, 6)]
    ini = [[1, 2], [3, 4], [5, 6]]
    out.append(dict(name="n8 nested", op="max", n=8, initial=ini, fixed=ini, free=nested))
    out.append(dict(name="n8 sparse", op="max", n=8, initial=ini, fixed=ini + [[0, 1]], most=8))
    out.append(dict(name="n8 sparse 7", op="max", n=8, initial=ini, fixed=ini + [[0, 1]], most=10, tiers=["thorough"]))
    ini2 = [[0, 3], [7, 1], [4, 6]]
    out.append(dict(name="n8 sparse relabelled", op="max", n=8, initial=ini2, fixed=ini2 + [[2, 3]], most=7,
                    order="rev", kind="list"))
    ini3 = [[1, 2], [3, 4], [5, 6], [7, 8]]
    n10 = [(0, 1), (0, 2), (1, 3), (2, 4), (3, 5), (4, 6), (6, 7), (8, 9), (5, 7), (1, 8), (0, 7), (2, 9), (3, 8), (4, 9)]
    out.append(dict(name="n10 nested", op="max", n=10, initial=ini3, fixed=ini3, free=n10, tiers=["thorough"]))
    for n in range(6):
        out.append(dict(name="greedy n%d" % n, op="greedy", n=n))
    out.append(dict(name="greedy n6", op="greedy", n=6, most=8))
    out.append(dict(name="greedy n4 every initial", op="greedy", n=4, initial="all"))
    out.append(dict(name="greedy n6 all", op="greedy", n=6, tiers=["thorough"]))
    out.append(dict(name="greedy n7", op="greedy", n=7, most=7, tiers=["thorough"]))
    cyc = [[i, (i + 1) % 7] for i in range(7)]
    out.append(dict(name="greedy C7", op="greedy", n=7, fixed=cyc, free=[(0, 2), (0, 3), (1, 4), (2, 6), (3, 5), (1, 5), (2, 5), (4, 6)]))
    return out


CONFIGS = _configs()


PROBES = """
from .cardinality_matching import matching, greedy_matching

def report(M, ini, pairs):
    for u in M:
        fact(("m", u, M[u]))
    if ini is not None:
        old = {}
        for u, v in pairs:
            old[u] = v
            old[v] = u
        fact("changed", ini != old)
        fact("more", len(M) > len(ini))

def start(pairs):
    ini = {}
    for u, v in pairs:
        ini[u] = v
        ini[v] = u
    return ini

def max(G):
    report(matching(G), None, None)

def greedy(G):
    report(greedy_matching(G), None, None)

def maxini(G, pairs):
    ini = start(pairs)
    report(matching(G, ini), ini, pairs)

def greedyini(G, pairs):
    ini = start(pairs)
    report(greedy_matching(G, ini), ini, pairs)
"""


def merged(m, cfg):
    G, V, E = m.graph()
    init, op, n = cfg.get("initial"), cfg["op"], len(V)
    ini = {}
    if init == "all":
        ps = pairs(V)
        P, b = m.subset(["m_%d_%d" % (V.index(u), V.index(v)) for u, v in ps], ps, kind="list")
        ini = {p: b(p) for p in ps}
        m.assume(m.guard(And([Implies(ini[p], E(*p)) for p in ps] +
                             [Not(And(ini[p], ini[q])) for p, q in pairs(ps) if set(p) & set(q)])))
    elif init:
        ini = {(V[i], V[j]): T for i, j in init}
        P = tuple(ini)
    f = m.run(PROBES, op + "ini", [G, P]) if init else m.run(PROBES, op, [G])
    M = {(u, v): f("m", u, v) for u in V for v in V}
    m.check("initial matching untouched", Not(f("changed")))
    m.check("matching of vertices", Not(Or([f(*k) for k in m.facts if k[0] == "m" and (k[1], k[2]) not in M])))
    for v in V:
        m.check("a matching", And([Not(M[v, v]), AtMost([M[v, w] for w in V], 1)]))
    for u, v in pairs(V):
        m.check("symmetric", Iff(M[u, v], M[v, u]))
        m.check("made of edges", Implies(M[u, v], E(u, v)))
    on = {v: Or([M[v, w] for w in V]) for v in V}
    m.cover("perfect", And(list(on.values())))
    m.cover("not perfect", Not(And(list(on.values()))))
    m.cover("augmented", f("more"))
    if op == "greedy":
        for u, v in pairs(V):
            m.check("no edge can be added", Implies(E(u, v), Or(on[u], on[v])))
        for p in ini:
            m.check("extends the initial matching", Implies(ini[p], M[p]))
        return
    x = {e: m.witness("x%d" % i) for i, e in enumerate(pairs(V)) if not is_false(E(*e))}
    alt = And([Implies(x[e], E(*e)) for e in x] + [AtMost([x[e] for e in x if v in e], 1) for v in V])
    for k in range(n // 2):
        m.check("no larger matching", Not(And(AtMost(list(on.values()), 2 * k), alt, AtLeast(list(x.values()), k + 1))))


def harness(c, cfg):
    G, V, E = graph(c, cfg)
    m = c.mod("cardinality_matching")
    init = cfg.get("initial")
    ini = None
    if init == "all":
        ini = {}
        for u, v in pairs(V):
            if u not in ini and v not in ini and c.flag("m_%d_%d" % (V.index(u), V.index(v))):
                c.assume(E(u, v))
                ini[u], ini[v] = v, u
    elif init:
        ini = {}
        for i, j in init:
            ini[V[i]], ini[V[j]] = V[j], V[i]
    before = None if ini is None else dict(ini)
    args = (G,) if ini is None else (G, ini)
    M = m.matching(*args) if cfg["op"] == "max" else m.greedy_matching(*args)
    c.observe(dict(M))
    k = len(M) // 2
    c.outcome("perfect" if len(M) == len(V) else "not perfect")
    if ini and len(M) > len(ini):
        c.outcome("augmented")
    c.check("initial matching untouched", ini == before)
    c.check("symmetric matching of vertices", all(u in V and M[u] in V and M[M[u]] == u and M[u] != u for u in M))
    c.check("made of edges", And([E(u, M[u]) for u in M]))
    if cfg["op"] == "greedy":
        c.check("no edge can be added", And([Not(E(u, v)) for u, v in pairs(V) if u not in M and v not in M]))
        if before:
            c.check("extends the initial matching", all(M.get(u) == before[u] for u in before))
        return
    x = {e: c.wbool("x") for e in pairs(V) if not is_false(E(*e))}
    alt = And([Implies(x[e], E(*e)) for e in x] + [AtMost([x[e] for e in x if v in e], 1) for v in V])
    c.check("no larger matching", Not(And(alt, AtLeast(list(x.values()), k + 1))))
