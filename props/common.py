"""Helpers shared by the property harnesses."""
import itertools

from symx.oracle import *


def cycles(V, lengths=None):
    """All simple cycles on V as vertex tuples, each once up to rotation and direction."""
    V = list(V)
    for k in range(3, len(V) + 1):
        if lengths is not None and k not in lengths:
            continue
        for S in itertools.combinations(range(len(V)), k):
            first = S[0]
            for p in itertools.permutations(S[1:]):
                if p[0] < p[-1]:
                    yield tuple(V[i] for i in (first,) + p)


def cyc_edges(C):
    return [frozenset((C[i - 1], C[i])) for i in range(len(C))]


def cyc_present(C, E):
    return And([E(C[i - 1], C[i]) for i in range(len(C))])


def edge_count(c, V, E, most=None, least=None, directed=False):
    ps = list(itertools.permutations(V, 2)) if directed else list(pairs(V))
    bs = [E(u, v) for u, v in ps]
    if most is not None:
        c.assume(AtMost(bs, most))
    if least is not None:
        c.assume(AtLeast(bs, least))


def plainadj(G):
    """Adjacency of a result graph as plain sets."""
    return {v: set(G[v]) for v in G}


def same_graph(c, label, H, V, E):
    """H (a result) has exactly the vertices V and the edges of E."""
    c.check(label + ": vertices", set(H) == set(V) and len(list(H)) == len(V))
    for u in V:
        nb = list(H[u])
        c.check(label + ": no repeated or foreign neighbour", len(nb) == len(set(nb)) and set(nb) <= set(V))
        c.check(label + ": edges", And([Iff(v in nb, E(u, v)) for v in V]))


def graph(c, cfg, directed=False):
    """Symbolic graph described by a configuration."""
    kw = dict(labels=cfg.get("labels", "int"), kind=cfg.get("kind", "set"), order=cfg.get("order"))
    if directed:
        G, V, E = c.digraph(cfg["n"], loops=cfg.get("loops", False), **kw)
    else:
        fixed = [tuple(sorted(e)) for e in cfg.get("fixed", [])]
        free = cfg.get("free")
        G, V, E = c.ugraph(cfg["n"], fixed=fixed, free=None if free is None else [tuple(sorted(e)) for e in free],
                           **kw)
    if "most" in cfg or "least" in cfg:
        edge_count(c, V, E, cfg.get("most"), cfg.get("least"), directed)
    return G, V, E


# 11 and 12 of the 15 pairs of six vertices
PART = [(0, 1), (0, 2), (0, 3), (0, 4), (1, 2), (1, 3), (2, 4), (2, 5), (3, 4), (3, 5), (4, 5)]
PART12 = PART + [(1, 5)]


def cycle_plus(n, chords):
    return dict(fixed=[(i, (i + 1) % n) for i in range(n)], free=chords)


# -- merged runs ---------------------------------------------------------------
HELPERS = """
def graph_facts(name, H):
    for v in H:
        fact((name, "vertex", v))
        for w in H[v]:
            fact((name, "edge", v, w))

def list_facts(name, L):
    # item at every position, pairs in order, length
    i = 0
    before = set()
    for x in L:
        fact((name, "item", x))
        fact((name, "again", x), x in before)
        for y in before:
            fact((name, "before", y, x))
        before.add(x)
        i += 1
    fact((name, "length", i))
"""


def undirected_formula(V, E):
    return And([Not(E(v, v)) for v in V] + [Iff(E(u, v), E(v, u)) for u, v in pairs(V)])


def merged_graph(m, label, f, name, V, E, W=None):
    """The reported graph has exactly the vertices V (or those satisfying W) and the edges of E."""
    for u in V:
        m.check(label + ": vertices", Iff(f(name, "vertex", u), True if W is None else W(u)))
    for u in V:
        m.check(label + ": edges", And([Iff(f(name, "edge", u, v), E(u, v)) for v in V]))
    known = {(name, "vertex", u) for u in V} | {(name, "edge", u, v) for u in V for v in V}
    other = [k for k in m.facts if isinstance(k, tuple) and k[0] == name and k not in known]
    m.check(label + ": nothing else", Not(Or([f(*k) for k in other])))


def merged_list(m, label, f, name, V, W=None):
    """The reported list holds exactly the values V, each once."""
    for v in V:
        m.check(label + ": each value", Iff(f(name, "item", v), True if W is None else W(v)))
        m.check(label + ": no value twice", Not(f(name, "again", v)))
    other = [k for k in m.facts if isinstance(k, tuple) and k[:2] == (name, "item") and k[2] not in V]
    m.check(label + ": nothing else", Not(Or([f(*k) for k in other])))
