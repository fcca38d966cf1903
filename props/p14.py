"""Degeneracy, cores, triangles."""
from props.common import *

BOUNDS = "every undirected simple graph on 0-5 labelled vertices and every k up to 6, on 6 vertices every graph within 11 " \
         "of the 15 vertex pairs (triangles: every graph), an " \
         "8-vertex skeleton with free edges; thorough: every graph on 6 vertices; largest minimum degree and maximality of " \
         "cores against every vertex subset by solver witness"
OUTSIDE = "larger graphs"
EXPECT = ["core empty", "core proper", "core all", "triangles"]


def _configs():
    out = []
    for n in range(6):
        if n:
            out.append(dict(name="order n%d" % n, op="order", n=n))
        out.append(dict(name="core n%d" % n, op="core", n=n))
        out.append(dict(name="triangles n%d" % n, op="tri", n=n))
    for op in ("order", "core", "tri"):
        out.append(dict(name=op + " list", op=op, n=5, kind="list", order="rev"))
        out.append(dict(name=op + " unorderable", op=op, n=4, kind="list", labels="mixed", order="rev", merge=0))
        if op != "tri":
            out.append(dict(name=op + " n6", op=op, n=6, tiers=["thorough"], merge_s=2400))
    out.append(dict(name="order n6 part", op="order", n=6, free=PART))
    out.append(dict(name="triangles n6", op="tri", n=6))
    out.append(dict(name="core K4 plus", op="core", n=8, fixed=[(0, 2), (2, 4), (4, 6), (0, 6)],
                    free=[(0, 4), (2, 6), (1, 3), (3, 5), (5, 7), (1, 7), (1, 5), (0, 1), (3, 4), (2, 7)]))
    out.append(dict(name="refuse", op="refuse", n=3, loops=True))
    return out


CONFIGS = _configs()


def mindeg(S, V, E, k):
    """Every chosen vertex has at least k chosen neighbours (S: vertex -> z3 Boolean)."""
    return And([Implies(S[v], AtLeast([And(S[w], E(v, w)) for w in V if w != v], k)) for v in V])


PROBES = """
from .graphdegeneracy import degeneracy, degeneracySequence, degeneracyOrientation, core, triangles

def refuse(G):
    try:
        list(degeneracySequence(G))
    except TypeError:
        fact("sequence refused")
    try:
        degeneracy(G)
    except TypeError:
        fact("degeneracy refused")
    try:
        core(G)
    except TypeError:
        fact("core refused")

def order(G):
    fact(("degeneracy", degeneracy(G)))
    L = []
    for v, k in degeneracySequence(G):
        L.append(v)
        fact(("number", v, k))
    list_facts("L", L)
    graph_facts("D", degeneracyOrientation(G))
    for v in core(G):
        fact(("deep", v))

def kcore(G, k):
    for v in core(G, k):
        fact(("core", v))

def nocore(G):
    for v in core(G):
        fact("nonempty")

def tri(G):
    seen = set()
    for t in triangles(G):
        a, b, d = t
        t = tuple(sorted((a, b, d)))
        fact(("t", t))
        fact("twice", t in seen)
        seen.add(t)
"""


def merged(m, cfg):
    op = cfg["op"]
    G, V, E = m.graph(directed=op == "refuse")
    n, P = len(V), HELPERS + PROBES
    if op == "refuse":
        f = m.run(P, "refuse", [G])
        for name in ("sequence", "degeneracy", "core"):
            m.check("only undirected graphs accepted", Iff(f(name + " refused"), Not(undirected_formula(V, E))))
        return
    S = {v: m.witness("s%d" % i) for i, v in enumerate(V)}
    if op == "order":
        f = m.run(P, "order", [G])
        merged_list(m, "sequence", f, "L", V)
        for v in V:
            later = [And(E(v, w), f("L", "before", v, w)) for w in V if w != v]
            for k in range(n):
                m.check("number of later neighbours", Iff(f("number", v, k), Exactly(later, k)))
        m.check("a degeneracy is given", Exactly([f("degeneracy", d) for d in range(n)], 1))
        deep = {v: f("deep", v) for v in V}
        for d in range(n):
            isd = f("degeneracy", d)
            m.check("sequence attains the degeneracy",
                    Implies(isd, And(Or([f("number", v, d) for v in V]),
                                     Not(Or([f("number", v, k) for v in V for k in range(d + 1, n)])))))
            m.check("no subgraph has larger minimum degree", Not(And(isd, mindeg(S, V, E, d + 1), Or(list(S.values())))))
            m.check("the deepest core has minimum degree equal to the degeneracy",
                    Implies(isd, And(Or(list(deep.values())), mindeg(deep, V, E, d))))
            m.check("deepest core is maximal", Not(And(isd, mindeg(S, V, E, d), Or([And(S[v], Not(deep[v])) for v in V]))))
            for v in V:
                m.check("out-degree at most the degeneracy", Implies(isd, AtMost([f("D", "edge", v, w) for w in V], d)))
        a = {(u, v): f("D", "edge", u, v) for u in V for v in V}
        for v in V:
            m.check("orientation has the vertices", And(f("D", "vertex", v), Not(a[v, v])))
        for u, v in pairs(V):
            m.check("each edge oriented once", And(Iff(Or(a[u, v], a[v, u]), E(u, v)), Not(And(a[u, v], a[v, u]))))
        m.check("orientation acyclic", Not(And([Or(list(S.values()))] +
                                               [Implies(S[v], Or([And(a[v, w], S[w]) for w in V])) for v in V])))
    elif op == "core":
        for k in range(n + 2):
            m.fixed = {"k": k}
            f = m.run(P, "kcore", [G, k])
            K = {v: f("core", v) for v in V}
            m.check("core vertices", Not(Or([f(*x) for x in m.facts if x[0] == "core" and x[1] not in V])))
            m.check("core has minimum degree k", mindeg(K, V, E, k))
            m.check("core is maximal", Not(And(mindeg(S, V, E, k), Or([And(S[v], Not(K[v])) for v in V]))))
            m.cover("core empty", Not(Or(list(K.values()))))
            m.cover("core all", And(list(K.values())))
            m.cover("core proper", And(Or(list(K.values())), Not(And(list(K.values())))))
            m.finish()
        if not V:
            m.check("core of the empty graph", Not(m.run(P, "nocore", [G])("nonempty")))
    else:
        f = m.run(P, "tri", [G])
        m.check("no triangle twice", Not(f("twice")))
        for t in itertools.combinations(V, 3):
            a, b, d = t
            m.check("listed iff a triangle", Iff(f("t", t), And(E(a, b), E(b, d), E(a, d))))
        known = set(itertools.combinations(V, 3))
        m.check("triples of distinct vertices", Not(Or([f(*k) for k in m.facts if k[0] == "t" and k[1] not in known])))
        m.cover("triangles", Or([f("t", t) for t in known]))


def harness(c, cfg):
    m = c.mod("graphdegeneracy")
    op = cfg["op"]
    if op == "refuse":
        G, V, E = graph(c, cfg, directed=True)
        und = And([Not(E(v, v)) for v in V] + [Iff(E(u, v), E(v, u)) for u, v in pairs(V)])
        for f in (lambda: list(m.degeneracySequence(G)), lambda: m.degeneracy(G), lambda: m.core(G)):
            _, exc = c.attempt(f)
            c.check("only undirected graphs accepted", Iff(exc is None, und))
            c.check("with TypeError", exc is None or isinstance(exc, TypeError))
        return
    G, V, E = graph(c, cfg)
    nb = lambda v, S: [E(v, w) for w in S if w != v]
    import z3
    S = {v: z3.Bool("!s%d" % i) for i, v in enumerate(V)}
    if op == "order":
        d = m.degeneracy(G)
        seq = [tuple(x) for x in m.degeneracySequence(G)]
        D = m.degeneracyOrientation(G)
        deep = set(m.core(G))
        c.observe((d, len(seq)))
        c.check("sequence lists every vertex once", len(seq) == len(V) and {v for v, _ in seq} == set(V))
        for i, (v, k) in enumerate(seq):
            later = [w for w, _ in seq[i + 1:]]
            c.check("number of later neighbours", And(AtMost(nb(v, later), k), AtLeast(nb(v, later), k)))
        c.check("sequence attains the degeneracy", max(k for _, k in seq) == d)
        c.check("no subgraph has larger minimum degree",
                Not(And(c.memo(("deg", d), lambda: mindeg(S, V, E, d + 1)), Or(list(S.values())))))
        c.check("the deepest core has minimum degree equal to the degeneracy",
                And(bool(deep) and deep <= set(V), And([AtLeast(nb(v, deep), d) for v in deep])))
        c.check("deepest core is maximal",
                Not(And(c.memo(("deg1", d), lambda: mindeg(S, V, E, d)), Or([S[v] for v in V if v not in deep]))))
        A = {v: set(D[v]) for v in D}
        c.check("orientation has the vertices", set(A) == set(V))
        for u, v in pairs(V):
            c.check("each edge oriented once", And(Iff(v in A[u] or u in A[v], E(u, v)), not (v in A[u] and u in A[v])))
        c.check("out-degree at most the degeneracy", all(len(A[v]) <= d for v in A))
        left = dict(A)
        while left:
            sinks = [v for v in left if not left[v]]
            c.check("orientation acyclic", bool(sinks))
            if not sinks:
                break
            left = {v: left[v] - set(sinks) for v in left if v not in sinks}
    elif op == "core":
        k = c.choice("k", range(0, len(V) + 2))
        K = set(m.core(G, k))
        c.observe(K)
        c.outcome("core empty" if not K else "core all" if len(K) == len(V) else "core proper")
        c.check("core vertices", K <= set(V))
        c.check("core has minimum degree k", And([AtLeast(nb(v, K), k) for v in K]))
        c.check("core is maximal", Not(And(c.memo(("d", k), lambda: mindeg(S, V, E, k)),
                                           Or([S[v] for v in V if v not in K]))))
        if not V:
            c.check("core of the empty graph", set(m.core(G)) == set())
    else:
        Ts = [tuple(t) for t in m.triangles(G)]
        c.observe(len(Ts))
        if Ts:
            c.outcome("triangles")
        got = [frozenset(t) for t in Ts]
        c.check("triples of distinct vertices", all(len(t) == 3 and len(set(t)) == 3 and set(t) <= set(V) for t in Ts))
        c.check("no triangle twice", len(set(got)) == len(got))
        for t in itertools.combinations(V, 3):
            a, b, d = t
            c.check("listed iff a triangle", Iff(frozenset(t) in got, And(E(a, b), E(b, d), E(a, d))))
