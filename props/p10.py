"""Bipartite matching and imperfections."""
from props.common import *

BOUNDS = "every bipartite graph with parts up to 3+4 and 4+3, 4+4 with at most 6 edges (imperfections: with a fixed perfect matching), also with the same labels on " \
         "both sides; a 5+5 alternating-path skeleton with free extra edges; optimality by solver witness; " \
         "thorough: all of 4+4"
OUTSIDE = "larger graphs"
EXPECT = ["perfect", "not perfect", "imperfect edges", "no perfect matching"]


def _configs():
    out = []
    for a, b in [(0, 0), (1, 0), (1, 1), (1, 2), (2, 2), (2, 3), (3, 3), (3, 4), (4, 3)]:
        out.append(dict(name="matching %d+%d" % (a, b), op="matching", a=a, b=b))
        if a * b <= 9:
            out.append(dict(name="imperfections %d+%d" % (a, b), op="imp", a=a, b=b))
    out.append(dict(name="matching same labels", op="matching", a=3, b=3, same=True, kind="list"))
    out.append(dict(name="imperfections same labels", op="imp", a=3, b=3, same=True))
    out.append(dict(name="imperfections mixed", op="imp", a=3, b=3, kind="list", mixed=True))
    out.append(dict(name="matching 4+4 sparse", op="matching", a=4, b=4, most=6))
    # greedy start is forced into long alternating paths
    skel = [(i, i) for i in range(5)] + [(i, i + 1) for i in range(4)]
    out.append(dict(name="matching 5+5 path", op="matching", a=5, b=5,
                    free=skel + [(4, 0), (0, 2), (2, 0)]))
    out.append(dict(name="imperfections 4+4", op="imp", a=4, b=4, fixed=[(i, i) for i in range(4)]))
    out.append(dict(name="imperfections 4+4 least", op="imp", a=4, b=4, most=7, least=5, tiers=["thorough"]))
    out.append(dict(name="matching 4+4", op="matching", a=4, b=4, tiers=["thorough"]))
    out.append(dict(name="imperfections 4+4 all", op="imp", a=4, b=4, tiers=["thorough"]))
    out.append(dict(name="matching 5+5 sparse", op="matching", a=5, b=5, most=6, tiers=["thorough"]))
    return out


CONFIGS = _configs()


PROBES = """
from .bipartite_matching import matching, imperfections

def match(G):
    M, A, B = matching(G)
    for w in M:
        fact(("m", M[w], w))
    fact(("size", len(M)))
    list_facts("A", A)
    list_facts("B", B)

def imp(G):
    I = imperfections(G)
    for u in I:
        D = I[u]
        for w in D:
            fact(("i", u, w))
        if isinstance(D, dict):
            for w in D:
                S = D[w]
                if isinstance(S, dict):
                    fact(("given", u, w))
                    for v in S:
                        fact(("left", u, w, v))
                        for y in S[v]:
                            fact(("sub", u, w, v, y))
"""


def merged(m, cfg):
    a, b = cfg["a"], cfg["b"]
    U = list(range(a)) if not cfg.get("mixed") else [complex(i, 1) for i in range(a)]
    W = list(range(b)) if cfg.get("same") else [8 + j for j in range(b)]
    fixed, free = {tuple(e) for e in cfg.get("fixed", ())}, cfg.get("free")
    free = None if free is None else {tuple(e) for e in free}
    yes, B = (T, m.guard(T)), {}
    for i, u in enumerate(U):
        for j, w in enumerate(W):
            if (i, j) in fixed:
                B[u, w] = yes
            elif free is None or (i, j) in free:
                B[u, w] = m.bool("e_%d_%d" % (i, j))
    G = m.relation(U, {u: [(w, B[u, w]) for w in W if (u, w) in B] for u in U}, cfg.get("kind", "set"))
    E = lambda u, w: B[u, w][0] if (u, w) in B else F
    es = [(u, w) for u in U for w in W]
    gs, D = [g for _, g in B.values()], m.I.G
    if "most" in cfg:
        m.assume(D.atmost(gs, cfg["most"]))
    if "least" in cfg:
        m.assume(D.atmost([g ^ 1 for g in gs], len(gs) - cfg["least"]))
    x = {e: m.witness("x%d" % i) for i, e in enumerate(es)}
    is_matching = And([Implies(x[e], E(*e)) for e in es] +
                      [AtMost([x[u, w] for w in W], 1) for u in U] + [AtMost([x[u, w] for u in U], 1) for w in W])
    present = {w: Or([E(u, w) for u in U]) for w in W}
    if cfg["op"] == "matching":
        f = m.run(HELPERS + PROBES, "match", [G])
        M = {(u, w): f("m", u, w) for u in U for w in W}
        m.check("matches left to right vertices", Not(Or([f(*k) for k in m.facts if k[0] == "m" and (k[1], k[2]) not in M])))
        for e in es:
            m.check("matched pairs are edges", Implies(M[e], E(*e)))
        m.check("vertices matched once", And([AtMost([M[u, w] for w in W], 1) for u in U] +
                                             [AtMost([M[u, w] for u in U], 1) for w in W]))
        top = min(a, b)
        for k in range(top + 1):
            m.check("size", Iff(f("size", k), Exactly(list(M.values()), k)))
            if k < top:
                m.check("no larger matching", Not(And(f("size", k), is_matching, AtLeast(list(x.values()), k + 1))))
        inA, inB = {u: f("A", "item", u) for u in U}, {w: f("B", "item", w) for w in W}
        m.check("certificate of distinct vertices", Not(Or(
            [f("A", "again", u) for u in U] + [f("B", "again", w) for w in W] +
            [f(*k) for k in m.facts if k[0] == "A" and k[1] == "item" and k[2] not in U or
             k[0] == "B" and k[1] == "item" and k[2] not in W])))
        m.check("certificate is independent", And([Not(And(inA[u], inB[w], E(u, w))) for u, w in es]))
        parts = list(inA.values()) + list(inB.values()) + list(M.values()) + [Not(present[w]) for w in W]
        m.check("certificate size", Exactly(parts, a + b))
        m.cover("perfect", f("size", a))
        m.cover("not perfect", Not(f("size", a)))
        return
    f = m.run(HELPERS + PROBES, "imp", [G])
    perfect = And([is_matching] + [AtLeast([x[u, w] for w in W], 1) for u in U] +
                  [Implies(present[w], AtLeast([x[u, w] for u in U], 1)) for w in W])
    I = {e: f("i", *e) for e in es}
    m.check("imperfections are edges", Not(Or([f(*k) for k in m.facts if k[0] == "i" and (k[1], k[2]) not in I] +
                                              [And(I[e], Not(E(*e))) for e in es])))
    memo = lambda key, make: make()
    for e in es:
        m.check("reported edge is in no perfect matching", Not(And(I[e], perfect, x[e])))
        m.check("unreported edge is in some perfect matching",
                Implies(And(E(*e), Not(I[e])), has_perfect_with(memo, U, W, E, e)))
    whole = And([Iff(E(*e), I[e]) for e in es])
    has = has_perfect_with(memo, U, W, E, None)
    m.check("no perfect matching: the whole graph is reported", Or(has, whole))
    for u, w in es:
        L = {v: f("left", u, w, v) for v in U}
        S = {e: f("sub", u, w, *e) for e in es}
        R = {y: Or([S[v, y] for v in U]) for y in W}
        g = f("given", u, w)
        m.check("subgraph given with perfect matchings", Implies(And(has, I[u, w]), g))
        m.check("subgraph contains the right end, not the left one", Implies(g, And(R[w], Not(L[u]))))
        m.check("subgraph edges", And([Implies(S[e], E(*e)) for e in es]))
        m.check("subgraph is matched to itself in every perfect matching",
                Implies(And(g, perfect), And([Implies(L[v], Or([And(x[v, y], R[y]) for y in W])) for v in U] +
                                             [Implies(R[y], Or([And(x[v, y], L[v]) for v in U])) for y in W])))
    m.cover("imperfect edges", Or(list(I.values())))
    if a and b:
        m.cover("no perfect matching", And(list(I.values())))


def harness(c, cfg):
    a, b = cfg["a"], cfg["b"]
    U = list(range(a)) if not cfg.get("mixed") else [complex(i, 1) for i in range(a)]
    W = list(range(b)) if cfg.get("same") else [8 + j for j in range(b)]
    tup = lambda L: None if L is None else [tuple(x) for x in L]
    G, E = c.bigraph(U, W, kind=cfg.get("kind", "set"), free=tup(cfg.get("free")), fixed=tup(cfg.get("fixed", [])))
    es = [(u, w) for u in U for w in W]
    if "most" in cfg:
        c.assume(AtMost([E(*e) for e in es], cfg["most"]))
    if "least" in cfg:
        c.assume(AtLeast([E(*e) for e in es], cfg["least"]))
    m = c.mod("bipartite_matching")
    x = {e: c.wbool("x") for e in es}
    is_matching = And([Implies(x[e], E(*e)) for e in es] +
                      [AtMost([x[u, w] for w in W], 1) for u in U] + [AtMost([x[u, w] for u in U], 1) for w in W])
    if cfg["op"] == "matching":
        M, A, B = m.matching(G)
        c.observe((len(M), len(list(A)), len(list(B))))
        c.outcome("perfect" if len(M) == a else "not perfect")
        c.check("matches right to left vertices", set(M) <= set(W) and set(M.values()) <= set(U))
        c.check("matched pairs are edges", And([E(M[w], w) for w in M]))
        c.check("left vertices matched once", len(set(M.values())) == len(M))
        c.check("no larger matching", Not(And(is_matching, AtLeast(list(x.values()), len(M) + 1))))
        A, B = list(A), list(B)
        c.check("certificate lists distinct vertices", len(set(A)) == len(A) and len(set(B)) == len(B) and
                set(A) <= set(U) and set(B) <= set(W))
        c.check("certificate is independent", And([Not(E(u, w)) for u in A for w in B]))
        nw = Sum([Or([E(u, w) for u in U]) for w in W])
        c.check("certificate size", len(A) + len(B) + len(M) == a + nw)
        return
    I = m.imperfections(G)
    present = [Or([E(u, w) for u in U]) for w in W]
    perfect = And([AtLeast([x[u, w] for w in W], 1) for u in U] +
                  [Implies(present[j], AtLeast([x[u, w] for u in U], 1)) for j, w in enumerate(W)])
    got = {(u, w) for u in I for w in I[u]}
    c.observe(len(got))
    c.outcome("imperfect edges" if got else "none")
    c.check("imperfections are edges", And([u in U and w in W and E(u, w) for u, w in got]))
    for e in got:
        c.check("reported edge is in no perfect matching", Not(And(is_matching, perfect, x[e])))
    for e in es:
        if e not in got:
            # some perfect matching uses it, if it is an edge: otherwise the witness below must not exist
            c.check("unreported edge is in some perfect matching", Implies(E(*e), has_perfect_with(c.memo, U, W, E, e)))
    whole = And([Iff(E(*e), e in got) for e in es])
    nonempty = Or([E(*e) for e in es])
    has = c.memo("hasperfect", lambda: has_perfect_with(c.memo, U, W, E, None))
    c.check("no perfect matching: the whole graph is reported", Or(has, whole))
    for u, w in got:
        S = I[u][w] if hasattr(I[u], "keys") else None
        if isinstance(S, dict):
            ws = set().union(*[set(S[v]) for v in S]) if S else set()
            c.check("subgraph contains the right end, not the left one", w in ws and u not in S)
            c.check("subgraph edges", And([E(v, y) for v in S for y in S[v]]))
            c.check("subgraph is matched to itself in every perfect matching",
                    Implies(And(is_matching, perfect),
                            And(len(S) == len(ws), And([Or([x[v, y] for y in ws]) for v in S]))))
    if a and b:
        c.outcome("no perfect matching" if len(got) == len(es) else "other")


def has_perfect_with(memo, U, W, E, e):
    """Some perfect matching of the graph exists (using edge e, if given), spelled out over all bijections."""
    import itertools

    def make():
        out = []
        for k in itertools.permutations(W, len(U)) if len(W) >= len(U) else []:
            if e is None or k[U.index(e[0])] == e[1]:
                rest = [w for w in W if w not in k]
                out.append(And([E(u, w) for u, w in zip(U, k)] + [Not(E(u, w)) for u in U for w in rest]))
        return Or(out)
    return memo(("perf", None if e is None else (U.index(e[0]), W.index(e[1]))), make)
