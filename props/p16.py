"""Halin, wheel, D3-reducible and dual 3-tree recognition."""
import functools

from props.common import *

BOUNDS = "every undirected simple graph on 0-5 labelled vertices, 6 vertices with minimum degree 3 and at most 10 edges, " \
         "cubic graphs on 8 vertices containing a fixed spanning tree, 7 vertices round a hub of degree at least 5, a prism and a " \
         "truncated tetrahedron with free edges; thorough: 7 vertices with minimum degree 3 and at most " \
         "12 edges, all cubic graphs on 8 vertices"
OUTSIDE = "larger graphs"
EXPECT = ["halin", "not halin", "D3", "not D3", "wheel", "dual 3-tree", "D3 not halin"]

# K4 with every vertex replaced by a triangle, some of its edges and some more free
_tt = [(3 * i + j, 3 * i + k) for i in range(4) for j, k in ((0, 1), (0, 2), (1, 2))] + \
    [(0, 3), (1, 6), (2, 9), (4, 7), (5, 10), (8, 11)]
TRUNC = dict(fixed=[e for e in _tt if e not in ((0, 3), (9, 10), (4, 7))],
             free=[(0, 3), (9, 10), (4, 7), (0, 4), (3, 7), (9, 4)])
_pr = [(0, 1), (0, 2), (1, 2), (0, 3), (1, 4), (3, 4), (3, 5), (4, 6), (2, 7), (5, 6), (5, 7), (6, 7)]
PRISM = dict(fixed=[e for e in _pr if e not in ((0, 3), (3, 4), (5, 7), (2, 7))],
             free=[(0, 3), (3, 4), (5, 7), (2, 7), (3, 7), (2, 3), (0, 7), (4, 5), (3, 6)])

CONFIGS = [dict(name="n%d" % n, n=n) for n in range(6)] + [
    dict(name="n5 list", n=5, kind="list", order="rev"),
    dict(name="n4 unorderable", n=4, kind="list", labels="mixed", order="rev", merge=0),
    dict(name="n6", n=6, lo=3, most=10),
    # two cubic skeletons on eight vertices
    dict(name="cubic n8 tree", n=8, lo=3, hi=3, fixed=[(0, 1), (1, 2), (0, 3), (0, 4), (1, 5), (2, 6), (2, 7)]),
    dict(name="n7 wheel skeleton", n=7, lo=3, fixed=[(0, i) for i in range(1, 6)], most=12),
    dict(name="truncated tetrahedron", n=12, **TRUNC),
    dict(name="prism family", n=8, **PRISM),
    dict(name="n7", n=7, lo=3, most=12, tiers=["thorough"]),
    dict(name="cubic n8", n=8, lo=3, hi=3, tiers=["thorough"])]


@functools.lru_cache(None)
def halin_graphs(n):
    """Edge sets of all Halin graphs on 0..n-1 (sets of pairs i<j)."""
    out = set()
    for k in range(3, n):
        inner = n - k
        for L in itertools.combinations(range(n), k):
            I = [v for v in range(n) if v not in L]
            for tree in inner_trees(tuple(I)):
                ideg = {v: sum(v in e for e in tree) for v in I}
                for att in itertools.product(I, repeat=k):
                    cnt = {v: att.count(v) for v in I}
                    if any(ideg[v] + cnt[v] < 3 for v in I):
                        continue
                    splits = leaf_splits(tree, I, L, att)
                    for p in itertools.permutations(L[1:]):
                        if p[0] < p[-1] or k < 3:
                            cyc = (L[0],) + p
                            ce = [(cyc[i - 1], cyc[i]) for i in range(k)]
                            if all(sum((a in s) != (b in s) for a, b in ce) == 2 for s in splits):
                                es = list(tree) + list(zip(L, att)) + ce
                                out.add(frozenset(tuple(sorted(e)) for e in es))
    return out


@functools.lru_cache(None)
def inner_trees(I):
    """All labelled trees on I."""
    I = list(I)
    k = len(I)
    if k == 1:
        return [()]
    es = list(itertools.combinations(I, 2))
    res = []
    for S in itertools.combinations(es, k - 1):
        comp = {v: v for v in I}

        def find(v):
            while comp[v] != v:
                v = comp[v]
            return v
        ok = True
        for a, b in S:
            a, b = find(a), find(b)
            if a == b:
                ok = False
                break
            comp[a] = b
        if ok:
            res.append(S)
    return res


def leaf_splits(tree, I, L, att):
    """For each inner tree edge, the leaves on one side."""
    out = []
    for e in tree:
        rest = [f for f in tree if f != e]
        side = {e[0]}
        grow = True
        while grow:
            grow = False
            for a, b in rest:
                if (a in side) != (b in side):
                    side |= {a, b}
                    grow = True
        out.append({l for l, a in zip(L, att) if a in side})
    return out


@functools.lru_cache(None)
def d3_graphs(n, triangles, paths):
    """Edge sets of the graphs on 0..n-1 obtained from K4 by the inverse reductions, all labellings."""
    if n < 4:
        return set()
    if n == 4:
        return {frozenset(itertools.combinations(range(4), 2))}
    out = set()
    if triangles and n >= 6:
        for H in canon(d3_graphs(n - 2, triangles, paths), n - 2):
            for v in range(n - 2):
                nb = [u for u in range(n - 2) if tuple(sorted((u, v))) in H]
                if len(nb) == 3:
                    a, b, c = v, n - 2, n - 1
                    es = {e for e in H if v not in e}
                    es |= {(a, b), (a, c), (b, c), tuple(sorted((a, nb[0]))), tuple(sorted((b, nb[1]))),
                           tuple(sorted((c, nb[2])))}
                    out.add(frozenset(es))
    if paths and n >= 5:
        for H in canon(d3_graphs(n - 1, triangles, paths), n - 1):
            deg = [sum(v in e for e in H) for v in range(n - 1)]
            for u, w in H:
                if deg[u] == 3 and deg[w] == 3:
                    for x in range(n - 1):
                        if tuple(sorted((u, x))) in H and tuple(sorted((w, x))) in H:
                            v = n - 1
                            out.add(frozenset(set(H) - {(u, w)} | {(u, v), (w, v), (x, v)}))
    full = set()
    for H in canon(out, n):
        for p in itertools.permutations(range(n)):
            full.add(frozenset(tuple(sorted((p[a], p[b]))) for a, b in H))
    return full


def canon(graphs, n):
    """One labelled representative per isomorphism class."""
    reps, seen = [], set()
    for H in sorted(graphs, key=sorted):
        if H in seen:
            continue
        reps.append(H)
        for p in itertools.permutations(range(n)):
            seen.add(frozenset(tuple(sorted((p[a], p[b]))) for a, b in H))
    return reps


def wheels(n):
    out = set()
    if n >= 4:
        for h in range(n):
            for C in cycles([v for v in range(n) if v != h], (n - 1,)):
                es = [(C[i - 1], C[i]) for i in range(n - 1)] + [(h, v) for v in C]
                out.add(frozenset(tuple(sorted(e)) for e in es))
    return out


def is_halin_def(n, es):
    """Definition, by trying every leaf set."""
    nb = {v: {a + b - v for a, b in es if v in (a, b)} for v in range(n)}
    if any(len(nb[v]) < 3 for v in nb):
        return False
    for k in range(3, n):
        if len(es) != n - 1 + k:
            continue
        for L in itertools.combinations(range(n), k):
            S = set(L)
            if any(len(nb[v]) != 3 or len(nb[v] & S) != 2 for v in L):
                continue
            I = [v for v in range(n) if v not in S]
            if len(flood(L[0], lambda v: nb[v] & S)) != k:
                continue
            tn = {v: nb[v] - S if v in S else nb[v] for v in nb}
            if len(flood(0, lambda v: tn[v])) != n or any(len(tn[v]) < 3 for v in I):
                continue
            ok = True
            for a, b in es:
                if a not in S and b not in S:
                    side = flood(a, lambda v: tn[v] - ({a, b} - {v} if v in (a, b) else set())) & S
                    if sum(1 for p, q in es if p in S and q in S and (p in side) != (q in side)) != 2:
                        ok = False
                        break
            if ok:
                return True
    return False


def flood(v, nbrs):
    seen, todo = {v}, [v]
    while todo:
        for w in nbrs(todo.pop()):
            if w not in seen:
                seen.add(w)
                todo.append(w)
    return seen


def reducible_def(es, triangles, paths, memo):
    """Definition: some sequence of reductions leads to K4."""
    if es in memo:
        return memo[es]
    V = sorted({v for e in es for v in e})
    nb = {v: {a + b - v for a, b in es if v in (a, b)} for v in V}
    res = len(V) == 4 and len(es) == 6
    three = [v for v in V if len(nb[v]) == 3]
    if not res:
        for v in three:
            for u, w in itertools.permutations(nb[v], 2):
                if len(nb[u]) != 3 or len(nb[w]) != 3 or u > w:
                    continue
                if w in nb[u]:
                    o = [next(iter(nb[a] - {u, v, w})) for a in (u, v, w)]
                    if triangles and len(set(o)) == 3:
                        new = {e for e in es if not {u, v, w} & set(e)} | {tuple(sorted((u, x))) for x in o}
                        res = reducible_def(frozenset(new), triangles, paths, memo)
                elif paths:
                    ap = nb[u] & nb[v] & nb[w]
                    if len(ap) == 1:
                        new = {e for e in es if v not in e} | {tuple(sorted((u, w)))}
                        res = reducible_def(frozenset(new), triangles, paths, memo)
                if res:
                    break
            if res:
                break
    memo[es] = res
    return res


@functools.lru_cache(None)
def by_definition(n, fixed, free):
    """For every choice of the free pairs, the four verdicts (as lists of edge sets)."""
    lists = [set(), set(), set(), set()]
    W = wheels(n) if n <= 8 else set()
    m1, m2 = {}, {}
    for bits in itertools.product((0, 1), repeat=len(free)):
        es = frozenset(fixed + tuple(p for p, b in zip(free, bits) if b))
        if len({v for e in es for v in e}) != n:
            continue
        if is_halin_def(n, es):
            lists[0].add(es)
        if reducible_def(es, True, True, m1):
            lists[1].add(es)
        if es in W:
            lists[2].add(es)
        if reducible_def(es, True, False, m2):
            lists[3].add(es)
    return lists


def tables(cfg):
    n = cfg["n"]
    if "free" in cfg:
        tup = lambda L: tuple(sorted(tuple(sorted(e)) for e in L))
        return by_definition(n, tup(cfg["fixed"]), tup(cfg["free"]))
    return [halin_graphs(n), d3_graphs(n, True, True), wheels(n), d3_graphs(n, True, False)]


def prepare(cfgs):
    for cfg in cfgs:
        tables(cfg)


def one_of(V, E, graphs):
    """The graph is one of the listed edge sets (those compatible with the constant pairs)."""
    out = []
    ps = [(i, j) for j in range(len(V)) for i in range(j)]
    lits = {(i, j): E(V[i], V[j]) for i, j in ps}
    neg = {p: Not(lits[p]) for p in ps}
    for H in graphs:
        out.append(And([lits[p] if p in H else neg[p] for p in ps]))
    return Or(out)


PROBES = """
from .halin import is_halin, is_D3_reducible, is_wheel, is_dual_3_tree, halin_leaf_vertices, hamiltonian_cycle_D3

def halin(G):
    fact("halin", is_halin(G))

def reducible(G):
    fact("D3", is_D3_reducible(G))

def wheel(G):
    fact("wheel", is_wheel(G))

def dual(G):
    fact("dual", is_dual_3_tree(G))

def leaves(G):
    try:
        L = halin_leaf_vertices(G)
    except TypeError:
        fact("refused")
    else:
        for v in L:
            fact(("leaf", v))

def cycle(G):
    try:
        H = hamiltonian_cycle_D3(G)
    except TypeError:
        fact("refused")
    else:
        for u in H:
            for v in H[u]:
                fact(("next", u, v))
"""


def merged(m, cfg):
    G, V, E = m.graph()
    n = len(V)
    deg = lambda v: [m.guard(E(v, w)) for w in V if w != v]
    for v in V:
        if "lo" in cfg:
            m.assume(m.I.G.atmost([g ^ 1 for g in deg(v)], n - 1 - cfg["lo"]))
        if "hi" in cfg:
            m.assume(m.I.G.atmost(deg(v), cfg["hi"]))
    tabs = tables(cfg)
    f = m.run(PROBES, "halin", [G])
    h = f("halin")
    m.check("Halin test", Iff(h, one_of(V, E, tabs[0])))
    m.cover("halin", h)
    m.cover("not halin", Not(h))
    f = m.run(PROBES, "reducible", [G])
    d = f("D3")
    m.check("D3-reducibility test", Iff(d, one_of(V, E, tabs[1])))
    m.cover("D3", d)
    m.cover("not D3", Not(d))
    m.cover("D3 not halin", And(d, Not(h)))
    f = m.run(PROBES, "wheel", [G])
    m.check("wheel test", Iff(f("wheel"), one_of(V, E, tabs[2])))
    m.cover("wheel", f("wheel"))
    f = m.run(PROBES, "dual", [G])
    m.check("dual 3-tree test", Iff(f("dual"), one_of(V, E, tabs[3])))
    m.cover("dual 3-tree", f("dual"))
    f = m.run(PROBES, "leaves", [G])
    m.check("leaf set given exactly for Halin graphs", Iff(f("refused"), Not(h)))
    m.check("leaves are vertices", Not(Or([f(*k) for k in m.facts if k[0] == "leaf" and k[1] not in V])))
    L = {v: f("leaf", v) for v in V}
    tree = lambda a, b: And(E(a, b), Not(And(L[a], L[b])))
    inner = {v: Not(L[v]) for v in V}
    m.check("inner vertices and leaves", Implies(h, And(Or(list(inner.values())), AtLeast(list(L.values()), 3))))
    for v in V:
        m.check("leaf cycle", Implies(And(h, L[v]), Exactly([And(L[x], E(v, x)) for x in V if x != v], 2)))
        ts = [tree(v, x) for x in V if x != v]
        m.check("leaves and inner degrees", Implies(h, And(Implies(L[v], Exactly(ts, 1)), Or(L[v], AtLeast(ts, 3)))))
    m.check("one leaf cycle", Implies(h, connected(V, E, L)))
    m.check("rest is a tree", Implies(h, And(connected(V, tree, {v: T for v in V}),
                                             Exactly([tree(a, b) for a, b in pairs(V)], n - 1))))
    for a, b in pairs(V):
        if not is_false(E(a, b)):
            sub = lambda p, q: F if {p, q} == {a, b} else tree(p, q)
            R = reach(V, sub)
            cross = [And(L[p], L[q], E(p, q), Not(Iff(R[a, p], R[a, q]))) for p, q in pairs(V)]
            m.check("leaf cycle follows a plane embedding of the tree",
                    Implies(And(h, E(a, b), inner[a], inner[b]), Exactly(cross, 2)))
    f = m.run(PROBES, "cycle", [G])
    m.check("Hamiltonian cycle given exactly for D3-reducible graphs", Iff(f("refused"), Not(d)))
    C = {(u, v): f("next", u, v) for u in V for v in V}
    m.check("cycle of vertices", Not(Or([f(*k) for k in m.facts if k[0] == "next" and (k[1], k[2]) not in C])))
    for u in V:
        m.check("cycle visits every vertex", Implies(d, Exactly([C[u, v] for v in V], 2)))
        m.check("cycle uses edges", And([Implies(C[u, v], And(E(u, v), C[v, u])) for v in V]))
    m.check("one cycle", Implies(d, connected(V, lambda a, b: C[a, b], {v: T for v in V})))


def harness(c, cfg):
    G, V, E = graph(c, cfg)
    n = len(V)
    deg = lambda v: [E(v, w) for w in V if w != v]
    if "lo" in cfg:
        c.assume(And([AtLeast(deg(v), cfg["lo"]) for v in V]))
    if "hi" in cfg:
        c.assume(And([AtMost(deg(v), cfg["hi"]) for v in V]))
    m = c.mod("halin")
    h, d = bool(m.is_halin(G)), bool(m.is_D3_reducible(G))
    w, t = bool(m.is_wheel(G)), bool(m.is_dual_3_tree(G))
    c.observe((h, d, w, t))
    for b, s in ((h, "halin"), (d, "D3"), (w, "wheel"), (t, "dual 3-tree")):
        c.outcome(s if b else "not " + s)
    if d and not h:
        c.outcome("D3 not halin")
    # Halin graphs and 3-connected reducible graphs have at most 2n-2 edges and minimum degree 3
    f = c.memo("f", lambda: [one_of(V, E, g) for g in tables(cfg)])
    c.check("Halin test", Iff(h, f[0]))
    c.check("D3-reducibility test", Iff(d, f[1]))
    c.check("wheel test", Iff(w, f[2]))
    c.check("dual 3-tree test", Iff(t, f[3]))
    L, exc = c.attempt(m.halin_leaf_vertices, G)
    c.check("leaf set given exactly for Halin graphs", (exc is None) == h)
    c.check("others refused with TypeError", exc is None or isinstance(exc, TypeError))
    if exc is None:
        L = set(L)
        inner = [v for v in V if v not in L]
        Lv = [v for v in V if v in L]
        c.check("leaves are vertices", L <= set(V) and bool(inner) and len(Lv) >= 3)
        c.check("leaf cycle", And([Exactly([E(v, x) for x in Lv if x != v], 2) for v in Lv] +
                                  [connected(Lv, E, {v: T for v in Lv})]))
        tree = lambda a, b: F if a in L and b in L else E(a, b)
        c.check("rest is a tree", And(connected(V, tree, {v: T for v in V}),
                                      Exactly([tree(a, b) for a, b in pairs(V)], n - 1)))
        c.check("leaves and inner degrees", And([Exactly([tree(v, x) for x in V if x != v], 1) for v in Lv] +
                                                [AtLeast([tree(v, x) for x in V if x != v], 3) for v in inner]))
        for a, b in pairs(inner):
            sub = lambda p, q, a=a, b=b: F if {p, q} == {a, b} else tree(p, q)
            R = reach(V, sub)
            cross = [And(E(p, q), Not(Iff(R[a, p], R[a, q]))) for p, q in pairs(Lv)]
            c.check("leaf cycle follows a plane embedding of the tree", Implies(E(a, b), Exactly(cross, 2)))
    H, exc = c.attempt(m.hamiltonian_cycle_D3, G)
    c.check("Hamiltonian cycle given exactly for D3-reducible graphs", (exc is None) == d)
    c.check("others refused with TypeError", exc is None or isinstance(exc, TypeError))
    if exc is None:
        H = {v: set(H[v]) for v in H}
        c.check("cycle visits every vertex", set(H) == set(V) and all(len(H[v]) == 2 for v in H) and
                all(u in H[v] for u in H for v in H[u]))
        c.check("cycle uses edges", And([E(u, v) for u in H for v in H[u]]))
        X = lambda a, b: T if b in H[a] else F
        c.check("one cycle", connected(V, X, {v: T for v in V}))
