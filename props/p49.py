"""Named graph constructors."""
from props.common import *

BOUNDS = "generalised Petersen graphs with n = 3-14 and every k; generalised Coxeter graphs with n = 3-11 and every a and b; LCF " \
         "graphs with up to 6 (thorough 8) symbolic jumps, up to 18 (24) vertices; cube-connected cycles of 3-5 dimensions; the eight " \
         "named graphs, the short cycle looked for being a free walk"
OUTSIDE = "larger parameters; jumps that are not those of a cubic graph"
EXPECT = ["petersen", "coxeter", "lcf", "cube", "named"]
NAMED = dict(PetersenGraph=(10, 5), DesarguesGraph=(20, 6), CoxeterGraph=(28, 7), McGeeGraph=(24, 7), DyckGraph=(32, 6),
             PappusGraph=(18, 6), TutteCoxeterGraph=(30, 8), GrayGraph=(54, 8))
CONFIGS = [dict(name="petersen %d" % n, what="petersen", n=n) for n in range(3, 15)] \
    + [dict(name="coxeter %d" % n, what="coxeter", n=n) for n in range(3, 12)] \
    + [dict(name="lcf %d^%d" % (l, k), what="lcf", path_s=500, l=l, k=k) for l, k in
       ((1, 4), (1, 6), (1, 8), (2, 2), (2, 3), (2, 5), (3, 2), (3, 4), (4, 1), (4, 2), (4, 3), (5, 2), (6, 1), (3, 6))] \
    + [dict(name="lcf %d^%d" % (l, k), what="lcf", path_s=1800, l=l, k=k, tiers=["thorough"]) for l, k in ((6, 2), (3, 8), (8, 1), (8, 2))] \
    + [dict(name="cube %d" % n, what="cube", n=n) for n in (3, 4, 5)] \
    + [dict(name=g, what="named", path_s=240, g=g, n=v[0], girth=v[1]) for g, v in NAMED.items()]


def zv(v):
    """vertex as a tuple of terms"""
    from symx import vals
    return [vals.zint(x) if not isinstance(x, bool) else z3.IntVal(int(x)) for x in (v if isinstance(v, tuple) else (v,))]


def plain(v):
    return all(isinstance(x, int) for x in v) if isinstance(v, tuple) else isinstance(v, int)


def same(u, v):
    if plain(u) and plain(v):
        return T if u == v else F
    a, b = zv(u), zv(v)
    return And([x == y for x, y in zip(a, b)]) if len(a) == len(b) else F


def cubic(c, G):
    """simple, undirected, three neighbours each"""
    for v in G:
        nb = list(G[v])
        c.check("three neighbours", len(nb) == 3)
        c.check("distinct neighbours", And([Not(same(a, b)) for a, b in pairs(nb)] + [Not(same(a, v)) for a in nb]))
        for w in nb:
            if plain(w):
                c.check("known neighbour", w in G)
            c.check("edges go both ways", Or([And(same(w, u), Or([same(x, v) for x in G[u]]))
                                              for u in ([w] if plain(w) else G)]))


def mod(x, n, vals):
    """x = some member of vals modulo n"""
    return Or([(x - y) % n == 0 for y in vals])


def harness(c, cfg):
    m = c.mod("graph_examples")
    what = cfg["what"]
    c.outcome(what)
    E = lambda G, u, v: Or([same(x, v) for x in G[u]])
    if what == "petersen":
        n = cfg["n"]
        kk = c.int("k", 1, n // 2 - (n % 2 == 0) if n > 2 else 1)
        k = c.z(kk)
        c.assume(2 * k < n)
        G = m.GeneralizedPetersenGraph(n, kk)
        c.check("vertices", len(G) == 2 * n and all((i, b) in G for i in range(n) for b in (True, False)))
        cubic(c, G)
        for i in range(n):
            for j in range(n):
                c.check("outer cycle", Iff(E(G, (i, True), (j, True)), T if (i - j) % n in (1, n - 1) else F))
                c.check("spokes", Iff(E(G, (i, True), (j, False)), T if i == j else F))
                c.check("inner star", Iff(E(G, (i, False), (j, False)), Or((i + k - j) % n == 0, (i - k - j) % n == 0)))
    elif what == "coxeter":
        n = cfg["n"]
        aa, bb = c.int("a", 1, n), c.int("b", 1, n)
        a, b = c.z(aa), c.z(bb)
        c.assume(And(2 * a < n, 2 * b < n))
        G = m.GeneralizedCoxeterGraph(n, aa, bb)
        c.check("vertices", len(G) == 4 * n and all((i, t) in G for i in range(n) for t in range(4)))
        cubic(c, G)
        for i in range(n):
            for j in range(n):
                for t, s in ((1, z3.IntVal(1)), (2, a), (3, b)):
                    c.check("centre joined to the others", Iff(E(G, (i, 0), (j, t)), T if i == j else F))
                    c.check("cycles of the classes", Iff(E(G, (i, t), (j, t)), Or((i + s - j) % n == 0, (i - s - j) % n == 0)))
    elif what == "lcf":
        l, r = cfg["l"], cfg["k"]
        n = l * r
        L = [c.int("j%d" % i, -n + 1, n - 1) for i in range(l)]
        z = [c.z(x) for x in L]
        for i in range(l):
            c.assume(And((z[i]) % n != 0, (z[i] - 1) % n != 0, (z[i] + 1) % n != 0))
            # the chord leads back
            c.assume(And([Implies((i + z[i] - t) % l == 0, (z[i] + z[t]) % n == 0) for t in range(l)]))
        G = m.LCFNotation(list(L), r)
        c.check("vertices", len(G) == n and all(i in G for i in range(n)))
        cubic(c, G)
        for i in range(n):
            for j in range(n):
                c.check("cycle and chords", Iff(E(G, i, j), Or((T if (i - j) % n in (1, n - 1) else F), (i + z[i % l] - j) % n == 0)))
    elif what == "cube":
        n = cfg["n"]
        G = m.CubeConnectedCycles(n)
        x, y = c.z(c.int("x", 0, (1 << n) - 1)), c.z(c.int("y", 0, n - 1))
        c.check("vertices", len(G) == n << n)
        cubic(c, G)
        c.check("vertices are corners and directions", Or([And(zv(v)[0] == x, zv(v)[1] == y) for v in G]))
        for (a, b) in G:
            c.check("cycle and cube edges", set(map(tuple, G[a, b])) == {(a, (b + 1) % n), (a, (b - 1) % n), (a ^ 1 << b, b)})
    else:
        G = getattr(m, cfg["g"])
        n, g = cfg["n"], cfg["girth"]
        c.check("order", len(G) == n)
        cubic(c, G)
        vs = list(G)
        num = {v: i for i, v in enumerate(vs)}
        c.check("neighbours are vertices", all(w in num for v in G for w in G[v]))
        c.check("connected", reached(G, vs[0]) == n)
        c.check("a cycle as short as promised", any(closed(G, v, g) for v in vs))
        # no closed walk without immediate reversals shorter than the girth: the walk is free
        for L in range(3, g):
            w = [c.int("w%d_%d" % (L, i), 0, n - 1) for i in range(L)]
            z = [c.z(x) for x in w]
            step = lambda p, q: And([Implies(p == num[v], Or([q == num[x] for x in G[v]])) for v in G])
            turn = And([z[i] != z[(i + 2) % L] for i in range(L)])
            c.check("no shorter cycle", Not(And([step(z[i], z[(i + 1) % L]) for i in range(L)] + [turn])))


def reached(G, s):
    seen, todo = {s}, [s]
    while todo:
        for w in G[todo.pop()]:
            if w not in seen:
                seen.add(w)
                todo.append(w)
    return len(seen)


def closed(G, s, g):
    """some closed walk of this length from s without immediate reversals"""
    level = {(s, None)}
    for i in range(g):
        level = {(w, v) for v, u in level for w in G[v] if w != u}
    return any(v == s for v, u in level)
