"""Nonrepetitive paths in edge-labelled graphs."""
from props.common import *

BOUNDS = "labelled multigraphs with up to 7 directed or 7 two-way edges on up to 7 vertices (25 shapes) and vertices with 4-12 labels, with every choice of equal " \
         "and different labels; every start and every target; thorough: also all placements of 4 edges on 3 vertices"
OUTSIDE = "more edges with undetermined labels"
EXPECT = ["cyclic", "acyclic", "path", "no path"]
THOROUGH_S = 3000

# Edges are written "ab" (a to b) or "a-b" (both ways, one label).
SHAPES = ["ab bc", "ab ba", "ab bc ca", "aa ab", "aa ab bb ba", "ab bc cd da", "ab ab ba", "ab ab ba ba", "ab bc cb bd", "ab bc ca cd da",
          "ab bc ca ad de ea", "sa sb sc at bt ct", "ac bc cd ce", "ad bd cd de df dg", "ab bc cd db be", "aa aa aa", "aa aa ab ba",
          "a-b", "a-b b-c", "a-b b-c c-a", "a-b b-c c-d d-a", "a-b b-c c-d d-a a-c", "a-b a-c a-d b-c b-d c-d",
          "a-b b-c c-a a-d d-e e-a", "a-b a-b b-c b-c"]
CONFIGS = [dict(name="shape " + s, edges=s.split(), fan=0) for s in SHAPES] + [
    dict(name="fan %d" % k, edges=["xv", "vy"] + (["yx"] if k % 2 == 0 else ["xv"]), fan=k) for k in range(2, 11)] + [
    dict(name="fan %d cycle" % k, edges=["xv", "vx"], fan=k) for k in (3, 4, 5, 6, 7, 9)] + [
    dict(name="any %d" % first, edges=None, first=first, tiers=["thorough"]) for first in range(3)]


def harness(c, cfg):
    m = c.mod("repetitivity")
    items = []                        # (tail, head, label)
    if cfg["edges"] is None:
        ends = ["ab", "aa", "bc"][cfg["first"]]
        for i in range(4):
            e = ends if i == 0 else "".join(c.choice("e%d%d" % (i, j), "abc") for j in range(2))
            items.append((e[0], e[1], c.val("l%d" % i, ordered=False)))
    else:
        for i, e in enumerate(cfg["edges"]):
            lab = c.val("l%d" % i, ordered=False)
            items.append((e[0], e[-1], lab))
            if "-" in e:
                items.append((e[-1], e[0], lab))
        if cfg["fan"]:
            fixed = [c.val("f%d" % i, ordered=False) for i in range(cfg["fan"])]
            c.assume(And([c.z(a) != c.z(b) for a, b in itertools.combinations(fixed, 2)]))
            for i, lab in enumerate(fixed):
                items.append(("s%d" % i, "v", lab))
                items.append(("v", "t%d" % i, lab))
    V = sorted({x for u, v, _ in items for x in (u, v)})
    G = {v: {} for v in V}
    for u, v, lab in items:
        G[u].setdefault(v, []).append(lab)
    N = m.NonrepetitiveGraph(G)
    n = len(items)
    differ = lambda i, j: items[i][2] is not items[j][2] and c.z(items[i][2]) != c.z(items[j][2])
    step = {}
    for i in range(n):
        for j in range(n):
            step[i, j] = differ(i, j) if items[i][1] == items[j][0] else F
    c.check("the vertices", sorted(N) == V and all(v in N for v in V))

    def tables():
        S = lambda i, j: T if step[i, j] is True else F if step[i, j] is False else step[i, j]
        R = reach(range(n), S, reflexive=False)
        return S, R
    S, R = c.memo("reach", tables, values=True) if cfg["edges"] else tables()

    # edges on closed walks
    got = list(N.cyclic())
    for i, (u, v, lab) in enumerate(items):
        said = Or([And(a == u, b == v, c.z(x) == c.z(lab)) for a, b, x in got])
        same = [j for j in range(n) if items[j][:2] == (u, v)]
        c.check("reported as part of a closed walk", Iff(said, Or([And(R[j, j], c.z(items[j][2]) == c.z(lab)) for j in same])))
    for a, b, x in got:
        c.check("reported edges exist", Or([And(a == u, b == v, c.z(x) == c.z(lab)) for u, v, lab in items]))
    c.outcome("cyclic" if got else "acyclic")

    # reachable pairs and shortest paths
    starts = list(range(n))
    if cfg["edges"] and cfg["fan"]:
        k = len(cfg["edges"])
        starts = list(range(k)) + [k, n - 2]
    for i in starts:
        u, _, lab = items[i]
        first = [And(items[j][0] == u, c.z(items[j][2]) == c.z(lab)) for j in range(n)]
        dist = [first]
        for _ in range(n):
            p = dist[-1]
            dist.append([Or(p[j], Or([And(p[q], S(q, j)) for q in range(n)])) for j in range(n)])
        got = list(N.reachable(u, lab))
        for w, x in got:
            c.check("reported pairs are reachable", Or([And(items[j][1] == w, c.z(items[j][2]) == c.z(x), dist[n][j]) for j in range(n)]))
        targets = range(n) if len(starts) == n else starts
        for j in range(n):
            w, x = items[j][1], items[j][2]
            c.check("reachable pairs are reported", Implies(dist[n][j], Or([And(a == w, c.z(b) == c.z(x)) for a, b in got])))
        for j in targets:
            w, x = items[j][1], items[j][2]
            ends = [And(items[q][1] == w, c.z(items[q][2]) == c.z(x)) for q in range(n)]
            path, e = c.attempt(N.shortest, u, lab, w, x)
            if e is not None:
                c.check("only missing paths are refused: %r" % e, isinstance(e, ValueError))
                c.check("refused only if there is no walk", Not(Or([And(dist[n][q], ends[q]) for q in range(n)])))
                c.outcome("no path")
                continue
            c.outcome("path")
            k = len(path) - 1
            c.check("starts and ends there", k >= 1 and path[0] == u and path[-1] == w)
            at = [And(first[q], items[q][0] == path[0], items[q][1] == path[1]) for q in range(n)]
            for t in range(1, k):
                at = [And(items[q][0] == path[t], items[q][1] == path[t + 1], Or([And(at[p], S(p, q)) for p in range(n)])) for q in range(n)]
            c.check("the path can be labelled without repetition", Or([And(at[q], ends[q]) for q in range(n)]))
            if k >= 2:
                c.check("no shorter walk", Not(Or([And(dist[min(k - 2, n)][q], ends[q]) for q in range(n)])))
