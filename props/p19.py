"""Partitions of cubic graphs into three matchings; xyz graphs."""
from props.common import *

PETERSEN = [(i, (i + 1) % 5) for i in range(5)] + [(i, i + 5) for i in range(5)] + [(i + 5, (i + 2) % 5 + 5) for i in range(5)]
CUBE = [(i, i ^ b) for i in range(8) for b in (1, 2, 4) if i < i ^ b]
SOME12 = [(0, 3), (0, 5), (0, 6), (1, 4), (1, 8), (2, 7), (2, 4), (3, 8), (3, 6), (4, 9), (5, 10), (5, 8), (6, 11), (7, 10),
          (9, 11), (7, 9), (1, 10), (8, 11)]
BOUNDS = "all cubic biconnected graphs on 4 and 6 vertices; a cycle with any chords on 8 and 10 vertices, with 18 chosen chords on 12; the cube and the Petersen graph; every partition of the " \
         "edges into three matchings; thorough: a cycle with chords on 12 vertices"
OUTSIDE = "larger graphs; most cubic graphs without a Hamiltonian cycle"
EXPECT = ["partition", "no partition", "xyz", "not xyz"]
THOROUGH_S = 3600
CONFIGS = [dict(name="all 4", n=4, how="all", kind="set"), dict(name="all 6", n=6, how="all", kind="set"), dict(name="all 6 list", n=6, how="all", kind="list"),
           dict(name="chords 8", n=8, how="chords", kind="set"), dict(name="chords 8 back", n=8, how="back", kind="list"),
           dict(name="chords 10", n=10, how="chords", kind="list"), dict(name="cube", n=8, how="fixed", kind="set", edges=CUBE),
           dict(name="petersen", n=10, how="fixed", kind="list", edges=PETERSEN),
           dict(name="some chords 12", n=12, how="chords", kind="list", some=SOME12),
           dict(name="chords 12", n=12, how="chords", kind="list", tiers=["thorough"], merge_s=2400),
           dict(name="chords 10 back", n=10, how="back", kind="list", tiers=["thorough"])]
PERMS = list(itertools.permutations(range(3)))


PROBES = """
from .xyz_graph import CubicMatchPartitions, xyzEmbeddings

def partitions(G, V):
    seen = set()
    for P in CubicMatchPartitions(G):
        t = tuple([tuple(P[v]) for v in V])
        fact(("part", t))
        fact("repeated", t in seen)
        fact("vertices", len(P) != len(V))
        seen.add(t)

def embeddings(G, V):
    seen = set()
    for D in xyzEmbeddings(G):
        t = tuple([tuple(D[v]) for v in V])
        fact(("emb", t))
        fact("repeated", t in seen)
        fact("vertices", len(D) != len(V))
        seen.add(t)
"""


def classes_of(n, edges, col):
    """The vertices grouped by the cycles of two of three matchings, for each pair of matchings."""
    out = []
    for i, j in ((0, 1), (0, 2), (1, 2)):
        comp = list(range(n))
        for u, w in edges:
            if col[u, w] in (i, j):
                a, b = comp[u], comp[w]
                comp = [a if x == b else x for x in comp]
        out.append(comp)
    return out


def xyz_classes(n, edges, col):
    """What an xyz embedding from this partition looks like, or None if there is none."""
    cl = classes_of(n, edges, col)
    point = [tuple(c[v] for c in cl) for v in range(n)]
    lines = {}
    for p in point:
        for i, j in ((0, 1), (0, 2), (1, 2)):
            lines.setdefault((i, j, p[i], p[j]), set()).add(p)
    if len(set(point)) < n or any(len(s) != 2 for s in lines.values()):
        return None
    return frozenset(frozenset(p for p in itertools.combinations(range(n), 2) if c[p[0]] == c[p[1]]) for c in cl)


def shape(kind, k):
    """A reported partition or embedding whatever the order of its matchings or axes."""
    if k[0] != kind:
        return k
    cols = list(zip(*k[1]))
    if kind == "emb":
        cols = [tuple(c.index(x) for x in c) for c in cols]
    return kind, frozenset(cols)


def merged(m, cfg):
    n, how = cfg["n"], cfg["how"]
    V = range(n)
    everything = list(itertools.combinations(V, 2))
    ring = [tuple(sorted((i, (i + 1) % n))) for i in V]
    fixed = {"all": [], "fixed": [tuple(sorted(e)) for e in cfg.get("edges", ())]}.get(how, ring)
    free = {"all": everything, "fixed": []}.get(how, [e for e in everything if e not in ring])
    if "some" in cfg:
        m.fixed = {"e%d_%d" % e: False for e in free if list(e) not in [list(x) for x in cfg["some"]]}
        free = [e for e in free if "e%d_%d" % e not in m.fixed]
    B = {e: m.bool("e%d_%d" % e) if e in free else (T, m.guard(T)) for e in fixed + free}
    E = lambda u, v: B[min(u, v), max(u, v)][0] if (min(u, v), max(u, v)) in B else F
    D = m.I.G
    for v in V:
        at = [B[e][1] for e in B if v in e]
        m.assume(D.both(D.atmost(at, 3), D.atmost([g ^ 1 for g in at], len(at) - 3)))
    if how == "all":                      # keep to biconnected graphs
        for x in list(V) + [None]:
            m.assume(m.guard(connected([v for v in V if v != x], E, {v: T for v in V})))
    name = (lambda v: n - v) if how == "back" else (lambda v: v)
    order = {name(v): [(name(w), B[min(v, w), max(v, w)]) for w in sorted(V, reverse=how == "back")
                       if (min(v, w), max(v, w)) in B] for v in V}
    G = m.relation([name(v) for v in V], order, cfg["kind"])
    names = tuple(name(v) for v in V)
    back = {name(v): v for v in V}
    f = m.run(PROBES, "partitions", [G, names], canon=lambda k: shape("part", k))
    m.check("no partition twice, all vertices", Not(Or(f("repeated"), f("vertices"))))
    parts, by, xyz = [], {}, {}
    for k in [k for k in m.facts if k[0] == "part"]:
        P = [[back.get(w) for w in t] for t in k[1]]
        ok = all(len(t) == 3 and None not in t for t in P) and all(P[P[v][i]][i] == v for v in V for i in range(3))
        if not ok:
            m.check("three matchings", Not(f(*k)))
            continue
        edges = [(u, w) for u in V for w in P[u] if u < w]
        m.check("matchings of edges", Implies(f(*k), And([E(u, w) for u, w in edges])))
        if len(set(edges)) != 3 * n // 2:
            m.check("three different neighbours", Not(f(*k)))
            continue
        col = {(u, w): P[u].index(w) for u, w in edges}
        to = {i: j for j, i in enumerate(col[e] for e in sorted(edges) if e[0] == 0)}
        col = {e: to[col[e]] for e in col}
        parts.append((col, f(*k)))
        by.setdefault(frozenset(col.items()), []).append(f(*k))
        c = xyz_classes(n, edges, col)
        if c:
            xyz.setdefault(c, []).append(f(*k))
    for fs in by.values():
        if len(fs) > 1:
            m.check("no partition twice", AtMost(fs, 1))
    w = {e: [m.witness("c%d_%d_%d" % (e + (i,))) for i in range(3)] for e in B}
    proper = [Implies(B[e][0], Exactly(w[e], 1)) for e in B]
    proper += [Not(And(B[e][0], B[g][0], w[e][i], w[g][i])) for e, g in itertools.combinations(B, 2) if set(e) & set(g)
               for i in range(3)]
    # the colours at one vertex may be fixed: renaming the colours does not change the partition
    first = sorted(e for e in B if e[0] == 0)
    proper += [Implies(And(B[e][0], Exactly([B[g][0] for g in first if g < e], i)), w[e][i]) for e in first for i in range(3)]
    missing = [Not(And([g] + [w[e][i] for e, i in col.items()])) for col, g in parts]
    m.check("every partition is generated", Not(And(proper + missing)))
    h = m.run(PROBES, "embeddings", [G, names], canon=lambda k: shape("emb", k))
    m.check("no embedding twice, all vertices", Not(Or(h("repeated"), h("vertices"))))
    got = {}
    for k in [k for k in m.facts if k[0] == "emb"]:
        if not all(len(t) == 3 for t in k[1]):
            m.check("three coordinates", Not(h(*k)))
            continue
        c = frozenset(frozenset(p for p in everything if k[1][p[0]][i] == k[1][p[1]][i]) for i in range(3))
        got.setdefault(c, []).append(h(*k))
    for c in set(got) | set(xyz):
        # the classes determine the edges: no partition or embedding of another graph is meant
        m.check("exactly the embeddings", Iff(Or(got.get(c, [])), Or(xyz.get(c, []))))
        m.check("no embedding twice", AtMost(got.get(c, []), 1))
    some = Or([g for _, g in parts])
    m.cover("partition", some)
    m.cover("no partition", Not(some))
    m.cover("xyz", Or([g for gs in got.values() for g in gs]))
    m.cover("not xyz", Or([g for col, g in parts if not xyz_classes(n, list(col), col)]))


def harness(c, cfg):
    m = c.mod("xyz_graph")
    n, how = cfg["n"], cfg["how"]
    V = range(n)
    everything = [(u, v) for u in V for v in V if u < v]
    ring = [tuple(sorted((i, (i + 1) % n))) for i in V]
    if how == "all":
        fixed, free = [], everything
    elif how == "fixed":
        fixed, free = [tuple(e) for e in cfg["edges"]], []
    else:
        fixed = ring
        if "some" in cfg:
            for e in everything:
                if e not in ring and list(e) not in [list(x) for x in cfg["some"]]:
                    c.assume(Not(c.zbool("e%d_%d" % e)))
        free = [e for e in everything if e not in ring]
    E = {e: c.zbool("e%d_%d" % e) if e in free else T for e in fixed + free}
    if free:
        c.assume(c.memo("cubic", lambda: And([Exactly([E[e] for e in E if v in e], 3) for v in V])))
    has = {e: c.decided(b) for e, b in E.items()}
    order = (lambda s: sorted(s, reverse=how == "back"))
    name = (lambda v: n - v) if how == "back" else (lambda v: v)
    edges = [e for e in E if has[e]]
    nbr = {v: order(u if v == w else w for u, w in edges if v in (u, w)) for v in V}
    if how == "all":                  # keep to biconnected graphs
        for x in list(V) + [None]:
            rest = [v for v in V if v != x]
            seen, todo = {rest[0]}, [rest[0]]
            while todo:
                for w in nbr[todo.pop()]:
                    if w != x and w not in seen:
                        seen.add(w)
                        todo.append(w)
            if len(seen) < len(rest):
                return
    kind = set if cfg["kind"] == "set" else list
    G = {name(v): kind(name(w) for w in nbr[v]) for v in V}

    parts = []
    for P in m.CubicMatchPartitions(G):
        P = {v: list(P[v]) for v in P}
        c.check("three neighbours each, in the order of the matchings", sorted(P) == sorted(G) and all(sorted(P[v]) == sorted(G[v]) for v in G))
        c.check("matchings", all(P[P[v][i]][i] == v for v in P for i in range(3)))
        parts.append({e: P[name(e[0])].index(name(e[1])) for e in edges})
    canon = [frozenset(frozenset(e for e in edges if p[e] == i) for i in range(3)) for p in parts]
    c.check("no partition twice", len(set(canon)) == len(canon))
    col = {e: c.wint("colour%d_%d_" % e) for e in edges}
    proper = And([And(0 <= col[e], col[e] <= 2) for e in edges] +
                 [col[e] != col[f] for e, f in itertools.combinations(edges, 2) if set(e) & set(f)])
    # the colours at one vertex may be fixed: renaming the colours does not change the partition
    at = [e for e in edges if 0 in e]
    norm = And([col[e] == i for i, e in enumerate(at)])
    found = []
    for p in parts:
        to = {p[e]: i for i, e in enumerate(at)}
        found.append(And([col[e] == to[p[e]] for e in edges]))
    c.check("every partition is generated", Implies(And(proper, norm), Or(found)))
    c.outcome("partition" if parts else "no partition")

    good = set()
    for p in parts:
        classes = []
        for i, j in ((0, 1), (0, 2), (1, 2)):
            comp = {v: v for v in V}
            for u, w in edges:
                if p[u, w] in (i, j):
                    a, b = comp[u], comp[w]
                    for v in V:
                        if comp[v] == b:
                            comp[v] = a
            classes.append(comp)
        point = {v: tuple(cl[v] for cl in classes) for v in V}
        lines = {}
        for v in V:
            for i, j in ((0, 1), (0, 2), (1, 2)):
                lines.setdefault((i, j, point[v][i], point[v][j]), set()).add(point[v])
        if len(set(point.values())) == n and all(len(s) == 2 for s in lines.values()):
            good.add(frozenset(frozenset((u, w) for u, w in everything if cl[u] == cl[w]) for cl in classes))
            c.outcome("xyz")
        else:
            c.outcome("not xyz")
    got = []
    for D in m.xyzEmbeddings(G):
        c.check("a point for every vertex", sorted(D) == sorted(G) and all(len(D[v]) == 3 for v in D))
        got.append(frozenset(frozenset((u, w) for u, w in everything if D[name(u)][k] == D[name(w)][k]) for k in range(3)))
    c.check("no embedding twice", len(set(got)) == len(got))
    c.check("exactly the embeddings", set(got) == good)
