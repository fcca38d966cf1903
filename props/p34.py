"""Lowest common ancestors."""
from props.common import *

BOUNDS = "every rooted tree on up to 5 nodes with arbitrary distinct unorderable names, given in any parent structure over a fixed " \
         "node order, queries with one, two or three arbitrary names; paths and caterpillars up to 24 nodes with 4 links free; " \
         "inputs that are not trees refused; thorough: every tree on 6 nodes"
OUTSIDE = "larger trees; trees of a single node (no parent link); recursion depth limits"
EXPECT = ["tree", "not a tree", "unknown"]

CONFIGS = [dict(name="%s trees %d" % (w, n), which=w, n=n) for w in ("online", "log", "offline") for n in (2, 3, 4, 5)] \
    + [dict(name="%s trees 6" % w, which=w, n=6, tiers=["thorough"]) for w in ("online", "offline")] \
    + [dict(name="%s %s %d" % (w, s, n), which=w, shape=s, n=n) for w in ("online", "offline")
       for s, n in (("path", 9), ("path", 17), ("cat", 12), ("cat", 24), ("bin", 15), ("star", 16))] \
    + [dict(name="%s maybe %d" % (w, n), which=w, n=n, maybe=1) for w in ("online", "offline") for n in (2, 3)]


def harness(c, cfg):
    m = c.mod("lca")
    n, which = cfg["n"], cfg["which"]
    names = [c.val("v%d" % i, ordered=False) for i in range(n)]
    c.assume(And([c.z(a) != c.z(b) for a, b in pairs(names)]))
    par = {}                                       # index -> index of the parent (forks)
    if cfg.get("maybe"):
        # any parent for any node, cycles and several roots included
        for i in range(n):
            par[i] = c.int("p%d" % i, -1, n - 1)
        par = {i: int(p) for i, p in par.items()}
        par = {i: p for i, p in par.items() if p >= 0}
        if not par:
            return
    elif "shape" in cfg:
        for i in range(1, n):
            s = cfg["shape"]
            p = i - 1 if s == "path" else 0 if s == "star" else (i - 1) // 2 if s == "bin" else i - 1 - (i % 2 == 0)
            if i >= n - 3:
                p = (p, i // 2, 0)[int(c.int("p%d" % i, 0, 2))]
            par[i] = p
    else:
        for i in range(1, n):
            par[i] = c.int("p%d" % i, 0, n - 1)
            c.assume(c.z(par[i]) != i)
        for i in range(1, n):
            c.assume(Or([And([step(c, par, i, k, n) == 0]) for k in range(1, n)]))
        par = {i: int(p) for i, p in par.items()}

    def up(i):
        out = [i]
        while i in par and len(out) <= n:
            i = par[i]
            out.append(i)
        return out
    used = set(par) | set(par.values())
    roots = [i for i in used if i not in par]
    tree = len(roots) == 1 and all(up(i)[-1] == roots[0] for i in par)
    order = list(par)
    if cfg.get("shape") == "cat":
        order.reverse()
    parent = {names[i]: names[par[i]] for i in order}

    def ancestor(idx):
        """index of the lowest common ancestor"""
        common = [x for x in up(idx[0]) if all(x in up(j) for j in idx[1:])]
        return common[0]
    used = sorted(used)
    if which == "offline":
        prs = [(names[i], names[j]) for i in used for j in used if "shape" not in cfg or (i * 7 + j) % 3 == 0 or i > n - 5]
        if len(roots) == 1 and not tree:
            return                                  # a cycle beside the tree: only its own nodes are affected
        L, exc = c.attempt(m.OfflineLCA, parent, prs)
        c.outcome("tree" if tree else "not a tree")
        c.check("trees accepted, others refused", (exc is None) == tree)
        if tree:
            for i in used:
                for j in used:
                    if "shape" not in cfg or (i * 7 + j) % 3 == 0 or i > n - 5:
                        c.check("offline answer", c.z(L[names[i]][names[j]]) == c.z(names[ancestor([i, j])]))
                        c.check("offline answer both ways", c.z(L[names[j]][names[i]]) == c.z(names[ancestor([i, j])]))
        return
    L, exc = c.attempt(m.LCA, parent, m.LogarithmicRangeMin) if which == "log" else c.attempt(m.LCA, parent)
    c.outcome("tree" if tree else "not a tree")
    c.check("trees accepted, others refused", (exc is None) == tree)
    if not tree:
        return
    for i in used:
        c.check("one node", c.z(L(names[i])) == c.z(names[i]))
        for j in used:
            if "shape" in cfg and (i + j) % 3 and j < n - 3:
                continue
            c.check("two nodes", c.z(L(names[i], names[j])) == c.z(names[ancestor([i, j])]))
    if len(used) > 2 and which == "online":
        for i, j, k in itertools.combinations(used[-5:], 3):
            c.check("three nodes", c.z(L(names[j], names[k], names[i])) == c.z(names[ancestor([i, j, k])]))
    q = c.val("q", ordered=False)
    known = False
    for i in used:
        if q == names[i]:
            known = True
            c.check("query by an equal name", c.z(L(q, names[used[0]])) == c.z(names[ancestor([i, used[0]])]))
            break
    if not known:
        c.outcome("unknown")
        _, exc = c.attempt(L, q)
        c.check("unknown node refused", exc is not None)


def step(c, par, i, k, n):
    """the node k links above i, as a term"""
    import z3
    t = z3.IntVal(i)
    for _ in range(k):
        r = z3.IntVal(0)
        for j in range(1, n):
            r = z3.If(t == j, c.z(par[j]), r)
        t = r
    return t
