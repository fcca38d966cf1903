"""Totally monotone matrix searching."""
from props.common import *

BOUNDS = "offline: every totally monotone integer matrix with up to 4 rows and columns; online: every sequence of up to 6 columns " \
         "over totally monotone entries, queried in order, backwards, by value, index or iteration; thorough: 5 by 5, 8 columns"
OUTSIDE = "larger matrices"
EXPECT = ["offline", "online"]
CONFIGS = [dict(name="offline %d by %d" % (r, k), rows=r, cols=k) for r in range(1, 5) for k in range(0, 5)] \
    + [dict(name="offline %d by %d" % (r, k), rows=r, cols=k) for r, k in ((5, 3), (3, 5), (6, 2), (2, 6))] \
    + [dict(name="offline %d by %d" % (r, k), rows=r, cols=k, tiers=["thorough"]) for r, k in ((5, 4), (4, 5), (5, 5), (6, 4))] \
    + [dict(name="online %d %s" % (n, w), n=n, how=w) for n in (1, 2, 3, 4, 5) for w in ("up", "last", "index", "iter")] \
    + [dict(name="online 6 up", n=6, how="up", tiers=["thorough"]), dict(name="online 7 last", n=7, how="last", tiers=["thorough"])]


def concave(c, M, keys):
    """M(i,j) > M(i',j) => M(i,j') > M(i',j') for i < i', j < j' (where all four are defined)."""
    out = []
    for i, j in keys:
        for i2, j2 in keys:
            if i < i2 and j < j2 and (i2, j) in M and (i, j2) in M:
                out.append(Implies(c.z(M[i, j]) > c.z(M[i2, j]), c.z(M[i, j2]) > c.z(M[i2, j2])))
    return And(out)


def harness(c, cfg):
    mod = c.mod("smawk")
    if "rows" in cfg:
        R, C = cfg["rows"], cfg["cols"]
        M = {(i, j): c.int("m%d_%d" % (i, j)) for i in range(R) for j in range(C)}
        c.assume(concave(c, M, list(M)))
        rows = [10 + 3 * i for i in range(R)]
        cols = ["c%d" % j for j in range(C)]
        asked = []

        def f(r, col):
            asked.append((r, col))
            return M[rows.index(r), cols.index(col)]
        out = mod.ConcaveMinima(list(rows), list(cols), f)
        c.outcome("offline")
        c.check("one answer per column", len(out) == C and all(x in out for x in cols))
        for j, col in enumerate(cols):
            v, r = out[col][0], out[col][1]
            c.check("row index", r in rows)
            c.check("column minimum", And([c.z(v) <= c.z(M[i, j]) for i in range(R)]))
            c.check("attained in the row named", c.z(v) == c.z(M[rows.index(r), j]))
            c.check("earliest such row", And([c.z(v) < c.z(M[i, j]) for i in range(rows.index(r))]))
        return
    n = cfg["n"]
    top = 2 * n + 2
    M = {(i, j): c.int("m%d_%d" % (i, j)) for j in range(1, top) for i in range(j) if i < n + 1}
    # beyond the last column asked for, the entries are -i, as the documentation suggests
    for (i, j) in M:
        if j > n:
            c.assume(c.z(M[i, j]) == -i)
    keys = [k for k in M if k[1] <= n]
    c.assume(concave(c, {k: M[k] for k in keys}, keys))
    state = dict(depth=0, obj=None)
    first = c.int("initial")

    def f(i, j):
        state["depth"] += 1
        c.check("entries asked for only above the diagonal", i < j)
        c.check("entries asked for only after the minimum of their row index", state["depth"] == 1)
        state["obj"].value(i)                      # must be available already
        state["depth"] -= 1
        return M[i, j] if (i, j) in M else -i
    O = state["obj"] = mod.OnlineConcaveMinima(f, first)
    c.outcome("online")
    how = cfg["how"]
    if how == "iter":
        got = list(itertools.islice(iter(O), n + 1))
        got = [(x[0], x[1]) for x in got]
    elif how == "up":
        got = [(O.value(j), O.index(j)) for j in range(n + 1)]
    elif how == "index":
        idx = [O.index(j) for j in range(n + 1)]
        got = [(O.value(j), idx[j]) for j in range(n + 1)]
    else:
        got = [(O.value(j), O.index(j)) for j in range(n, -1, -1)][::-1]
    c.check("initial value", c.z(got[0][0]) == c.z(first))
    for j in range(1, n + 1):
        v, r = got[j]
        c.check("index above the diagonal", isinstance(r, int) and 0 <= r < j)
        c.check("column minimum", And([c.z(v) <= c.z(M[i, j]) for i in range(j)]))
        c.check("attained at the index", c.z(v) == c.z(M[r, j]))
