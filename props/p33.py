"""Range minimum structures."""
from props.common import *

BOUNDS = "every slice of lists of 1-5 comparable values with ties (general structure), of 1-12 integers (precomputed and " \
         "logarithmic structures), and of 1-40 integers with steps of +-1 from an arbitrary start (restricted structure, all steps " \
         "free up to length 8, the last 7 free beyond); slices with out-of-range and negative ends; thorough: 6 comparable values, " \
         "restricted lists up to 72"
OUTSIDE = "longer lists; empty slices of the internal structures"
EXPECT = ["general", "precomputed", "logarithmic", "restricted", "refused", "none"]

CONFIGS = [dict(name="general %d" % n, kind="general", n=n) for n in (1, 2, 3, 4, 5)] \
    + [dict(name="general 6", kind="general", n=6, tiers=["thorough"])] \
    + [dict(name="%s %d" % (k, n), kind=k, n=n) for k in ("precomputed", "logarithmic") for n in range(1, 13)] \
    + [dict(name="restricted %d" % n, kind="restricted", n=n, free=min(n - 1, 7)) for n in list(range(1, 20)) + [31, 32, 33, 40]] \
    + [dict(name="restricted %d" % n, kind="restricted", n=n, free=9, tiers=["thorough"]) for n in (16, 17, 48, 63, 64, 65, 72)]


def harness(c, cfg):
    m = c.mod("lca")
    n, kind = cfg["n"], cfg["kind"]
    c.outcome(kind)
    if kind == "general":
        X = [c.val("x%d" % i) for i in range(n)]
        R = m.RangeMin(list(X))
    elif kind == "restricted":
        X = [c.int("start")]
        for i in range(1, n):
            free = i >= n - cfg["free"] if n % 2 else i <= cfg["free"]
            up = c.int("up%d" % i, 0, 1) if free else int((i * i + i // 3) % 3 != 0)
            X.append(X[-1] + (2 * up - 1))
        R = m.RestrictedRangeMin(list(X))
    else:
        X = [c.int("x%d" % i) for i in range(n)]
        R = (m.PrecomputedRangeMin if kind == "precomputed" else m.LogarithmicRangeMin)(list(X))
    c.check("length", len(R) == n)
    for i in range(n):
        for j in range(i + 1, n + 1):
            minimum(c, "minimum", R[i:j], X[i:j])
    minimum(c, "whole slice", R[:], X)
    minimum(c, "end beyond the list", R[0:n + 3], X)
    minimum(c, "negative start", R[-1:], X[-1:])
    if n > 1:
        minimum(c, "negative end", R[:-1], X[:-1])
    for bad in (slice(0, n, 2), 0):
        if n > 1 or bad == 0:
            _, exc = c.attempt(lambda: R[bad])
            c.outcome("refused")
            c.check("stepped slices and plain indices refused", exc is not None)
    if kind == "general":
        c.outcome("none")
        for i in range(n):
            c.check("an empty slice has no minimum", R[i:i] is None)


def minimum(c, label, r, xs):
    z = c.z(r)
    c.check(label, And([z <= c.z(x) for x in xs] + [Or([z == c.z(x) for x in xs])]))
