"""Longest common subsequence."""
from props.common import *

BOUNDS = "all pairs of sequences of up to 4 values each with arbitrary equalities; thorough: up to 5 by 4 and 6 by 3"
OUTSIDE = "longer sequences"
EXPECT = ["empty", "some"]
CONFIGS = [dict(name="%d by %d" % (n, m), n=n, m=m) for n in range(5) for m in range(5)] \
    + [dict(name="%d by %d" % (n, m), n=n, m=m, tiers=["thorough"]) for n, m in ((5, 3), (3, 5), (5, 4), (4, 5), (6, 3), (3, 6))]


def harness(c, cfg):
    A = [c.val("a%d" % i, ordered=False) for i in range(cfg["n"])]
    B = [c.val("b%d" % i, ordered=False) for i in range(cfg["m"])]
    r = list(c.mod("lcs").longest_common_subsequence(list(A), tuple(B)))
    k = len(r)
    c.outcome("some" if k else "empty")
    c.observe(k)

    def sub(X):
        return Or([And([c.z(X[i]) == c.z(x) for i, x in zip(I, r)]) for I in itertools.combinations(range(len(X)), k)])
    c.check("subsequence of the first", sub(A))
    c.check("subsequence of the second", sub(B))
    if k < min(len(A), len(B)):
        c.check("none is longer", c.memo(("longer", k), lambda: And([
            Not(And([c.z(A[i]) == c.z(B[j]) for i, j in zip(I, J)]))
            for I in itertools.combinations(range(len(A)), k + 1)
            for J in itertools.combinations(range(len(B)), k + 1)]), values=True))
