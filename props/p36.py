"""Longest increasing subsequence."""
from props.common import *

BOUNDS = "all sequences of up to 6 comparable values with ties; thorough: 7"
OUTSIDE = "longer sequences"
EXPECT = ["0", "1", "more"]
CONFIGS = [dict(name="%d values" % n, n=n) for n in range(7)] + [dict(name="7 values", n=7, tiers=["thorough"])]


def harness(c, cfg):
    S = [c.val("x%d" % i) for i in range(cfg["n"])]
    r = list(c.mod("longest_increasing_subsequence").longest_increasing_subsequence(list(S)))
    k = len(r)
    c.outcome(str(k) if k < 2 else "more")
    c.observe(k)
    c.check("increasing", And([c.z(a) < c.z(b) for a, b in zip(r, r[1:])]))
    c.check("subsequence", Or([And([c.z(S[i]) == c.z(x) for i, x in zip(I, r)])
                               for I in itertools.combinations(range(len(S)), k)]))

    def inc(I):
        return And([c.z(S[i]) < c.z(S[j]) for i, j in zip(I, I[1:])])
    c.check("none is longer", c.memo(("longer", k), lambda: And([
        Not(inc(I)) for I in itertools.combinations(range(len(S)), k + 1)]), values=True))
    if k:
        c.check("none as long ends lower", And([Implies(inc(I), c.z(r[-1]) <= c.z(S[I[-1]]))
                                                for I in itertools.combinations(range(len(S)), k)]))
