"""Frequency estimates."""
from props.common import *

BOUNDS = "streams of 0-6 arbitrary keys, accuracies 1, 0.7, 1/2, 0.4, 1/3, 0.3, 1/4, estimates read after the last key (all prefixes " \
         "are covered by the shorter streams); thorough: 8 keys"
OUTSIDE = "longer streams; other accuracies"
EXPECT = ["tracked", "untracked"]

ACC = [1, 0.7, 0.5, 0.4, 1 / 3., 0.3, 0.25]
CONFIGS = [dict(name="%d keys accuracy %.2f" % (n, ACC[a]), n=n, acc=a) for n in range(7) for a in range(len(ACC))] + [
    dict(name="%d keys accuracy %.2f" % (n, ACC[a]), n=n, acc=a, tiers=["thorough"]) for n in (7, 8) for a in (0, 2, 4, 5)]


def harness(c, cfg):
    acc = ACC[cfg["acc"]]
    n = cfg["n"]
    E = c.mod("frequencyestimator").FrequencyEstimator(acc)
    xs = [c.val("x%d" % i, ordered=False) for i in range(n)]
    for x in xs:
        E += x
    q = c.val("q", ordered=False)
    for x in xs + [q]:
        est = E[x]
        c.outcome("tracked" if est else "untracked")
        count = [c.z(x) == c.z(y) for y in xs]
        # est * n <= count <= (est + accuracy) * n
        c.check("not above the true frequency", AtLeast(count, max(0, ceil(est * n - 1e-9))))
        c.check("within the accuracy", AtMost(count, floor((est + acc) * n + 1e-9)))
    keys = list(E)
    c.check("number of keys tracked", len(keys) <= 1 / acc + 1e-9)
    for a, b in pairs(keys):
        c.check("keys tracked are different", c.z(a) != c.z(b))
    for k in keys:
        c.check("keys tracked are from the stream", Or([c.z(k) == c.z(x) for x in xs]))
    c.observe(len(keys))


def ceil(x):
    return -int(-x // 1)


def floor(x):
    return int(x // 1)
