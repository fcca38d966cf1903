"""Integer partitions."""
from props.common import *

BOUNDS = "all generators for 0-10 (binary partitions 0-14, fixed lengths 0-10), the partition looked for being a free variable; " \
         "conjugation of every partition with up to 4 parts of size up to 5; thorough: up to 14 (binary 24), 5 parts of size up to 6"
OUTSIDE = "larger numbers; negative numbers except that they have no partitions"
EXPECT = ["mckay", "revlex", "lex", "default", "binary", "fixed", "conjugate"]
CONFIGS = [dict(name="%s %d" % (g, n), gen=g, n=n) for g in ("mckay", "revlex", "lex", "default") for n in range(-1, 11)] \
    + [dict(name="binary %d" % n, gen="binary", n=n) for n in range(-1, 15)] \
    + [dict(name="fixed %d" % n, gen="fixed", n=n) for n in range(0, 11)] \
    + [dict(name="conjugate %d" % k, gen="conjugate", n=k, most=5) for k in range(5)] \
    + [dict(name="%s %d" % (g, n), gen=g, n=n, tiers=["thorough"]) for g in ("mckay", "revlex", "lex", "fixed") for n in range(11, 15)] \
    + [dict(name="binary %d" % n, gen="binary", n=n, tiers=["thorough"]) for n in range(15, 25)] \
    + [dict(name="conjugate 5", gen="conjugate", n=5, most=6, tiers=["thorough"])]


def take(gen, most=5000):
    return [tuple(p) for p in itertools.islice(gen, most)]


def among(c, w, out):
    """the free partition w (padded with zeros) is one of the listed ones"""
    return Or([And([c.z(a) == (v[i] if i < len(v) else 0) for i, a in enumerate(w)]) for v in out if len(v) <= len(w)])


def harness(c, cfg):
    m = c.mod("integer_partitions")
    g, n = cfg["gen"], cfg["n"]
    c.outcome(g)
    if g == "conjugate":
        p = [c.int("p%d" % i, 1, cfg["most"]) for i in range(n)]
        c.assume(And([c.z(a) >= c.z(b) for a, b in zip(p, p[1:])]))
        q = list(m.conjugate(list(p)))
        # q[j] = number of parts larger than j
        c.check("as many parts as the largest part", len(q) == 0 if not p else c.z(p[0]) == len(q))
        for j, x in enumerate(q):
            c.check("part of the transpose", Exactly([c.z(a) > j for a in p], x))
        r = list(m.conjugate(list(q)))
        c.check("involution", And([len(r) == n] + [c.z(a) == c.z(b) for a, b in zip(r, p)]))
        return
    gens = dict(mckay=m.mckay, revlex=m.revlex_partitions, lex=m.lex_partitions, default=m.partitions, binary=m.binary_partitions)
    if n < 0:
        c.check("no partitions of negative numbers", take(gens[g](n)) == [])
        w = c.int("w", 0, 1)
        return
    size = max(n, 1)
    w = [c.int("w%d" % i, 0, n) for i in range(size)]
    part = And([c.z(a) >= c.z(b) for a, b in zip(w, w[1:])] + [sum(c.z(a) for a in w) == n])
    if g == "fixed":
        for L in range(0, n + 2):
            out = take(m.fixed_length_partitions(n, L))
            common(c, out)
            c.check("colex order", all(a[::-1] < b[::-1] for a, b in zip(out, out[1:])))
            if L > size:
                c.check("none longer than the number", out == [])
                continue
            kind = And([part] + [c.z(a) > 0 for a in w[:L]] + [c.z(a) == 0 for a in w[L:]])
            c.check("length %d: yielded exactly if of the kind" % L, Iff(among(c, w, out), kind))
        return
    out = take(gens[g](n))
    common(c, out)
    if g == "lex":
        c.check("lexicographic order", all(a < b for a, b in zip(out, out[1:])))
    else:
        c.check("reverse lexicographic order", all(a > b for a, b in zip(out, out[1:])))
    if g == "binary":
        pw = [0] + [1 << i for i in range(n.bit_length())]
        part = And(part, And([Or([c.z(a) == x for x in pw]) for a in w]))
    c.check("yielded exactly if of the kind", Iff(among(c, w, out), part))


def common(c, out):
    c.check("no repeats", len(set(out)) == len(out))
    c.check("nonincreasing positive parts", all(all(x > 0 for x in p) and list(p) == sorted(p, reverse=True) for p in out))
