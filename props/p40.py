"""Permutation generators."""
from props.common import *

BOUNDS = "plain changes of 0-5 items (arbitrary items, repeats included), involutions of 0-6 items, Stirling permutations of orders " \
         "0-4, double permutations of orders 0-3; the arrangement looked for is a free variable; thorough: one size more"
OUTSIDE = "larger sizes"
EXPECT = ["permutations", "involutions", "stirling", "double"]
CONFIGS = [dict(name="permutations %d" % n, what="permutations", n=n) for n in range(6)] \
    + [dict(name="permutations 6", what="permutations", n=6, tiers=["thorough"])] \
    + [dict(name="items %d" % n, what="items", n=n) for n in range(5)] \
    + [dict(name="involutions %d" % n, what="involutions", n=n) for n in range(7)] \
    + [dict(name="involutions %d" % n, what="involutions", n=n, tiers=["thorough"]) for n in (7, 8)] \
    + [dict(name="stirling %d" % n, what="stirling", n=n) for n in range(5)] \
    + [dict(name="stirling 5", what="stirling", n=5, tiers=["thorough"])] \
    + [dict(name="double %d" % n, what="double", n=n) for n in range(4)] \
    + [dict(name="double 4", what="double", n=4, tiers=["thorough"])]


def take(gen, most=50000):
    return [tuple(p) for p in itertools.islice(gen, most)]


def among(c, w, out):
    return Or([And([c.z(a) == b for a, b in zip(w, v)]) for v in out if len(v) == len(w)])


def adjacent(a, b):
    d = [i for i in range(len(a)) if a[i] != b[i]]
    return len(d) == 2 and d[1] == d[0] + 1 and a[d[0]] == b[d[1]] and a[d[1]] == b[d[0]]


def harness(c, cfg):
    m = c.mod("permutations")
    n, what = cfg["n"], cfg["what"]
    if what == "items":
        c.outcome("permutations")
        xs = [c.val("x%d" % i, ordered=False) for i in range(n)]
        out = take(m.SteinhausJohnsonTrotter(list(xs)))
        for w in itertools.permutations(range(n)):
            c.check("every arrangement of the items", Or([And([c.z(a) == c.z(xs[i]) for a, i in zip(p, w)]) for p in out]))
        # whatever the items are: each arrangement is one of the items, step by one swap of neighbours
        for p in out[:130]:
            c.check("an arrangement of the items", And([len(p) == n] + [
                Or([c.z(a) == c.z(x) for x in xs]) for a in p]))
        for p, q in zip(out[:130], out[1:130]):
            c.check("one swap of neighbours", Or([And([c.z(p[i]) == c.z(q[i + 1]), c.z(p[i + 1]) == c.z(q[i])] + [
                c.z(p[k]) == c.z(q[k]) for k in range(n) if k not in (i, i + 1)]) for i in range(n - 1)]))
        c.check("as many as there are arrangements", len(out) == fact(n))
        return
    c.outcome(what)
    if what == "permutations":
        out = take(m.SteinhausJohnsonTrotter(n))
        k = n
        w = [c.int("w%d" % i, 0, n - 1) for i in range(n)]
        kind = And([c.z(a) != c.z(b) for a, b in pairs(w)])
        c.check("successive ones differ by one swap of neighbours", all(adjacent(a, b) for a, b in zip(out, out[1:])))
        swaps = take(((x,) for x in m.PlainChanges(n)))
        c.check("as many swaps as steps", len(swaps) == len(out) - 1)
        c.check("the swaps are those made", all(sorted(i for i in range(n) if a[i] != b[i]) == [s[0], s[0] + 1]
                                                for a, b, s in zip(out, out[1:], swaps)))
    elif what == "involutions":
        out = take(m.Involutions(n))
        w = [c.int("w%d" % i, 0, n - 1) for i in range(n)]
        kind = And([Implies(c.z(w[i]) == j, c.z(w[j]) == i) for i in range(n) for j in range(n)])
    elif what == "stirling":
        out = take(m.StirlingPermutations(n))
        w = [c.int("w%d" % i, 0, n - 1) for i in range(2 * n)]
        kind = And([Exactly([c.z(x) == v for x in w], 2) for v in range(n)]
                   + [Implies(And(c.z(w[i]) == c.z(w[k]), c.z(w[j]) != c.z(w[i])), c.z(w[j]) > c.z(w[i]))
                      for i in range(2 * n) for j in range(i + 1, 2 * n) for k in range(j + 1, 2 * n)])
    else:
        out = take(m.DoubleSteinhausJohnsonTrotter(n))
        c.check("distinct", len(set(out)) == len(out))
        c.check("arrangements of the doubled items", all(sorted(p) == sorted(list(range(n)) * 2) for p in out))
        c.check("successive ones differ by one swap of neighbours", all(adjacent(a, b) for a, b in zip(out, out[1:])))
        w = [c.int("w%d" % i, 0, max(n - 1, 0)) for i in range(2 * n)]
        if n:
            c.check("only doubled items", Implies(among(c, w, out), And([Exactly([c.z(x) == v for x in w], 2) for v in range(n)])))
        return
    c.check("no repeats", len(set(out)) == len(out))
    c.check("yielded exactly if of the kind", Iff(among(c, w, out), kind))


def fact(n):
    return 1 if n < 2 else n * fact(n - 1)
