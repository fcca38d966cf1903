"""Union-find."""
from props.common import *

BOUNDS = "every history of 4 operations (lookup, union of 1-3 objects, unions of up to 6 in shorter histories) over objects with arbitrary equalities, at most 7 " \
         "operands in all, names inspected after every operation or only at the end; thorough: 5 operations, 9 operands"
OUTSIDE = "longer histories"
EXPECT = ["merged", "separate", "renamed"]

OPS = ["f", "u1", "u2", "u3"]


def shapes(k, most):
    out = []
    for s in itertools.product(OPS, repeat=k):
        n = sum(int(o[1]) if o[0] == "u" else 1 for o in s)
        if n <= most and sum(o in ("f", "u1") for o in s) <= 2:
            out.append("-".join(s))
    return out


CONFIGS = [dict(name="%s %s" % (s, w), ops=s, watch=w) for s in shapes(3, 7) + ["u2-u2-u2-f", "u2-u2-f-u2", "u5-f", "u4-u2", "u2-u4", "u1-u5", "u6"]
           for w in ("each", "end")] + [
    dict(name="%s %s" % (s, w), ops=s, watch=w, tiers=["thorough"])
    for s in shapes(4, 8) for w in ("each", "end")]


def harness(c, cfg):
    X = c.mod("union_find").UnionFind()
    ops = cfg["ops"].split("-")
    xs = []                        # every operand so far
    links = []                     # pairs of indices united
    eq = lambda i, j: c.z(xs[i]) == c.z(xs[j])

    def conn(n, links):
        return reach(range(n), lambda i, j: Or(eq(i, j), (i, j) in links or (j, i) in links))
    names = None
    for t, op in enumerate(ops):
        k = int(op[1]) if op[0] == "u" else 1
        first = len(xs)
        args = [c.val("x%d" % (first + i), ordered=False) for i in range(k)]
        xs.extend(args)
        before = c.memo(("before", t), lambda: conn(len(xs), list(links)), values=True)
        if op == "f":
            r = X[args[0]]
        else:
            X.union(*args)
            links += [(first, first + i) for i in range(1, k)]
        if cfg["watch"] == "end" and t < len(ops) - 1:
            continue
        R = c.memo(("R", t), lambda: conn(len(xs), links), values=True)
        new = [X[x] for x in xs]
        for i in range(len(xs)):
            c.check("the name is a member of the set", Or([And(c.z(new[i]) == c.z(xs[j]), R[i, j]) for j in range(len(xs))]))
            for j in range(i):
                same = bool(new[i] == new[j])
                c.outcome("merged" if same else "separate")
                c.check("same name iff united", Iff(same, R[i, j]))
        if op == "f":
            c.check("lookup returns the name", c.z(r) == c.z(new[first]))
        if names is not None:
            for i in range(first):
                touched = Or([And(before[i, first + a], Not(before[i, first + b])) for a in range(k) for b in range(k)]
                             + [F]) if k > 1 else F
                if not bool(names[i] == new[i]):
                    c.outcome("renamed")
                c.check("an unchanged set keeps its name", Or(touched, c.z(names[i]) == c.z(new[i])))
        names = new
    it = list(X)
    c.check("iteration lists the objects seen", And([Or([c.z(x) == c.z(y) for y in it]) for x in xs]
                                                    + [Or([c.z(x) == c.z(y) for x in xs]) for y in it]))
    for a, b in pairs(it):
        c.check("iteration has no repeats", c.z(a) != c.z(b))
