"""Partition refinement."""
from props.common import *

BOUNDS = "0-4 initial elements, every history of 2 operations among refinement by 1-3 arbitrary values, addition and removal of an " \
         "arbitrary value, and freezing (once or twice, last), plus 3 refinements; thorough: 3 operations"
OUTSIDE = "longer histories; sets emptied by removals (ignored); further changes after freezing"
EXPECT = ["split", "unsplit", "absent", "repeat", "frozen"]

CONFIGS = []
for _n, _k, _t in ((0, 2, None), (2, 2, None), (3, 2, None), (4, 1, None), (3, 3, ["thorough"])):
    for _ops in itertools.product(["s1", "s2", "s3", "a", "r"], repeat=_k):
        if sum(int(o[1]) for o in _ops if o[0] == "s") > (4 if not _t else 5):
            continue
        for _f in (0, 1, 2):
            if _f and _ops[-1] in ("s1", "s3"):
                continue
            _d = dict(name="%s from %d%s" % ("-".join(_ops), _n, ["", " frozen", " frozen twice"][_f]), n=_n, ops=list(_ops), freeze=_f)
            if _t:
                _d["tiers"] = _t
            CONFIGS.append(_d)
for _ops in (["s1", "s1", "s1"], ["s2", "s1", "s1"], ["s1", "s2", "s1"], ["s1", "s1", "s2"], ["s2", "s2", "s2"]):
    CONFIGS.append(dict(name="%s from 3" % "-".join(_ops), n=3, ops=_ops, freeze=0))


def harness(c, cfg):
    mod = c.mod("partition_refinement")
    start = [c.val("e%d" % i, ordered=False) for i in range(cfg["n"])]
    P = mod.PartitionRefinement(list(start))
    blocks = []                                  # model: list of lists of pairwise different values

    def where(x):
        for B in blocks:
            for y in B:
                if x == y:
                    return B
        return None
    first = []
    for x in start:
        if not any(x == y for y in first):
            first.append(x)
    if first:
        blocks.append(first)

    def sets():
        return [s for s in P if len(s)]

    def eqset(s, B):
        s = list(s)
        return And([len(s) == len(B)] + [Or([c.z(x) == c.z(y) for y in B]) for x in s]
                   + [Or([c.z(x) == c.z(y) for y in s]) for x in B])

    def compare(label):
        got = sets()
        c.check(label + ": number of sets", len(got) == len([B for B in blocks if B]))
        for B in blocks:
            if not B:
                continue
            c.check(label + ": every class is a set of the partition", Or([eqset(s, B) for s in got]))
            for x in B:
                s = P[x]
                c.check(label + ": lookup gives the class", eqset(s, B))
                c.check(label + ": lookup gives the set of the partition", any(s is u for u in got))
        for s, u in pairs(got):
            c.check(label + ": disjoint", And([c.z(x) != c.z(y) for x in s for y in u]))
    for t, op in enumerate(cfg["ops"]):
        if op[0] == "s":
            S = [c.val("x%d_%d" % (t, i), ordered=False) for i in range(int(op[1]))]
            out = [(p[0], p[1]) for p in P.refine(list(S))]
            new, split = [], []
            for B in blocks:
                inn = [x for x in B if any(x == y for y in S)]
                rest = [x for x in B if not any(x is y for y in inn)]
                if inn and rest:
                    split.append((inn, rest))
                    new += [inn, rest]
                else:
                    new.append(B)
            blocks[:] = new
            c.outcome("split" if split else "unsplit")
            c.check("one report per split set", len(out) == len(split))
            for inn, rest in split:
                c.check("split reported", Or([And(eqset(a, inn), eqset(b, rest)) for a, b in out]))
            for a, b in out:
                c.check("the reported parts are sets of the partition", any(a is s for s in P) and any(b is s for s in P))
        elif op == "a":
            x = c.val("x%d" % t, ordered=False)
            cur = list(P)
            target = cur[-1] if cur else None
            if target is None:
                continue
            B = where(next(iter(target))) if len(target) else None
            if B is None:
                continue
            known = where(x) is not None
            _, exc = c.attempt(P.add, x, target)
            c.check("addition refused exactly for known elements", (exc is None) != known)
            if known:
                c.outcome("repeat")
            else:
                B.append(x)
        else:
            x = c.val("x%d" % t, ordered=False)
            B = where(x)
            _, exc = c.attempt(P.remove, x)
            c.check("removal refused exactly for absent elements", (exc is None) == (B is not None))
            if B is None:
                c.outcome("absent")
            else:
                B[:] = [y for y in B if not (y is x or bool(y == x))]
        compare("after " + op[0])
    compare("end")
    y = c.val("q", ordered=False)
    if where(y) is None:
        _, exc = c.attempt(lambda: P[y])
        c.check("lookup of an unknown element refused", exc is not None)
    for _ in range(cfg["freeze"]):
        P.freeze()
        c.outcome("frozen")
        compare("frozen")
        c.check("frozen sets are immutable", all(isinstance(s, frozenset) for s in P))
