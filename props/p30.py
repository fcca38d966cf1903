"""Sorted set against sorting."""
from props.common import *

BOUNDS = "0-3 initial values and every history of up to 4 additions, removals, position updates and iterations with arbitrary " \
         "ordered operands, then two iterations; natural order and a comparison function; thorough: 5 operations"
OUTSIDE = "longer histories; update of values that are not members"
EXPECT = ["listed", "absent", "repeat", "empty"]

CONFIGS = []
for _n, _k, _t in ((0, 4, None), (1, 3, None), (2, 3, None), (3, 2, None), (0, 5, ["thorough"]), (2, 4, ["thorough"])):
    for _ops in itertools.product("arui", repeat=_k):
        _ops = "".join(_ops)
        if "ii" in _ops or _ops.count("u") > 1 or (_n == 0 and _ops[0] != "a"):
            continue
        for _c in (0, 1):
            if _c and _ops.count("a") + _ops.count("r") > 2:
                continue
            _d = dict(name="%s from %d%s" % (_ops, _n, " comparison" if _c else ""), n=_n, ops=_ops, cmp=_c)
            if _t:
                _d["tiers"] = _t
            CONFIGS.append(_d)


def harness(c, cfg):
    mod = c.mod("sorted_set")
    start = [c.val("s%d" % i) for i in range(cfg["n"])]
    down = bool(cfg["cmp"])

    def comparison(x, y):
        return 1 if x < y else -1 if y < x else 0
    S = mod.SortedSet(list(start), comparison=comparison) if down else mod.SortedSet(list(start))
    model = []

    def find(x):
        for i, y in enumerate(model):
            if x == y:
                return i
        return None
    for x in start:
        if find(x) is None:
            model.append(x)

    def listing():
        got = list(S)
        c.outcome("listed" if got else "empty")
        c.check("as many as the members", And(len(got) == len(model) and len(S) == len(model)))
        c.check("only members", And([Or([c.z(x) == c.z(y) for y in model]) for x in got]))
        c.check("all members", And([Or([c.z(x) == c.z(y) for y in got]) for x in model]))
        c.check("in order", And([(c.z(b) < c.z(a)) if down else (c.z(a) < c.z(b)) for a, b in zip(got, got[1:])]))
    for t, op in enumerate(cfg["ops"]):
        if op == "i":
            listing()
            continue
        x = c.val("x%d" % t)
        i = find(x)
        if op == "a":
            S.add(x)
            if i is None:
                model.append(x)
            else:
                c.outcome("repeat")
        elif op == "r":
            _, exc = c.attempt(S.remove, x)
            c.check("removal refused exactly for absent values", (exc is None) == (i is not None))
            if i is None:
                c.outcome("absent")
            else:
                del model[i]
        elif i is not None:
            S.update(x)
        c.check("length", len(S) == len(model))
    listing()
    listing()
    q = c.val("q")
    c.check("membership", Iff(bool(q in S), Or([c.z(q) == c.z(y) for y in model])))
