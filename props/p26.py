"""Bucket queue."""
from props.common import *

CONTAINERS = True
BOUNDS = "every history of 4 operations (set, delete, lookup, remove-minimum by one running iterator or by items()), and some of 5 " \
         "and 6 with one running items(), followed by draining the queue (by the running iterator if there is one), over items with arbitrary equalities and integer priorities spanning at most 3; thorough: 5 " \
         "operations, span 4"
OUTSIDE = "longer histories, wider priority ranges"
EXPECT = ["popped", "exhausted", "reassigned", "refused"]

OPS = "sdpi"


def _cfgs():
    out = []
    for k, tiers in ((2, None), (3, None), (4, None), (5, ["thorough"])):
        for rest in itertools.product(OPS, repeat=k - 1):
            ops = "s" + "".join(rest)
            if ops.count("d") > 1 or (k >= 4 and ops.count("s") < 2) or ops.count("i") > 2 or "dd" in ops:
                continue
            d = dict(name=ops, ops=ops, span=3 if k < 5 else 4)
            if tiers:
                d["tiers"] = tiers
            out.append(d)
    for ops in ("sjsj", "ssjs", "sjds", "sspsp", "ssjsj", "ssjsp", "sspdp", "spsps", "sjsjs", "sspssp"):
        out.append(dict(name=ops, ops=ops, span=3 if len(ops) < 6 else 2))
    out.append(dict(name="rejected priorities", ops="bad", span=2))
    return out


CONFIGS = _cfgs()


def harness(c, cfg):
    Q = c.mod("bucketqueue").BucketQueue()
    z = c.z
    if cfg["ops"] == "bad":
        x, y = c.val("x", ordered=False), c.val("y", ordered=False)
        p = c.int("p", -1, 1)
        Q[x] = p
        for bad in (1.5, "1", None, (1,)):
            _, exc = c.attempt(Q.__setitem__, y, bad)
            c.check("non-integer refused", exc is not None)
            c.check("unchanged", And(len(Q) == 1, z(Q[x]) == z(p), Iff(bool(y in Q), z(x) == z(y))))
        c.outcome("refused")
        return
    model = []                      # [item, priority]
    it = pairs_it = None
    prios = []

    def find(x):
        for e in model:
            if e[0] == x:
                return e
        return None

    def popped(x, p=None):
        e = find(x)
        c.check("the item was in the queue", e is not None)
        c.check("least priority", And([z(e[1]) <= z(f[1]) for f in model]))
        if p is not None:
            c.check("reported with its priority", z(p) == z(e[1]))
        model.remove(e)
        c.outcome("popped")

    def agree():
        c.check("length", len(Q) == len(model))
        for x, p in model:
            c.check("latest priority", And(bool(x in Q), z(Q[x]) == z(p)))
    for t, op in enumerate(cfg["ops"]):
        if op == "s":
            x, p = c.val("x%d" % t, ordered=False), c.int("p%d" % t, -3, 3)
            for q in prios:
                c.assume(And(z(p) - z(q) <= cfg["span"], z(q) - z(p) <= cfg["span"]))
            prios.append(p)
            Q[x] = p
            e = find(x)
            if e:
                e[1] = p
                c.outcome("reassigned")
            else:
                model.append([x, p])
        elif op == "d":
            x = c.val("x%d" % t, ordered=False)
            e = find(x)
            _, exc = c.attempt(Q.__delitem__, x)
            c.check("deleting succeeds iff present", (exc is None) == (e is not None))
            if e:
                model.remove(e)
            _, exc = c.attempt(Q.__getitem__, x)
            c.check("deleted item has no priority", exc is not None and not bool(x in Q))
        elif op == "p":
            if it is None:
                it = iter(Q)
            r = next(it, None)
            if r is None:
                c.outcome("exhausted")
                c.check("iteration ends only when empty", not model)
                it = None
            else:
                popped(r)
        else:
            if op == "i" or pairs_it is None:
                pairs_it = Q.items()
            r = next(pairs_it, None)
            c.check("items() ends only when empty", (r is None) == (not model))
            if r is not None:
                popped(*r)
            else:
                pairs_it = None
        agree()
    rest = 0
    for x in Q if it is None else it:
        popped(x)
        rest += 1
        if rest > len(cfg["ops"]):
            break
    c.check("drained", And(not model, len(Q) == 0))
    c.observe(rest)
