"""Integer heaps."""
import z3

from props.common import *

CONTAINERS = True
BOUNDS = "every history of 4 insertions and deletions (first an insertion), minimum and truth value inspected after each or only " \
         "at the end, then drained; values 0-14 (bit-vector heap), arbitrary integers (linear heap), all 2- and 4-bit values " \
         "(flat heaps of order 1 and 2), and, with 3 operations, values whose " \
         "halves are 0, 1, 255 (order 4) or 0, 257, 65535 (order 5); thorough: one more operation"
OUTSIDE = "longer histories; other 16- and 32-bit values"
EXPECT = ["empty", "nonempty", "absent", "range refused"]

KINDS = ["bit", "linear", "flat1", "flat2", "int3", "flat4", "flat5"]


def _cfgs():
    out = []
    for kind in KINDS:
        big = kind in ("flat4", "flat5")
        for k, tiers in (((3, None), (4, ["thorough"])) if big else ((4, None), (5, ["thorough"]))):
            for rest in itertools.product("ar", repeat=k - 1):
                ops = "a" + "".join(rest)
                for w in ("each", "end"):
                    if w == "end" and (ops.count("r") < 1 or big or kind in ("linear", "int3")):
                        continue
                    d = dict(name="%s %s %s" % (kind, ops, w), kind=kind, ops=ops, watch=w)
                    if tiers:
                        d["tiers"] = tiers
                    out.append(d)
    for ops in ("aar", "ara"):
        out.append(dict(name="bit %s new table" % ops, kind="bit", ops=ops, watch="each", fresh=1))
    out.append(dict(name="range", kind="range", ops=""))
    return out


CONFIGS = _cfgs()


def make(m, kind):
    return {"bit": m.BitVectorHeap, "linear": m.LinearHeap, "flat1": lambda: m.FlatHeap(1), "flat2": lambda: m.FlatHeap(2),
            "int3": lambda: m.IntegerHeap(3), "flat4": lambda: m.IntegerHeap(4), "flat5": lambda: m.IntegerHeap(5)}[kind]()


def value(c, kind, t):
    name = "x%d" % t
    if kind == "linear":
        return c.int(name)
    if kind in ("bit", "int3"):
        return c.bv(name, 0, 14)
    if kind == "flat1":
        return c.bv(name, 0, 3)
    if kind == "flat2":
        return c.bv(name, 0, 15)
    half = 8 if kind == "flat4" else 16
    x = c.bv(name, 0, (1 << (2 * half)) - 1)
    z = z3bv(x)
    top = (1 << half) - 4
    lo, hi = z & ((1 << half) - 1), z3.LShR(z, half)
    if kind == "flat4":
        ok = lambda h: Or(h <= 1, h == (1 << half) - 1)
    else:
        ok = lambda h: Or(h == 0, h == 257, h == (1 << half) - 1)
    c.assume(And(ok(lo), ok(hi)))
    return x



def z3bv(x):
    return x.z if hasattr(x, "z") else z3.BitVecVal(x, 40)


def harness(c, cfg):
    m = c.mod("integer_heap")
    if hasattr(m, "log2") and not cfg.get("fresh"):                      # table of logarithms already filled
        c.attempt(m.log2, 1 << (255 if cfg["kind"] in ("flat4", "flat5") else 15))
    if cfg["kind"] == "range":
        for i, top in ((1, 4), (2, 16)):
            H = m.FlatHeap(i)
            x = c.bv("x%d" % i, -2 * top, 2 * top)
            outside = Or(le(x, -1), le(top, x))
            H.add(0)
            _, exc = c.attempt(H.add, x)
            c.check("refused exactly outside the range", Iff(exc is not None, outside))
            H.remove(0)
            c.check("values inside, and only those, are stored", Iff(bool(H), And(Not(outside), Not(same(x, 0)))))
            _, exc = c.attempt(H.min)
            c.check("no minimum of an empty heap", Iff(exc is not None, not bool(H)))
        c.outcome("range refused")
        return
    H = make(m, cfg["kind"])
    log = []                                    # ("a"|"r", value)

    def present(v):
        p = F
        for op, x in log:
            e = same(v, x)
            p = Or(p, e) if op == "a" else And(p, Not(e))
        return p

    def inspect():
        added = [x for op, x in log if op == "a"]
        b = bool(H)
        c.check("truth value iff nonempty", Iff(b, Or([present(x) for x in added])))
        c.outcome("nonempty" if b else "empty")
        if not b:
            _, exc = c.attempt(H.min)
            c.check("no minimum of an empty heap", exc is not None)
            return False
        mn = H.min()
        c.check("the minimum is stored", present(mn))
        c.check("and is least", And([Implies(present(x), le(mn, x)) for x in added]))
        return True
    for t, op in enumerate(cfg["ops"]):
        x = c.bv("x%d" % t, 0, 4) if cfg.get("fresh") else value(c, cfg["kind"], t)
        if op == "a":
            H.add(x)
        else:
            _, exc = c.attempt(H.remove, x)
            if exc is not None:
                c.outcome("absent")
                c.check("removal refused only for absent values", Not(present(x)))
        log.append((op, x))
        if cfg["watch"] == "each":
            inspect()
    n = 0
    while n <= len(cfg["ops"]) and inspect():
        mn = H.min()
        H.remove(mn)
        log.append(("r", mn))
        n += 1
    c.check("drained", n <= len(cfg["ops"]))
    c.observe(n)


def _cmp(a, b, f):
    if not hasattr(a, "z") and not hasattr(b, "z"):
        return T if f(a, b) else F
    from symx import vals
    r = f(a, b)
    return vals.zbool(r)


def same(a, b):
    return _cmp(a, b, lambda x, y: x == y)


def le(a, b):
    return _cmp(a, b, lambda x, y: x <= y)

