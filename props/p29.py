"""Order-maintenance sequences: comparisons and renumbering."""
import types

from props.seqmodel import *

BOUNDS = "simple and logarithmic variants, with and without keys: sequences starting with 0-2 items and every history of 2-3 edits " \
         "with arbitrary operands, and, for the simple variant with the tag range reduced to 0-63, 8-15 (collisions after 3 edits), " \
         "the same from 2-3 items; dense runs of 60-66 insertions in the full tag range followed by 2 edits; thorough: 4 edits"
OUTSIDE = "longer histories"
ASSUMPTIONS = ["the reduced tag range replaces sys.maxsize inside ordered_sequence (configurations 'tags'); nothing else is replaced"]
EXPECT = ["edited", "refused", "less", "greater", "equal"]

CONFIGS = []
for _v in ("Simple", "Logarithmic"):
    for _s, _ks in ((0, [2, 3]), (2, [2])):
        for _ops in histories(_ks):
            CONFIGS.append(dict(name="%s %s from %d" % (_v, _ops, _s), variant=_v, start=_s, ops=_ops))
    for _ops in histories([2]):
        CONFIGS.append(dict(name="%s %s keyed" % (_v, _ops), variant=_v, start=2, ops=_ops, keyed=True))
    for _n in (58, 61, 62, 63, 64):
        for _dir in ("a", "b", "ab"):
            CONFIGS.append(dict(name="%s dense %d %s" % (_v, _n, _dir), variant=_v, dense=_n, dir=_dir))
for _mx in (8, 15, 63):
    for _ops in histories([3], "ab"):
        CONFIGS.append(dict(name="tags %d %s" % (_mx, _ops), variant="Simple", start=2, ops=_ops, maxsize=_mx))
    for _ops in histories([2], "abpr"):
        for _k in (False, True):
            CONFIGS.append(dict(name="tags %d %s from 3%s" % (_mx, _ops, " keyed" if _k else ""), variant="Simple", start=3,
                                ops=_ops, maxsize=_mx, keyed=_k))
    for _ops in histories([4], "ab"):
        CONFIGS.append(dict(name="tags %d %s" % (_mx, _ops), variant="Simple", start=1, ops=_ops, maxsize=_mx, tiers=["thorough"]))


def harness(c, cfg):
    mod = c.mod("ordered_sequence")
    real = getattr(mod, "sys", None)
    if cfg.get("maxsize") and real is not None:
        stand_in = types.ModuleType("sys")
        stand_in.__dict__.update(vars(real), maxsize=cfg["maxsize"])
        mod.sys = stand_in
    try:
        run(c, cfg, getattr(mod, cfg["variant"] + "OrderedSequence"))
    finally:
        if real is not None:
            mod.sys = real


def orders(c, S, items, index):
    """index(x): position of x, a plain number or None."""
    for i, a in enumerate(items):
        for j, b in enumerate(items):
            r = S.cmp(a, b)
            c.outcome("less" if r < 0 else "greater" if r > 0 else "equal")
            c.check("comparison matches the order", (r < 0) == (i < j) and (r > 0) == (i > j))


def run(c, cfg, cls):
    if "dense" in cfg:
        return dense(c, cfg, cls)
    m, S = run_history(c, cfg, lambda items, key: cls(items, key=key) if key else cls(items))
    compare(c, m, S)
    orders(c, S, m.items, None)
    q = m.item("q")
    if m.items:
        # an arbitrary item compares exactly when it is a member
        i = m.find(q)
        if i is not None:
            for j, b in enumerate(m.items):
                r = S.cmp(q, b)
                c.check("comparison of equal item", (r < 0) == (i < j) and (r > 0) == (i > j))
    c.observe(len(m.items))


def dense(c, cfg, cls):
    """Insertions at one place until the tags collide, then two edits around that place."""
    L = [c.val("u", ordered=False), c.val("v", ordered=False)]
    distinct(c, L)
    S = cls(list(L))
    model = list(L)
    at = 0                                  # insert between model[at] and model[at + 1]
    for k in range(cfg["dense"]):
        item = "i%d" % k
        d = cfg["dir"][k % len(cfg["dir"])]
        if d == "a":
            S.insertAfter(model[at], item)
        else:
            S.insertBefore(model[at + 1], item)
        model.insert(at + 1, item)
        if d == "b":
            at += 1
    for t in range(2):
        near = model[max(0, at - 2):at + 4]
        where = near[int(c.int("w%d" % t, 0, len(near) - 1))]
        y = c.val("y%d" % t, ordered=False)
        new = True
        for x in model:
            if not isinstance(x, str) and y == x:
                new = False
        i = model.index(where)
        _, exc = c.attempt(S.insertBefore if t else S.insertAfter, where, y)
        c.check("repeats refused", (exc is None) == new)
        if new:
            model.insert(i + (0 if t else 1), y)
    got = list(S)
    c.check("contents and order", And([len(got) == len(model)] + [
        (a == b) if isinstance(b, str) or isinstance(a, str) else c.z(a) == c.z(b) for a, b in zip(got, model)]))
    ok = True
    for i, a in enumerate(model):
        for j, b in enumerate(model):
            r = S.cmp(a, b)
            ok = ok and (r < 0) == (i < j) and (r > 0) == (i > j)
    c.check("comparison matches the order", ok)
