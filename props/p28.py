"""Linked sequences against a list."""
from props.seqmodel import *

BOUNDS = "sequences starting with 0-2 items, every history of 2 edits, and of 3 edits from 2 items, with arbitrary operands " \
         "(new, present or removed, any equalities); with and without a key function; then every index, length and interior " \
         "neighbour query and a query for an arbitrary item; thorough: 3 items and 3 edits"
OUTSIDE = "longer histories; neighbours beyond the ends (the list is circular); negative indices"
EXPECT = ["edited", "refused", "empty", "absent"]

CONFIGS = []
for _s, _ks, _t in ((0, [2, 3], None), (1, [2], None), (2, [2], None), (2, [3], "q"), (3, [3], "thorough")):
    for _ops in histories(_ks):
        for _k in (0, 1):
            if _t == "q" and (_k or _ops[0] in "p" or sum(o in "ab" for o in _ops) > 2):
                continue
            _d = dict(name="%s from %d%s" % (_ops, _s, " keyed" if _k else ""), start=_s, ops=_ops, keyed=bool(_k))
            if _t == "thorough":
                _d["tiers"] = ["thorough"]
            CONFIGS.append(_d)


def harness(c, cfg):
    mod = c.mod("sequence")
    m, S = run_history(c, cfg, lambda items, key: mod.Sequence(items, key=key) if key else mod.Sequence(items))
    compare(c, m, S)
    n = len(m.items)
    if not n:
        c.outcome("empty")
    for i in range(n):
        c.check("index", same_item(c, m, S[i], m.items[i]))
        if i:
            c.check("successor", same_item(c, m, S.successor(m.items[i - 1]), m.items[i]))
            c.check("predecessor", same_item(c, m, S.predecessor(m.items[i]), m.items[i - 1]))
    _, exc = c.attempt(lambda: S[n])
    c.check("index past the end refused", isinstance(exc, IndexError))
    q = m.item("q")
    if m.find(q) is None:
        c.outcome("absent")
        for f in (S.predecessor, S.successor):
            _, exc = c.attempt(f, q)
            c.check("neighbour of an absent item refused", exc is not None)
    compare(c, m, S)
    c.observe(n)
