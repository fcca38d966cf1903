"""List model shared by the sequence harnesses."""
from props.common import *

NEED = {"p": 1, "a": 2, "b": 2, "r": 1}


class Model:
    """An ordinary list edited the same way as the sequence under test.

    Items are values, or (key value, serial) pairs when the sequence has a key function.
    """

    def __init__(self, c, keyed):
        self.c, self.keyed, self.items, self.serial = c, keyed, [], 0

    def key(self, x):
        return x[0] if self.keyed else x

    def item(self, name):
        self.serial += 1
        v = self.c.val(name, ordered=False)
        return (v, self.serial) if self.keyed else v

    def find(self, x):
        for i, y in enumerate(self.items):
            if y is x or self.key(y) == self.key(x):
                return i
        return None

    def edit(self, op, args):
        """Apply the edit; False if it is impossible."""
        if op == "p":
            if self.find(args[0]) is not None:
                return False
            self.items.append(args[0])
        elif op == "r":
            i = self.find(args[0])
            if i is None:
                return False
            del self.items[i]
        else:
            i = self.find(args[0])
            if i is None or self.find(args[1]) is not None:
                return False
            self.items.insert(i + (op == "a"), args[1])
        return True


def call(S, op, args):
    return getattr(S, {"p": "append", "a": "insertAfter", "b": "insertBefore", "r": "remove"}[op])(*args)


def same_item(c, m, a, b):
    """The same stored item."""
    if m.keyed:
        return And(isinstance(a, tuple) and a[1] == b[1], c.z(a[0]) == c.z(b[0])) if isinstance(a, tuple) else F
    return c.z(a) == c.z(b)


def distinct(c, items, key=lambda x: x):
    c.assume(And([c.z(key(a)) != c.z(key(b)) for a, b in pairs(items)]))


def run_history(c, cfg, make):
    """Perform the history on sequence and model; returns both."""
    m = Model(c, cfg.get("keyed", False))
    start = [m.item("s%d" % i) for i in range(cfg["start"])]
    distinct(c, start, m.key)
    m.items = list(start)
    S = make(list(start), (lambda t: t[0]) if m.keyed else None)
    for t, op in enumerate(cfg["ops"]):
        args = [m.item("x%d_%d" % (t, i)) for i in range(NEED[op])]
        _, exc = c.attempt(call, S, op, args)
        ok = m.edit(op, args)
        c.outcome("edited" if ok else "refused")
        c.check("impossible edits refused, others performed", (exc is None) == ok)
        if cfg.get("watch") == "each":
            compare(c, m, S)
    return m, S


def compare(c, m, S):
    got = list(S)
    n = len(m.items)
    c.check("contents and order", And([len(got) == n and len(S) == n]
                                      + [same_item(c, m, a, b) for a, b in zip(got, m.items)]))


def histories(ks, alphabet="pabr"):
    for k in ks:
        for ops in itertools.product(alphabet, repeat=k):
            yield "".join(ops)
