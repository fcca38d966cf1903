"""Guards of the merging executor: reduced ordered decision diagrams over the inputs.

A guard is an integer literal, 2 * node + sign; FALSE is 0 and TRUE is 1.  Equal functions of the inputs are the
same literal, so a branch that no input takes is recognised by its guard being FALSE.  The diagrams only keep
the run small: term() turns a guard into a formula over the inputs, and z3 decides the properties."""
import time

import z3

FALSE, TRUE = 0, 1


class TooBig(Exception):
    """The merged run exceeds its budget."""


class Guards:
    def __init__(self, limit_s=300, limit_nodes=6000000):
        self.var, self.hi, self.lo = [1 << 30], [0], [0]
        self.table, self.memo = {}, {}
        self.inputs, self.terms = {}, []
        self.defs, self.node_of = {}, {}    # node <-> z3 Bool standing for it
        self.end = time.monotonic() + limit_s
        self.limit_nodes = limit_nodes
        self.ops = 0
        self.solver_s, self.queries = 0.0, 0

    # -- construction ------------------------------------------------------
    def input(self, term):
        """Guard of an input (a z3 Bool constant); the order of the calls is the order of the variables."""
        if z3.is_true(term):
            return TRUE
        if z3.is_false(term):
            return FALSE
        k = term.get_id()
        if k not in self.inputs:
            self.inputs[k] = self._node(len(self.terms), TRUE, FALSE)
            self.terms.append(term)
        return self.inputs[k]

    def _node(self, v, h, l):
        if h == l:
            return h
        s = h & 1
        k = (v, h ^ s, l ^ s)
        n = self.table.get(k)
        if n is None:
            n = len(self.var)
            self.var.append(v)
            self.hi.append(h ^ s)
            self.lo.append(l ^ s)
            self.table[k] = n
            if not n & 0x3fff:
                self.tick()
        return 2 * n ^ s

    def tick(self):
        if len(self.var) > self.limit_nodes:
            raise TooBig("size limit of the merged run")
        if time.monotonic() > self.end:
            raise TooBig("time limit of the merged run")

    def both(self, a, b):
        if a > b:
            a, b = b, a
        if a == 0 or a ^ 1 == b:
            return 0
        if a == 1 or a == b:
            return b
        k = (a, b)
        r = self.memo.get(k)
        if r is None:
            i, j = a >> 1, b >> 1
            v, w = self.var[i], self.var[j]
            if v <= w:
                s = a & 1
                ah, al = self.hi[i] ^ s, self.lo[i] ^ s
            else:
                ah = al = a
            if w <= v:
                s = b & 1
                bh, bl = self.hi[j] ^ s, self.lo[j] ^ s
            else:
                bh = bl = b
            h = self.both(ah, bh)
            l = self.both(al, bl)
            r = self.memo[k] = self._node(v if v < w else w, h, l)
            if len(self.memo) > 4000000:
                self.memo.clear()
        return r

    def either(self, a, b):
        return self.both(a ^ 1, b ^ 1) ^ 1

    def any(self, xs):
        xs = list(dict.fromkeys(xs))
        if not xs:
            return 0
        while len(xs) > 1:
            xs = [self.either(xs[i], xs[i + 1]) if i + 1 < len(xs) else xs[i] for i in range(0, len(xs), 2)]
        return xs[0]

    def all(self, xs):
        return self.any([x ^ 1 for x in xs]) ^ 1

    def iff(self, a, b):
        return self.either(self.both(a, b), self.both(a ^ 1, b ^ 1))

    def atmost(self, xs, k):
        """At most k of the guards hold."""
        row = [TRUE] + [FALSE] * (k + 1)              # row[i]: exactly i so far (last: more)
        for x in xs:
            new = []
            for i in range(k + 2):
                keep = row[i] if i == k + 1 else self.both(row[i], x ^ 1)
                new.append(self.either(keep, self.both(row[i - 1], x)) if i else keep)
            row = new
        return row[k + 1] ^ 1

    # -- decisions ---------------------------------------------------------
    def sat(self, a):
        """Can the guard hold?"""
        self.ops += 1
        if not self.ops & 0xfff:
            self.tick()
        return a != FALSE

    def at(self, a, row):
        """Value of a guard for given inputs (indexed by variable)."""
        s = a & 1
        i = a >> 1
        while i:
            x = self.hi[i] if row[self.var[i]] else self.lo[i]
            s ^= x & 1
            i = x >> 1
        return bool(s)

    def repair(self, a, row):
        """Change a row of inputs, where needed, so that the guard (not FALSE) holds."""
        row = list(row)
        while a > 1:
            i, s = a >> 1, a & 1
            up, down = self.hi[i] ^ s, self.lo[i] ^ s
            v = self.var[i]
            if (up if row[v] else down) == FALSE:
                row[v] = not row[v]
            a = up if row[v] else down
        return row

    def term(self, a):
        """z3 Bool of a guard; cone() gives its definition."""
        if a < 2:
            return z3.BoolVal(bool(a))
        todo = [a >> 1]
        while todo:
            i = todo[-1]
            if i in self.defs:
                todo.pop()
                continue
            missing = [x >> 1 for x in (self.hi[i], self.lo[i]) if x > 1 and (x >> 1) not in self.defs]
            if missing:
                todo.extend(missing)
                continue
            todo.pop()
            self.defs[i] = d = z3.Bool("g!%d" % i)
            self.node_of[d.get_id()] = i
        return self._lit(a)

    def cone(self, formulas):
        """Definitions of the guards that formulas mention."""
        todo, seen, nodes = list(formulas), set(), []
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if x.get_id() in self.node_of:
                nodes.append(self.node_of[x.get_id()])
            todo.extend(x.children())
        out, done = [], set()
        while nodes:
            i = nodes.pop()
            if i in done:
                continue
            done.add(i)
            h, l = self.hi[i], self.lo[i]
            nodes.extend(x >> 1 for x in (h, l) if x > 1)
            d, v = self.defs[i], self.terms[self.var[i]]
            out.append(z3.Or(z3.Not(v), d == self._lit(h)))
            out.append(z3.Or(v, d == self._lit(l)))
        return out

    def _lit(self, x):
        t = self.defs[x >> 1] if x > 1 else z3.BoolVal(False)
        return z3.Not(t) if x & 1 else t
