"""Merging symbolic execution of the source in /repo/pads.

Nothing forks: every statement runs once under a guard (a Boolean function of the inputs, guards.py), a
value that differs between inputs is a list of guarded alternatives, and sets, dicts and lists hold a guard
per element.  One run covers all inputs of a configuration, and a property becomes one query to z3.

The interpreter covers the part of Python that the graph modules use; anything else raises Unsupported,
and the configuration is then explored path by path instead.  Sets are iterated in the order of their
elements (integers) or of first insertion; generators run in step with the loop that consumes them.
"""
import ast
import builtins
import collections
import importlib
import operator
import os

from .guards import FALSE, TRUE, Guards, TooBig
from .load import REPO


class Unsupported(Exception):
    pass


class VS:
    """Guarded alternatives, exclusive and covering wherever the value may be read."""
    __slots__ = ("cases",)

    def __init__(self, cases):
        self.cases = cases


class MTuple:
    __slots__ = ("xs",)

    def __init__(self, xs):
        self.xs = tuple(xs)


class MSet:
    def __init__(self):
        self.pres = {}

    def ordered(self):
        ks = list(self.pres)
        if all(type(k) is int for k in ks):
            ks.sort()
        return ks

    def items(self):
        return [(self.pres[k], k) for k in self.ordered()]


class MDict:
    def __init__(self, factory=None):
        self.pres, self.vals, self.events, self.factory = {}, {}, [], factory

    def items(self):
        return [(g, k) for k, g in self.events]


class MList:
    def __init__(self, items=()):
        self.cells = [list(x) for x in items]       # [guard, value]

    def items(self):
        return [(g, v) for g, v in self.cells]


class MStr(MList):
    """Text made of guarded characters."""


class MIter:
    def __init__(self, items):
        self.list, self.pos = items, 0              # pos: int or VS of ints


class MGen:
    def __init__(self, func, frame):
        self.func, self.frame, self.used = func, frame, False


class MFunc:
    def __init__(self, node, name, parent, module, defaults, kwdefaults=()):
        self.node, self.name, self.parent, self.module = node, name, parent, module
        self.defaults, self.kwdefaults = defaults, dict(kwdefaults)
        self.isgen = not isinstance(node, ast.Lambda) and has_yield(node)
        self.locals = assigned(node)
        self.static = self.prop = False


class MClass:
    def __init__(self, name, bases, attrs, module):
        self.name, self.bases, self.attrs, self.module = name, bases, attrs, module

    def find(self, name):
        if name in self.attrs:
            return self.attrs[name]
        for b in self.bases:
            r = b.find(name) if isinstance(b, MClass) else None
            if r is not None:
                return r
        return None

    def derives(self, other):
        return self is other or any(b is other or (b.derives(other) if isinstance(b, MClass) else
                                    isinstance(other, type) and issubclass(b, other)) for b in self.bases)


class MInst:
    def __init__(self, cls):
        self.cls, self.fields = cls, {}


class Bound:
    def __init__(self, f, obj):
        self.f, self.obj = f, obj


class Method:
    """Method of a container."""

    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class StarItem:
    """Argument passed by * under a guard."""

    def __init__(self, g, v):
        self.g, self.v = g, v


class Frame:
    def __init__(self, func, parent, module, entry):
        self.func, self.parent, self.module, self.entry = func, parent, module, entry
        self.vars, self.ret, self.loops, self.on_yield = {}, [], [], None
        self.shared = set()


class Loop:
    def __init__(self):
        self.brk, self.cont = [], []


UNSET = object()
HEAP = (MSet, MDict, MList, MIter, MGen, MFunc, MClass, MInst, Bound, Method, MTuple)
CMP = {ast.Eq: operator.eq, ast.NotEq: operator.ne, ast.Lt: operator.lt, ast.LtE: operator.le,
       ast.Gt: operator.gt, ast.GtE: operator.ge}
BIN = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.FloorDiv: operator.floordiv,
       ast.Mod: operator.mod, ast.Pow: operator.pow, ast.LShift: operator.lshift, ast.RShift: operator.rshift,
       ast.BitOr: operator.or_, ast.BitAnd: operator.and_, ast.BitXor: operator.xor, ast.Div: operator.truediv}
NATIVE = {"_not"}
MAXLOOP = 4000


def has_yield(node):
    todo = list(ast.iter_child_nodes(node))
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            todo.extend(ast.iter_child_nodes(n))
    return False


def assigned(node):
    """Names local to a function."""
    a = node.args
    out = {x.arg for x in a.args + a.kwonlyargs + a.posonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}
    gone = set()
    todo = list(node.body) if isinstance(node.body, list) else []
    while todo:
        n = todo.pop()
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
            continue
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            out.update((x.asname or x.name).split(".")[0] for x in n.names)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.Nonlocal, ast.Global)):
            gone.update(n.names)
        elif isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.Lambda)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return out - gone


def key(x):
    if isinstance(x, HEAP):
        return id(x)
    try:
        hash(x)
    except TypeError:
        return id(x)
    return (type(x), x)


class Interp:
    def __init__(self, limit_s=300):
        self.G = Guards(limit_s)
        self.g = TRUE
        self.handlers = [[]]
        self.modules = {}
        self.functions = set()
        self.branches = 0                    # conditions that held for some inputs and not for others
        self.depth = 0

    # -- values --------------------------------------------------------------
    def cases(self, v):
        """Feasible (guard, alternative) pairs of a value under the current guard."""
        if not isinstance(v, VS):
            return [(self.g, v)]
        G, g = self.G, self.g
        out = []
        for h, a in v.cases:
            e = G.both(g, h)
            if G.sat(e):
                out.append((e, a))
        if len(out) == 1:
            return [(g, out[0][1])]
        return out

    def merge(self, parts):
        """One value from (guard, value) pairs."""
        G = self.G
        flat = []
        for g, v in parts:
            if isinstance(v, VS):
                flat.extend((G.both(g, h), a) for h, a in v.cases)
            else:
                flat.append((g, v))
        by, tuples = {}, {}
        for g, a in flat:
            if g == FALSE:
                continue
            if isinstance(a, MTuple) or isinstance(a, tuple) and any(isinstance(b, MTuple) and len(b.xs) == len(a)
                                                                     for _, b in flat):
                xs = a.xs if isinstance(a, MTuple) else a
                tuples.setdefault(len(xs), []).append((g, xs))
                continue
            k = key(a)
            if k in by:
                by[k][0].append(g)
            else:
                by[k] = ([g], a)
        out = [(G.any(gs), a) for gs, a in by.values()]
        for n, rows in tuples.items():
            if len(rows) == 1:
                out.append((rows[0][0], MTuple(rows[0][1])))
            else:
                out.append((G.any([g for g, _ in rows]),
                            MTuple(self.merge([(g, xs[i]) for g, xs in rows]) for i in range(n))))
        if len(out) == 1:
            return out[0][1]
        if not out:
            return None
        return VS(out)

    def ite(self, g, new, old):
        if old is UNSET or g == TRUE:
            return new
        if new is old:
            return old
        return self.merge([(g, new), (g ^ 1, old)])

    def flat(self, v):
        """Cases as hashable plain values (tuples are multiplied out)."""
        out = []
        for g, a in self.cases(v):
            if isinstance(a, MTuple):
                rows = [(g, ())]
                saved = self.g
                for x in a.xs:
                    nxt = []
                    for h, t in rows:
                        self.g = h
                        nxt.extend((e, t + (y,)) for e, y in self.flat(x))
                    rows = nxt
                self.g = saved
                out.extend(rows)
            else:
                out.append((g, a))
        return out

    def lift(self, f, *vs):
        """f on every combination of plain values."""
        rows = [(self.g, ())]
        saved = self.g
        for v in vs:
            if not isinstance(v, (VS, MTuple)):
                if isinstance(v, HEAP):
                    raise Unsupported("native call on %s" % type(v).__name__)
                rows = [(g, t + (v,)) for g, t in rows]
                continue
            nxt = []
            for g, t in rows:
                self.g = g
                nxt.extend((e, t + (y,)) for e, y in self.flat(v))
            rows = nxt
        self.g = saved
        out, bad = [], []
        for g, t in rows:
            if any(isinstance(x, HEAP) for x in t):
                raise Unsupported("native call on an object")
            try:
                out.append((g, f(*t)))
            except Exception as e:
                bad.append((g, e))
        for g, e in bad:
            self.handlers[-1].append((g, e))
        if bad:
            self.g = self.G.any([g for g, _ in out])
        for g, r in out:
            if isinstance(r, (list, dict, set)):
                raise Unsupported("native container")
        return self.merge(out)

    def bool(self, g):
        if g == TRUE or g == FALSE:
            return g == TRUE
        return VS([(g, True), (g ^ 1, False)])

    def truth(self, v):
        """Guard under which a value is true."""
        if isinstance(v, VS):
            G = self.G
            return G.any([G.both(h, self.truth1(a)) for h, a in v.cases])
        return self.truth1(v)

    def truth1(self, a):
        if isinstance(a, MSet):
            return self.G.any(list(a.pres.values()))
        if isinstance(a, MDict):
            return self.G.any(list(a.pres.values()))
        if isinstance(a, MList):
            return self.G.any([g for g, _ in a.cells])
        if isinstance(a, MTuple):
            return TRUE if a.xs else FALSE
        if isinstance(a, MInst):
            for n in ("__bool__", "__len__"):
                f = a.cls.find(n)
                if f is not None:
                    saved = self.g
                    r = self.call1(Bound(f, a), [], {})
                    if self.g != saved:
                        raise Unsupported("exception in a truth value")
                    return self.truth(r)
            return TRUE
        if isinstance(a, HEAP):
            return TRUE
        return TRUE if a else FALSE

    def eq(self, a, b):
        """Guard under which two values are equal."""
        G = self.G
        if a is b and not isinstance(a, VS):
            return TRUE
        if isinstance(a, VS) or isinstance(b, VS):
            ac = a.cases if isinstance(a, VS) else [(TRUE, a)]
            bc = b.cases if isinstance(b, VS) else [(TRUE, b)]
            return G.any([G.all([g, h, self.eq(x, y)]) for g, x in ac for h, y in bc if G.both(g, h) != FALSE])
        if isinstance(a, (MTuple, tuple)) and isinstance(b, (MTuple, tuple)):
            xs = a.xs if isinstance(a, MTuple) else a
            ys = b.xs if isinstance(b, MTuple) else b
            return G.all([self.eq(x, y) for x, y in zip(xs, ys)]) if len(xs) == len(ys) else FALSE
        if isinstance(a, frozenset) and isinstance(b, MSet) or isinstance(a, MSet) and isinstance(b, frozenset):
            a, b = self.asset(a), self.asset(b)
        if isinstance(a, MSet) and isinstance(b, MSet):
            return G.all([G.iff(a.pres.get(k, FALSE), b.pres.get(k, FALSE)) for k in {**a.pres, **b.pres}])
        if isinstance(a, MDict) and isinstance(b, MDict):
            out = []
            for k in {**a.pres, **b.pres}:
                p, q = a.pres.get(k, FALSE), b.pres.get(k, FALSE)
                out.append(G.iff(p, q))
                if p != FALSE and q != FALSE:
                    out.append(G.either(p ^ 1, self.eq(a.vals[k], b.vals[k])))
            return G.all(out)
        if isinstance(a, MStr) and isinstance(b, str):
            b = MStr([(TRUE, ch) for ch in b])
        elif isinstance(b, MStr) and isinstance(a, str):
            a = MStr([(TRUE, ch) for ch in a])
        if isinstance(a, MStr) != isinstance(b, MStr):
            return FALSE
        if isinstance(a, MList) and isinstance(b, MList):
            pa, pb = self.positions(a), self.positions(b)
            out = [G.any([G.both(g, pb[1].get(n, FALSE)) for n, g in pa[1].items()])]
            for (ga, va), ca in zip(a.cells, pa[0]):
                for (gb, vb), cb in zip(b.cells, pb[0]):
                    same = G.any([G.both(g, cb[n]) for n, g in ca.items() if n in cb])
                    both = G.all([ga, gb, same])
                    if both != FALSE:
                        out.append(G.either(both ^ 1, self.eq(va, vb)))
            return G.all(out)
        if isinstance(a, MInst) and a.cls.find("__eq__") or isinstance(b, MInst) and b.cls.find("__eq__"):
            raise Unsupported("comparison method")
        if isinstance(a, HEAP) or isinstance(b, HEAP):
            return FALSE
        return TRUE if a == b else FALSE

    def asset(self, a):
        if isinstance(a, MSet):
            return a
        if isinstance(a, MDict):
            s = MSet()
            s.pres = dict(a.pres)
            return s
        s = MSet()
        if isinstance(a, (frozenset, tuple, range, str)):
            for k in a:
                s.pres[k] = TRUE
            return s
        raise Unsupported("set of %s" % type(a).__name__)

    # -- lists ----------------------------------------------------------------
    def positions(self, L):
        """For every cell {index: guard}, and {length: guard} at the end."""
        G = self.G
        count, out = {0: TRUE}, []
        for g, _ in L.cells:
            out.append(count)
            if g == TRUE:
                count = {n + 1: h for n, h in count.items()}
                continue
            if g == FALSE:
                continue
            nxt = {}
            for n, h in count.items():
                for m, e in ((n, G.both(h, g ^ 1)), (n + 1, G.both(h, g))):
                    if e != FALSE:
                        nxt.setdefault(m, []).append(e)
            count = {m: G.any(es) for m, es in nxt.items()}
            count = {m: h for m, h in count.items() if G.sat(h)}
        return out, count

    def count(self, guards):
        L = MList([(g, None) for g in guards])
        n = self.positions(L)[1]
        return self.merge([(h, m) for m, h in n.items()])

    def compact(self, L):
        L.cells = [c for c in L.cells if self.G.sat(c[0])]

    def at(self, L, i, keep=True):
        """Cells selected by an index value: [(guard, cell)], and the guard under which it is out of range."""
        G = self.G
        dense = all(c[0] == TRUE for c in L.cells)
        out, miss = [], []
        pos = None
        for g, k in self.flat(i):
            if isinstance(k, bool) or not isinstance(k, int):
                raise Unsupported("list index")
            if dense:
                if -len(L.cells) <= k < len(L.cells):
                    out.append((g, L.cells[k]))
                else:
                    miss.append(g)
                continue
            if k < 0:
                rem, left = g, -k
                need = {left: g}
                for c in reversed(L.cells):
                    nxt = {}
                    for n, h in need.items():
                        t, f = G.both(h, c[0]), G.both(h, c[0] ^ 1)
                        if n == 1:
                            if G.sat(t):
                                out.append((t, c))
                        elif G.sat(t):
                            nxt[n - 1] = G.either(nxt.get(n - 1, FALSE), t)
                        if G.sat(f):
                            nxt[n] = G.either(nxt.get(n, FALSE), f)
                    need = nxt
                    if not need:
                        break
                miss.extend(need.values())
            else:
                if pos is None:
                    pos = self.positions(L)
                hit = []
                for c, p in zip(L.cells, pos[0]):
                    if k in p:
                        t = G.all([g, c[0], p[k]])
                        if G.sat(t):
                            out.append((t, c))
                            hit.append(t)
                m = G.both(g, G.any(hit) ^ 1)
                if G.sat(m):
                    miss.append(m)
        return out, G.any(miss)

    # -- exceptions --------------------------------------------------------------
    def throw(self, guard, exc):
        """Raise under part of the current guard."""
        if guard != FALSE and self.G.sat(guard):
            self.handlers[-1].append((guard, exc))
            self.g = self.G.both(self.g, guard ^ 1)
            if not self.G.sat(self.g):
                self.g = FALSE

    # -- iteration ------------------------------------------------------------------
    def seq(self, items, body):
        G = self.G
        A = self.g
        for ig, item in items:
            e = G.both(A, ig)
            if not G.sat(e):
                continue
            self.g = e
            body(item)
            if self.g != e:
                A = G.either(G.both(A, ig ^ 1), self.g)
                if not G.sat(A):
                    A = FALSE
                    break
        self.g = A

    def iterate(self, v, body):
        """body(item) for every item of an iterable value; the guard left is that of going through to the end."""
        cs = self.cases(v)
        if len(cs) > 1 and all(isinstance(a, MSet) for _, a in cs):
            self.seq(self.union(cs), body)
            return
        ends = []
        for g, a in cs:
            self.g = g
            self.iterate1(a, body)
            ends.append(self.g)
        self.g = self.G.any(ends) if len(cs) > 1 else ends[0]

    def union(self, cs):
        m = MSet()
        for g, a in cs:
            for k, p in a.pres.items():
                m.pres.setdefault(k, []).append(self.G.both(g, p))
        m.pres = {k: self.G.any(ps) for k, ps in m.pres.items()}
        return m.items()

    def iterate1(self, a, body):
        if isinstance(a, (MSet, MDict)):
            self.seq(a.items(), body)
        elif isinstance(a, MList):
            self.seq(self.live(a), body)
        elif isinstance(a, MTuple):
            self.seq([(TRUE, x) for x in a.xs], body)
        elif isinstance(a, (tuple, str, range)):
            self.seq([(TRUE, x) for x in a], body)
        elif isinstance(a, frozenset):
            ks = list(a)
            try:
                ks.sort()
            except TypeError:
                pass
            self.seq([(TRUE, x) for x in ks], body)
        elif isinstance(a, MGen):
            self.run_gen(a, body)
        elif isinstance(a, MIter):
            rest, G = [], self.G
            for i, (g, x) in enumerate(a.list):
                before = G.any([h for h, p in (a.pos.cases if isinstance(a.pos, VS) else [(TRUE, a.pos)]) if p <= i])
                rest.append((G.both(g, before), x))
            a.pos = self.ite(self.g, len(a.list), a.pos)
            self.seq(rest, body)
        elif isinstance(a, MInst) and a.cls.find("__iter__") is not None:
            r = self.call1(Bound(a.cls.find("__iter__"), a), [], {})
            self.iterate(r, body)
        else:
            raise Unsupported("iteration over %s" % type(a).__name__)

    def live(self, L):
        i = 0
        while i < len(L.cells):
            yield L.cells[i][0], L.cells[i][1]
            i += 1

    def run_gen(self, gen, body):
        if gen.used:
            raise Unsupported("generator used twice")
        gen.used = True
        fr = gen.frame
        outer = self.handlers

        def on_yield(v):
            inner, self.handlers = self.handlers, outer
            body(v)
            self.handlers = inner
        fr.on_yield = on_yield
        fr.entry = self.g
        self.functions.add("%s.%s" % (gen.func.module["__name__"], gen.func.name))
        self.block(gen.func.node.body, fr)
        self.g = self.G.any([self.g] + [g for g, _ in fr.ret])

    def collect(self, v):
        """Items of an iterable as [(guard, value)]."""
        if isinstance(v, (MSet, MDict, MList)):
            return v.items()
        out = []

        def body(x):
            out.append((self.g, x))
        start = self.g
        self.iterate(v, body)
        if len(out) and all(g == start for g, _ in out):
            return [(TRUE, x) for _, x in out]
        return out

    def mklist(self, v):
        return MList(self.collect(v))

    def mkset(self, v):
        s = MSet()
        for g, x in self.collect(v):
            self.setadd(s, x, g)
        return s

    def setadd(self, s, x, g):
        saved = self.g
        self.g = self.G.both(saved, g)
        for h, k in self.flat(x):
            if isinstance(k, (MSet, MDict, MList)):
                raise Unsupported("unhashable")
            if g == TRUE and h == saved:
                h = TRUE if k not in s.pres and False else h
            s.pres[k] = self.G.either(s.pres.get(k, FALSE), h)
        self.g = saved

    def mkfrozen(self, v):
        rows = [(self.g, ())]
        items = {}
        for g, x in self.collect(v):
            saved = self.g
            self.g = self.G.both(saved, g)
            for h, k in self.flat(x):
                items.setdefault(k, []).append(h)
            self.g = saved
        for k, hs in items.items():
            h = self.G.any(hs)
            nxt = []
            for g, t in rows:
                for e, u in ((self.G.both(g, h), t + (k,)), (self.G.both(g, h ^ 1), t)):
                    if self.G.sat(e):
                        nxt.append((e, u))
            rows = nxt
            if len(rows) > 300:
                raise Unsupported("too many frozen sets")
        return self.merge([(g, frozenset(t)) for g, t in rows])

    # -- statements ---------------------------------------------------------------
    def block(self, stmts, fr):
        for s in stmts:
            if self.g == FALSE:
                return
            getattr(self, "s_" + type(s).__name__, self.nope)(s, fr)

    def nope(self, s, fr=None):
        raise Unsupported(type(s).__name__)

    def s_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, fr)

    def s_Pass(self, s, fr):
        pass

    def s_Import(self, s, fr):
        for a in s.names:
            self.store_name((a.asname or a.name).split(".")[0], importlib.import_module(a.name), fr)

    def s_ImportFrom(self, s, fr):
        for a in s.names:
            if s.level:
                v = self.module(s.module)[a.name] if s.module else self.module(a.name)
            else:
                v = getattr(importlib.import_module(s.module), a.name)
            self.store_name(a.asname or a.name, v, fr)

    def s_Global(self, s, fr):
        fr.shared.update(("g", n) for n in s.names)

    def s_Nonlocal(self, s, fr):
        pass

    def s_FunctionDef(self, s, fr):
        f = self.func(s, s.name, fr)
        for d in s.decorator_list:
            n = d.id if isinstance(d, ast.Name) else ""
            if n == "staticmethod":
                f.static = True
            elif n == "property":
                f.prop = True
            else:
                raise Unsupported("decorator")
        self.store_name(s.name, f, fr)

    def func(self, node, name, fr):
        return MFunc(node, name, fr if fr.func is not None else None, fr.module,
                     [self.eval(d, fr) for d in node.args.defaults],
                     [(a.arg, self.eval(d, fr)) for a, d in zip(node.args.kwonlyargs, node.args.kw_defaults) if d])

    def s_ClassDef(self, s, fr):
        bases = [self.eval(b, fr) for b in s.bases]
        if any(isinstance(b, VS) for b in bases):
            raise Unsupported("class bases")
        sub = Frame(None, fr, fr.module, self.g)
        sub.classbody = True
        sub.vars = {}
        sub.outer = fr
        attrs = {}
        for st in s.body:
            if isinstance(st, ast.FunctionDef):
                f = self.func(st, "%s.%s" % (s.name, st.name), fr)
                for d in st.decorator_list:
                    if isinstance(d, ast.Name) and d.id in ("staticmethod", "property"):
                        f.static, f.prop = d.id == "staticmethod", d.id == "property"
                    else:
                        raise Unsupported("decorator")
                attrs[st.name] = f
            elif isinstance(st, ast.Assign) and all(isinstance(t, ast.Name) for t in st.targets):
                if isinstance(st.value, ast.Name) and st.value.id in attrs:
                    v = attrs[st.value.id]
                else:
                    v = self.eval(st.value, fr)
                for t in st.targets:
                    attrs[t.id] = v
            elif not (isinstance(st, ast.Pass) or isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant)):
                raise Unsupported("class body")
        self.store_name(s.name, MClass(s.name, bases, attrs, fr.module), fr)

    def s_Return(self, s, fr):
        v = self.eval(s.value, fr) if s.value else None
        if self.g != FALSE:
            fr.ret.append((self.g, v))
        self.g = FALSE

    def s_Break(self, s, fr):
        fr.loops[-1].brk.append(self.g)
        self.g = FALSE

    def s_Continue(self, s, fr):
        fr.loops[-1].cont.append(self.g)
        self.g = FALSE

    def s_If(self, s, fr):
        c = self.truth(self.eval(s.test, fr))
        self.fork(c, lambda: self.block(s.body, fr), lambda: self.block(s.orelse, fr))

    def fork(self, c, yes, no):
        """Both sides of a condition, one after the other; returns their results guarded."""
        G, g = self.G, self.g
        gt, gf = G.both(g, c), G.both(g, c ^ 1)
        st, sf = G.sat(gt), G.sat(gf)
        if not sf:
            return [(g, yes())] if st else []
        if not st:
            return [(g, no())]
        self.branches += 1
        out = []
        self.g = gt
        r = yes()
        e1 = self.g
        out.append((e1, r))
        self.g = gf
        r = no()
        e2 = self.g
        out.append((e2, r))
        self.g = g if e1 == gt and e2 == gf else G.either(e1, e2)
        return out

    def s_While(self, s, fr):
        G = self.G
        exits, brks = [], []
        for _ in range(MAXLOOP):
            c = self.truth(self.eval(s.test, fr))
            e = G.both(self.g, c ^ 1)
            if G.sat(e):
                exits.append(e)
            else:
                c = TRUE
            self.g = G.both(self.g, c)
            if not G.sat(self.g):
                break
            rec = Loop()
            fr.loops.append(rec)
            self.block(s.body, fr)
            fr.loops.pop()
            brks += rec.brk
            self.g = G.any([self.g] + rec.cont)
            if not G.sat(self.g):
                break
        else:
            raise Unsupported("loop limit")
        self.g = G.any(exits)
        if s.orelse:
            self.block(s.orelse, fr)
        self.g = G.any([self.g] + brks)

    def s_For(self, s, fr):
        G = self.G
        brks = []
        v = self.eval(s.iter, fr)
        if self.g == FALSE:
            return

        def body(item):
            self.assign(s.target, item, fr)
            rec = Loop()
            fr.loops.append(rec)
            self.block(s.body, fr)
            fr.loops.pop()
            brks.extend(rec.brk)
            if rec.cont:
                self.g = G.any([self.g] + rec.cont)
        self.iterate(v, body)
        if s.orelse:
            self.block(s.orelse, fr)
        if brks:
            self.g = G.any([self.g] + brks)

    def s_Try(self, s, fr):
        G = self.G
        if s.finalbody:
            raise Unsupported("finally")
        outer = self.handlers
        caught = []
        self.handlers = outer + [caught]
        self.block(s.body, fr)
        self.handlers = outer
        if s.orelse:
            self.block(s.orelse, fr)
        ends = [self.g]
        left = [(g, e) for g, x in caught for g, e in self.excs(g, x)]
        for h in s.handlers:
            if h.type is None:
                mine, left = left, []
            else:
                saved = self.g
                self.g = TRUE
                t = self.eval(h.type, fr)
                self.g = saved
                ts = list(t.xs) if isinstance(t, MTuple) else list(t) if isinstance(t, tuple) else [t]
                mine = [(g, e) for g, e in left if any(self.isexc(e, x) for x in ts)]
                left = [(g, e) for g, e in left if not any(self.isexc(e, x) for x in ts)]
            if mine:
                self.g = G.any([g for g, _ in mine])
                if h.name:
                    self.store_name(h.name, self.merge(mine), fr)
                depth = getattr(fr, "current", None)
                fr.current = self.merge(mine)
                self.block(h.body, fr)
                fr.current = depth
                ends.append(self.g)
        outer[-1].extend(left)
        self.g = G.any(ends)

    def excs(self, g, x):
        if isinstance(x, VS):
            return [(self.G.both(g, h), a) for h, a in x.cases if self.G.sat(self.G.both(g, h))]
        return [(g, x)]

    def isexc(self, e, t):
        if isinstance(e, MInst):
            return e.cls.derives(t)
        return isinstance(t, type) and isinstance(e, t)

    def s_Raise(self, s, fr):
        v = self.eval(s.exc, fr) if s.exc else fr.current
        parts = []
        for g, a in self.cases(v):
            if isinstance(a, MClass):
                saved, self.g = self.g, g
                a = self.call1(a, [], {})
                self.g = saved
            elif isinstance(a, type):
                a = a()
            parts.append((g, a))
        for g, a in parts:
            self.handlers[-1].append((g, a))
        self.g = FALSE

    def s_Assert(self, s, fr):
        c = self.truth(self.eval(s.test, fr))
        self.throw(self.G.both(self.g, c ^ 1), AssertionError())

    def s_Assign(self, s, fr):
        v = self.eval(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, fr), fr)

    def s_AugAssign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.eval(ast.Name(t.id, ast.Load()), fr)
            self.assign(t, self.aug(old, s.op, self.eval(s.value, fr)), fr)
        elif isinstance(t, ast.Attribute):
            obj = self.eval(t.value, fr)
            old = self.getattr(obj, t.attr)
            self.setattr(obj, t.attr, self.aug(old, s.op, self.eval(s.value, fr)))
        else:
            obj = self.eval(t.value, fr)
            i = self.eval(t.slice, fr)
            old = self.getitem(obj, i)
            self.setitem(obj, i, self.aug(old, s.op, self.eval(s.value, fr)))

    def aug(self, old, op, v):
        """In-place operator."""
        parts, saved = [], self.g
        cs = self.cases(old)
        if not any(isinstance(a, (MSet, MList, MInst)) for _, a in cs):
            return self.binop(op, old, v)
        ends = []
        for g, a in cs:
            self.g = g
            if isinstance(a, MSet):
                name = {ast.BitOr: "update", ast.BitAnd: "intersection_update", ast.Sub: "difference_update",
                        ast.BitXor: "symmetric_difference_update"}[type(op)]
                self.method(a, name, [v], {})
                parts.append((self.g, a))
            elif isinstance(a, MList) and isinstance(op, ast.Add):
                self.method(a, "extend", [v], {})
                parts.append((self.g, a))
            else:
                parts.append((self.g, self.binop(op, a, v)))
            ends.append(self.g)
        self.g = self.G.any(ends) if len(cs) > 1 else self.g
        return self.merge(parts) if len(parts) > 1 else parts[0][1]

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                obj = self.eval(t.value, fr)
                i = self.slice(t.slice, fr)
                for g, a in self.cases(obj):
                    saved, self.g = self.g, g
                    self.delitem(a, i)
                    lost = self.g != g
                    self.g = saved if not lost else self.G.either(self.G.both(saved, g ^ 1), self.g)
            elif isinstance(t, ast.Attribute):
                self.eval(t.value, fr)          # leaving the old value behind is harmless
            elif isinstance(t, ast.Name):
                pass
            else:
                raise Unsupported("del")

    # -- names and targets ------------------------------------------------------------
    def store_name(self, n, v, fr):
        if fr.func is None:
            fr.module[n] = v
            return
        f = fr
        if n not in f.func.locals:
            while f is not None and n not in f.func.locals:
                f = f.parent
            if f is None:
                raise Unsupported("assignment to a global")
        old = f.vars.get(n, UNSET)
        if self.g == f.entry and f is fr or old is UNSET:
            f.vars[n] = v
        else:
            f.vars[n] = self.ite(self.g, v, old)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            if any(isinstance(e, ast.Starred) for e in t.elts):
                raise Unsupported("starred target")
            cols = [[] for _ in range(n)]
            for g, a in self.cases(v):
                xs = a.xs if isinstance(a, MTuple) else a if isinstance(a, tuple) else None
                if xs is None:
                    saved, self.g = self.g, g
                    L = a if isinstance(a, MList) else self.mklist(a)
                    pos, total = self.positions(L)
                    self.throw(self.G.both(self.g, total.get(n, FALSE) ^ 1), ValueError("unpack"))
                    for i in range(n):
                        hit, _ = self.at(L, i)
                        cols[i].append((self.g, self.merge([(h, c[1]) for h, c in hit])))
                    lost = self.g != g
                    self.g = saved if not lost else self.G.either(self.G.both(saved, g ^ 1), self.g)
                    continue
                if len(xs) != n:
                    self.throw(g, ValueError("unpack"))
                    continue
                for i in range(n):
                    cols[i].append((g, xs[i]))
            if self.g == FALSE:
                return
            for e, col in zip(t.elts, cols):
                self.assign(e, col[0][1] if len(col) == 1 else self.merge(col), fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            obj = self.eval(t.value, fr)
            self.setitem(obj, self.slice(t.slice, fr), v)
        else:
            raise Unsupported("target")

    def setattr(self, obj, name, v):
        for g, a in self.cases(obj):
            if not isinstance(a, MInst):
                raise Unsupported("attribute of %s" % type(a).__name__)
            a.fields[name] = self.ite(g, v, a.fields.get(name, UNSET))

    def setitem(self, obj, i, v):
        G = self.G
        for g, a in self.cases(obj):
            saved, self.g = self.g, g
            if isinstance(a, MDict):
                for h, k in self.flat(i):
                    self.dictset(a, k, v, h)
            elif isinstance(a, MList):
                if isinstance(i, slice):
                    raise Unsupported("slice assignment")
                hit, miss = self.at(a, i)
                for h, c in hit:
                    c[1] = self.ite(h, v, c[1])
                self.throw(miss, IndexError())
            elif isinstance(a, MInst):
                self.call1(self.getattr(a, "__setitem__"), [i, v], {})
            else:
                raise Unsupported("item assignment")
            lost = self.g != g
            self.g = saved if not lost else G.either(G.both(saved, g ^ 1), self.g)

    def dictset(self, d, k, v, g):
        G = self.G
        p = d.pres.get(k, FALSE)
        new = G.both(g, p ^ 1)
        if p == FALSE:
            d.vals[k] = v
        else:
            d.vals[k] = self.ite(g, v, d.vals[k])
        if G.sat(new):
            d.pres[k] = G.either(p, g)
            if d.events and d.events[-1][0] == k and type(d.events[-1][0]) is type(k):
                d.events[-1][1] = G.either(d.events[-1][1], new)
            else:
                d.events.append([k, new])

    def dictdel(self, d, k, g):
        G = self.G
        d.pres[k] = G.both(d.pres[k], g ^ 1)
        for e in d.events:
            if e[0] == k:
                e[1] = G.both(e[1], g ^ 1)

    def delitem(self, a, i):
        G = self.G
        if isinstance(a, MDict):
            for h, k in self.flat(i):
                p = d = a.pres.get(k, FALSE)
                ok = G.both(h, p)
                if G.sat(ok):
                    self.dictdel(a, k, ok)
                self.throw(G.both(h, p ^ 1), KeyError(k))
        elif isinstance(a, MList):
            if isinstance(i, slice):
                if i.step is not None or i.stop is not None:
                    raise Unsupported("slice deletion")
                start = i.start or 0
                pos, total = self.positions(a)
                for g, k in self.flat(start):
                    if k < 0:
                        raise Unsupported("negative slice")
                    for c, p in zip(a.cells, pos):
                        out = G.both(g, G.any([h for n, h in p.items() if n >= k]))
                        c[0] = G.both(c[0], out ^ 1)
                self.compact(a)
            else:
                hit, miss = self.at(a, i)
                for h, c in hit:
                    c[0] = G.both(c[0], h ^ 1)
                self.throw(miss, IndexError())
                self.compact(a)
        elif isinstance(a, MInst):
            self.call1(self.getattr(a, "__delitem__"), [i], {})
        else:
            raise Unsupported("del item of %s" % type(a).__name__)

    # -- expressions -----------------------------------------------------------------
    def eval(self, e, fr):
        return getattr(self, "e_" + type(e).__name__, self.nope)(e, fr)

    def e_Constant(self, e, fr):
        return e.value

    def e_Name(self, e, fr):
        n = e.id
        f = fr
        while f is not None:
            if n in f.vars:
                return f.vars[n]
            f = f.parent
        if n in fr.module:
            return fr.module[n]
        if hasattr(builtins, n):
            return getattr(builtins, n)
        self.handlers[-1].append((self.g, NameError(n)))
        self.g = FALSE
        return None

    def tuple(self, xs):
        if any(isinstance(x, (VS,) + HEAP) for x in xs):
            return MTuple(xs)
        return tuple(xs)

    def elts(self, es, fr, star=False):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, fr)
                for g, y in self.collect(v):
                    if g != TRUE and g != self.g:
                        if not star:
                            raise Unsupported("starred")
                        y = StarItem(g, y)
                    out.append(y)
            else:
                out.append(self.eval(x, fr))
        return out

    def e_Tuple(self, e, fr):
        return self.tuple(self.elts(e.elts, fr))

    def e_List(self, e, fr):
        return MList([(TRUE, x) for x in self.elts(e.elts, fr)])

    def e_Set(self, e, fr):
        s = MSet()
        for x in self.elts(e.elts, fr):
            self.setadd(s, x, TRUE)
        return s

    def e_Dict(self, e, fr):
        d = MDict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                raise Unsupported("** in dict")
            for h, kk in self.flat(self.eval(k, fr)):
                self.dictset(d, kk, self.eval(v, fr), h)
        return d

    def e_JoinedStr(self, e, fr):
        return "text"

    def e_Lambda(self, e, fr):
        return self.func(e, "<lambda>", fr)

    def e_IfExp(self, e, fr):
        c = self.truth(self.eval(e.test, fr))
        return self.merge(self.fork(c, lambda: self.eval(e.body, fr), lambda: self.eval(e.orelse, fr)))

    def e_BoolOp(self, e, fr):
        G = self.G
        isand = isinstance(e.op, ast.And)

        def go(i):
            v = self.eval(e.values[i], fr)
            if i == len(e.values) - 1 or self.g == FALSE:
                return v
            c = self.truth(v)
            if not isand:
                c ^= 1
            return self.merge(self.fork(c, lambda: go(i + 1), lambda: v))
        return go(0)

    def e_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        if isinstance(e.op, ast.Not):
            return self.bool(self.truth(v) ^ 1)
        return self.lift({ast.USub: operator.neg, ast.Invert: operator.invert, ast.UAdd: operator.pos}[type(e.op)], v)

    def e_BinOp(self, e, fr):
        a = self.eval(e.left, fr)
        if isinstance(e.op, ast.Mod) and isinstance(a, str):
            self.eval(e.right, fr)
            return "text"
        return self.binop(e.op, a, self.eval(e.right, fr))

    def binop(self, op, a, b):
        if self.g == FALSE:
            return None
        ca, cb = self.cases(a), self.cases(b)
        if not any(isinstance(x, (MSet, MList, MInst, MDict, frozenset)) for _, x in ca + cb):
            return self.lift(BIN[type(op)], a, b)
        out = []
        for g, x in ca:
            for h, y in cb:
                e = self.G.both(g, h)
                if self.G.sat(e):
                    saved, self.g = self.g, e
                    out.append((e, self.binop1(op, x, y)))
                    if self.g != e:
                        raise Unsupported("exception in an operator")
                    self.g = saved
        return self.merge(out)

    def binop1(self, op, x, y):
        G = self.G
        if isinstance(x, (MSet, frozenset)) and isinstance(y, (MSet, frozenset)):
            if isinstance(x, frozenset) and isinstance(y, frozenset):
                return BIN[type(op)](x, y)
            f = {ast.BitOr: G.either, ast.BitAnd: G.both, ast.Sub: lambda p, q: G.both(p, q ^ 1),
                 ast.BitXor: lambda p, q: G.iff(p, q) ^ 1}[type(op)]
            p, q = self.asset(x), self.asset(y)
            s = MSet()
            for k in {**p.pres, **q.pres}:
                r = f(p.pres.get(k, FALSE), q.pres.get(k, FALSE))
                if G.sat(r):
                    s.pres[k] = r
            return s
        if isinstance(op, ast.Add) and (isinstance(x, MStr) and isinstance(y, (str, MStr)) or isinstance(y, MStr) and isinstance(x, str)):
            return MStr([c for z in (x, y) for c in (z.items() if isinstance(z, MStr) else [(TRUE, ch) for ch in z])])
        if isinstance(x, MStr) or isinstance(y, MStr):
            raise Unsupported("operator on text")
        if isinstance(x, MList) and isinstance(y, MList) and isinstance(op, ast.Add):
            return MList(x.items() + y.items())
        if isinstance(op, ast.Mult) and isinstance(x, int) and isinstance(y, MList):
            return MList(y.items() * x)
        if isinstance(op, ast.Mult) and isinstance(y, int) and isinstance(x, MList):
            return MList(x.items() * y)
        raise Unsupported("operator on %s, %s" % (type(x).__name__, type(y).__name__))

    def e_Compare(self, e, fr):
        left = self.eval(e.left, fr)

        def go(i, left):
            right = self.eval(e.comparators[i], fr)
            if self.g == FALSE:
                return False
            v = self.compare(e.ops[i], left, right)
            if i == len(e.ops) - 1 or self.g == FALSE:
                return v
            return self.merge(self.fork(self.truth(v), lambda: go(i + 1, right), lambda: False))
        return go(0, left)

    def compare(self, op, a, b):
        if isinstance(op, ast.Eq):
            return self.bool(self.eq(a, b))
        if isinstance(op, ast.NotEq):
            return self.bool(self.eq(a, b) ^ 1)
        if isinstance(op, (ast.Is, ast.IsNot)):
            G = self.G
            ac = a.cases if isinstance(a, VS) else [(TRUE, a)]
            bc = b.cases if isinstance(b, VS) else [(TRUE, b)]
            g = G.any([G.both(h, k) for h, x in ac for k, y in bc
                       if x is y or not isinstance(x, HEAP) and not isinstance(y, HEAP) and type(x) is type(y)
                       and type(x) in (int, str, bool) and x == y])
            return self.bool(g if isinstance(op, ast.Is) else g ^ 1)
        if isinstance(op, (ast.In, ast.NotIn)):
            g = self.contains(b, a)
            return self.bool(g if isinstance(op, ast.In) else g ^ 1)
        ca, cb = self.cases(a), self.cases(b)
        if any(isinstance(x, (MSet, frozenset)) for _, x in ca):
            out = []
            for g, x in ca:
                for h, y in cb:
                    e = self.G.both(g, h)
                    if self.G.sat(e):
                        out.append((e, self.bool(self.subset(op, self.asset(x), self.asset(y)))))
            return self.merge(out)
        return self.lift(CMP[type(op)], a, b)

    def subset(self, op, x, y):
        G = self.G
        if isinstance(op, (ast.Gt, ast.GtE)):
            return self.subset(ast.Lt() if isinstance(op, ast.Gt) else ast.LtE(), y, x)
        g = G.all([G.either(p ^ 1, y.pres.get(k, FALSE)) for k, p in x.pres.items()])
        return G.both(g, self.eq(x, y) ^ 1) if isinstance(op, ast.Lt) else g

    def contains(self, b, a):
        """Guard of a in b."""
        G = self.G
        out = []
        for g, c in self.cases(b):
            saved, self.g = self.g, g
            if isinstance(c, (MSet, MDict)):
                out += [G.both(h, c.pres.get(k, FALSE)) for h, k in self.flat(a)]
            elif isinstance(c, (frozenset, range)):
                out += [h for h, k in self.flat(a) if k in c]
            elif isinstance(c, (tuple, MTuple, MList, MGen, MIter)):
                items = [(TRUE, x) for x in c] if isinstance(c, tuple) else \
                    [(TRUE, x) for x in c.xs] if isinstance(c, MTuple) else self.collect(c)
                out += [G.all([g, h, self.eq(x, a)]) for h, x in items]
            elif isinstance(c, str):
                out += [h for h, k in self.flat(a) if k in c]
            elif isinstance(c, MInst) and c.cls.find("__contains__"):
                out.append(G.both(g, self.truth(self.call1(Bound(c.cls.find("__contains__"), c), [a], {}))))
            elif isinstance(c, MInst):
                out += [G.all([g, h, self.eq(x, a)]) for h, x in self.collect(c)]
            else:
                raise Unsupported("in %s" % type(c).__name__)
            self.g = saved
        return G.any(out)

    def e_Attribute(self, e, fr):
        return self.getattr(self.eval(e.value, fr), e.attr)

    def getattr(self, v, name):
        cs = self.cases(v)
        if len(cs) == 1:
            return self.getattr1(cs[0][1], name)
        out, ends = [], []
        for g, a in cs:
            self.g = g
            r = self.getattr1(a, name)
            out.append((self.g, r))
        self.g = self.G.any([g for g, _ in out])
        return self.merge(out)

    def getattr1(self, a, name):
        if isinstance(a, MInst):
            if name in a.fields:
                return a.fields[name]
            f = a.cls.find(name)
            if isinstance(f, MFunc):
                if f.prop:
                    return self.call1(Bound(f, a), [], {})
                return f if f.static else Bound(f, a)
            if f is not None:
                return f
            if name == "__class__":
                return a.cls
            self.throw(self.g, AttributeError(name))
            return None
        if isinstance(a, MClass):
            f = a.find(name)
            if f is not None:
                return f
            raise Unsupported("class attribute " + name)
        if isinstance(a, (MSet, MDict, MList, frozenset, tuple, MTuple, str)):
            kind = {MSet: set, MDict: dict, MList: list, MStr: str, MTuple: tuple}.get(type(a), type(a))
            if kind is dict and a.factory is not None:
                kind = collections.defaultdict
            if not hasattr(kind, name):
                self.throw(self.g, AttributeError(name))
                return None
            return Method(a, name)
        if isinstance(a, dict) and "__name__" in a:
            return a[name]
        if isinstance(a, HEAP):
            raise Unsupported("attribute %s of %s" % (name, type(a).__name__))
        try:
            return getattr(a, name)
        except AttributeError as e:
            self.throw(self.g, e)
            return None

    def slice(self, s, fr):
        if isinstance(s, ast.Slice):
            return slice(*[self.eval(x, fr) if x else None for x in (s.lower, s.upper, s.step)])
        return self.eval(s, fr)

    def e_Subscript(self, e, fr):
        obj = self.eval(e.value, fr)
        i = self.slice(e.slice, fr)
        if self.g == FALSE:
            return None
        return self.getitem(obj, i)

    def getitem(self, obj, i):
        out = []
        cs = self.cases(obj)
        for g, a in cs:
            self.g = g
            r = self.getitem1(a, i)
            out.append((self.g, r))
        self.g = self.G.any([g for g, _ in out]) if len(cs) > 1 else out[0][0]
        return self.merge(out) if len(cs) > 1 else out[0][1]

    def getitem1(self, a, i):
        G = self.G
        if isinstance(a, MDict):
            out, ks = [], self.flat(i)
            for h, k in ks:
                p = a.pres.get(k, FALSE)
                ok, no = G.both(h, p), G.both(h, p ^ 1)
                if p != FALSE and G.sat(ok):
                    out.append((ok, a.vals[k]))
                if G.sat(no):
                    if a.factory is not None:
                        saved, self.g = self.g, no
                        v = self.call(a.factory, [], {})
                        self.g = saved
                        self.dictset(a, k, v, no)
                        out.append((no, v))
                    else:
                        self.throw(no, KeyError(k))
            return self.merge(out) if len(out) != 1 else out[0][1]
        if isinstance(a, MList):
            if isinstance(i, slice):
                return self.sublist(a, i)
            hit, miss = self.at(a, i)
            self.throw(miss, IndexError())
            return self.merge([(h, c[1]) for h, c in hit]) if len(hit) != 1 else hit[0][1][1]
        if isinstance(a, (tuple, MTuple)):
            xs = a.xs if isinstance(a, MTuple) else a
            if isinstance(i, slice):
                if any(isinstance(x, VS) for x in (i.start, i.stop, i.step)):
                    raise Unsupported("symbolic slice")
                return self.tuple(xs[i])
            out = []
            for h, k in self.flat(i):
                try:
                    out.append((h, xs[k]))
                except IndexError as e:
                    self.throw(h, e)
            return self.merge(out)
        if isinstance(a, MInst):
            return self.call1(self.getattr1(a, "__getitem__"), [i], {})
        if isinstance(a, (str, range)):
            return self.lift(operator.getitem, a, i)
        raise Unsupported("item of %s" % type(a).__name__)

    def sublist(self, L, s):
        G = self.G
        if s.step == -1 and s.start is None and s.stop is None:
            return type(L)(L.items()[::-1])
        if s.step is not None:
            raise Unsupported("slice step")
        pos, total = self.positions(L)

        def bound(v, default):
            if v is None:
                return default
            out = []
            for g, k in self.flat(v):
                if k >= 0:
                    out.append((g, k))
                else:
                    out += [(G.both(g, h), max(0, n + k)) for n, h in total.items()]
            return [(g, k) for g, k in out if G.sat(g)]
        lo = bound(s.start, [(TRUE, 0)])
        hi = bound(s.stop, None)
        cells = []
        for (g, v), p in zip(L.cells, pos):
            keep = G.any([G.both(h, G.any([q for n, q in p.items() if n >= k])) for h, k in lo])
            if hi is not None:
                keep = G.both(keep, G.any([G.both(h, G.any([q for n, q in p.items() if n < k])) for h, k in hi]))
            k = G.both(g, keep)
            if G.sat(k):
                cells.append((k, v))
        return type(L)(cells)

    # -- comprehensions ----------------------------------------------------------------
    def comp(self, gens, fr, emit):
        sub = Frame(COMP, fr, fr.module, self.g)
        sub.ret, sub.loops = fr.ret, fr.loops

        def bind(t, v):
            if isinstance(t, ast.Name):
                sub.vars[t.id] = v
                return
            names = [x for x in ast.walk(t) if isinstance(x, ast.Name)]
            for x in names:
                sub.vars.pop(x.id, None)
            self.assign(t, v, sub)

        def go(i):
            if i == len(gens):
                emit(sub)
                return
            c = gens[i]

            def body(item):
                bind(c.target, item)
                G = self.G
                start, lost = self.g, FALSE
                for t in c.ifs:
                    before = self.g
                    k = self.truth(self.eval(t, sub))
                    lost = G.either(lost, G.both(before, self.g ^ 1))
                    self.g = G.both(self.g, k)
                    if not G.sat(self.g):
                        break
                else:
                    inner = self.g
                    go(i + 1)
                    lost = G.either(lost, G.both(inner, self.g ^ 1))
                self.g = G.both(start, lost ^ 1)
            self.iterate(self.eval(c.iter, sub if i else fr), body)
        go(0)

    def e_ListComp(self, e, fr):
        L = MList()
        entry = self.g
        L.cells = []

        def emit(sub):
            v = self.eval(e.elt, sub)
            L.cells.append([TRUE if self.g == entry else self.g, v])
        self.comp(e.generators, fr, emit)
        return L

    def e_GeneratorExp(self, e, fr):
        return self.e_ListComp(e, fr)

    def e_SetComp(self, e, fr):
        s = MSet()
        self.comp(e.generators, fr, lambda sub: self.setadd(s, self.eval(e.elt, sub), TRUE))
        return s

    def e_DictComp(self, e, fr):
        d = MDict()
        entry = self.g

        def emit(sub):
            ks = self.flat(self.eval(e.key, sub))
            v = self.eval(e.value, sub)
            for h, k in ks:
                self.dictset(d, k, v, TRUE if h == entry else h)
        self.comp(e.generators, fr, emit)
        return d

    def e_Yield(self, e, fr):
        v = self.eval(e.value, fr) if e.value else None
        if self.g != FALSE:
            fr.on_yield(v)
        return None

    # -- calls -----------------------------------------------------------------------
    def e_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == "super":
            raise Unsupported("super")
        if isinstance(e.func, ast.Attribute):
            recv = self.eval(e.func.value, fr)
            if self.g == FALSE:
                return None
            cs = self.cases(recv)
            if any(isinstance(a, (MSet, MDict, MList)) for _, a in cs):
                args, kw = self.args(e, fr)
                if self.g == FALSE:
                    return None
                out = []
                single = len(cs) == 1
                for g, a in cs:
                    self.g = self.g if single else self.G.both(g, TRUE)
                    f = self.getattr1(a, e.func.attr)
                    out.append([None, self.call1(f, args, kw) if self.g != FALSE else None])
                    out[-1][0] = self.g
                if not single:
                    self.g = self.G.any([g for g, _ in out])
                    return self.merge(out)
                return out[0][1]
            f = self.getattr(recv, e.func.attr)
            if self.g == FALSE:
                return None
        else:
            f = self.eval(e.func, fr)
        args, kw = self.args(e, fr)
        if self.g == FALSE:
            return None
        return self.call(f, args, kw)

    def args(self, e, fr):
        if any(k.arg is None for k in e.keywords):
            raise Unsupported("**")
        return self.elts(e.args, fr, True), {k.arg: self.eval(k.value, fr) for k in e.keywords}

    def call(self, f, args, kw):
        cs = self.cases(f)
        if len(cs) == 1:
            return self.call1(cs[0][1], args, kw)
        out = []
        for g, a in cs:
            self.g = g
            r = self.call1(a, args, kw)
            out.append((self.g, r))
        self.g = self.G.any([g for g, _ in out])
        return self.merge(out)

    def call1(self, f, args, kw):
        if isinstance(f, Bound):
            return self.call1(f.f, [f.obj] + args, kw) if isinstance(f.f, MFunc) else self.call1(f.f, args, kw)
        if isinstance(f, MFunc):
            return self.run(f, args, kw)
        if isinstance(f, Method):
            if any(isinstance(x, StarItem) for x in args):
                raise Unsupported("starred")
            return self.method(f.obj, f.name, args, kw)
        if isinstance(f, MClass):
            return self.new(f, args, kw)
        if isinstance(f, MInst):
            return self.call1(self.getattr1(f, "__call__"), args, kw)
        if any(isinstance(x, StarItem) for x in args):
            raise Unsupported("starred")
        h = BUILTINS.get(f) if _hashable(f) else None
        if h is not None:
            return h(self, *args, **kw)
        if isinstance(f, type) and issubclass(f, BaseException):
            return f(*[a if isinstance(a, str) else "text" for a in args])
        if kw:
            raise Unsupported("keywords in a native call")
        if f in (object,):
            return object()
        if callable(f):
            return self.lift(f, *args)
        raise Unsupported("call of %s" % type(f).__name__)

    def new(self, cls, args, kw):
        obj = MInst(cls)
        f = cls.find("__init__")
        if f is not None:
            self.run(f, [obj] + args, kw)
        elif args and not cls.derives(BaseException):
            raise Unsupported("constructor")
        return obj

    def run(self, f, args, kw):
        node = f.node
        a = node.args
        if a.kwarg:
            raise Unsupported("signature")
        fr = Frame(f, f.parent, f.module, self.g)
        names = [x.arg for x in a.posonlyargs + a.args]
        if any(isinstance(x, StarItem) for x in args[:len(names)]):
            raise Unsupported("starred")
        vals = dict(zip(names, args))
        if a.vararg:
            rest = args[len(names):]
            if any(isinstance(x, StarItem) for x in rest):
                fr.vars[a.vararg.arg] = MList([(x.g, x.v) if isinstance(x, StarItem) else (TRUE, x) for x in rest])
            else:
                fr.vars[a.vararg.arg] = self.tuple(rest)
        elif len(args) > len(names):
            raise Unsupported("too many arguments")
        for n, v in zip(names[len(names) - len(f.defaults):], f.defaults):
            vals.setdefault(n, v)
        for n, v in f.kwdefaults.items():
            vals.setdefault(n, v)
        vals.update(kw)
        if any(n not in vals for n in names):
            raise Unsupported("missing argument")
        fr.vars.update(vals)
        if f.isgen:
            return MGen(f, fr)
        if isinstance(node, ast.Lambda):
            return self.eval(node.body, fr)
        self.functions.add("%s.%s" % (f.module["__name__"], f.name))
        self.depth += 1
        if self.depth > 120:
            raise Unsupported("recursion")
        self.block(node.body, fr)
        self.depth -= 1
        if not fr.ret:
            return None
        parts = fr.ret + ([(self.g, None)] if self.g != FALSE else [])
        self.g = self.G.any([g for g, _ in parts])
        return self.merge(parts) if len(parts) > 1 else parts[0][1]

    def method(self, a, name, args, kw):
        f = getattr(self, "m_%s_%s" % ({MSet: "set", MDict: "dict", MList: "list", MStr: "str"}.get(type(a), "other"), name), None)
        if f is None:
            if a == "" and isinstance(a, str) and name == "join" and len(args) == 1:
                return MStr(self.collect(args[0]))
            if isinstance(a, (frozenset, tuple, str)) and not kw:
                return self.lift(lambda *xs: getattr(a, name)(*xs), *args)
            raise Unsupported("method %s of %s" % (name, type(a).__name__))
        return f(a, *args, **kw)

    def m_str_startswith(self, a, prefix):
        if not isinstance(prefix, str):
            raise Unsupported("prefix")
        G, out = self.G, []
        for i, ch in enumerate(prefix):
            out.append(G.any([G.both(h, self.eq(c[1], ch)) for h, c in self.at(a, i)[0]]))
        return self.bool(G.all(out))

    # sets
    def m_set_add(self, a, x):
        self.setadd(a, x, TRUE)

    def m_set_update(self, a, *vs):
        for v in vs:
            for g, x in self.collect(v):
                self.setadd(a, x, g)

    def m_set_discard(self, a, x):
        for h, k in self.flat(x):
            if k in a.pres:
                a.pres[k] = self.G.both(a.pres[k], h ^ 1)

    def m_set_remove(self, a, x):
        G = self.G
        for h, k in self.flat(x):
            p = a.pres.get(k, FALSE)
            if p != FALSE:
                a.pres[k] = G.both(p, h ^ 1)
            self.throw(G.both(h, p ^ 1), KeyError(k))

    def m_set_pop(self, a):
        G = self.G
        rem, out = self.g, []
        for k in a.ordered():
            t = G.both(rem, a.pres[k])
            if G.sat(t):
                out.append((t, k))
                rem = G.both(rem, a.pres[k] ^ 1)
                a.pres[k] = G.both(a.pres[k], t ^ 1)
        self.throw(rem, KeyError())
        return self.merge(out)

    def m_set_copy(self, a):
        s = MSet()
        s.pres = dict(a.pres)
        return s

    def m_set_clear(self, a):
        for k in a.pres:
            a.pres[k] = self.G.both(a.pres[k], self.g ^ 1)

    def m_set_difference_update(self, a, v):
        for g, x in self.collect(v):
            saved, self.g = self.g, self.G.both(self.g, g)
            for h, k in self.flat(x):
                if k in a.pres:
                    a.pres[k] = self.G.both(a.pres[k], h ^ 1)
            self.g = saved

    def m_set_intersection_update(self, a, v):
        s = self.mkset(v)
        for k in a.pres:
            drop = self.G.both(self.g, s.pres.get(k, FALSE) ^ 1)
            a.pres[k] = self.G.both(a.pres[k], drop ^ 1)

    def _setop(op):
        def f(self, a, *vs):
            r = self.mkset(a)
            for v in vs:
                r = self.binop1(op, r, self.mkset(v))
            return r
        return f

    m_set_union, m_set_intersection = _setop(ast.BitOr()), _setop(ast.BitAnd())
    m_set_difference, m_set_symmetric_difference = _setop(ast.Sub()), _setop(ast.BitXor())

    def m_set_issubset(self, a, v):
        return self.bool(self.subset(ast.LtE(), a, self.mkset(v)))

    # dicts
    def m_dict_get(self, a, k, default=None):
        G, out = self.G, []
        for h, x in self.flat(k):
            p = a.pres.get(x, FALSE)
            if p != FALSE:
                out.append((G.both(h, p), a.vals[x]))
            out.append((G.both(h, p ^ 1), default))
        return self.merge([(g, v) for g, v in out if G.sat(g)])

    def m_dict_setdefault(self, a, k, default=None):
        G, out = self.G, []
        for h, x in self.flat(k):
            p = a.pres.get(x, FALSE)
            if p != FALSE and G.sat(G.both(h, p)):
                out.append((G.both(h, p), a.vals[x]))
            no = G.both(h, p ^ 1)
            if G.sat(no):
                self.dictset(a, x, default, no)
                out.append((no, default))
        return self.merge(out)

    def m_dict_keys(self, a):
        return MList(a.items())

    def m_dict_values(self, a):
        return MList([(g, a.vals[k]) for g, k in a.items()])

    def m_dict_items(self, a):
        return MList([(g, self.tuple([k, a.vals[k]])) for g, k in a.items()])

    def m_dict_copy(self, a):
        d = MDict(a.factory)
        d.pres, d.vals, d.events = dict(a.pres), dict(a.vals), [list(e) for e in a.events]
        return d

    def m_dict_update(self, a, v):
        for g, b in self.cases(v):
            if not isinstance(b, MDict):
                raise Unsupported("update")
            for h, k in b.items():
                e = self.G.both(g, h)
                if self.G.sat(e):
                    self.dictset(a, k, b.vals[k], e)

    def m_dict_clear(self, a):
        for k in a.pres:
            self.dictdel(a, k, self.g)

    def m_dict_pop(self, a, k, *default):
        G, out = self.G, []
        for h, x in self.flat(k):
            p = a.pres.get(x, FALSE)
            ok, no = G.both(h, p), G.both(h, p ^ 1)
            if p != FALSE and G.sat(ok):
                out.append((ok, a.vals[x]))
                self.dictdel(a, x, ok)
            if default:
                out.append((no, default[0]))
            else:
                self.throw(no, KeyError(x))
        return self.merge(out)

    # lists
    def m_list_append(self, a, x):
        a.cells.append([self.g, x])

    def m_list_extend(self, a, v):
        for g, x in self.collect(v):
            e = self.G.both(self.g, g)
            if self.G.sat(e):
                a.cells.append([e, x])

    def m_list_pop(self, a, i=-1):
        hit, miss = self.at(a, i)
        out = [(h, c[1]) for h, c in hit]
        for h, c in hit:
            c[0] = self.G.both(c[0], h ^ 1)
        self.compact(a)
        self.throw(miss, IndexError())
        return self.merge(out)

    def m_list_reverse(self, a):
        if self.g == TRUE:
            a.cells.reverse()
        else:
            g = self.g
            rev = [[self.G.both(c[0], g), c[1]] for c in reversed(a.cells)]
            for c in a.cells:
                c[0] = self.G.both(c[0], g ^ 1)
            a.cells += rev
            self.compact(a)

    def m_list_index(self, a, x):
        G, out, rem = self.G, [], self.g
        pos, _ = self.positions(a)
        for (g, v), p in zip(a.cells, pos):
            t = G.all([rem, g, self.eq(v, x)])
            if G.sat(t):
                out += [(G.both(t, h), n) for n, h in p.items()]
                rem = G.both(rem, t ^ 1)
        self.throw(rem, ValueError())
        return self.merge(out)

    def m_list_copy(self, a):
        return MList(a.items())

    def m_list_sort(self, a, key=None, reverse=False):
        if self.g != TRUE:
            new = self.sort(MList([(self.G.both(g, self.g), v) for g, v in a.items()]), key, reverse)
            for c in a.cells:
                c[0] = self.G.both(c[0], self.g ^ 1)
            a.cells += new.cells
            self.compact(a)
        else:
            a.cells = self.sort(a, key, reverse).cells

    def sort(self, L, keyf=None, reverse=False):
        rows = []
        saved = self.g
        for i, (g, v) in enumerate(L.items()):
            self.g = self.G.both(saved, g)
            if not self.G.sat(self.g):
                continue
            for h, a in (self.flat(v) if keyf is None else self.cases(v)):
                if keyf is None:
                    rows.append((a, i, h, a))
                else:
                    self.g = h
                    for e, k in self.flat(self.call(keyf, [a], {})):
                        rows.append((k, i, e, a))
        self.g = saved
        try:
            rows.sort(key=lambda r: r[0], reverse=reverse is True)
        except TypeError:
            raise Unsupported("sorting values that cannot be ordered")
        return MList([(h, a) for _, _, h, a in rows])

    # -- builtin functions -------------------------------------------------------------
    def length(self, v):
        out = []
        for g, a in self.cases(v):
            if isinstance(a, (MSet, MDict)):
                n = self.count(list(a.pres.values()))
            elif isinstance(a, MList):
                n = self.count([h for h, _ in a.cells])
            elif isinstance(a, MTuple):
                n = len(a.xs)
            elif isinstance(a, MInst):
                saved, self.g = self.g, g
                n = self.call1(self.getattr1(a, "__len__"), [], {})
                self.g = saved
            elif isinstance(a, HEAP):
                raise Unsupported("len")
            else:
                n = len(a)
            out.append((g, n))
        return self.merge(out)

    def b_next(self, v, *default):
        G = self.G
        out = []
        cs = self.cases(v)
        for g, it in cs:
            if isinstance(it, MInst):
                saved, self.g = self.g, g
                out.append((g, self.call1(self.getattr1(it, "__next__"), [], {})))
                self.g = saved
                continue
            if not isinstance(it, MIter):
                raise Unsupported("next of %s" % type(it).__name__)
            pos = it.pos.cases if isinstance(it.pos, VS) else [(TRUE, it.pos)]
            at = {}
            for h, p in pos:
                at[p] = G.either(at.get(p, FALSE), G.both(g, h))
            rem, moved = FALSE, []
            for i, (ig, x) in enumerate(it.list):
                rem = G.either(rem, at.pop(i, FALSE))
                if rem == FALSE:
                    continue
                t = G.both(rem, ig)
                if G.sat(t):
                    out.append((t, x))
                    moved.append((t, i + 1))
                    rem = G.both(rem, ig ^ 1)
            rem = G.any([rem] + list(at.values()))
            stay = G.any([t for t, _ in moved]) ^ 1
            it.pos = self.merge(moved + [(stay, it.pos)])
            if isinstance(it.pos, VS):
                it.pos.cases = [c for c in it.pos.cases if G.sat(c[0])]
                if len(it.pos.cases) == 1:
                    it.pos = it.pos.cases[0][1]
            if default:
                out.append((rem, default[0]))
            elif G.sat(rem):
                self.handlers[-1].append((rem, StopIteration()))
                self.g = G.both(self.g, rem ^ 1)
        if not G.sat(self.g):
            self.g = FALSE
        return self.merge([(h, x) for h, x in out if G.sat(h)])

    def b_iter(self, v):
        G = self.G
        cs = self.cases(v)
        if all(isinstance(a, MSet) for _, a in cs):
            return MIter(cs[0][1].items() if len(cs) == 1 else self.union(cs))
        out = []
        items = []
        for g, a in cs:
            if isinstance(a, (MIter, MGen)):
                if len(cs) > 1:
                    raise Unsupported("iter")
                return a
            saved, self.g = self.g, g
            if isinstance(a, MInst):
                if len(cs) > 1:
                    raise Unsupported("iter")
                return self.call1(self.getattr1(a, "__iter__"), [], {})
            xs = self.collect(a)
            self.g = saved
            items += xs if len(cs) == 1 else [(G.both(g, h), x) for h, x in xs]
        return MIter(items)

    def extreme(self, best, args, kw):
        keyf, default = kw.get("key"), kw.get("default", UNSET)
        items = [(TRUE, x) for x in args] if len(args) > 1 else self.collect(args[0])
        G = self.G
        rows = []
        saved = self.g
        for i, (g, v) in enumerate(items):
            self.g = G.both(saved, g)
            if not G.sat(self.g):
                continue
            for h, a in (self.flat(v) if keyf is None else self.cases(v)):
                if keyf is None:
                    rows.append((a, i, h, a))
                else:
                    self.g = h
                    for e, k in self.flat(self.call(keyf, [a], {})):
                        rows.append((k, i, e, a))
        self.g = saved
        try:
            rows.sort(key=lambda r: r[0], reverse=best == "max")      # stable: first of equals
        except TypeError:
            raise Unsupported("comparing values that cannot be ordered")
        rem, out = self.g, []
        for k, i, h, a in rows:
            t = G.both(rem, h)
            if G.sat(t):
                out.append((t, a))
                rem = G.both(rem, h ^ 1)
        if default is not UNSET:
            out.append((rem, default))
        else:
            self.throw(rem, ValueError("empty"))
        return self.merge(out)

    def b_zip(self, *vs):
        cols = [self.collect(v) for v in vs]
        if not all(g == TRUE or g == self.g for c in cols for g, _ in c):
            return self.zip_at(vs)
        return MList([(TRUE, self.tuple(list(xs))) for xs in zip(*[[x for _, x in c] for c in cols])])

    def zip_at(self, vs):
        """zip of lists whose lengths depend on the inputs: position by position."""
        G, cols = self.G, []
        for v in vs:
            L = self.mklist(v)
            pos, _ = self.positions(L)
            col = {}
            for (g, x), p in zip(L.items(), pos):
                for n, h in p.items():
                    e = G.both(G.both(g, h), self.g)
                    if G.sat(e):
                        col.setdefault(n, []).append((e, x))
            cols.append(col)
        out = []
        for n in range(max([0] + [1 + max(c, default=-1) for c in cols])):
            if not all(n in c for c in cols):
                break
            g = G.all([G.any([e for e, _ in c[n]]) for c in cols])
            if not G.sat(g):
                break
            out.append((g, self.tuple([self.merge(c[n]) for c in cols])))
        return MList(out)

    def b_enumerate(self, v, start=0):
        L = self.mklist(v)
        pos, _ = self.positions(L)
        return MList([(g, self.tuple([self.merge([(h, n + start) for n, h in p.items()]), x]))
                      for (g, x), p in zip(L.items(), pos)])

    def b_sum(self, v, start=0):
        total = start
        for g, x in self.collect(v):
            if g == TRUE or g == self.g:
                total = self.lift(operator.add, total, x)
            else:
                saved, self.g = self.g, self.G.both(self.g, g)
                if self.G.sat(self.g):
                    new = self.lift(operator.add, total, x)
                    e, self.g = self.g, saved
                    total = self.ite(e, new, total)
                self.g = saved
        return total

    def b_anyall(self, v, which):
        G = self.G
        gs = [(g, self.truth(x)) for g, x in self.collect(v)]
        if which == "any":
            return self.bool(G.any([G.both(g, t) for g, t in gs]))
        return self.bool(G.all([G.either(g ^ 1, t) for g, t in gs]))

    def b_isinstance(self, v, t):
        ts = list(t.xs) if isinstance(t, MTuple) else list(t) if isinstance(t, tuple) else [t]
        kinds = {MSet: set, MDict: dict, MList: list, MStr: str, MTuple: tuple}
        out = []
        for g, a in self.cases(v):
            if isinstance(a, MInst):
                r = any(a.cls.derives(x) for x in ts)
            else:
                k = kinds.get(type(a), type(a))
                r = any(isinstance(x, type) and issubclass(k, x) for x in ts)
            out.append((g, r))
        return self.merge(out)

    def b_dict(self, *args, **kw):
        d = MDict()
        if kw:
            raise Unsupported("dict keywords")
        if args:
            for g, a in self.cases(args[0]):
                saved, self.g = self.g, g
                if isinstance(a, MDict):
                    self.m_dict_update(d, a)
                else:
                    for h, x in self.collect(a):
                        e = self.G.both(g, h)
                        for p, kv in [(e, x)]:
                            self.g = p
                            k, v = self.getitem(kv, 0), self.getitem(kv, 1)
                            for q, kk in self.flat(k):
                                self.dictset(d, kk, v, q)
                self.g = saved
            if len(self.cases(args[0])) == 1 and isinstance(args[0], MDict) and d.events:
                d.pres, d.events = dict(args[0].pres), [list(e) for e in args[0].events]
        return d

    def b_fromkeys(self, seq, value=None):
        d = MDict()

        def body(k):
            for g, x in self.flat(k):
                self.dictset(d, x, value, g)
        self.iterate(seq, body)
        return d

    def b_map(self, f, *vs):
        if len(vs) == 1:
            out = []

            def body(x):
                v = self.call(f, [x], {})
                out.append((self.g, v))
            start = self.g
            self.iterate(vs[0], body)
            return MList([(TRUE if g == start else g, v) for g, v in out])
        z = self.b_zip(*vs)
        return MList([(g, self.call(f, list(x.xs if isinstance(x, MTuple) else x), {})) for g, x in z.items()])

    def b_filter(self, f, v):
        out = []
        for g, x in self.collect(v):
            saved, self.g = self.g, self.G.both(self.g, g)
            if self.G.sat(self.g):
                t = self.truth(x if f is None else self.call(f, [x], {}))
                e = self.G.both(g, t)
                out.append((e, x))
            self.g = saved
        return MList(out)

    # -- modules ----------------------------------------------------------------------
    def module(self, name):
        name = name.split(".")[-1]
        if name in self.modules:
            return self.modules[name]
        if name in NATIVE:
            from . import load
            m = load.module(name, False)
            env = self.modules[name] = dict(vars(m))
            return env
        path = os.path.join(REPO, "pads", name + ".py")
        with open(path) as f:
            tree = ast.parse(f.read())
        env = self.modules[name] = {"__name__": name}
        fr = Frame(None, None, env, TRUE)
        saved, self.g = self.g, TRUE
        self.block(tree.body, fr)
        if self.g != TRUE:
            raise Unsupported("module code of %s" % name)
        self.g = saved
        return env

    def define(self, source):
        """Functions given as source text (probes of the harness)."""
        env = {"__name__": "probe"}
        fr = Frame(None, None, env, TRUE)
        saved, self.g = self.g, TRUE
        self.block(ast.parse(source).body, fr)
        self.g = saved
        return env


class _Comp:
    """Stand-in function of a comprehension's frame."""
    node = None
    locals = type("All", (), {"__contains__": lambda self, n: True})()


COMP = _Comp()


def _hashable(f):
    try:
        hash(f)
        return True
    except TypeError:
        return False


def _set(I, v=None):
    return MSet() if v is None else I.mkset(v)


def _list(I, v=None):
    return MList() if v is None else I.mklist(v)


def _tuple(I, v=None):
    if v is None:
        return ()
    items = I.collect(v)
    if all(g == TRUE or g == I.g for g, _ in items):
        return I.tuple([x for _, x in items])
    L = MList(items)
    pos, total = I.positions(L)
    out = []
    for n, h in total.items():
        e = I.G.both(I.g, h)
        if I.G.sat(e):
            saved, I.g = I.g, e
            cells = [I.at(L, i)[0] for i in range(n)]
            I.g = saved
            out.append((e, I.tuple([I.merge([(x, c[1]) for x, c in hit]) for hit in cells])))
    return I.merge(out)


def _frozenset(I, v=None):
    return frozenset() if v is None else I.mkfrozen(v)


def _defaultdict(I, factory=None):
    return MDict(factory)


def _sorted(I, v, key=None, reverse=False):
    return I.sort(I.mklist(v), key, reverse)


def _reversed(I, v):
    return MList(I.collect(v)[::-1])


def _range(I, *a):
    cs = [I.cases(x) for x in a]
    if all(len(c) == 1 for c in cs):
        return range(*[c[0][1] for c in cs])
    return I.lift(range, *a)


def _boolf(I, v=False):
    return I.bool(I.truth(v))


def _type(I, v):
    kinds = {MSet: set, MDict: dict, MList: list, MStr: str, MTuple: tuple}
    return I.merge([(g, a.cls if isinstance(a, MInst) else kinds.get(type(a), type(a))) for g, a in I.cases(v)])


def _id(I, v):
    return I.merge([(g, id(a)) for g, a in I.cases(v)])


def _getattr(I, v, n, *d):
    return I.getattr(v, n)


def _str(I, *a):
    return "text"


BUILTINS = {
    dict.fromkeys: Interp.b_fromkeys,
    set: _set, list: _list, tuple: _tuple, frozenset: _frozenset, dict: Interp.b_dict, len: Interp.length,
    next: Interp.b_next, iter: Interp.b_iter, sorted: _sorted, reversed: _reversed, range: _range, bool: _boolf,
    min: lambda I, *a, **k: I.extreme("min", a, k), max: lambda I, *a, **k: I.extreme("max", a, k),
    zip: Interp.b_zip, enumerate: Interp.b_enumerate, sum: Interp.b_sum, map: Interp.b_map, filter: Interp.b_filter,
    any: lambda I, v: I.b_anyall(v, "any"), all: lambda I, v: I.b_anyall(v, "all"),
    isinstance: Interp.b_isinstance, collections.defaultdict: _defaultdict, type: _type, str: _str, repr: _str,
    getattr: _getattr, id: _id,
}
