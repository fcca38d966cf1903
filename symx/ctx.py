"""What a property harness sees: symbolic inputs, assumptions, checks.

One harness body serves three modes:
  sym     inputs are proxies, modules are the instrumented copies
  eager   inputs are forked to plain values as soon as they are made, modules are the originals
  replay  inputs are the plain values of a stored assignment, modules are the originals
"""
import traceback

import z3

from . import load, vals
from .core import FALSE, TRUE, Found, Infeasible, Stop, is_false, is_true, mk_and


MEMO = {}
TERMS = {}


class Violated(Exception):
    """Raised in replay mode when a check fails."""


class Ctx:
    def __init__(self, mode, cfg, engine=None, assignment=None):
        self.mode, self.cfg, self.engine = mode, cfg, engine
        self.assignment = assignment or {}
        self.inputs = {}            # name -> z3 term
        self.observed = []
        self.outcomes = set()
        self.failures = []          # replay mode
        self._fresh = 0
        self.nchecks = 0
        self.pending = []           # conditions not yet put to the solver
        self.proved = 0             # conditions the solver has decided on this path

    # -- modules -------------------------------------------------------------
    def mod(self, name):
        return load.module(name, self.mode == "sym")

    # -- inputs ----------------------------------------------------------------
    def bool(self, name):
        """Symbolic truth value."""
        if self.mode == "replay":
            self.inputs[name] = bool(self.assignment.get(name, False))
            return self.inputs[name]
        t = TERMS.get(name)
        if t is None:
            t = TERMS[name] = z3.Bool(name)
        self.inputs[name] = t
        if self.mode == "eager":
            return self.engine.branch(t)
        return vals.SymBool(t)

    def zbool(self, name):
        """z3 Boolean input (decided, in eager/replay mode)."""
        b = self.bool(name)
        return vals.zbool(b) if self.mode == "replay" else self.inputs[name]

    def memo(self, key, f, values=False):
        """f(), computed once per process and configuration (for formulas over the inputs only;
        values: f looks at input values that are plain in eager mode)."""
        if self.mode == "replay" or values and self.mode == "eager":
            return f()
        k = (self.cfg["name"], key)
        if k not in MEMO:
            MEMO[k] = f()
        return MEMO[k]

    def int(self, name, lo=None, hi=None, few=None):
        """Integer in a range; few: the values to try in eager mode, where the whole range is too much."""
        if self.mode == "replay":
            self.inputs[name] = self.assignment.get(name, lo if lo is not None else 0)
            return self.inputs[name]
        t = z3.Int(name)
        self.inputs[name] = t
        if self.mode == "eager":
            lo = -3 if lo is None else lo
            hi = lo + 6 if hi is None else hi
        if lo is not None:
            self.engine.assume(t >= lo)
        if hi is not None:
            self.engine.assume(t <= hi)
        if self.mode == "eager":
            if few:
                self.engine.assume(z3.Or([t == v for v in few]))
            return self.engine.concretize(t)
        return vals.SymInt(t)

    def bv(self, name, lo, hi):
        """Bounded integer backed by a bit-vector (for bit-twiddling code)."""
        if self.mode == "replay":
            self.inputs[name] = self.assignment.get(name, lo)
            return self.inputs[name]
        w = vals.BVInt.width(lo, hi)
        t = z3.BitVec(name, w)
        self.inputs[name] = t
        self.engine.assume(z3.And(t >= lo, t <= hi))
        if self.mode == "eager":
            return self.engine.concretize(t)
        return vals.BVInt(t, lo, hi)

    def real(self, name):
        """Real number (replayed as the nearest fraction)."""
        if self.mode == "replay":
            from fractions import Fraction
            self.inputs[name] = Fraction(self.assignment.get(name, 0))
            return self.inputs[name]
        t = self.inputs[name] = z3.Real(name)
        if self.mode == "eager":
            few = (1, -2, 3)
            self.engine.assume(z3.Or([t == z3.Q(v, 2) for v in few]))
            for v in few[:-1]:
                if self.engine.branch(t == z3.Q(v, 2)):
                    return v / 2
            return few[-1] / 2
        return vals.SymReal(t)

    def bits(self, name, width):
        """Bit vector used as a key (kept symbolic through hashing)."""
        if self.mode == "replay":
            self.inputs[name] = self.assignment.get(name, 0) % (1 << width)
            return self.inputs[name]
        t = self.inputs[name] = z3.BitVec(name, width)
        if self.mode == "eager":
            return self.engine.concretize(t) % (1 << width)
        return vals.BitVec(t)

    def val(self, name, ordered=True, dom=None):
        """Opaque value; dom bounds the number of distinct values in eager mode."""
        mk = (lambda v: v) if ordered else (lambda v: complex(v, 0))
        if self.mode == "replay":
            self.inputs[name] = self.assignment.get(name, 0)
            return mk(self.inputs[name])
        t = z3.Int(name)
        self.inputs[name] = t
        if self.mode == "eager":
            self.engine.assume(z3.And(t >= 0, t < (dom or 4)))
            return mk(self.engine.concretize(t))
        return (vals.Ordered if ordered else vals.SymVal)(t, name)

    def vals(self, prefix, n, ordered=True):
        return [self.val("%s%d" % (prefix, i), ordered, dom=max(n, 1)) for i in range(n)]

    def choice(self, name, options):
        """One of the options (forks)."""
        options = list(options)
        if len(options) == 1:
            return options[0]
        i = self.int(name, 0, len(options) - 1)
        return options[int(i)]

    def flag(self, name):
        """Truth value decided now (forks)."""
        return bool(self.bool(name))

    # -- terms ------------------------------------------------------------------
    @staticmethod
    def z(x):
        """z3 integer term of an input value."""
        if isinstance(x, vals.SymVal):
            return x.z
        if isinstance(x, complex):
            return z3.IntVal(int(x.real))
        return vals.zint(x)

    @staticmethod
    def zb(x):
        return vals.zbool(x)

    def wbool(self, name="w"):
        """Free witness Boolean (universally quantified in a check)."""
        self._fresh += 1
        return z3.Bool("!%s%d" % (name, self._fresh))

    def wint(self, name="w"):
        self._fresh += 1
        return z3.Int("!%s%d" % (name, self._fresh))

    # -- assumptions and checks ----------------------------------------------------
    def assume(self, cond):
        cond = vals.zbool(cond)
        if self.mode == "replay":
            if not is_true(z3.simplify(cond)):
                raise Infeasible()
            return
        self.engine.assume(cond)

    def check(self, label, cond, info=None):
        """The property: cond must hold for every value on this path."""
        self.nchecks += 1
        if isinstance(cond, (list, tuple)):
            cond = z3.And([vals.zbool(x) for x in cond]) if len(cond) else True
        cond = vals.zbool(cond)
        if self.mode == "replay":
            c = z3.simplify(cond)
            if is_true(c):
                return
            s = z3.Solver()
            s.add(z3.Not(c))
            if s.check() != z3.unsat:
                self.failures.append(label)
                raise Violated(label)
            return
        if is_true(cond):
            return
        if is_false(cond):
            raise Found(self.candidate(label, None, info))
        self.pending.append((label, cond))

    def flush(self):
        """Put the collected conditions to the solver."""
        if not self.pending:
            return
        todo, self.pending = self.pending, []
        self.engine.stats.vcs += len(todo)
        self.proved += len(todo)
        m = self.engine.prove(mk_and([x for _, x in todo]))
        if m is not None:
            for label, x in todo:
                if not is_true(m.eval(x, model_completion=True)):
                    break
            raise Found(self.candidate(label, m))

    def fail(self, label, info=None):
        self.check(label, False, info)

    def candidate(self, label, model=None, info=None):
        if model is None:
            model = self.engine.get_model()
        return dict(label=label, assignment=self.concrete_inputs(model), info=str(info) if info else None)

    def concrete_inputs(self, model):
        out = {}
        for k, t in self.inputs.items():
            v = model.eval(t, model_completion=True)
            if z3.is_bool(t):
                out[k] = is_true(v)
            elif z3.is_bv(t):
                out[k] = v.as_signed_long()
            elif z3.is_int(t):
                out[k] = v.as_long()
            else:
                out[k] = str(v)
        return out

    def attempt(self, f, *a, **k):
        """(result, None) or (None, exception) -- never swallows the engine's own exceptions."""
        try:
            return f(*a, **k), None
        except Stop:
            raise
        except Violated:
            raise
        except Exception as e:
            return None, e

    def outcome(self, tag):
        self.outcomes.add(tag)

    def observe(self, x):
        self.observed.append(x)
        return x

    def decided(self, z):
        return is_true(z3.simplify(z)) if self.mode == "replay" else self.engine.branch(z)

    # -- graphs --------------------------------------------------------------------
    def _graph(self, verts, adj, kind, order, value=None):
        """Graph object for the code under test from a table of Booleans."""
        if self.mode == "sym":
            return vals.SymGraph(verts, adj, kind, order, value)
        conv = {"set": set, "list": list, "tuple": tuple, "frozenset": frozenset}.get(kind)
        G = {}
        for v in verts:
            ws = order(v) if order else [w for w in verts if (v, w) in adj]
            nb = [w for w in ws if (v, w) in adj and self.decided(adj[v, w])]
            G[v] = {w: value(v, w) if value else None for w in nb} if kind == "dict" else conv(nb)
        return G

    @staticmethod
    def labels(n, style="int"):
        if style == "int":
            return list(range(n))
        if style == "str":
            return ["v%d" % i for i in range(n)]
        if style == "tuple":
            return [(i // 2, i % 2) for i in range(n)]
        if style == "mixed":            # hashable but not mutually orderable
            return [i if i % 2 else complex(i, 1) for i in range(n)]
        if style == "rev":
            return list(range(n))[::-1]
        raise ValueError(style)

    def order_fn(self, verts, how):
        verts = list(verts)
        if how in (None, "fwd"):
            return None
        if how == "rev":
            return lambda v: verts[::-1]
        if how == "rot":
            return lambda v: verts[verts.index(v):] + verts[:verts.index(v)]
        raise ValueError(how)

    def digraph(self, n, name="e", loops=False, labels="int", kind="set", order=None, pairs=None):
        """Symbolic directed graph -> (G, verts, E) with E(u, v) a z3 Boolean."""
        V = self.labels(n, labels)
        adj = {}
        for i, u in enumerate(V):
            for j, v in enumerate(V):
                if (i != j or loops) and (pairs is None or (i, j) in pairs):
                    adj[u, v] = self.zbool("%s_%d_%d" % (name, i, j))
        of = self.order_fn(V, order)
        order2 = (lambda v: [w for w in of(v) if (v, w) in adj]) if of else None
        G = self._graph(V, adj, kind, order2)
        return G, V, lambda u, v: adj.get((u, v), FALSE)

    def ugraph(self, n, name="e", labels="int", kind="set", order=None, fixed=None, free=None):
        """Symbolic undirected simple graph.  fixed: pairs (i<j) always present; free: pairs that are
        symbolic (default: all others)."""
        V = self.labels(n, labels)
        adj = {}
        fixed = set(fixed or ())
        for j in range(n):
            for i in range(j):
                if (i, j) in fixed:
                    b = TRUE
                elif free is None or (i, j) in free:
                    b = self.zbool("%s_%d_%d" % (name, i, j))
                else:
                    continue
                adj[V[i], V[j]] = adj[V[j], V[i]] = b
        of = self.order_fn(V, order)
        order2 = (lambda v: [w for w in of(v) if (v, w) in adj]) if of else None
        G = self._graph(V, adj, kind, order2)
        return G, V, lambda u, v: adj.get((u, v), FALSE)

    def bigraph(self, left, right, name="e", kind="set", free=None, fixed=()):
        """Symbolic bipartite graph as a mapping left vertex -> right neighbours (labels may repeat)."""
        adj = {}
        for i, u in enumerate(left):
            for j, w in enumerate(right):
                if (i, j) in fixed:
                    adj[u, w] = TRUE
                elif free is None or (i, j) in free:
                    adj[u, w] = self.zbool("%s_%d_%d" % (name, i, j))
        G = self._graph(left, adj, kind, lambda v: [w for w in right if (v, w) in adj])
        return G, lambda u, w: adj.get((u, w), FALSE)


def conc(model, x):
    """Plain Python value of a structure of symbolic values under a model."""
    ev = lambda t: model.eval(t, model_completion=True)
    if isinstance(x, vals.SymBool):
        return is_true(ev(x.z))
    if isinstance(x, vals.SymInt):
        return ev(x.z).as_long()
    if isinstance(x, vals.BVInt):
        return ev(x.z).as_signed_long()
    if isinstance(x, vals.SymReal):
        return str(ev(x.z))
    if isinstance(x, vals.BitVec):
        return ev(x.z).as_long()
    if isinstance(x, vals.Ordered):
        return ev(x.z).as_long()
    if isinstance(x, vals.SymVal):
        return complex(ev(x.z).as_long(), 0)
    if isinstance(x, load.SymChar):
        return chr(conc(model, x.z))
    if isinstance(x, load.SymStr):
        return "".join(conc(model, c) for c in x.chars)
    if isinstance(x, (list, tuple)):
        return [conc(model, y) for y in x]
    if isinstance(x, (set, frozenset)):
        return {_freeze(conc(model, y)) for y in x}
    if isinstance(x, dict):
        return {_freeze(conc(model, k)): conc(model, y) for k, y in x.items()}
    if isinstance(x, BaseException):
        return type(x).__name__
    if x is None or isinstance(x, (int, str, float, complex, bool)):
        return x
    return type(x).__name__


def _freeze(x):
    if isinstance(x, list):
        return tuple(_freeze(y) for y in x)
    if isinstance(x, set):
        return frozenset(_freeze(y) for y in x)
    if isinstance(x, dict):
        return frozenset((k, _freeze(v)) for k, v in x.items())
    return x


class _NoModel:
    @staticmethod
    def eval(t, model_completion=True):
        return z3.simplify(t)


def plain(x):
    return conc(_NoModel, x)
