"""Path-exploring symbolic execution of ordinary Python code over z3.

The code under test runs natively; symbolic values are proxy objects (vals.py)
whose truth value is asked of the engine.  `branch` follows the current model
and records the decision; when a path is finished the deepest decision whose
other side is satisfiable is flipped and the harness runs again, until z3 has
refuted every remaining side.
"""
import signal
import time

import z3

z3.set_param("model.completion", True)
z3.z3core.Elementaries.Check = lambda self, ctx: None     # no error polling after every API call

TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)
_T, _F = TRUE.ast.value, FALSE.ast.value


def is_true(x):
    """z3 terms are hash-consed, so identity of the literal is pointer equality."""
    return x.ast.value == _T


def is_false(x):
    return x.ast.value == _F


_ctx = z3.main_ctx()
_NEG = {}


def mk_not(x):
    """Negation, cached (terms live as long as the process)."""
    e = _NEG.get(x.ast.value)
    if e is None:
        if len(_NEG) > 200000:
            _NEG.clear()
        e = _NEG[x.ast.value] = (x, z3.BoolRef(z3.Z3_mk_not(_ctx.ref(), x.ast), _ctx))
    return e[1]


def mk_and(xs):
    n = len(xs)
    return z3.BoolRef(z3.Z3_mk_and(_ctx.ref(), n, (z3.Ast * n)(*[x.ast for x in xs])), _ctx)


def mk_or(xs):
    n = len(xs)
    return z3.BoolRef(z3.Z3_mk_or(_ctx.ref(), n, (z3.Ast * n)(*[x.ast for x in xs])), _ctx)


class Stop(BaseException):
    """Base of the exceptions the engine uses to leave a path."""


class Infeasible(Stop):
    """The assumptions made on this path cannot be met."""


class Diverged(Stop):
    """A re-execution did not repeat its recorded prefix."""


class PathLimit(Stop):
    """A path exceeded its time or decision budget."""


class Found(Stop):
    """A verification condition is violated on this path."""


class Inconclusive(Stop):
    """z3 answered unknown."""


class Node:
    __slots__ = ("cond", "val", "kind", "aux", "open", "orig", "neg")

    def __init__(self, cond, val, kind, aux, open_, orig=None, neg=False):
        self.cond, self.val, self.kind, self.aux, self.open = cond, val, kind, aux, open_
        self.orig, self.neg = orig, neg


class Stats:
    FIELDS = ("paths", "infeasible", "decisions", "feas_queries", "vcs", "vc_queries",
              "solver_s", "validated", "diverged", "maxdepth", "unknown",
              "open_sampled", "open_pinned", "open_free", "open_inputs", "novc")

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)

    def asdict(self):
        return {f: getattr(self, f) for f in self.FIELDS}


class Engine:
    """One exploration of a harness, from a forced prefix, until done or out of slice."""

    def __init__(self, run, prefix=(), slice_s=3.0, path_s=20.0, max_decisions=20000,
                 vc_timeout_ms=240000, on_path=None):
        self.run = run                      # callable(engine): one execution of the harness
        self.slice_s, self.path_s = slice_s, path_s
        self.max_decisions = max_decisions
        self.solver = z3.Solver()
        self.vc_timeout_ms = vc_timeout_ms
        self.solver.set("timeout", vc_timeout_ms)
        self.nodes = []
        self.forced = list(prefix)          # [(kind, val, aux)]
        self.model = None
        self.stats = Stats()
        self.on_path = on_path
        self.pos = 0
        self.cache = {}

    def _assert(self, cond):
        """push; add(cond)"""
        c, s = _ctx.ref(), self.solver.solver
        z3.Z3_solver_push(c, s)
        z3.Z3_solver_assert(c, s, cond.ast)

    # -- solver access -----------------------------------------------------
    def _check(self):
        t = time.perf_counter()
        r = self.solver.check()
        self.stats.solver_s += time.perf_counter() - t
        return r

    def get_model(self):
        if self.model is None:
            self.stats.feas_queries += 1
            r = self._check()
            if r == z3.unsat:
                raise Infeasible()
            if r != z3.sat:
                raise Inconclusive("path feasibility")
            self.model = self.solver.model()
        return self.model

    def eval(self, term):
        return self.get_model().eval(term, model_completion=True)

    # -- decisions ---------------------------------------------------------
    def _forget(self):
        """The model may no longer satisfy the path condition."""
        self.model = None

    def _push(self, cond, val, kind, aux, open_, orig=None, neg=False):
        self.nodes.append(Node(cond, val, kind, aux, open_, orig, neg))
        self._assert(cond if val else mk_not(cond))
        self.pos += 1
        self.stats.decisions += 1
        if self.pos > self.max_decisions:
            raise PathLimit("more than %d decisions" % self.max_decisions)

    def _decide(self, cond, kind="b", aux=None, orig=None, neg=False):
        """Decide a condition not yet known on this path (orig: the same before simplification, negated if neg).

        Simplification may give another process a different form, so a prefix handed on records the
        truth value and the structural hash of the condition as the code stated it."""
        if orig is None:
            orig = cond
        pos = self.pos
        if pos < len(self.nodes):
            n = self.nodes[pos]
            if n.kind != kind or n.cond.ast.value != cond.ast.value:
                raise Diverged("decision %d: %s / %s" % (pos, n.cond, cond))
            self.pos += 1
            return n.val
        if pos < len(self.forced):
            k, val, _, h = self.forced[pos]
            if k != kind or kind == "b" and h != orig.hash():
                raise Diverged("forced decision %d" % pos)
            val = True if kind == "a" else val != neg
            if self.model is not None and is_true(self.eval(cond)) != val:
                self._forget()
            self._push(cond, val, kind, aux, False, orig, neg)
            if self.pos == len(self.forced):
                self.get_model()
            return val
        if kind == "a":
            if self.model is not None and not is_true(self.eval(cond)):
                self._forget()
            self._push(cond, True, "a", None, False)
            self.get_model()
            return True
        val = is_true(self.eval(cond))
        self._push(cond, val, kind, aux, True, orig, neg)
        return val

    def branch(self, cond):
        """Truth value of a z3 Bool on the current path (forks)."""
        key = cond.ast.value
        hit = self.cache.get(key)
        if hit is not None:
            return hit[1]
        orig = cond
        if cond.num_args():
            cond = z3.simplify(cond)
            if is_true(cond):
                return True
            if is_false(cond):
                return False
            neg = False
            while z3.is_not(cond):
                cond = cond.arg(0)
                neg = not neg
            key2 = cond.ast.value
            hit = self.cache.get(key2)
            if hit is not None:
                val = hit[1]
            else:
                val = self._decide(cond, orig=orig, neg=neg)
                self.cache[key2] = (cond, val)
            val = val != neg
            self.cache[key] = (orig, val)
            return val
        if is_true(cond):
            return True
        if is_false(cond):
            return False
        val = self._decide(cond)
        self.cache[key] = (cond, val)
        return val

    def concretize(self, term):
        """Concrete Python value of an Int/BV term on the current path (forks over its values)."""
        term = z3.simplify(term)
        bv = z3.is_bv(term)
        lit = (lambda t: t.as_signed_long()) if bv else (lambda t: t.as_long())
        isval = z3.is_bv_value if bv else z3.is_int_value
        if isval(term):
            return lit(term)
        hit = self.cache.get(("v", term.ast.value))
        if hit is not None:
            return hit[1]
        while True:
            if self.pos < len(self.nodes):
                v = self.nodes[self.pos].aux
            elif self.pos < len(self.forced):
                v = self.forced[self.pos][2]
            else:
                v = lit(self.eval(term))
            if v is None:
                raise Diverged("concretisation expected")
            const = z3.BitVecVal(v, term.size()) if bv else z3.IntVal(v)
            if self._decide(term == const, "c", v):
                self.cache[("v", term.ast.value)] = (term, v)
                return v

    def assume(self, cond):
        cond = z3.simplify(cond) if cond.num_args() else cond
        if is_true(cond):
            return
        if is_false(cond):
            raise Infeasible()
        self._decide(cond, "a")

    def upper(self, term, hi):
        """A bound 2**k - 1 on a nonnegative bit-vector term, valid on the current path."""
        hit = self.cache.get(("u", term.ast.value))
        if hit is not None:
            return hit[1]
        k = 1
        while (1 << k) - 1 < hi:
            self._assert(term > (1 << k) - 1)
            self.stats.feas_queries += 1
            r = self._check()
            self.solver.pop()
            if r == z3.unsat:
                hi = (1 << k) - 1
                break
            k += 1
        self.cache[("u", term.ast.value)] = (term, hi)
        return hi

    def fresh_part(self):
        """True when this point of the path has not been visited by an earlier path."""
        return self.pos >= len(self.nodes) and self.pos >= self.prefix_len

    def prove(self, cond):
        """None if cond holds for all values on this path, else a countermodel.

        A conjunction that is not settled soon is taken apart and its halves are decided one by one.
        """
        parts = cond.children() if z3.is_expr(cond) and z3.is_and(cond) else []
        self.stats.vc_queries += 1
        self._assert(mk_not(cond))
        try:
            if len(parts) > 1:
                self.solver.set("timeout", min(self.vc_timeout_ms, 30000))
            r = self._check()
            if r == z3.unsat:
                return None
            if r == z3.sat:
                return self.solver.model()
        finally:
            self.solver.set("timeout", self.vc_timeout_ms)
            self.solver.pop()
        if len(parts) > 1:
            h = len(parts) // 2
            for half in (parts[:h], parts[h:]):
                m = self.prove(half[0] if len(half) == 1 else z3.And(half))
                if m is not None:
                    return m
            return None
        self.stats.unknown += 1
        raise Inconclusive("verification condition")

    def measure_open(self, terms, values):
        """Record how many of the inputs can still take another value on the finished path."""
        free = 0
        for t, v in zip(terms, values):
            self._assert(mk_not(t == v))
            if self.solver.check() == z3.sat:
                free += 1
            self.solver.pop()
        st = self.stats
        st.open_sampled += 1
        st.open_pinned += not free
        st.open_free += free
        st.open_inputs += len(terms)

    # -- exploration -------------------------------------------------------
    def explore(self):
        """Explore until done or the slice is used up.

        Returns (status, prefixes): status "done" or "split"; prefixes are the
        forced prefixes of the subtrees left unexplored.
        """
        end = time.monotonic() + self.slice_s
        first = True
        while True:
            self.pos = 0
            self.cache = {}
            self.prefix_len = len(self.forced) if first else len(self.nodes)
            first = False
            err = None
            signal.setitimer(signal.ITIMER_REAL, self.path_s, 1.0)
            try:
                self.run(self)
            except Infeasible:
                self.stats.infeasible += 1
                err = "inf"
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
            # a shorter re-execution than its prefix is a divergence too
            if err is None and self.pos < max(len(self.nodes), self.prefix_len):
                raise Diverged("path ended early")
            if err is None:
                self.stats.paths += 1
                self.stats.maxdepth = max(self.stats.maxdepth, self.pos)
                if self.on_path:
                    self.on_path(self)
            if not self._backtrack():
                return "done", []
            if time.monotonic() > end:
                return "split", self._open_prefixes()

    def _backtrack(self):
        while self.nodes:
            n = self.nodes.pop()
            self.solver.pop()
            if n.open:
                self._assert(mk_not(n.cond) if n.val else n.cond)
                self.stats.feas_queries += 1
                r = self._check()
                if r == z3.sat:
                    self.model = self.solver.model()
                    self.nodes.append(Node(n.cond, not n.val, n.kind, n.aux, False, n.orig, n.neg))
                    return True
                if r != z3.unsat:
                    raise Inconclusive("path feasibility")
                self.solver.pop()
        return False

    def _open_prefixes(self):
        """Prefixes covering exactly the unexplored part (the stack holds a flipped top)."""
        hashed = [n.orig.hash() if n.kind == "b" else 0 for n in self.nodes]
        items = [(n.kind, n.val != n.neg, n.aux, h) for n, h in zip(self.nodes, hashed)]
        out = [items]
        for i, n in enumerate(self.nodes):
            if n.open:
                out.append(items[:i] + [(n.kind, n.val == n.neg, n.aux, hashed[i])])
        return out


def _alarm(signum, frame):
    raise PathLimit("path time limit")


def install_alarm():
    signal.signal(signal.SIGALRM, _alarm)
