"""Deciding a configuration with one merged run.

A property module may define PROBES (source text of functions) and merged(m, cfg).  A probe calls pads and
reports what it observes with fact(key) or fact(key, truth).  The probe and the pads functions it calls run once
in the merging interpreter, which gives every fact as a Boolean function of the inputs; m.check puts the
negation of a formula over inputs and facts to z3.  The same probe also runs natively on sample inputs, and a
fact that differs there makes the run worthless (Mismatch): the configuration is then explored path by path."""
import ast
import random
import time

import z3

from . import load
from .ctx import Ctx
from .guards import FALSE, TRUE, TooBig
from .merge import BUILTINS, VS, Interp, MDict, MList, MSet, Unsupported


class Mismatch(Exception):
    pass


class Countermodel(Exception):
    pass


class Merged:
    Unsupported = Unsupported

    def __init__(self, cfg, seed=1):
        self.cfg = cfg
        self.I = Interp(cfg.get("merge_s", 240))
        self.I.G.limit_nodes = cfg.get("merge_nodes", 4500000)
        self.names, self.bits, self.coded = [], {}, {}
        self.given = TRUE
        self.facts, self.claims, self.outcomes = {}, 0, set()
        self.seed = seed
        self.compared = 0
        self.samples = []
        self.thrown = []
        self.pending = None                  # claims of one kind not yet put to the solver
        self.fixed = {}                      # inputs given plain values in this run

    # -- inputs --------------------------------------------------------------
    def bool(self, name):
        """A free input: (z3 Bool, guard)."""
        t = z3.Bool(name)
        g = self.I.G.input(t)
        self.names.append(name)
        self.bits[name] = (t, g)
        return t, g

    def graph(self, directed=False, name="e", n=None, most=True, labels=None, pairs=None):
        """The graph of an ordinary configuration: (makers of the argument, vertices, edge formula)."""
        cfg = self.cfg
        n = cfg["n"] if n is None else n
        V = Ctx.labels(n, labels or cfg.get("labels", "int"))
        idx = {v: i for i, v in enumerate(V)}
        fixed = {tuple(sorted(e)) for e in cfg.get("fixed", ())}
        free = None if cfg.get("free") is None else {tuple(sorted(e)) for e in cfg["free"]}
        E = {}
        for j in range(n):
            for i in range(n) if directed else range(j):
                if directed:
                    if (i != j or cfg.get("loops")) and (pairs is None or (j, i) in pairs):
                        E[V[j], V[i]] = self.bool("%s_%d_%d" % (name, j, i))
                elif (i, j) in fixed:
                    E[V[i], V[j]] = E[V[j], V[i]] = (z3.BoolVal(True), TRUE)
                elif free is None or (i, j) in free:
                    E[V[i], V[j]] = E[V[j], V[i]] = self.bool("%s_%d_%d" % (name, i, j))
        G = self.I.G
        gs = [E[p][1] for p in E if directed and p[0] != p[1] or not directed and idx[p[0]] < idx[p[1]]]
        if directed and "maxedges" in cfg:
            gs = [E[p][1] for p in E]
        top = cfg.get("most", cfg.get("maxedges"))
        if most and top is not None:
            self.assume(G.atmost(gs, top))
        if most and cfg.get("least"):
            self.assume(G.atmost([g ^ 1 for g in gs], len(gs) - cfg["least"]))
        no = z3.BoolVal(False)
        of = Ctx.order_fn(None, V, cfg.get("order"))
        order = {u: [v for v in (of(u) if of else V) if (u, v) in E] for u in V}
        arg = self.relation(V, {u: [(v, E[u, v]) for v in order[u]] for u in V}, cfg.get("kind", "set"))
        return arg, V, lambda u, v: E[u, v][0] if (u, v) in E else no

    def relation(self, keys, order, kind="set"):
        """A mapping from keys to collections: order[u] lists (value, (z3 Bool, guard)); returns its makers."""
        def nbrs(row, u):
            if row is not None:
                ws = [v for v, (t, g) in order[u] if z3.is_true(t) or row.get(str(t))]
                return set(ws) if kind == "set" else list(ws) if kind == "list" else {w: None for w in ws}
            if kind == "list":
                return MList([(g, v) for v, (t, g) in order[u]])
            s = MSet() if kind == "set" else MDict()
            for v, (t, g) in order[u]:
                s.pres[v] = g
                if kind == "dict":
                    s.vals[v] = None
                    s.events.append([v, g])
            return s

        def merged():
            G = MDict()
            for u in keys:
                G.pres[u] = TRUE
                G.vals[u] = nbrs(None, u)
                G.events.append([u, TRUE])
            return G
        if kind not in ("set", "list", "dict"):
            raise Unsupported("collection type " + kind)
        return merged, lambda row: {u: nbrs(row, u) for u in keys}

    def choice(self, name, options):
        """One of the options: (makers of the value, formula for each index)."""
        options, G = list(options), self.I.G
        if len(options) == 1:
            return (lambda: options[0], lambda row: options[0]), lambda i: z3.BoolVal(True)
        k = (len(options) - 1).bit_length()
        bits = [self.bool("%s!%d" % (name, i)) for i in range(k)]
        self.coded[name] = ["%s!%d" % (name, i) for i in range(k)]
        at = [G.all([bits[b][1] ^ (not i >> b & 1) for b in range(k)]) for i in range(len(options))]
        self.assume(G.any(at))
        term = lambda i: z3.And([bits[b][0] if i >> b & 1 else z3.Not(bits[b][0]) for b in range(k)])
        number = lambda row: sum(row[n] << b for b, n in enumerate(self.coded[name]))
        return (lambda: VS(list(zip(at, options))), lambda row: options[number(row)]), term

    def subset(self, names, values, kind="set"):
        """An arbitrary subset of values: (makers of the set, formula of membership)."""
        bits = {v: self.bool(n) for n, v in zip(names, values)}

        def merged():
            if kind == "list":
                return MList([(g, v) for v, (t, g) in bits.items()])
            s = MSet()
            for v, (t, g) in bits.items():
                s.pres[v] = g
            return s

        def native(row):
            return (set if kind == "set" else list)(v for v, (t, g) in bits.items() if row[str(t)])
        return (merged, native), lambda v: bits[v][0]

    def guard(self, formula):
        """The guard of a propositional formula over the inputs."""
        G, memo = self.I.G, {}

        def go(t):
            k = t.get_id()
            if k not in memo:
                kind = t.decl().kind()
                xs = [go(x) for x in t.children()]
                if kind == z3.Z3_OP_TRUE:
                    r = TRUE
                elif kind == z3.Z3_OP_FALSE:
                    r = FALSE
                elif kind == z3.Z3_OP_AND:
                    r = G.all(xs)
                elif kind == z3.Z3_OP_OR:
                    r = G.any(xs)
                elif kind == z3.Z3_OP_NOT:
                    r = xs[0] ^ 1
                elif kind == z3.Z3_OP_EQ:
                    r = G.iff(*xs)
                elif kind == z3.Z3_OP_IMPLIES:
                    r = G.either(xs[0] ^ 1, xs[1])
                elif kind == z3.Z3_OP_UNINTERPRETED and str(t) in self.bits:
                    r = self.bits[str(t)][1]
                else:
                    raise Unsupported("formula with %s" % t.decl())
                memo[k] = r
            return memo[k]
        return go(formula) if z3.is_expr(formula) else TRUE if formula else FALSE

    def assume(self, guard):
        self.given = self.I.G.both(self.given, guard)

    # -- runs ------------------------------------------------------------------
    def run(self, probes, name, args, count=None, canon=None):
        """Run a probe on args (plain values or (merged, native) makers); returns the facts as formulas.

        canon, if given, maps facts that stand for the same thing in different orders to one."""
        I = self.I
        G = I.G
        facts = {}

        def fact(I, k, v=True):
            t = I.truth(v)
            for g, x in I.flat(k):
                facts[x] = G.either(facts.get(x, FALSE), G.both(g, t))
        I.g = self.given
        I.handlers = [[]]
        env = I.define(probes)
        I.g = self.given
        env["fact"] = Native(fact)
        BUILTINS[env["fact"]] = fact
        args = [tuple(a) if isinstance(a, list) else a for a in args]
        make = [a[0]() if isinstance(a, tuple) and len(a) == 2 and callable(a[0]) else a for a in args]
        I.call(env[name], make, {})
        end = I.g
        thrown = [(g, e) for g, e in I.handlers[0]]
        self.thrown.extend(thrown)
        if G.any([end] + [g for g, _ in thrown]) != self.given:
            raise Mismatch("%s: some inputs were lost on the way" % name)
        self._compare(probes, name, args, facts, thrown, count or self.cfg.get("compare", 60), canon)
        self.facts.update(facts)
        return lambda *k: self._term(facts.get(k if len(k) != 1 else k[0], FALSE))

    def _term(self, lit):
        return self.I.G.term(lit)

    def _compare(self, probes, name, args, facts, thrown, count, canon):
        rnd = random.Random(self.seed)
        G, seen = self.I.G, set()
        if self.given == FALSE:
            return
        for k in range(count * 3):
            if self.compared >= count * 50 or count <= 0:
                break
            p = (.15, .3, .5, .7, .85, .07)[k % 6]
            row = {n: rnd.random() < p for n in self.names}
            vec = G.repair(self.given, [row[str(t)] for t in G.terms])
            row = {str(t): b for t, b in zip(G.terms, vec)}
            if tuple(vec) in seen:
                continue
            seen.add(tuple(vec))
            count -= 1
            got, exc = native_facts(probes, name, args, row)
            want = {k for k, g in facts.items() if G.at(g, vec)}
            bad = [e for g, e in thrown if G.at(g, vec)]
            if bool(bad) != (exc is not None):
                raise Mismatch("%s on %s: exception %r / %r" % (name, row, exc, bad))
            if canon:
                got, want = set(map(canon, got)), set(map(canon, want))
            if exc is None and got != want:
                raise Mismatch("%s on %s: facts differ: %s" % (name, row, sorted(map(str, got ^ want))[:4]))
            self.compared += 1
            if not self.samples:
                self.samples.append(dict(config=self.cfg.get("name"), probe=name, inputs=dict(list(row.items())[:40]),
                                         observed=repr(sorted(map(str, got)))[:300]))

    # -- decisions ---------------------------------------------------------------
    def _ask(self, formula):
        G = self.I.G
        given = self._term(self.given)
        t = time.perf_counter()
        S = z3.SolverFor("QF_FD")
        S.set("timeout", int(self.cfg.get("vc_s", 300) * 1000))
        S.add(given, formula)
        S.add(G.cone([given, formula]))
        G.queries += 1
        r = S.check()
        G.solver_s += time.perf_counter() - t
        if r == z3.unknown:
            raise TooBig("z3 gave no answer")
        self.model = S.model() if r == z3.sat else None
        return r == z3.sat

    def check(self, label, formula):
        """The formula holds for every input."""
        self.claims += 1
        if not z3.is_expr(formula):
            formula = z3.BoolVal(bool(formula))
        if self.pending and (self.pending[0] != label or len(self.pending[1]) >= self.cfg.get("batch", 4)):
            self.flush()
        if not self.pending:
            self.pending = (label, [])
        self.pending[1].append(formula)

    def flush(self):
        """Put the collected claims of one kind to the solver."""
        if not self.pending:
            return
        (label, fs), self.pending = self.pending, None
        if self._ask(z3.Not(z3.And(fs))):
            m = self.model
            row = {n: z3.is_true(m.eval(self.bits[n][0], model_completion=True)) for n in self.names}
            for n, bs in self.coded.items():
                row[n] = sum(row.pop(b) << i for i, b in enumerate(bs))
            raise Countermodel(label, dict(row, **self.fixed))

    def witness(self, name):
        """A Boolean the solver may choose against the property."""
        return z3.Bool("w!" + name)

    def finish(self):
        """No exception escaped from a probe."""
        done, self.thrown = self.thrown, []
        for g, e in done:
            self.check("exception %s: %s" % (type(e).__name__, e), z3.Not(self._term(g)))
        self.flush()

    def cover(self, label, formula):
        """Some input makes the formula true (guard against vacuity)."""
        if not z3.is_expr(formula):
            formula = z3.BoolVal(bool(formula))
        if self._ask(formula):
            self.outcomes.add(label)


class Native:
    """Handle of a function provided by the driver."""

    def __init__(self, f):
        self.f = f


def native_facts(probes, name, args, row):
    """The facts a probe reports on plain values with the unmodified modules."""
    got = set()

    def fact(k, v=True):
        if v:
            got.add(k)
    env = {"fact": fact, "__name__": "probe"}
    tree = ast.parse(probes)
    for node in [x for x in tree.body if isinstance(x, ast.ImportFrom) and x.level]:
        tree.body.remove(node)
        for a in node.names:
            env[a.asname or a.name] = getattr(load.module(node.module, False), a.name)
    exec(compile(tree, "<probe>", "exec"), env)
    real = [a[1](row) if isinstance(a, tuple) and len(a) == 2 and callable(a[0]) else a for a in args]
    try:
        env[name](*real)
    except Exception as e:
        return got, e
    return got, None


def work(prop, cfg, seed):
    """Decide one configuration; the result has the form run.work gives."""
    t0 = time.monotonic()
    m = Merged(cfg, seed)
    status, cand, err = "done", None, None
    try:
        prop.merged(m, cfg)
        m.finish()
    except Countermodel as e:
        label, row = e.args
        status, cand = "found", dict(label=label, assignment=cfg_assignment(prop, cfg, row))
    except (Unsupported, TooBig, Mismatch, RecursionError, MemoryError, KeyError, AttributeError, TypeError,
            ValueError, IndexError, NotImplementedError, SyntaxError, OSError) as e:
        status, err = "fallback", "%s: %s" % (type(e).__name__, str(e)[:300])
    G = m.I.G
    if status == "done" and not m.claims:
        status, err = "fallback", "nothing was claimed"
    info = dict(inputs=len(m.names), guards=len(G.var), branches=m.I.branches, claims=m.claims, queries=G.queries,
                solver_s=round(G.solver_s, 3), compared=m.compared, wall=round(time.monotonic() - t0, 2))
    stats = {}
    if status != "fallback":
        stats = dict(vcs=m.claims, vc_queries=G.queries, solver_s=G.solver_s, validated=m.compared,
                     merged_inputs=len(m.names), merged_guards=len(G.var),
                     merged_branches=m.I.branches)
    return dict(status=status, rest=[], cand=cand, stats=stats, err=err,
                outcomes=sorted(m.outcomes) if status == "done" else [], samples=m.samples if status == "done" else [],
                funcs=sorted(m.I.functions) if status == "done" else [], merged=info)


def cfg_assignment(prop, cfg, row):
    f = getattr(prop, "merged_inputs", None)
    return f(cfg, row) if f else row
