"""2-satisfiability and symbolic negation."""
from props.common import *
from symx.ctx import Ctx
from symx.oracle import Not as ZNot

BOUNDS = "every implication graph over 2 variables (self-implications: at most 6 implications), every set of at most " \
         "3 implications over 3 variables (thorough: 5), every subset of 14 chosen ones, and of at most 3 over 4 variables, keys given for all (variables or " \
         "negations first), some, only positive or only negative literals; negation over arbitrary values"
OUTSIDE = "more variables or implications"
EXPECT = ["satisfiable", "unsatisfiable", "forced true", "forced false", "free"]

# 14 of the 30 implications between the literals of three variables (3, 4, 5 negate 0, 1, 2)
PART3 = [(0, 1), (0, 3), (1, 2), (1, 4), (1, 3), (2, 5), (2, 0), (3, 1), (3, 0), (4, 2), (4, 5), (5, 3), (5, 0), (5, 1)]

CONFIGS = [dict(name="1 variable", k=1, loops=True), dict(name="2 variables", k=2),
           dict(name="2 variables loops", k=2, loops=True, most=6),
           dict(name="2 variables, positive keys", k=2, keys="pos"),
           dict(name="1 variable, negations first", k=1, loops=True, order="neg"),
           dict(name="2 variables, negations first", k=2, order="neg"),
           dict(name="2 variables, negative keys", k=2, keys="neg"),
           dict(name="3 variables, negations first", k=3, most=3, order="neg"),
           dict(name="3 variables, part", k=3, free=PART3),
           dict(name="3 variables, part, negations first", k=3, free=PART3, order="neg"),
           dict(name="3 variables", k=3, most=3), dict(name="3 variables, positive keys", k=3, keys="pos", most=5),
           dict(name="3 variables, unorderable", k=3, most=3, labels="mixed", kind="set"),
           dict(name="4 variables", k=4, most=3, keys="some"),
           dict(name="3 variables, 4", k=3, most=4, tiers=["thorough"], merge_s=2400),
           dict(name="3 variables, 4, negations first", k=3, most=4, order="neg", tiers=["thorough"], merge_s=2400),
           dict(name="3 variables, 5", k=3, most=5, tiers=["thorough"], merge=0),
           dict(name="4 variables, 4", k=4, most=4, tiers=["thorough"]),
           dict(name="negation", op="not", merge=0)]


PROBES = """
from .two_satisfiability import Satisfiable, Forced

def solve(G):
    fact("sat", Satisfiable(G))
    F = Forced(G)
    if F is None:
        fact("none")
    else:
        for v in F:
            fact(("forced", v))
            fact(("true", v), F[v])
            fact("no truth value", not (F[v] is True or F[v] is False))
"""


def merged(m, cfg):
    if cfg.get("op") == "not":
        raise m.Unsupported("configuration")
    from symx import load
    N = load.module("_not", False).Not
    k = cfg["k"]
    names = Ctx.labels(k, "str" if cfg.get("labels") is None else "mixed")
    lits = names + [N(v) for v in names]
    kl = {"pos": list(range(k)), "neg": list(range(k, 2 * k)),
          "some": [i for i in range(2 * k) if i < min(2, k) or i == 2 * k - 1]}.get(cfg.get("keys"), list(range(2 * k)))
    if cfg.get("order") == "neg":
        kl = [i for i in kl if i >= k][::-1] + [i for i in kl if i < k]
    adj = {(i, j): m.bool("i_%d_%d" % (i, j)) for i in sorted(kl) for j in range(2 * k)
           if (i != j or cfg.get("loops")) and ("free" not in cfg or (i, j) in cfg["free"])}
    if "most" in cfg:
        m.assume(m.I.G.atmost([g for _, g in adj.values()], cfg["most"]))
    G = m.relation([lits[i] for i in kl], {lits[i]: [(lits[j], adj[i, j]) for j in range(2 * k) if (i, j) in adj] for i in kl},
                   cfg.get("kind", "list"))
    f = m.run(PROBES, "solve", [G])
    a = {}                                     # an assignment chosen by the solver
    for i in range(k):
        a[i] = m.witness("a%d" % i)
        a[k + i] = ZNot(a[i])
    good = And([Implies(And(adj[i, j][0], a[i]), a[j]) for i, j in adj])
    models = []
    for bits in itertools.product((False, True), repeat=k):
        tv = list(bits) + [not b for b in bits]
        models.append((bits, And([ZNot(adj[i, j][0]) for i, j in adj if tv[i] and not tv[j]])))
    some = Or([x for _, x in models])
    m.check("unsatisfiable: no assignment", Implies(good, f("sat")))
    m.check("satisfiability", Iff(f("sat"), some))
    m.check("no report exactly for unsatisfiable instances", Iff(f("none"), ZNot(f("sat"))))
    m.check("truth values", ZNot(f("no truth value")))
    m.check("forced keys are variables", ZNot(Or([f(*x) for x in m.facts if x[0] == "forced" and x[1] not in names])))
    for i, v in enumerate(names):
        m.check("forced value", Implies(And(good, f("forced", v)), Iff(a[i], f("true", v))))
        t = Or([x for b, x in models if b[i]])
        u = Or([x for b, x in models if not b[i]])
        m.check("forced exactly if the value is the same in all", Implies(some, Iff(f("forced", v), ZNot(And(t, u)))))
        m.cover("forced true", And(f("forced", v), f("true", v)))
        m.cover("forced false", And(f("forced", v), ZNot(f("true", v))))
        m.cover("free", And(f("sat"), ZNot(f("forced", v))))
    m.cover("satisfiable", f("sat"))
    m.cover("unsatisfiable", ZNot(f("sat")))


def harness(c, cfg):
    m = c.mod("two_satisfiability")
    Not = m.Not
    if cfg.get("op") == "not":
        N = c.mod("_not")
        x, y = c.val("x", ordered=False), c.val("y", ordered=False)
        a, b = N.Not(x), N.Not(y)
        eq = c.z(x) == c.z(y)
        c.check("Not(x)==Not(y) iff x==y", Iff(bool(a == b), eq))
        c.check("inequality agrees", Iff(bool(a != b), ZNot(eq)))
        c.check("equal negations hash equally", Or(ZNot(eq), hash(a) == hash(b)))
        c.check("Not(Not(x)) is x", N.Not(a) is x or bool(N.Not(a) == x))
        c.check("Not(Not(Not(x))) == Not(x)", bool(N.Not(N.Not(a)) == a))
        c.check("a value is not a negation", not bool(a == x) and not bool(x == a))
        c.check("negation is recognisable", isinstance(a, N.SymbolicNegation) and not isinstance(N.Not(a), N.SymbolicNegation))
        c.check("membership in sets follows equality", Iff(b in {a}, eq))
        for v in (1, "x", None, (1, 2), 0, -1, 3.5, frozenset([1])):
            c.check("concrete values", N.Not(N.Not(v)) == v and N.Not(v) == N.Not(v) and hash(N.Not(v)) == hash(N.Not(v)))
        _, exc = c.attempt(N.SymbolicNegation, a)
        c.check("direct double negation refused", isinstance(exc, N.DoubleNegationError))
        return
    k = cfg["k"]
    names = c.labels(k, "str" if cfg.get("labels") is None else "mixed")
    lits = names + [Not(v) for v in names]
    keys = {"pos": names, "neg": lits[k:], "some": names[:2] + [Not(names[-1])]}.get(cfg.get("keys"), lits)
    idx = {id(v): i for i, v in enumerate(lits)}
    adj = {}
    for i, u in enumerate(lits):
        if not any(u == x for x in keys):
            continue
        for j, v in enumerate(lits):
            if (i != j or cfg.get("loops")) and ("free" not in cfg or (i, j) in cfg["free"]):
                adj[i, j] = c.zbool("i_%d_%d" % (i, j))
    if "most" in cfg:
        c.assume(AtMost(list(adj.values()), cfg["most"]))
    kind = cfg.get("kind", "list")
    kl = [i for i, u in enumerate(lits) if any(u == x for x in keys)]
    if cfg.get("order") == "neg":
        kl = [i for i in kl if i >= k][::-1] + [i for i in kl if i < k]
    G = c._graph([lits[i] for i in kl], {(lits[i], lits[j]): adj[i, j] for i, j in adj}, kind,
                 lambda v: [lits[j] for j in range(2 * k) if (lits.index(v), j) in adj])
    sat = bool(m.Satisfiable(G))
    forced = m.Forced(G)
    c.observe((sat, None if forced is None else len(forced)))
    c.outcome("satisfiable" if sat else "unsatisfiable")

    def models():
        out = []
        for bits in itertools.product((False, True), repeat=k):
            tv = list(bits) + [not b for b in bits]
            out.append((bits, And([ZNot(adj[i, j]) for i, j in adj if tv[i] and not tv[j]])))
        return out
    ms = c.memo("models", models)
    somesat = Or([f for _, f in ms])
    c.check("satisfiability", Iff(sat, somesat))
    c.check("no report exactly for unsatisfiable instances", Iff(forced is None, ZNot(somesat)))
    if forced is None:
        return
    for v in forced:
        c.check("forced keys are variables, values truth values", any(v == x for x in names) and forced[v] in (True, False))
    for i, v in enumerate(names):
        t = Or([f for b, f in ms if b[i]])
        f = Or([f for b, f in ms if not b[i]])
        if v in forced:
            c.outcome("forced true" if forced[v] else "forced false")
            c.check("forced value", And(ZNot(f), t) if forced[v] else And(ZNot(t), f))
        else:
            c.outcome("free")
            c.check("unforced variable can take both values", And(t, f))
