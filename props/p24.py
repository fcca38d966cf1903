"""Minimisation and language comparisons."""
from props.common import *
from props.autom import *

CONTAINERS = True
BOUNDS = "minimisation: every deterministic automaton with up to 3 states over 2 symbols, 2 states over 3 symbols and 4 states " \
         "over 1 symbol, and two families of 6 states over 2 symbols with one free transition and free final states, the distinguishing word being free; comparisons: every pair of automata with 2 and 2 states (and 3 and 1) " \
         "over 2 symbols, on all words of up to 3 symbols"
OUTSIDE = "larger automata"
EXPECT = ["minimised", "compared", "empty", "nonempty"]
# a 6-state automaton in which a part used for splitting is itself split; some entries are left free
SIX = {(0, 0): 2, (0, 1): 4, (1, 0): 1, (1, 1): 4, (2, 0): 3, (2, 1): 1, (3, 0): 3, (3, 1): 3, (4, 0): 2, (4, 1): 2, (5, 0): 2, (5, 1): 0}
CONFIGS = [dict(name="minimise n%d k%d" % (n, k), what="minimise", n=n, k=k) for n, k in ((1, 1), (2, 2), (2, 3), (3, 1), (4, 1), (3, 2))] \
    + [dict(name="minimise six %d" % i, what="minimise", n=6, k=2, fixed=[[s, x] for s, x in SIX if (s, x) not in free])
       for i, free in enumerate((((0, 1),), ((2, 1),)))] \
    + [dict(name="compare %s %d %d" % (op, a, b), what="compare", op=op, a=a, b=b) for op in
       ("==", "!=", "<=", ">=", "<", ">", "not") for a, b in ((2, 2),) if op != "not"] \
    + [dict(name="compare %s 3 1" % op, what="compare", op=op, a=3, b=1) for op in ("==", "<=", ">")] \
    + [dict(name="empty n%d" % n, what="compare", op="not", a=n, b=1) for n in (1, 2, 3)] \
    + [dict(name="minimise n4 k2", what="minimise", n=4, k=2, tiers=["thorough"])]


def harness(c, cfg):
    m = c.mod("automata")
    if cfg["what"] == "compare":
        return compare(c, cfg, m)
    n, k = cfg["n"], cfg["k"]
    D = dfa(c, m, "a", n, k)
    fixed = [tuple(x) for x in cfg.get("fixed", ())]
    for s, x in fixed:
        c.assume(z3.Int("a_%d_%d" % (s, x)) == SIX[s, x] if c.mode != "replay" else c.inputs["a_%d_%d" % (s, x)] == SIX[s, x])
    M = D.minimize()
    c.outcome("minimised")
    states = list(M.states())
    num = {s: i for i, s in enumerate(states)}
    al = range(k)
    step = {(i, x): num[M.transition(s, x)] for s, i in num.items() for x in al}
    fin = {i: c.zb(bool(M.isfinal(s))) for s, i in num.items()}
    c.check("size", len(M) == len(states))
    # no two states equivalent, all reachable
    cl = {i: is_true(fin[i]) for i in num.values()}
    for _ in states:
        cl = {i: (cl[i],) + tuple(cl[step[i, x]] for x in al) for i in cl}
    c.check("no two states equivalent", len(set(cl.values())) == len(states))
    # the same language, on every word long enough to tell the two apart; symbol k ends the word
    L = n + len(states) - 1
    ws = [c.z(c.int("w%d" % i, 0, k)) for i in range(L)]
    c.assume(And([Implies(ws[i] == k, ws[i + 1] == k) for i in range(L - 1)]))
    i0 = num[M.initial]
    zt = {(s, x): z3.IntVal(t) for (s, x), t in step.items()}
    A = D.accepts_word(ws)
    B = stopping(zt, fin, len(states), k, ws, i0)
    c.check("same language", Iff(A, B))


def compare(c, cfg, m):
    op, a, b = cfg["op"], cfg["a"], cfg["b"]
    A, B = dfa(c, m, "a", a, 2), dfa(c, m, "b", b, 2)
    P, Q = m.language(A), m.language(B)
    words = [w for n in range(a * b) for w in itertools.product(range(2), repeat=n)]
    acc = [(A.accepts([z3.IntVal(x) for x in w]), B.accepts([z3.IntVal(x) for x in w])) for w in words] if c.mode == "replay" else \
        c.memo("words", lambda: [(A.accepts([z3.IntVal(x) for x in w]), B.accepts([z3.IntVal(x) for x in w])) for w in words], values=True)
    le = And([Implies(p, q) for p, q in acc])
    ge = And([Implies(q, p) for p, q in acc])
    if op == "not":
        r = bool(P)
        words = [w for n in range(a) for w in itertools.product(range(2), repeat=n)]
        c.outcome("nonempty" if r else "empty")
        c.check("true exactly if some word is accepted", Iff(c.zb(r), Or([A.accepts([z3.IntVal(x) for x in w]) for w in words])))
        return
    r = {"==": lambda: P == Q, "!=": lambda: P != Q, "<=": lambda: P <= Q, ">=": lambda: P >= Q,
         "<": lambda: P < Q, ">": lambda: P > Q}[op]()
    want = {"==": lambda: And(le, ge), "!=": lambda: Not(And(le, ge)), "<=": lambda: le, ">=": lambda: ge,
            "<": lambda: And(le, Not(ge)), ">": lambda: And(ge, Not(le))}[op]()
    c.outcome("compared")
    c.check("comparison agrees with the accepted words", Iff(truth(r), want))
