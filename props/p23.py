"""Operations on automata."""
from props.common import *
from props.autom import *

CONTAINERS = True
BOUNDS = "deterministic automata with up to 3 states and nondeterministic ones with 2 states over 2 symbols, transitions and final " \
         "states free, against every word of up to 4 symbols (2 to 3 for products, nondeterministic automata and reversal); words with an unknown symbol; " \
         "thorough: 4 states, words of 5 symbols"
OUTSIDE = "larger automata and alphabets, longer words"
EXPECT = ["accepted", "unknown symbol", "alphabets"]


def C(op, **k):
    return dict(k, op=op, name=" ".join([op] + ["%s=%s" % x for x in sorted(k.items()) if x[0] != "tiers"]))


CONFIGS = [C("dfa", n=3, m=m) for m in range(5)] + [C("complement", n=3, m=m) for m in range(4)] \
    + [C(op, n=2, m=m) for op in ("union", "intersection", "difference") for m in range(4)] \
    + [C("nfa", n=2, m=m) for m in range(4)] + [C("nfa complement", n=2, m=2), C("dfa to nfa", n=2, m=2)] \
    + [C("nfa union", n=2, m=1), C("nfa intersection", n=2, m=1), C("reverse", n=2, m=2), C("reverse", n=2, m=3), C("renumber", n=2, m=2),
       C("nfa reverse", n=2, m=2), C("nfa renumber", n=2, m=2), C("alphabets", n=1, m=0)] \
    + [C("dfa", n=4, m=5, tiers=["thorough"]), C("complement", n=4, m=5, tiers=["thorough"])] \
    + [C(op, n=3, m=5, tiers=["thorough"]) for op in ("union", "intersection", "difference")] \
    + [C("reverse", n=3, m=3, tiers=["thorough"]), C("renumber", n=3, m=3, tiers=["thorough"]), C("nfa", n=3, m=3, tiers=["thorough"])]


def harness(c, cfg):
    m = c.mod("automata")
    op, n, L = cfg["op"], cfg["n"], cfg["m"]
    if op == "alphabets":
        c.outcome("alphabets")
        A, B = dfa(c, m, "a", 1, 2), dfa(c, m, "b", 1, 3)
        for f in ("union", "intersection", "symmetricDifference"):
            r, e = c.attempt(getattr(A, f), B)
            c.check("different alphabets refused", e is not None and type(e).__name__ == "LanguageError")
        return
    w = word(c, L, 2)
    if op.startswith("nfa"):
        A = nfa(c, m, "a", n, 2)
        op = op[4:] or "same"
    else:
        A = dfa(c, m, "a", n, 2)
        if op == "dfa to nfa":
            A = A.over(A.asNFA())
            op = "same"
        elif op == "dfa":
            op = "same"
    acc = A.accepts
    if op == "same":
        X, want = A, lambda v: acc(v)
    elif op == "complement":
        X, want = A.complement(), lambda v: Not(acc(v))
    elif op in ("union", "intersection", "difference"):
        B = nfa(c, m, "b", n, 2) if A.kind == "nfa" else dfa(c, m, "b", n, 2)
        X = {"union": A.union, "intersection": A.intersection, "difference": A.symmetricDifference}[op](B)
        f = {"union": Or, "intersection": And, "difference": lambda p, q: Not(Iff(p, q))}[op]
        want = lambda v: f(acc(v), B.accepts(v))
    elif op == "reverse":
        X, want = A.reverse(), lambda v: acc(v[::-1])
    else:
        X, want = A.renumber(5), lambda v: acc(v)
        st = [s for s in X.states()]
        c.check("numbered from the offset", sorted(st) == list(range(5, 5 + len(st))))
    r, e = c.attempt(X, list(w))
    known = And([And(c.z(x) >= 0, c.z(x) < 2) for x in w])
    if e is not None:
        if type(e).__name__ != "LanguageError":
            raise e
        c.outcome("unknown symbol")
        c.check("refused only if a symbol is unknown", Not(known))
        return
    c.outcome("accepted")
    c.check("unknown symbols refused", known)
    c.check("accepted exactly if in the language", Iff(truth(r), want([c.z(x) for x in w])))
