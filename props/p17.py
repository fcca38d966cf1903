"""Media."""
from props.common import *

BOUNDS = "every nonempty isometric family of vectors of 1-4 bits (also spread over longer vectors) for states, tokens and actions; " \
         "routing, embedding and the explicit and graph-labelled copies for every isometric family of 3-bit vectors and of ten " \
         "chosen 4-bit vectors (thorough: of all 4-bit vectors)"
OUTSIDE = "longer vectors; families that are not isometric (not media)"
EXPECT = ["single state", "several states", "unused token"]

THOROUGH_S = 3000
# ten of the sixteen 4-bit vectors
TEN = [0, 1, 2, 3, 4, 5, 6, 7, 12, 14]


def _configs():
    out = [dict(name="%d bits" % b, op="bits", bits=b, veclen=b) for b in (1, 2, 3, 4)]
    out.append(dict(name="3 bits, 2 unused", op="bits", bits=3, veclen=5))
    out.append(dict(name="4 bits, spread", op="bits", bits=4, veclen=11, at=[10, 2, 7, 3]))
    for op in ("direct", "explicit", "labelled"):
        for b in (1, 2, 3):
            out.append(dict(name="%s %d bits" % (op, b), op=op, bits=b, veclen=b))
        out.append(dict(name=op + " 3 bits, spread", op=op, bits=3, veclen=9, at=[7, 0, 4]))
        out.append(dict(name=op + " 4 bits, ten vectors", op=op, bits=4, veclen=4, within=TEN))
        out.append(dict(name=op + " 4 bits", op=op, bits=4, veclen=4, tiers=["thorough"], merge_s=2000))
    return out


CONFIGS = _configs()


PROBES = """
from .medium import BitvectorMedium, StateTransitionGraph, RoutingTable, ExplicitMedium, LabeledGraphMedium
from .medium import HypercubeEmbedding

def ham(x, y):
    return bin(x ^ y).count("1")

def bits(S, L):
    M = BitvectorMedium(S, L)
    for x in M:
        fact(("state", x))
    for x in M.states():
        fact(("listed", x))
    fact(("count", len(M)))
    for t in M.tokens():
        fact(("token", t))
        fact(("reverse", t, M.reverse(t)))
        for x in M:
            y = M.action(x, t)
            fact(("act", x, t, y))
            fact("call differs", M(x, t) != y)
            fact("table differs", M[x][t] != y)
    G = StateTransitionGraph(M)
    for x in G:
        fact(("vertex", x))
        for y in G[x]:
            fact(("edge", x, y))
            fact("wrong label", M(x, G[x][y]) != y)

def routes(name, M):
    R = RoutingTable(M)
    for x, y in R:
        fact((name, "route", x, y))
        fact((name, "not closer"), ham(M(x, R[x, y]), y) != ham(x, y) - 1)
    H = HypercubeEmbedding(M)
    for x in H:
        fact((name, "embedded", x))
        for y in H:
            fact((name, "not isometric"), ham(H[x], H[y]) != ham(x, y))

def same(name, Y, M):
    for x in Y:
        fact((name, "state", x))
        for t in Y.tokens():
            fact((name, "acts differently"), Y(x, t) != M(x, t))
            fact((name, "reversed differently"), Y.reverse(t) != M.reverse(t))
            if name == "explicit" or Y(x, t) != x:
                fact((name, "table differs"), Y[x][t] != M[x][t])
    fact((name, "count", len(Y)))
    for t in Y.tokens():
        fact((name, "token", t))

def explicit(S, L):
    M = BitvectorMedium(S, L)
    X = ExplicitMedium(M)
    same("explicit", X, M)
    routes("explicit", X)

def labelled(S, L):
    M = BitvectorMedium(S, L)
    Y = LabeledGraphMedium(StateTransitionGraph(M))
    same("labelled", Y, M)
    routes("labelled", Y)

def direct(S, L):
    routes("direct", BitvectorMedium(S, L))
"""


def merged(m, cfg):
    b, L = cfg["bits"], cfg["veclen"]
    N = 1 << b
    at = cfg.get("at", list(range(b)))
    move = lambda x: sum(1 << p for i, p in enumerate(at) if x >> i & 1)
    idx = [i for i in range(N) if i in cfg.get("within", range(N))]
    vals = [move(x) for x in idx]
    m.fixed = {"s%d" % i: False for i in range(N) if i not in idx}
    S, mem = m.subset(["s%d" % i for i in idx], vals, kind="list")
    inn = {x: mem(x) for x in vals}
    dist = lambda x, y: bin(x ^ y).count("1")
    m.assume(m.guard(Or(list(inn.values()))))
    for x in vals:
        for y in vals:
            if x != y:
                m.assume(m.guard(Implies(And(inn[x], inn[y]), Or([inn.get(x ^ 1 << p, F) for p in at if (x ^ y) >> p & 1]))))
    toks = [(i, v) for i in range(L) for v in (False, True)]
    m.cover("single state", Exactly(list(inn.values()), 1))
    m.cover("several states", AtLeast(list(inn.values()), 2))
    used = {t: Or([And(inn[x], inn[y]) for x in vals for y in vals if y == x ^ 1 << t[0]]) for t in toks}
    m.cover("unused token", Not(And(list(used.values()))))
    if cfg["op"] != "bits":
        return copies(m, cfg["op"], S, L, vals, inn, toks, used)
    f = m.run(PROBES, "bits", [S, L])
    m.check("one token per bit and value", And([f("token", t) for t in toks] +
                                               [Not(f(*k)) for k in m.facts if k[0] == "token" and k[1] not in toks]))
    m.check("reversal is an involution on the tokens", And([f("reverse", (i, v), (i, not v)) for i, v in toks] +
            [Not(f(*k)) for k in m.facts if k[0] == "reverse" and (k[1][0], not k[1][1]) != k[2]]))
    for k in ("call differs", "table differs", "wrong label"):
        m.check("table, call and labels agree with the action", Not(f(k)))
    m.check("only states listed", Not(Or([f(*k) for k in m.facts if k[0] in ("state", "listed", "vertex") and k[1] not in inn])))
    for k in range(len(vals) + 1):
        m.check("number of states", Iff(f("count", k), Exactly(list(inn.values()), k)))
    for x in vals:
        m.check("states", And(Iff(f("state", x), inn[x]), Iff(f("listed", x), inn[x]), Iff(f("vertex", x), inn[x])))
        for i, v in toks:
            y = x | 1 << i if v else x & ~(1 << i)
            ok = inn[y] if y in inn else F
            m.check("action", And([Iff(f("act", x, (i, v), z), And(inn[x], ok if z == y != x else z == x and Or(y == x, Not(ok))))
                                   for z in {x, y}] + [Not(f(*k)) for k in m.facts if k[0] == "act" and k[1] == x and
                                                       k[2] == (i, v) and k[3] not in (x, y)]))
        for y in vals:
            m.check("transition graph joins states at distance one",
                    Iff(f("edge", x, y), And(inn[x], inn[y], dist(x, y) == 1)))


def copies(m, name, S, L, vals, inn, toks, used):
    f = m.run(PROBES, name, [S, L])
    for k in ("not closer", "not isometric", "acts differently", "reversed differently", "table differs"):
        m.check("%s: %s" % (name, k), Not(f(name, k)))
    for x in vals:
        m.check(name + ": embedding covers the states", Iff(f(name, "embedded", x), inn[x]))
        for y in vals:
            if x != y:
                m.check(name + ": routing table covers all pairs", Iff(f(name, "route", x, y), And(inn[x], inn[y])))
        if name != "direct":
            m.check(name + ": same states", Iff(f(name, "state", x), inn[x]))
    if name != "direct":
        for k in range(len(vals) + 1):
            m.check(name + ": number of states", Iff(f(name, "count", k), Exactly(list(inn.values()), k)))
        for t in toks:
            m.check(name + ": tokens", f(name, "token", t) if name == "explicit" else Iff(f(name, "token", t), used[t]))


def harness(c, cfg):
    b = cfg["bits"]
    N = 1 << b
    inn = [c.zbool("s%d" % i) for i in range(N)]
    c.assume(Or(inn))
    c.assume(c.memo("iso", lambda: And(
        [Implies(And(inn[x], inn[y]), Or([inn[x ^ (1 << i)] for i in range(b) if (x ^ y) >> i & 1]))
         for x in range(N) for y in range(N) if x != y])))
    if "within" in cfg:
        c.assume(And([Not(inn[x]) for x in range(N) if x not in cfg["within"]]))
    S = [x for x in range(N) if c.decided(inn[x])]
    m = c.mod("medium")
    if "at" in cfg:                   # the bits at other positions, so that sets and dicts order the states differently
        move = lambda x: sum(1 << p for i, p in enumerate(cfg["at"]) if x >> i & 1)
        inn = {move(x): inn[x] for x in range(N)}
        S = sorted(move(x) for x in S)
    else:
        inn = dict(enumerate(inn))
    M = m.BitvectorMedium(S, cfg["veclen"])
    c.outcome("single state" if len(S) == 1 else "several states")
    toks = list(M.tokens())
    ham = lambda x, y: bin(x ^ y).count("1")
    listed = list(M)
    c.check("states", And([Iff(inn[x], x in listed) for x in inn] + [len(M) == len(S) and sorted(M.states()) == S]))
    c.check("one token per bit and value", len(toks) == len(set(toks)) == 2 * cfg["veclen"])
    used = set()
    for t in toks:
        r = M.reverse(t)
        c.check("reversal is an involution on the tokens", r in toks and M.reverse(r) == t and r != t)
        for x in S:
            y = M.action(x, t)
            c.check("acting stays inside and is the call", And(inn.get(y, F), M(x, t) == y))
            if y != x:
                used.add(t)
                c.check("effective action is undone by the reverse", M(y, r) == x)
                c.check("effective action flips one bit", ham(x, y) == 1)
            c.check("table of actions", M[x][t] == y)
    if len(used) < len(toks):
        c.outcome("unused token")
    for x in S:
        for i in cfg.get("at", range(b)):
            y = x ^ (1 << i)
            c.check("neighbours are one action away", Iff(inn[y], any(M(x, t) == y for t in toks)))
    G = m.StateTransitionGraph(M)
    c.observe({x: set(G[x]) for x in G})
    c.check("transition graph joins states at distance one",
            set(G) == set(S) and all(set(G[x]) == {y for y in S if ham(x, y) == 1} for x in S))
    c.check("transition graph is labelled by the tokens", all(M(x, G[x][y]) == y for x in G for y in G[x]))
    R = m.RoutingTable(M)
    c.check("routing table covers all pairs", set(R) == {(x, y) for x in S for y in S if x != y})
    for x, y in R:
        z = M(x, R[x, y])
        c.check("routing brings a state strictly closer", ham(z, y) == ham(x, y) - 1)
    X = m.ExplicitMedium(M)
    L = m.LabeledGraphMedium(G)
    for Y, ts in ((X, toks), (L, sorted(used))):
        c.check("copy has the same states", sorted(Y) == S and len(Y) == len(S))
        c.check("copy has the same (used) tokens", sorted(Y.tokens()) == sorted(ts))
        for t in ts:
            c.check("copy reverses identically", Y.reverse(t) == M.reverse(t))
            c.check("copy acts identically", all(Y(x, t) == M(x, t) and Y[x][t] == M[x][t] for x in S))
    for Y in (M, X, L):
        H = m.HypercubeEmbedding(Y)
        c.check("embedding covers the states", set(H) == set(S))
        c.check("embedding is isometric", all(ham(H[x], H[y]) == ham(x, y) for x in S for y in S))
        RR = m.RoutingTable(Y)
        c.check("routing in copies", set(RR) == set(R) and all(ham(Y(x, RR[x, y]), y) == ham(x, y) - 1 for x, y in RR))
