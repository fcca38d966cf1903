"""Lyndon words."""
from props.common import *

BOUNDS = "every sequence of up to 6 comparable values with ties (factorisation, smallest suffix and rotation, Lyndon test); alphabets " \
         "of 1-4 letters with length limits 1-6 (at most 256 words): every word over the alphabet is a free variable of the " \
         "completeness query; thorough: 7 values, limits up to 8"
OUTSIDE = "longer sequences, larger alphabets; empty sequences and length limit 0"
EXPECT = ["lyndon", "not lyndon", "generated", "de bruijn"]
CONFIGS = [dict(name="factor %d %s" % (n, k), n=n, kind=k) for n in range(1, 7) for k in ("list", "tuple") if n < 6 or k == "list"] \
    + [dict(name="factor 7", n=7, kind="tuple", tiers=["thorough"])] \
    + [dict(name="words %d %d" % (s, n), s=s, k=n) for s in (1, 2, 3, 4) for n in range(1, 7) if s ** n <= 256] \
    + [dict(name="words %d %d" % (s, n), s=s, k=n, tiers=["thorough"]) for s, n in ((2, 7), (2, 8), (3, 6), (4, 5), (5, 3), (6, 3))]


def lexlt(c, a, b):
    """a < b lexicographically (sequences of values)"""
    r = F if len(a) >= len(b) else T
    r = T if len(a) < len(b) else F
    for x, y in reversed(list(zip(a, b))):
        r = Or(c.z(x) < c.z(y), And(c.z(x) == c.z(y), r))
    return r


def lexeq(c, a, b):
    return And([len(a) == len(b)] + [c.z(x) == c.z(y) for x, y in zip(a, b)])


def lyndon(c, w):
    return And([lexlt(c, w, w[i:]) for i in range(1, len(w))])


def harness(c, cfg):
    m = c.mod("lyndon")
    if "s" in cfg:
        return words(c, cfg, m)
    n = cfg["n"]
    s = [c.val("x%d" % i) for i in range(n)]
    if cfg["kind"] == "tuple":
        s = tuple(s)
    f = [list(w) for w in m.ChenFoxLyndon(s)]
    c.check("the factors make up the sequence", lexeq(c, sum(f, []), s))
    for w in f:
        c.check("each factor is a Lyndon word", And(len(w) > 0, lyndon(c, w)))
    for a, b in zip(f, f[1:]):
        c.check("nonincreasing", Not(lexlt(c, a, b)))
    ends = list(m.ChenFoxLyndonBreakpoints(s))
    c.check("breakpoints", ends == list(itertools.accumulate(len(w) for w in f)))
    small = list(m.SmallestSuffix(s))
    c.check("a suffix", And(0 < len(small) <= n, lexeq(c, small, s[n - len(small):])))
    c.check("no suffix is smaller", And([Not(lexlt(c, s[i:], small)) for i in range(n)]))
    rot = list(m.SmallestRotation(s))
    c.check("a rotation", And(len(rot) == n, Or([lexeq(c, rot, list(s[i:]) + list(s[:i])) for i in range(n)])))
    c.check("no rotation is smaller", And([Not(lexlt(c, list(s[i:]) + list(s[:i]), rot)) for i in range(n)]))
    t = bool(m.isLyndonWord(s))
    c.outcome("lyndon" if t else "not lyndon")
    c.check("Lyndon test", Iff(t, lyndon(c, s)))


def words(c, cfg, m):
    s, n = cfg["s"], cfg["k"]
    out = [tuple(w) for w in itertools.islice(m.LengthLimitedLyndonWords(s, n), s ** (n + 1) + 5)]
    c.outcome("generated")
    c.check("in lexicographic order without repeats", all(a < b for a, b in zip(out, out[1:])))
    exact = [tuple(w) for w in itertools.islice(m.LyndonWordsWithLength(s, n), s ** n + 5)]
    c.check("exact length: in order without repeats", all(a < b for a, b in zip(exact, exact[1:])))
    c.check("exact length: length", all(len(w) == n for w in exact))
    everything = []
    for w in m.LyndonWords(s):
        if len(w) > n or len(everything) > s ** (n + 1) + 5:
            break
        everything.append(tuple(w))
        if s == 1 and len(everything) == 2:         # the empty word and one letter; no further words exist
            break
    c.check("all words: by length, then in order",
            all((len(a), a) < (len(b), b) for a, b in zip(everything, everything[1:])))
    c.check("count", m.CountLyndonWords(s, n) == len(exact))
    # a free word over the alphabet is generated exactly when it is a Lyndon word
    x = [c.int("x%d" % i, 0, s - 1) for i in range(n)]
    for k in range(1, n + 1):
        w = x[:k]
        isl = c.memo(("lyndon", k), lambda: lyndon(c, w), values=True)
        among = lambda L: Or([And([c.z(a) == b for a, b in zip(w, v)]) for v in L if len(v) == k])
        c.check("generated exactly if a Lyndon word", Iff(among(out), isl))
        if s > 1 or k == 1:
            c.check("listed among all words exactly if a Lyndon word", Iff(among(everything), isl))
    c.check("exact length: generated exactly if a Lyndon word", Iff(among(exact), isl))
    d = list(m.DeBruijnSequence(s, n))
    c.outcome("de bruijn")
    c.check("de Bruijn length", len(d) == s ** n)
    at = [And([c.z(a) == d[(p + i) % len(d)] for i, a in enumerate(x)]) for p in range(len(d))]
    c.check("every word occurs in the de Bruijn sequence", Or(at))
    c.check("and only once", And([Not(And(a, b)) for a, b in pairs(at)]) if len(at) <= 40 else AtMost(at, 1))
