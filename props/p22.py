"""Regular expressions."""
from props.common import *

CONTAINERS = True
BOUNDS = "every expression text of up to 4 characters (thorough 5), and listed longer shapes of up to 11 characters, whose letters are free, against " \
         "every word of up to 3 (listed shapes: 4) symbols, the letters of expression and word being free; back " \
         "conversion: every nondeterministic automaton with 2 states over 2 symbols, and over the special characters with 1 state, compared on all " \
         "words of up to 3 symbols"
OUTSIDE = "longer expressions and words; letters that are not plain characters; expressions with an operator where a letter is " \
          "expected, which the parser reads as letters; automata with an empty language (no expression denotes it)"
EXPECT = ["accepts", "rejected", "refused symbol", "written"]
SHAPES = ["(x*x)*", "(x*x*)*x", "(x+x)*x", "x(x+())*x", "(xx+x)*", "x*(x+xx)*", "((x))*x", "(x(x)*)*", "x\\x*x", "(x+xx*)x*",
          "(()+x)x", "x**x", "((x+x)(x+x))*", "(x*+x)*xx", "x+x+x", "(xx)*+x*", "()*x", "(x+())(x+())"]


def shapes(n):
    """texts of length n over letter, parentheses, star, plus and escaped letter"""
    out = []
    for w in itertools.product("x()*+\\", repeat=n):
        t = "".join(w)
        out.append(t)
    return out


def well(t):
    """tree of a well-formed expression, or None; a dangling escape or unbalanced group gives 'bad', other oddities None"""
    depth, i, odd, bad = 0, 0, False, False
    prev = "start"
    while i < len(t):
        ch = t[i]
        if ch == "\\":
            if i + 1 == len(t):
                bad = True
                break
            prev, i = "atom", i + 2
            continue
        if ch == "(":
            depth += 1
            prev = "open"
        elif ch == ")":
            depth -= 1
            if depth < 0:
                bad = True
                break
            odd |= prev == "plus"
            prev = "atom"
        elif ch == "*":
            odd |= prev in ("start", "open", "plus")
            prev = "atom"
        elif ch == "+":
            odd |= prev in ("start", "open", "plus")
            prev = "plus"
        else:
            prev = "atom"
        i += 1
    if depth > 0:
        bad = True
    odd |= prev == "plus"
    return "odd" if odd else "bad" if bad else "good"


CONFIGS = [dict(name="texts %d" % n, n=n, m=3, what="texts") for n in range(5)] \
    + [dict(name="texts 5", n=5, m=3, what="texts", tiers=["thorough"])] \
    + [dict(name="shape %s" % s, shape=s, m=4, what="shape") for s in SHAPES] \
    + [dict(name="back 1", k=1, al="ab", what="back"), dict(name="back special 1", k=1, al="*+", what="back"),
       dict(name="back special 2", k=1, al="()\\", what="back"),
       dict(name="back 2", k=2, al="ab", what="back")]


def tree(t, letters):
    """independent reading of a well-formed text: nested tuples"""
    pos = [0]

    def alt():
        parts = [cat()]
        while pos[0] < len(t) and t[pos[0]] == "+":
            pos[0] += 1
            parts.append(cat())
        return ("alt", parts)

    def cat():
        parts = []
        while pos[0] < len(t) and t[pos[0]] not in "+)":
            parts.append(star())
        return ("cat", parts)

    def star():
        if t[pos[0]] == "(":
            pos[0] += 1
            r = alt()
            pos[0] += 1
        else:
            if t[pos[0]] == "\\":
                pos[0] += 1
            r = ("letter", letters[pos[0]])
            pos[0] += 1
        while pos[0] < len(t) and t[pos[0]] == "*":
            pos[0] += 1
            r = ("star", r)
        return r
    return alt()


def match(c, e, w):
    """e matches w[i:j], as formulas"""
    n, memo = len(w), {}

    def M(e, i, j):
        k = (id(e), i, j)
        if k not in memo:
            memo[k] = f(e, i, j)
        return memo[k]

    def f(e, i, j):
        kind, x = e
        if kind == "letter":
            return x == w[i] if j == i + 1 else F
        if kind == "alt":
            return Or([M(y, i, j) for y in x])
        if kind == "star":
            return T if i == j else Or([And(M(x, i, k), M(e, k, j)) for k in range(i + 1, j + 1)])
        at = {i: T}
        for y in x:
            at = {q: Or([And(z, M(y, p, q)) for p, z in at.items() if p <= q]) for q in range(i, j + 1)}
        return at.get(j, F)
    return M(e, 0, n)


def harness(c, cfg):
    m = c.mod("automata")
    if cfg["what"] == "back":
        return back(c, cfg, m)
    if cfg["what"] == "shape":
        shape = cfg["shape"]
    else:
        ts = [t for t in shapes(cfg["n"]) if well(t) != "odd"]
        shape = c.choice("text", ts)
    kind = well(shape)
    text, letters, seen = [], {}, []
    i = 0
    while i < len(shape):
        ch = shape[i]
        esc = ch == "\\" and i + 1 < len(shape)
        if esc:
            text.append(ch)
            i += 1
            ch = shape[i]
        if ch == "x" or esc and ch != "x":
            if ch == "x":
                x = c.int("l%d" % i, 97, 122, few=(97, 98, 99))
            else:
                x = ord(ch)
            letters[i] = c.z(x)
            text.append(sym(c, x))
            seen.append(c.z(x))
        else:
            text.append(ch)
        i += 1
    R, e = c.attempt(m.RegExp, join(c, text))
    if kind == "bad":
        c.outcome("rejected")
        c.check("rejected", e is not None and type(e).__name__ in ("LanguageError", "RegExpError"))
        return
    if e is not None:
        raise e
    n = c.choice("length", range(cfg["m"] + 1))
    ws = [c.int("w%d" % i, 97, 122, few=(97, 98, 99)) for i in range(n)]
    r, e = c.attempt(R, join(c, [sym(c, x) for x in ws]) if c.mode != "sym" else [sym(c, x) for x in ws])
    known = And([Or([c.z(x) == l for l in seen]) for x in ws])
    if e is not None:
        if type(e).__name__ != "LanguageError":
            raise e
        c.outcome("refused symbol")
        c.check("refused only if a symbol is unknown", Not(known))
        return
    c.outcome("accepts")
    c.check("unknown symbols refused", known)
    c.check("accepted exactly if matched", Iff(c.zb(r), match(c, tree(shape, letters), [c.z(x) for x in ws])))


def sym(c, x):
    if c.mode != "sym" or isinstance(x, int):
        return chr(x)
    from symx.load import SymChar
    return SymChar(x)


def join(c, text):
    if all(isinstance(t, str) for t in text):
        return "".join(text)
    from symx.load import SymStr
    return SymStr(text)


def back(c, cfg, m):
    """automaton -> expression -> automaton, on all words up to a length"""
    k, al = cfg["k"], cfg["al"]
    tt = {(s, x): [t for t in range(k) if c.flag("t_%d_%d_%d" % (s, i, t))] for s in range(k) for i, x in enumerate(al)}
    fin = [s for s in range(k) if c.flag("f%d" % s)]
    N = m.LookupNFA(set(al), [0], tt, fin)
    text = N.RegExp()
    if text is None:
        c.assume(F)
        return
    R = m.RegExp(str(text))
    c.outcome("written")
    n = 3
    ws = [c.int("w%d" % i, 0, len(al)) for i in range(n)]      # len(al): no more symbols
    zs = [c.z(w) for w in ws]
    c.assume(And([Implies(zs[i] == len(al), zs[i + 1] == len(al)) for i in range(n - 1)]))
    A = accept(zs, al, [0], lambda s, x: tt[s, x], lambda s: s in fin, range(k))
    st = list(R.states())
    B = accept(zs, al, list(R.initial), lambda s, x: list(R.transition(s, x)) if x in R.alphabet else [], R.isfinal, st)
    c.check("same language", Iff(A, B))
    c.check("no other letters", all(x in al for x in R.alphabet))


def accept(zs, al, initial, step, final, states):
    at = {s: (T if s in initial else F) for s in states}
    acc = Or([at[s] for s in states if final(s)])
    for z in zs:
        nxt = {s: [] for s in states}
        for s in states:
            for i, x in enumerate(al):
                for t in step(s, x):
                    nxt[t].append(And(at[s], z == i))
        at = {s: Or(v) for s, v in nxt.items()}
        acc = z3.If(z == len(al), acc, Or([at[s] for s in states if final(s)]))
    return acc
