"""Paragraph wrapping."""
from props.common import *

BOUNDS = "texts of up to 5 breakable pieces (plain, hyphenated and sentence-ending words), each piece of any width 0-3, spaces of any " \
         "width 0-1 (the wider one no narrower), any target 0-7; both settings of the last-line and spacing options (two of the four combinations for " \
         "the two texts with most hyphens, one for the text of five words); default and " \
         "zero penalties, one-word penalty 0 for optimality; thorough: 6 pieces, all combinations"
OUTSIDE = "longer texts, wider words"
EXPECT = ["one line", "several lines", "empty"]

TEXTS = {"": [], "w": ["one"], "2": ["one", "two."], "3": ["one", "two", "three"], "h": ["aa-bb", "cc"], "s": ["one.", "Two", "A."],
         "m": ["x", "yy-zz-q", "end."], "hs": ["a-", "-b", "c"], "4": ["one", "two.", "three", "four"],
         "5": ["one", "two", "three.", "B.", "five"], "6": ["a", "b", "c.", "d-e", "f"]}


def _cfgs():
    out = []
    for t in TEXTS:
        for last in (False, True):
            for french in (False, True):
                if t in ("5", "6") and (last or french):
                    continue
                out.append(dict(name="%s last=%d french=%d" % (t or "empty", last, french), text=t, last=last, french=french))
        if t in ("3", "h", "4"):
            out.append(dict(name="%s no penalties" % t, text=t, last=False, french=False,
                            pen=dict(overpenalty=0, nlinepenalty=0, hyphenpenalty=0)))
            out.append(dict(name="%s other penalties" % t, text=t, last=True, french=True,
                            pen=dict(overpenalty=3, nlinepenalty=7, hyphenpenalty=50)))
    for d in out:
        if d["text"] == "6" or d["text"] == "m" and d["last"] != d["french"] or d["text"] == "hs" and d["last"] == d["french"]:
            d["tiers"] = ["thorough"]
    return out


CONFIGS = _cfgs()


def pieces(words, french):
    """(piece, spaces that follow it if the line continues)"""
    out = []
    for w in words:
        parts = w.split("-")
        for p in parts[:-1]:
            out.append((p + "-", 0))
        p = parts[-1]
        sp = 1
        if p.endswith(".") and (len(w) > 2 or not w[0].isupper()):
            sp = 1 if french else 2
        out.append((p, sp))
    return out


def harness(c, cfg):
    words = TEXTS[cfg["text"]]
    pen = dict(overpenalty=1000, nlinepenalty=1000, hyphenpenalty=25)
    pen.update(cfg.get("pen", {}))
    ps = pieces(words, cfg["french"])
    width = {}

    def measure(s):
        if s not in width:
            width[s] = c.bv("w%d" % len(width), 0, 1 if not s.strip() else 3)
            if s == "  ":
                c.assume(zb(c, width[s] >= width[" "]))
        return width[s]
    for s in [" ", "  "] + [p for p, _ in ps]:
        measure(s)
    target = c.bv("target", 0, 7)
    lines = list(c.mod("wrap").wrap("  ".join(words), target=target, longlast=cfg["last"], frenchspacing=cfg["french"],
                                    measure=measure, onewordpenalty=0, **pen))
    c.outcome("empty" if not lines else "one line" if len(lines) == 1 else "several lines")
    # the breaks chosen: lines rebuilt from the pieces
    n = len(ps)

    def render(i, j):
        return "".join(ps[k][0] + (" " * ps[k][1] if k < j - 1 else "") for k in range(i, j))
    fits = [b for b in breaks(n) if [render(i, j) for i, j in zip(b, b[1:])] == lines]
    c.check("the words in order, separated as in the text", len(fits) > 0)
    if not n:
        return
    sp = {0: 0, 1: width[" "], 2: width["  "]}
    cum = []
    total = 0
    for k in range(n):
        if k:
            total = total + sp[ps[k - 1][1]]
        total = total + width[ps[k][0]]
        cum.append(total)

    def line(i, j):
        """penalty of the line ps[i:j], as a term"""
        L = cum[j - 1] - ((cum[i - 1] + sp[ps[i - 1][1]]) if i else 0)
        fixed = pen["nlinepenalty"] + (pen["hyphenpenalty"] if not ps[j - 1][1] else 0)
        over = (L - target) * pen["overpenalty"]
        short = (target - L) * (target - L) if j < n or cfg["last"] else 0
        return fixed, L > target, over, short

    cost = {}
    for i in range(n):
        for j in range(i + 1, n + 1):
            cost[i, j] = merge(*line(i, j))

    def price(b):
        t = 0
        for i, j in zip(b, b[1:]):
            t = t + cost[i, j]
        return t
    mine = price(fits[0])
    for b in breaks(n):
        c.check("no other choice of breaks is cheaper", zb(c, mine <= price(b)))


def breaks(n):
    if n == 0:
        return [(0,)]
    return [(0,) + cut + (n,) for k in range(n) for cut in itertools.combinations(range(1, n), k)]


def zb(c, b):
    from symx import vals
    return b if isinstance(b, bool) else vals.zbool(b)


def merge(fixed, cond, a, b):
    """fixed + (a if cond else b) without a decision"""
    from symx import vals
    import z3
    if isinstance(cond, bool):
        return fixed + (a if cond else b)
    A, B = vals.BVInt.of(a), vals.BVInt.of(b)
    lo, hi = min(A[1], B[1]), max(A[2], B[2])
    w = max(vals.BVInt.width(lo, hi), A[0].size(), B[0].size())
    return fixed + vals.BVInt.make(z3.If(cond.z, vals.BVInt.ext(A[0], w), vals.BVInt.ext(B[0], w)), lo, hi)
