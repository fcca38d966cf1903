"""SVG output."""
import xml.etree.ElementTree as ET

from props.common import *

BOUNDS = "each drawing primitive with every coordinate and radius a free multiple of 1/4 in -1000..1000 (coordinates appear in the " \
         "text as placeholders whose value is compared by the solver); all sequences of up to 4 calls of group, ungroup, circle, " \
         "text and close; the decimal notation of every multiple of 1/10000 with up to 3 digits before the point, of either sign"
OUTSIDE = "floating-point rounding beyond the fourth decimal; larger numbers; more than 4 polygon corners; labels and style values that need quoting"
EXPECT = ["shape", "sequence", "notation", "unclosed"]
SHAPES = ["svg", "circle", "rectangle", "polygon0", "polygon1", "polygon3", "polygon4", "segment", "arc", "arc large", "text"]
CONFIGS = [dict(name=s, what="shape", shape=s, prefix=p, alone=a) for s in SHAPES for p, a in (("", 0),)] \
    + [dict(name="%s prefixed" % s, what="shape", shape=s, prefix="s", alone=1) for s in ("circle", "text", "polygon3")] \
    + [dict(name="sequence %d" % k, what="sequence", n=k) for k in (1, 2, 3, 4)] \
    + [dict(name="sequence 5", what="sequence", n=5, tiers=["thorough"])] \
    + [dict(name="notation %s%d" % ("-" if s < 0 else "", d), what="notation", sign=s, digits=d) for s in (1, -1) for d in (1, 2, 3)]
LO, HI = "\ue000", "\ue001"


class Stream:
    def __init__(self): self.text = []
    def write(self, s): self.text.append(s)


def coord(c, name, lo=-4000, few=(-6, 0, 81)):
    """a multiple of 1/4"""
    k = c.int(name, lo, 4000, few=few)
    if c.mode == "sym":
        from symx import vals
        return vals.SymReal(z3.ToReal(k.z) / 4)
    return k / 4


def point(c, name):
    x, y = coord(c, name + "x"), coord(c, name + "y", few=(3, -80))
    if c.mode == "sym":
        from symx import vals
        return vals.SymComplex(x, y)
    return complex(x, y)


def real(x):
    from symx import vals
    return vals.SymReal.of(x)


def near(text, want, terms):
    """the text denotes the wanted number"""
    if text.startswith(LO):
        return terms[int(text[1:-1])] == want
    v = z3.simplify(want)
    try:
        f = float(text)
    except ValueError:
        return F
    return abs(v.numerator_as_long() / v.denominator_as_long() - f) < 1e-6 if z3.is_rational_value(v) else \
        z3.And(want == z3.Q(*f.as_integer_ratio()))


def minz(a, b):
    return z3.If(a < b, a, b)


def absz(a):
    return z3.If(a < 0, -a, a)


def harness(c, cfg):
    m = c.mod("svg")
    from symx import vals
    if cfg["what"] == "notation":
        return notation(c, cfg, m)
    terms = []

    def write(x, spec):
        if spec != ".4f":
            raise TypeError("format")
        terms.append(x.z)
        return "%s%d%s" % (LO, len(terms) - 1, HI)
    vals.FORMAT[:] = [write]
    out = Stream()
    if cfg["what"] == "sequence":
        return sequence(c, cfg, m, out)
    shape, pre = cfg["shape"], cfg["prefix"]
    c.outcome("shape")
    box = point(c, "b")
    S = m.SVG(box, out, standalone=bool(cfg["alone"]), prefix=pre, indentation=2 if pre else 0)
    style = dict(fill="red", stroke="blue")
    kw = dict(fill="green")
    A = {}
    z = lambda p: (real(p.real), real(p.imag))
    if shape == "svg":
        tag = None
    elif shape == "circle":
        p, r = point(c, "p"), coord(c, "r", 0)
        S.circle(p, r, style, **kw)
        tag, A = "circle", dict(cx=z(p)[0], cy=z(p)[1], r=real(r))
    elif shape == "rectangle":
        p, q = point(c, "p"), point(c, "q")
        S.rectangle(p, q, style, **kw)
        (a, b), (d, e) = z(p), z(q)
        tag, A = "rect", dict(x=minz(a, d), y=minz(b, e), width=absz(a - d), height=absz(b - e))
    elif shape.startswith("polygon"):
        ps = [point(c, "p%d" % i) for i in range(int(shape[-1]))]
        S.polygon(list(ps), style, **kw)
        tag = "polygon"
    elif shape == "segment":
        p, q = point(c, "p"), point(c, "q")
        S.segment(p, q, style, **kw)
        tag, A = "line", dict(x1=z(p)[0], y1=z(p)[1], x2=z(q)[0], y2=z(q)[1])
    elif shape.startswith("arc"):
        p, q, r = point(c, "p"), point(c, "q"), coord(c, "r")
        S.arc(p, q, r, shape == "arc large", style, **kw)
        tag = "path"
    else:
        p = point(c, "p")
        S.text("label", p, style, **kw)
        tag, A = "text", dict(x=z(p)[0], y=z(p)[1])
    S.close()
    root = parse(c, out, pre)
    if root is None:
        return
    strip = lambda t: t.split("}")[-1]
    c.check("one drawing", strip(root.tag) == "svg")
    c.check("size of the drawing", And(near(root.get("width"), z(box)[0], terms), near(root.get("height"), z(box)[1], terms)))
    vb = root.get("viewBox").split()
    c.check("view box", And([len(vb) == 4, vb[:2] == ["0", "0"]] + [near(t, w, terms) for t, w in zip(vb[2:], z(box))]))
    kids = list(root)
    c.check("one shape", len(kids) == (0 if tag is None else 1))
    if tag is None:
        return
    e = kids[0]
    c.check("kind of shape", strip(e.tag) == tag and len(list(e)) == 0)
    c.check("label", (e.text or "").strip() == ("label" if tag == "text" else ""))
    for k, w in A.items():
        c.check("attribute " + k, e.get(k) is not None and near(e.get(k), w, terms))
    want = set(A) | {"style"} | ({"points"} if tag == "polygon" else {"d"} if tag == "path" else set())
    c.check("attributes", set(e.keys()) == want)
    st = dict(tuple(x.strip() for x in t.split(":")) for t in e.get("style").split(";"))
    c.check("style", st == dict(fill="green", stroke="blue"))
    if tag == "polygon":
        pts = [t.split(",") for t in e.get("points").split()]
        c.check("corners", len(pts) == len(ps) and all(len(t) == 2 for t in pts))
        for t, p in zip(pts, ps):
            c.check("corner", And(near(t[0], z(p)[0], terms), near(t[1], z(p)[1], terms)))
    if tag == "path":
        d = e.get("d").replace(",", " ").split()
        c.check("form of the path", len(d) == 11 and d[0] == "M" and d[3] == "A" and d[6] == "0" and d[8] == "0"
                and d[7] == ("1" if shape == "arc large" else "0"))
        if len(d) == 11:
            R = absz(real(r))
            for t, w in zip((d[1], d[2], d[4], d[5], d[9], d[10]), (*z(p), R, R, *z(q))):
                c.check("arc", near(t, w, terms))


def parse(c, out, pre=""):
    text = "".join(out.text)
    if text.startswith("<?xml"):
        head, body = text.split("<!DOCTYPE", 1)
        text = body.split(">", 1)[1]
    try:
        return list(ET.fromstring('<root xmlns:s="urn:s">%s</root>' % text))[0]
    except ET.ParseError as e:
        c.fail("well-formed markup", str(e))


def sequence(c, cfg, m, out):
    ops = ["group", "ungroup", "circle", "text"]
    S = m.SVG(10 + 20j, out, standalone=c.flag("alone"))
    tree, path = [], []             # nested lists
    path.append(tree)
    for i in range(cfg["n"]):
        op = c.choice("op%d" % i, ops)
        if op == "group":
            S.group(stroke="red")
            path[-1].append(["g"])
            path.append(path[-1][-1])
        elif op == "ungroup":
            if len(path) == 1:
                raise_infeasible(c)
            S.ungroup()
            path.pop()
        elif op == "circle":
            S.circle(1 + 2j, 3)
            path[-1].append(["circle"])
        else:
            S.text("a", 1 + 2j)
            path[-1].append(["text"])
    r, e = c.attempt(S.close)
    if len(path) > 1:
        c.outcome("unclosed")
        c.check("unclosed groups are reported", e is not None)
        return
    c.outcome("sequence")
    if e is not None:
        raise e
    root = parse(c, out)
    if root is None:
        return
    shape = lambda e: [e.tag.split("}")[-1]] + [shape(x) for x in e]
    c.check("nesting", shape(root)[1:] == tree)


def raise_infeasible(c):
    c.assume(F)


def notation(c, cfg, m):
    """the number is written so that it reads back the same"""
    from symx import vals
    c.outcome("notation")
    d, sign = cfg["digits"], cfg["sign"]
    lo, hi = (0 if d == 1 else 10 ** (d + 3)), 10 ** (d + 4) - 1
    k = c.int("k", lo, hi, few=(lo, lo + 1, lo + 10, lo + 100, lo + 5000, lo + 7250, hi, hi - 9, hi - 9999))
    if c.mode != "sym":
        t = m._coord(sign * k / 10000)
        c.check("reads back", bool(t) and abs(float(t) - sign * k / 10000) < 1e-6)
        c.check("no superfluous zeros", "." not in t or t[-1] not in "0.")
        return
    from symx.load import SymChar, SymStr
    x = vals.SymReal(sign * z3.ToReal(k.z) / 10000)

    ds = [c.int("digit%d" % j, 0, 9) for j in range(d + 4)]     # least significant first
    c.assume(z3.Sum([x.z * 10 ** j for j, x in enumerate(ds)]) == k.z)

    def write(y, spec):
        if spec != ".4f" or y.z is not x.z:
            raise TypeError("format")
        cs = [SymChar(q + 48) for q in reversed(ds)]
        return SymStr((["-"] if sign < 0 else []) + cs[:d] + ["."] + cs[d:])
    vals.FORMAT[:] = [write]
    t = m._coord(x)
    cs = list(t)
    c.check("sign", (len(cs) > 0 and cs[0] == "-") == (sign < 0))
    if sign < 0:
        cs = cs[1:]
    point = [i for i, ch in enumerate(cs) if isinstance(ch, str) and ch == "."]
    c.check("one point", len(point) <= 1)
    at = point[0] if point else len(cs)
    digits = cs[:at] + cs[at + 1:]
    c.check("digits before the point", at >= 1)
    c.check("digits after the point", not point or at < len(cs) - 1)
    val = lambda ch: z3.IntVal(ord(ch) - 48) if isinstance(ch, str) else ch.z.z - 48
    after = len(digits) - at
    c.check("not more than four decimals", after <= 4)
    c.check("reads back", z3.Sum([val(ch) * 10 ** (len(digits) - 1 - i) for i, ch in enumerate(digits)] + [z3.IntVal(0)])
            * 10 ** (4 - after) == k.z)
    if after > 0:
        c.check("no superfluous zeros", val(digits[-1]) != 0)
