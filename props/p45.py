"""Textual graph formats."""
from props.common import *

CONTAINERS = True
BOUNDS = "names and numbers in the text are symbolic (any names up to renaming, numbers 0-5): edge lists of 1-3 lines, node edge " \
         "lists of up to 3 nodes, 2 edges and 2 named edges, MALF files of 0-3 vertices and up to 2 edges, LEDA files of up to 3 " \
         "vertices and 2 edges, GraphML documents of up to 3 nodes and 2 edges"
OUTSIDE = "longer files; truncated files; text that is not well-formed XML; unusual white space"
ASSUMPTIONS = ["the XML parser (expat, C code) is replaced during the symbolic run by a stand-in that reports the elements and "
               "attributes of the document; counterexamples are replayed with the real one"]
EXPECT = ["edge list", "node edge list", "malf", "leda", "graphml", "refused"]


def C(fmt, **k):
    return dict(k, fmt=fmt, name=" ".join([fmt] + ["%s=%s" % (a, b) for a, b in sorted(k.items())]))


CONFIGS = [C("edge list", m=m, dash=d) for m, d in ((1, 0), (1, 1), (2, 0), (2, 1), (3, 1))] \
    + [C("edge list", m=2, dash=0, bad=b) for b in ("one", "four", "kind")] \
    + [C("node edge list", n=n, m=m, named=k) for n, m, k in ((0, 0, 0), (2, 1, 0), (2, 0, 1), (3, 1, 1), (3, 2, 0), (2, 0, 2))] \
    + [C("node edge list", n=2, m=1, named=0, bad=b) for b in ("section", "start", "endpoint")] \
    + [C("malf", n=n, m=m) for n, m in ((0, 0), (1, 0), (2, 1), (3, 1), (2, 2), (3, 2))] \
    + [C("malf", n=2, m=1, bad=b) for b in ("vertex", "five", "word")] \
    + [C("leda", n=n, m=m) for n, m in ((0, 0), (1, 0), (2, 1), (3, 1), (3, 2))] \
    + [C("leda", n=2, m=1, bad=b) for b in ("three", "directed", "word")] \
    + [C("graphml", n=n, m=m) for n, m in ((0, 0), (2, 1), (3, 1), (3, 2))] \
    + [C("graphml", n=2, m=1, bad=b) for b in ("default", "directed", "id", "source", "target", "outer")]


class Word:
    """name or number in the text; .z for the oracle"""


def name(c, k):
    i = c.int(k, 0, 5)
    return word(c, i, True)


def number(c, k, lo=0, hi=5):
    return word(c, c.int(k, lo, hi), False)


def word(c, i, isname):
    from symx import vals
    if c.mode == "sym" and not isinstance(i, int):
        from symx.load import SymWord
        return SymWord(i, isname)
    return ("n%d" if isname else "%d") % i


def line(c, *ws):
    if c.mode == "sym" and not all(isinstance(w, str) for w in ws):
        from symx.load import SymLine
        return SymLine(ws)
    return " ".join(ws)


def zw(w):
    """number identifying a name or number word"""
    if isinstance(w, str):
        return z3.IntVal(int(w.lstrip("n")))
    if isinstance(w, int):
        return z3.IntVal(w)
    from symx import vals
    return w.z.z if hasattr(w, "name") else vals.zint(w)


def key(k):
    return zw(k)


def harness(c, cfg):
    m = c.mod("read_undirected_graph")
    fmt, bad = cfg["fmt"], cfg.get("bad")
    lines, V, E, ok = globals()[fmt.replace(" ", "_")](c, cfg, bad)
    G, e = c.attempt(m.readUndirectedGraph, lines)
    if e is not None:
        if type(e).__name__ != "GraphFormatError":
            raise e
        c.outcome("refused")
        c.check("refused only if there is something wrong", F if bad is None and ok is True else Not(ok) if bad is None else T)
        return
    c.outcome(fmt)
    c.check("accepted only if well formed", F if bad else ok)
    verts = list(G)
    c.check("every vertex", And([Or([key(u) == zw(v) for u in verts]) for v in V]))
    c.check("no other vertex", And([Or([key(u) == zw(v) for v in V]) for u in verts]))
    c.check("no vertex twice", And([key(u) != key(v) for u, v in pairs(verts)]))
    seen = []
    for u in verts:
        for v in G[u]:
            c.check("no other edge", Or([Or(And(zw(a) == key(u), zw(b) == key(v)), And(zw(a) == key(v), zw(b) == key(u)))
                                         for a, b, i in E]))
            other = [x for x in verts if x is v or c.decided(key(x) == key(v))]
            c.check("known endpoint", len(other) > 0)
            back = [w for w in G[other[0]] if c.decided(key(w) == key(u))]
            c.check("both directions, one identifier", len(back) == 1 and len(other) == 1 and bool(G[other[0]][back[0]] == G[u][v]))
            seen.append((u, v, G[u][v]))
    for a, b, i in E:
        c.check("every edge", Or([And(zw(a) == key(u), zw(b) == key(v)) for u, v, _ in seen]))
    for (u, v, x), (s, t, y) in pairs(seen):
        same = Or(And(key(u) == key(s), key(v) == key(t)), And(key(u) == key(t), key(v) == key(s)))
        c.check("distinct identifiers", Or(same, Not(bool(x == y))))


def edge_list(c, cfg, bad):
    E, lines = [], []
    for i in range(cfg["m"]):
        a, b = name(c, "a%d" % i), name(c, "b%d" % i)
        E.append((a, b, i))
        lines.append(line(c, a, "-", b) if cfg["dash"] else line(c, a, b))
    if bad == "one":
        lines.append(line(c, E[0][0]))
    elif bad == "four":
        lines.append(line(c, E[0][0], "-", E[0][1], E[0][1]))
    elif bad == "kind":
        lines.append(line(c, E[0][0], "->", E[0][1]))
    return lines, [x for e in E for x in e[:2]], E, And([zw(a) != zw(b) for a, b, i in E])


def ends(V, E):
    """loop-free edges between known, distinct vertices"""
    return And([zw(a) != zw(b) for a, b, i in E] + [Or([zw(a) == zw(v) for v in V]) for e in E for a in e[:2]]
               + [zw(u) != zw(v) for u, v in pairs(V)])


def node_edge_list(c, cfg, bad):
    V = [name(c, "v%d" % i) for i in range(cfg["n"])]
    E = [(name(c, "a%d" % i), name(c, "b%d" % i), i) for i in range(cfg["m"])]
    N = [(name(c, "c%d" % i), name(c, "d%d" % i), name(c, "id%d" % i)) for i in range(cfg["named"])]
    lines = ["// nodes"] + V
    if bad == "start":
        lines = V + lines[:1]
        lines[:0] = ["//"]
    if E or bad == "section":
        lines.append("// arcs" if bad == "section" else "// edges")
        for a, b, i in E:
            lines += [a, b]
    if bad == "endpoint":
        lines += [E[0][0], "// edges"]
    if N:
        lines.append("// named edges")
        for a, b, i in N:
            lines += [i, a, b]
    return lines, V, E + N, And([ends(V, E + N)] + [zw(x[2]) != zw(y[2]) for x, y in pairs(N)])


def malf(c, cfg, bad):
    V = [number(c, "v%d" % i) for i in range(cfg["n"])]
    E = [(number(c, "a%d" % i), number(c, "b%d" % i), i) for i in range(cfg["m"])]
    I = [(number(c, "i%d" % i), number(c, "t%d" % i)) for i in range(cfg["m"])]
    lines = [line(c, v, "0", "0") for v in V]
    if bad == "vertex":
        lines[0] = line(c, name(c, "x"), "0", "0")
    lines.append("#")
    for (a, b, i), (j, t) in zip(E, I):
        lines.append(line(c, j, t, a, b))
    if bad == "five":
        lines[-1] = line(c, I[0][0], I[0][1], E[0][0], E[0][1], "0")
    elif bad == "word":
        lines[-1] = line(c, I[0][0], I[0][1], E[0][0], name(c, "x"))
    return lines, V, E, And([ends(V, E)] + [zw(v) == i + 1 for i, v in enumerate(V)]
                            + [And(zw(j) == i + 1, zw(t) == 0) for i, (j, t) in enumerate(I)])


def leda(c, cfg, bad):
    n, m = cfg["n"], cfg["m"]
    E = [(number(c, "a%d" % i), number(c, "b%d" % i), i) for i in range(m)]
    lines = ["# comment", "LEDA.GRAPH", "string", "int", "%d" % n] + ["|{}|"] * n + ["%d" % (2 * m)]
    for a, b, i in E:           # every edge twice, each naming the other
        lines += [line(c, a, b, "%d" % (2 * i + 2), "|{}|"), line(c, b, a, "%d" % (2 * i + 1), "|{}|")]
    a, b, i = E[0] if E else (0, 0, 0)
    if bad == "three":
        lines[-1] = line(c, b, a, "1")
    elif bad == "directed":
        lines[-1] = line(c, b, a, "0", "|{}|")
    elif bad == "word":
        lines[-1] = line(c, b, name(c, "x"), "1", "|{}|")
    return lines, ["%d" % (i + 1) for i in range(n)], E, ends([str(i + 1) for i in range(n)], E)


class Element:
    """a line of a document with one tag: text for the real parser, structure for the stand-in"""

    def __init__(self, tag, attrs=(), close=False, empty=False):
        self.tag, self.attrs, self.close, self.empty = tag, dict(attrs), close, empty

    def __str__(self):
        return "<%s%s%s%s>" % ("/" if self.close else "", self.tag,
                               "".join(' %s="%s"' % a for a in self.attrs.items()), "/" if self.empty else "")

    def __bool__(self): return True
    def startswith(self, p): return str(self.tag).join(["<", ">"]).startswith(p) if len(p) < 3 else str(self).startswith(p)
    def strip(self): return self
    def __eq__(self, o): return str(self) == o if isinstance(o, str) and o.startswith("<") else False
    def __ne__(self, o): return not self == o
    def __hash__(self): return hash(self.tag)


class StandIn:
    """parser fed with Elements; anything else goes to the real one"""
    real = None

    def __init__(self, *a, **k):
        self.a, self.k, self.p = a, k, None
        self.StartElementHandler = self.EndElementHandler = None

    def Parse(self, data, final=False):
        if isinstance(data, Element):
            if self.StartElementHandler and not data.close:
                self.StartElementHandler(data.tag, dict(data.attrs))
            if self.EndElementHandler and (data.close or data.empty):
                self.EndElementHandler(data.tag)
            return 1
        if not data:
            return 1
        raise NotImplementedError


def graphml(c, cfg, bad):
    import xml.parsers.expat
    if StandIn.real is None:
        StandIn.real = xml.parsers.expat.ParserCreate
    xml.parsers.expat.ParserCreate = StandIn if c.mode == "sym" else StandIn.real
    V = [name(c, "v%d" % i) for i in range(cfg["n"])]
    E = [(name(c, "a%d" % i), name(c, "b%d" % i), i) for i in range(cfg["m"])]
    out = [Element("graph" if bad == "outer" else "graphml"),
           Element("graph", {} if bad == "default" else dict(edgedefault="directed" if bad == "directed" else "undirected"))]
    out += [Element("node", {} if bad == "id" else dict(id=v), empty=True) for v in V]
    for a, b, i in E:
        at = dict(source=a, target=b)
        at.pop(bad, None)
        out.append(Element("edge", at, empty=i == 0))
        if i:
            out += [Element("data", dict(key="k"), empty=True), Element("edge", close=True)]
    out += [Element("graph", close=True), Element(out[0].tag, close=True)]
    return (out if c.mode == "sym" else [str(x) for x in out]), V, E, ends(V, E)
