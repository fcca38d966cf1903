"""graph6 and sparse6."""
from props.common import *

BOUNDS = "graph6: all graphs with 0-8 and 10 vertices, and graphs with 63 vertices whose only possible edges are 6 chosen " \
         "ones (four-character vertex count); sparse6: all graphs with 0-8 vertices, 16 vertices with 12 possible edges, 64 vertices " \
         "with 5 possible edges; with and without header (up to 5 vertices); data one character too short or too long; the vertex count " \
         "for all values below 2**18"
OUTSIDE = "other sizes; loops and multiple edges, which sparse6 can express; non-standard padding"
EXPECT = ["graph6", "sparse6", "refused", "count"]
# where only few inputs can be explored path by path
FEW = [(0, 1), (0, 5), (1, 4), (2, 3), (3, 5), (4, 5)]
CONFIGS = [dict(name="graph6 n%d%s" % (n, " header" if h else ""), fmt="graph6", n=n, header=h, free=None)
           for n in range(6) for h in (0, 1)] \
    + [dict(name="graph6 n63", fmt="graph6", n=63, header=0, free=[(0, 1), (0, 62), (61, 62), (30, 40), (5, 50), (49, 50)])] \
    + [dict(name="sparse6 n%d%s" % (n, " header" if h else ""), fmt="sparse6", n=n, header=h, free=None)
       for n in range(6) for h in (0, 1) if n < 5 or not h] \
    + [dict(name="sparse6 n8", fmt="sparse6", n=8, header=0, free=[(0, 1), (0, 7), (1, 6), (2, 3), (3, 6), (5, 6), (5, 7), (6, 7)])] \
    + [dict(name="sparse6 n64", fmt="sparse6", n=64, header=1, free=[(0, 1), (0, 63), (61, 62), (30, 40), (62, 63)])] \
    + [dict(name="wrong length n%d %+d" % (n, d), fmt="wrong", n=n, delta=d, header=0) for n in (2, 3, 4, 5) for d in (-1, 1)] \
    + [dict(name="vertex count, %d" % k, fmt="count", n=k, merge=0) for k in (1, 3)] \
    + [dict(name="graph6 n%d" % n, fmt="graph6", n=n, header=0, free=None, fallback=dict(free=FEW)) for n in (6, 7, 8, 10)] \
    + [dict(name="sparse6 n%d all" % n, fmt="sparse6", n=n, header=0, free=None, fallback=dict(free=FEW)) for n in (6, 7, 8)] \
    + [dict(name="sparse6 n16 twelve", fmt="sparse6", n=16, header=0, fallback=dict(free=FEW),
            free=[(0, 1), (0, 15), (1, 14), (2, 3), (3, 14), (5, 6), (12, 13), (13, 14), (14, 15), (7, 8), (0, 8), (6, 8)])] \
    + [dict(name="sparse6 n16", fmt="sparse6", n=16, header=0, tiers=["thorough"],
            free=[(0, 1), (0, 15), (1, 14), (2, 3), (3, 14), (5, 6), (12, 13), (13, 14), (14, 15)])]


def count(n):
    return [n] if n <= 62 else [63, n >> 12, n >> 6 & 63, n & 63]


def sixes(bits, pad):
    bits = bits + pad[:-len(bits) % 6]
    return [sum(b << (5 - i) for i, b in enumerate(bits[k:k + 6])) for k in range(0, len(bits), 6)]


def sparse6(n, edges):
    """6-bit values following the vertex count, as published with the format."""
    k = 0
    while 1 << k < n:
        k += 1
    k = max(k, 1) if n > 1 else k
    bits, cur = [], 0
    num = lambda x: [x >> i & 1 for i in range(k - 1, -1, -1)]
    for v in range(n):
        for u in sorted(u for u, w in edges if w == v):
            if v == cur:
                bits += [0] + num(u)
            elif v == cur + 1:
                bits += [1] + num(u)
                cur = v
            else:
                bits += [1] + num(v) + [0] + num(u)
                cur = v
    room = -len(bits) % 6
    if k < 6 and n == 1 << k and room > k and cur < n - 1:
        bits += [0]
    return sixes(bits, [1] * 6)


def text(c, values, head):
    if c.mode != "sym":
        return head + "".join(chr(63 + v) for v in values)
    from symx.load import SymChar, SymStr
    return SymStr(list(head) + [chr(63 + v) if isinstance(v, int) else SymChar(v + 63) for v in values])


PROBES = """
from .read_undirected_graph import readUndirectedGraph, GraphFormatError

def sixes(bits, pad):
    out = []
    acc = k = 0
    for b in bits:
        acc = 2 * acc + b
        k += 1
        if k == 6:
            out.append(acc)
            acc = k = 0
    if k:
        while k < 6:
            acc = 2 * acc + pad
            k += 1
        out.append(acc)
    return out

def write(values, head):
    return head + "".join([chr(63 + v) for v in values])

def graph6(E, n, head, P):
    bits = []
    for j in range(1, n):
        for i in range(j):
            bits.append(1 if i in E[j] else 0)
    report(readUndirectedGraph(write(count(n) + sixes(bits, 0), head)), P)

def count(n):
    return [n] if n <= 62 else [63, n >> 12, n >> 6 & 63, n & 63]

def sparse6(E, n, head, P):
    k = 1 if n > 1 else 0
    while 1 << k < n:
        k += 1
    bits = []
    cur = 0
    for v in range(n):
        for u in range(v):
            if u in E[v]:
                if v == cur:
                    bits.append(0)
                elif v == cur + 1:
                    bits.append(1)
                    cur = v
                else:
                    bits.append(1)
                    for i in range(k - 1, -1, -1):
                        bits.append(v >> i & 1)
                    bits.append(0)
                    cur = v
                for i in range(k - 1, -1, -1):
                    bits.append(u >> i & 1)
    if k < 6 and n == 1 << k and -len(bits) % 6 > k and cur < n - 1:
        bits.append(0)
    report(readUndirectedGraph(write(count(n) + sixes(bits, 1), head)), P)

def report(R, P):
    for v in R:
        fact(("vertex", v))
        for u in R[v]:
            fact(("edge", u, v))
            if u not in R or v not in R[u]:
                fact("asymmetric")
            elif R[u][v] != R[v][u]:
                fact("two identifiers")
    for a, b in P:
        for x, y in P:
            if (a, b) < (x, y):
                if b in R[a] and y in R[x]:
                    fact(("same", a, b, x, y), R[a][b] == R[x][y])

def wrong(n, chars):
    try:
        readUndirectedGraph(write([n], "") + "".join(chars))
    except GraphFormatError:
        fact("refused")
"""


def merged(m, cfg):
    n, fmt = cfg["n"], cfg["fmt"]
    if fmt == "wrong":
        L = (n * (n - 1) // 2 + 5) // 6 + cfg["delta"]
        ds = [m.choice("d%d" % i, [chr(63 + v) for v in range(64)])[0] for i in range(L)]
        from symx.merge import MList, TRUE
        f = m.run(PROBES, "wrong", [n, (lambda: MList([(TRUE, a()) for a, b in ds]), lambda row: [b(row) for a, b in ds])])
        m.check("refused", f("refused"))
        m.cover("refused", f("refused"))
        return
    G, V, E = m.graph()
    P = [tuple(p) for p in cfg["free"]] if cfg["free"] is not None else [(i, j) for j in range(n) for i in range(j)]
    head = (">>%s<<" % fmt if cfg["header"] else "") + (":" if fmt == "sparse6" else "")
    f = m.run(PROBES, fmt, [G, n, head, tuple(P) + ((0, 0),) * 3])
    m.check("vertices", And([f("vertex", v) for v in V] + [Not(f(*k)) for k in m.facts if k[0] == "vertex" and k[1] not in V]))
    m.check("symmetric", Not(Or(f("asymmetric"), f("two identifiers"))))
    for p in P:
        m.check("edge as encoded", Iff(E(*p), f("edge", *p)))
    m.check("no other edges", Not(Or([f(*k) for k in m.facts if k[0] == "edge" and k[1:] not in P and (k[2], k[1]) not in P])))
    for p, q in pairs(sorted(P)):
        m.check("one identifier per edge", Not(f("same", *p, *q)))
    m.cover(fmt, T)


def harness(c, cfg):
    m = c.mod("read_undirected_graph")
    n, fmt = cfg["n"], cfg["fmt"]
    if fmt == "count":
        # the vertex count alone, for every value the format can hold
        c.outcome("count")
        if not hasattr(m, "graph6n"):
            return
        ds = [c.bv("d%d" % i, 0, 62 if n == 1 else 63) for i in range(n)]
        tail = c.bv("t", 0, 63)
        pair, exc = c.attempt(m.graph6n, ([63] if n == 3 else []) + ds + [tail])
        if isinstance(exc, (TypeError, AttributeError)) or not isinstance(pair, tuple) or len(pair) != 2:
            return                       # an internal function, free to be called in another way
        got, rest = pair[0], list(pair[1])
        want = c.z(ds[0]) if n == 1 else c.z(ds[0]) * 4096 + c.z(ds[1]) * 64 + c.z(ds[2])
        c.check("vertex count", c.z(got) == want)
        c.check("what follows the vertex count", len(rest) == 1 and c.z(rest[0]) == c.z(tail))
        return
    if fmt == "wrong":
        c.outcome("refused")
        L = (n * (n - 1) // 2 + 5) // 6 + cfg["delta"]
        ds = [c.bv("d%d" % i, 0, 63) for i in range(L)]
        G, e = c.attempt(m.readUndirectedGraph, text(c, [n] + ds, ""))
        c.check("refused", e is not None and type(e).__name__ == "GraphFormatError")
        return
    c.outcome(fmt)
    P = [tuple(p) for p in cfg["free"]] if cfg["free"] is not None else [(i, j) for j in range(n) for i in range(j)]
    E = {p: c.zbool("e_%d_%d" % p) for p in P}
    if c.mode != "sym":
        here = [p for p in P if c.decided(E[p])]
    head = (">>%s<<" % fmt if cfg["header"] else "") + (":" if fmt == "sparse6" else "")
    if fmt == "graph6":
        order = [(i, j) for j in range(1, n) for i in range(j)]
        if c.mode != "sym":
            data = sixes([int(p in here) for p in order], [0] * 6)
        else:
            from symx import vals
            data = []
            for k in range(0, len(order), 6):
                t = [p for p in order[k:k + 6]]
                if not any(p in E for p in t):
                    data.append(0)
                else:
                    bit = lambda p: z3.If(E.get(p, F), z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
                    bs = [bit(p) for p in t] + [z3.BitVecVal(0, 1)] * (6 - len(t))
                    data.append(vals.BVInt.make(z3.Concat(z3.BitVecVal(0, 1), *bs), 0, 63))
    else:
        if c.mode != "sym":
            data = sparse6(n, here)
        else:
            by = c.memo("codes", lambda: codes(n, P, E))
            L = int(c.int("length", 0, max(by)))
            data = [c.bv("d%d" % i, 0, 63) for i in range(L)]
            c.assume(c.memo("length %d" % L, lambda: Or([And([cond] + [x.z == v for x, v in zip(data, d)])
                                                         for cond, d in by.get(L, ())])))
    G = m.readUndirectedGraph(text(c, count(n) + list(data), head))
    c.check("vertices", set(G) == set(range(n)))
    c.check("symmetric", all(u in G[v] and G[u][v] == G[v][u] for u in G for v in G[u]))
    got = [(u, v) for v in G for u in G[v] if u < v]
    c.check("one identifier per edge", len({G[u][v] for u, v in got}) == len(got))
    c.check("no loops", all(v not in G[v] for v in G))
    for p in P:
        c.check("edge as encoded", Iff(E[p], p in got))
    c.check("no other edges", all(p in E for p in got))


def codes(n, P, E):
    by = {}
    for bits in itertools.product((False, True), repeat=len(P)):
        d = sparse6(n, [p for p, b in zip(P, bits) if b])
        cond = And([E[p] if b else Not(E[p]) for p, b in zip(P, bits)])
        by.setdefault(len(d), []).append((cond, d))
    return by
