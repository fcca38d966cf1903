"""Transformations of circle packings."""
from props.common import *

BOUNDS = "over the real numbers: rescaling of any one to three circles; inversion of any circle about any centre not on it, " \
         "once and twice; inversion of any two tangent circles whose centres are in line with the inversion centre"
OUTSIDE = "floating-point rounding; larger packings (circles are transformed one by one); circle_pack itself and InvertAround (numerical iteration)"
ASSUMPTIONS = ["floating-point arithmetic is replaced by real arithmetic; the square root is the non-negative number with that square"]
EXPECT = ["rescaled", "inverted", "concentric", "tangent"]
CONFIGS = [dict(name="rescale %d %s" % (n, k), what="rescale", n=n, key=k) for n in (1, 2, 3) for k in ("given", "least")] \
    + [dict(name="invert", what="invert", dir="any", path_s=120), dict(name="invert left", what="invert", dir="left", path_s=120),
       dict(name="invert concentric", what="invert", dir="none"),
       dict(name="twice", what="twice", dir="any", path_s=300), dict(name="twice left", what="twice", dir="left", path_s=120),
       dict(name="twice concentric", what="twice", dir="none"),
       dict(name="tangent", what="tangent", path_s=300)]


def num(c, name):
    r = c.real(name)
    if c.mode != "sym":
        return float(r)
    from symx.rational import Rat
    return Rat.var(name)


def cplx(c, x, y):
    if c.mode == "sym":
        from symx import vals
        return vals.SymComplex(x, y)
    return complex(x, y)


def eq(c, a, b):
    if c.mode == "sym":
        from symx.rational import same
        return same(a, b)
    return abs(a - b) <= 1e-6 * max(1, abs(a), abs(b))


def positive(c, r):
    from symx import vals
    c.assume(vals.SymReal.of(r) > 0)



def harness(c, cfg):
    m = c.mod("circle_pack")
    from symx import vals
    z = vals.SymReal.of
    if cfg["what"] == "rescale":
        n = cfg["n"]
        P = {}
        for i in range(n):
            x, y, r = num(c, "x%d" % i), num(c, "y%d" % i), num(c, "r%d" % i)
            positive(c, r)
            P["c%d" % i] = cplx(c, x, y), r
        t = num(c, "target")
        positive(c, t)
        k = "c%d" % (n - 1)
        Q = m.NormalizePacking(dict(P), k, t) if cfg["key"] == "given" else m.NormalizePacking(dict(P), target=t)
        c.outcome("rescaled")
        c.check("the same circles", set(Q) == set(P))
        if cfg["key"] == "given":
            c.check("requested radius", eq(c, Q[k][1], t))
        else:
            c.check("least radius as requested", And(Or([eq(c, Q[j][1], t) for j in Q]),
                                                     And([Or(eq(c, Q[j][1], t), z(Q[j][1]) >= z(t)) for j in Q])))
        for j in P:
            for i in P:
                # similarity: all lengths scaled alike, no rotation
                c.check("proportional radii", eq(c, Q[j][1] * P[i][1], P[j][1] * Q[i][1]))
                c.check("proportional positions", And(eq(c, Q[j][0].real * P[i][1], P[j][0].real * Q[i][1]),
                                                      eq(c, Q[j][0].imag * P[i][1], P[j][0].imag * Q[i][1])))
            c.check("radii stay positive", z(Q[j][1]) > 0)
        return
    if cfg["what"] == "tangent":
        return tangent(c, m)
    a, b, s, r = num(c, "a"), num(c, "b"), num(c, "s"), num(c, "r")
    positive(c, r)
    positive(c, s)
    c.assume(Not(eq(c, s, r)))
    u, v = direction(c, "t", cfg["dir"])
    x, y = s * u, s * v
    P = {"p": (cplx(c, a + x, b + y), r)}
    Q = m.InvertPacking(dict(P), cplx(c, a, b))
    w, q = Q["p"]
    c.outcome("inverted" if cfg["dir"] != "none" else "concentric")
    if cfg["dir"] != "none":
        image(c, w, q, x, y, s, r)
    else:
        c.check("concentric image", And(eq(c, w.real, 0), eq(c, w.imag, 0), eq(c, q * r, 1)))
    if cfg["what"] == "twice":
        v, t = m.InvertPacking({"p": (w, q)}, cplx(c, 0 * a, 0 * a))["p"]
        c.check("inverting twice", And(eq(c, v.real, x), eq(c, v.imag, y), eq(c, t, r)))


def image(c, w, q, x, y, s, r):
    """exact image of the circle under the map w -> 1/(w - centre)"""
    D = s * s - r * r
    c.check("centre of the image", And(eq(c, w.real * D, x), eq(c, w.imag * D, -y)))
    c.check("radius of the image", And(Or(eq(c, q * D, r), eq(c, q * D, -r)), sign(c, q)))


def sign(c, q):
    from symx import vals
    return vals.zbool(q >= 0)


def direction(c, name, kind):
    """unit vector: any but (-1, 0) by its rational parameter"""
    t = num(c, name)
    if kind == "any":
        return (1 - t * t) / (1 + t * t), 2 * t / (1 + t * t)
    return (0 * t - 1, 0 * t) if kind == "left" else (0 * t, 0 * t)


def tangent(c, m):
    """two circles touching at a point stay tangent: they are p + r1*n and p - r2*n"""
    t, r1, r2, d = num(c, "t"), num(c, "r1"), num(c, "r2"), num(c, "d")
    c.outcome("tangent")
    for r in (r1, r2):
        positive(c, r)
    # both centres on one line through the inversion centre, the touching point at signed distance d
    u, v = direction(c, "t", "any")
    A, B = d + r1, d - r2
    for k, r in ((A, r1), (B, r2)):
        c.assume(Not(Or(eq(c, k, r), eq(c, k, -r), eq(c, k, 0))))
    Q = m.InvertPacking({1: (cplx(c, A * u, A * v), r1), 2: (cplx(c, B * u, B * v), r2)}, cplx(c, 0 * d, 0 * d))
    (z1, q1), (z2, q2) = Q[1], Q[2]
    dx, dy = z1.real - z2.real, z1.imag - z2.imag
    D2 = dx * dx + dy * dy
    c.check("still tangent", Or(eq(c, D2, (q1 + q2) * (q1 + q2)), eq(c, D2, (q1 - q2) * (q1 - q2))))
