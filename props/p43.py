"""Grid points by distance."""
from props.common import *

BOUNDS = "the points within distance 9 of the origin, the point looked for being a free variable; thorough: distance 16"
OUTSIDE = "points farther away"
EXPECT = ["points"]
CONFIGS = [dict(name="radius %d" % r, r=r) for r in (1, 3, 6, 9)] + [dict(name="radius 16", r=16, tiers=["thorough"])]


def harness(c, cfg):
    r = cfg["r"]
    out = []
    for p in itertools.islice(c.mod("integerpoints").IntegerPointsByDistance(), 4 * (r + 1) ** 2 + 50):
        p = (p[0], p[1])
        if p[0] ** 2 + p[1] ** 2 > r * r:
            break
        out.append(p)
    c.outcome("points")
    d = [x * x + y * y for x, y in out]
    c.check("nondecreasing distance", d == sorted(d))
    c.check("no repeats", len(set(out)) == len(out))
    x, y = c.z(c.int("x", -r - 2, r + 2)), c.z(c.int("y", -r - 2, r + 2))
    near = Or([And(x == a, y * y <= r * r - a * a) for a in range(-r, r + 1)])
    c.check("every point within the radius", Iff(Or([And(x == a, y == b) for a, b in out]), near))
