"""Number streams."""
from props.common import *

BOUNDS = "the prefix up to 1000 of the primes, 150 of the factorisations and 100 of the Moebius and practical number streams, the " \
         "number tested being a free variable; yielded " \
         "factorisations inspected again at the end; thorough: up to 3000, 300, 250 and 200"
OUTSIDE = "later parts of the streams"
EXPECT = ["primes", "factors", "moebius", "practical"]
CONFIGS = [dict(name="%s %d" % (w, n), what=w, n=n) for w, n in
           (("primes", 1000), ("factors", 150), ("moebius", 100), ("function", 100), ("practical", 100))] + [
    dict(name="%s %d" % (w, n), what=w, n=n, tiers=["thorough"]) for w, n in
    (("primes", 3000), ("factors", 300), ("moebius", 250), ("function", 250), ("practical", 200))]


def harness(c, cfg):
    m = c.mod("eratosthenes")
    N, what = cfg["n"], cfg["what"]
    c.outcome(what if what != "function" else "moebius")
    v = c.int("x", 1, N)
    x = c.z(v)
    div = lambda d: x % d == 0
    small = [d for d in range(2, N + 1) if d * d <= N]
    prime = lambda: And([x > 1] + [Or(x == d, Not(div(d))) for d in small])
    if what == "primes":
        out = []
        for p in itertools.islice(m.primes(), N):
            if p > N:
                break
            out.append(p)
        c.check("in increasing order", all(a < b for a, b in zip(out, out[1:])))
        c.check("listed exactly if prime", Iff(Or([x == p for p in out]), prime()))
    elif what == "factors":
        kept = list(itertools.islice(m.factored_integers(), N))
        c.check("every integer in turn", [k for k, f in kept] == list(range(1, N + 1)))
        copies = []
        for k, f in itertools.islice(m.factored_integers(), N):
            copies.append((k, dict(f)))
        for label, got in (("as yielded", copies), ("when inspected later", [(k, dict(f)) for k, f in kept])):
            for p in range(2, N + 1):
                top = [f.get(p, 0) for k, f in got]
                if all(e == 0 for e in top) and not isprime(p):
                    continue
                for e in range(max(top) + 2):
                    # the exponent of p is at least e exactly if p**e divides (p prime)
                    has = Or([x == k for k, f in got if f.get(p, 0) >= e]) if e else T
                    c.check("exponents " + label, Iff(has, div(p ** e)) if isprime(p) else Not(has) if e else T)
    elif what in ("moebius", "function"):
        if what == "moebius":
            seq = list(itertools.islice(m.moebius_sequence(), N))
        else:
            seq = [m.moebius_function(k) for k in list(range(N, 0, -7)) + list(range(1, N + 1))][-N:]
        square = Or([div(d * d) for d in small])
        ps = [p for p in range(2, N + 1) if isprime(p)]
        odd = F
        for p in ps:
            d = div(p)
            odd = Or(And(odd, Not(d)), And(Not(odd), d))
        val = lambda t: Or([x == k + 1 for k, s in enumerate(seq) if s == t])
        c.check("zero exactly if divisible by a square", Iff(val(0), square))
        c.check("-1 exactly if an odd number of primes", Iff(val(-1), And(Not(square), odd)))
        c.check("1 exactly if an even number of primes", Iff(val(1), And(Not(square), Not(odd))))
    else:
        out = []
        for p in itertools.islice(m.practical_numbers(), N):
            if p > N:
                break
            out.append(p)
        c.check("in increasing order", all(a < b for a, b in zip(out, out[1:])))
        table = [k for k in range(1, N + 1) if practical(k)]
        c.check("listed exactly if practical", Iff(Or([x == p for p in out]), Or([x == p for p in table])))


def isprime(p):
    return p > 1 and all(p % d for d in range(2, p) if d * d <= p)


def practical(k):
    sums = {0}
    for d in range(1, k):
        if k % d == 0:
            sums |= {s + d for s in sums}
    return all(i in sums for i in range(1, k))
