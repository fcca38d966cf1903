"""Sudoku facts shared by the sudoku harnesses (independent of the code under test)."""
import z3

from props.common import *
from symx import bits

CELLS = range(81)
GROUPS = [[9 * r + c for c in range(9)] for r in range(9)] + [[9 * r + c for r in range(9)] for c in range(9)] + [
    [9 * (3 * a + i) + 3 * b + j for i in range(3) for j in range(3)] for a in range(3) for b in range(3)]
PEERS = [sorted({x for g in GROUPS if c in g for x in g} - {c}) for c in CELLS]


def completion(name, cand):
    """Variables and validity of a filled grid drawing on the candidates cand[cell]; None if there is none."""
    T = {(c, d): z3.BoolVal(True) if len(cand[c]) == 1 else z3.Bool("%s_%d_%d" % (name, c, d)) for c in CELLS for d in cand[c]}
    ok = []

    def one(vs):
        vs = [v for v in vs if not is_false(v)]
        ok.append(Or(vs))
        ok.extend(Or(Not(a), Not(b)) for a, b in itertools.combinations(vs, 2))
    for c in CELLS:
        one([T[c, d] for d in cand[c]])
    for g in GROUPS:
        for d in range(1, 10):
            one([T[c, d] for c in g if (c, d) in T])
    return T, And(ok)


def solve(cand, known=()):
    """One completion (list of 81 digits) different from the known ones, or None."""
    T, ok = completion("s", cand)
    s = z3.Solver()
    s.add(ok)
    for k in known:
        s.add(Or([Not(T[c, k[c]]) for c in CELLS if (c, k[c]) in T and not is_true(T[c, k[c]])]))
    if s.check() != z3.sat:
        return None
    m = s.model()
    return [next(d for d in cand[c] if is_true(m.eval(T[c, d], model_completion=True))) for c in CELLS]


def candidates(filled):
    """Digits not excluded by the filled cells (0 = open)."""
    return [[filled[c]] if filled[c] else [d for d in range(1, 10) if all(filled[x] != d for x in PEERS[c])] for c in CELLS]
