"""Sudoku search for all solutions."""
import json
import os
import random

from props.sudo import *

STATES = json.load(open(os.path.join(os.path.dirname(__file__), "sudoku_states.json")))
TWICE = "467385921900706800800090067080609700096070080701038096600857009078900600009063078"

BOUNDS = "puzzles that leave 25-45 cells open, two of those cells with any digit or none and up to four given cells given or not, " \
         "and every completion; thorough: more puzzles"
OUTSIDE = "puzzles not near one of the stored ones; puzzles with more than 150 completions"
EXPECT = ["none", "one", "several", "refused"]
THOROUGH_S = 3000
MOST = 150


def _configs():
    out = []
    for fast in (True, False):
        for i in range(3):
            out.append(dict(name="twice %d %s" % (i, "fast" if fast else "full"), fast=fast, puzzle=TWICE, digits=2, flags=0, path_s=120))
        for j, r in enumerate(sorted(STATES)):
            for i in range(len(STATES[r])):
                quick = i == 0 and (not fast or j % 2 == 0)
                out.append(dict(name="%s %d %s" % (r, i, "fast" if fast else "full"), fast=fast, puzzle=STATES[r][i][1],
                                digits=1, flags=3, tiers=["quick", "thorough"] if quick else ["thorough"], path_s=120))
    return out


CONFIGS = _configs()


def count(filled, most):
    cand = candidates(filled)
    known = []
    while len(known) <= most:
        s = solve(cand, known) if all(cand) else None
        if s is None:
            break
        known.append(s)
    return len(known)


def setup(cfg):
    filled = [int(x) for x in cfg["puzzle"]]
    rng = random.Random(cfg["name"])
    cells = [x for x in CELLS if filled[x]]
    rng.shuffle(cells)
    flagged = []
    for x in cells[:40]:                       # given cells that can be left open without too many completions
        if len(flagged) == cfg["flags"]:
            break
        less = [0 if y == x or y in flagged else filled[y] for y in CELLS]
        if count(less, 40) <= 40:
            flagged.append(x)
    base = [0 if y in flagged else filled[y] for y in CELLS]
    some = solve(candidates(base))
    wide = [y for y in CELLS if not base[y] and y not in flagged]
    free = rng.sample(wide, cfg["digits"])
    T, ok = completion("t", candidates(base))
    return filled, flagged, free, T, ok


def harness(c, cfg):
    m = c.mod("sudoku")
    filled, flagged, free, T, ok = c.memo("setup", lambda: setup(cfg))
    clues = list(filled)
    want = [ok]
    for x in flagged:
        b = c.zbool("given_%d" % x)
        clues[x] = filled[x] if c.decided(b) else 0
        want.append(Implies(b, T.get((x, filled[x]), False)))
    for x in free:
        clues[x] = c.int("clue_%d" % x, 0, 9)
        z = c.z(clues[x])
        want.append(Or([z == 0] + [And(z == d, t) for (y, d), t in T.items() if y == x]))
    want = And(want)
    g, e = c.attempt(m.Sudoku, clues)
    if e is not None:
        c.check("only contradictions are raised: %r" % e, isinstance(e, m.BadSudoku))
        c.outcome("refused")
        c.check("refused puzzles have no completion", Not(want))
        return
    seen = []
    for s in m.all_solutions(g, cfg["fast"]):
        got = [int(d) for d in s.contents]
        c.check("filled in correctly", all(sorted(got[x] for x in q) == list(range(1, 10)) for q in GROUPS))
        c.check("keeps the given cells", And([Or(c.z(clues[x]) == 0, c.z(clues[x]) == got[x]) for x in CELLS]))
        c.check("not reported twice", got not in seen)
        seen.append(got)
        if len(seen) > MOST:
            c.fail("more completions than the base puzzle has")
    c.outcome("none" if not seen else "one" if len(seen) == 1 else "several")
    c.check("no completion is missed", Implies(want, Or([And([T.get((x, got[x]), False) for x in CELLS]) for got in seen])))
    c.check("uniqueness", m.unisolvent(m.Sudoku(clues)) == (len(seen) == 1))
