"""Sudoku deduction rules."""
import json
import os
import random

from props.sudo import *

STATES = json.load(open(os.path.join(os.path.dirname(__file__), "sudoku_states.json")))
RULES = ["locate", "eliminate", "align", "pair", "triad", "trapezoid", "rectangle", "subproblem", "nishio",
         "bilocal", "bivalue", "repeat", "path", "conflict", "twosat"]
UNIQUE = ("trapezoid", "rectangle")
ALONE = ["locate", "eliminate", "align", "pair", "triad", "trapezoid", "rectangle", "subproblem", "nishio"]

BOUNDS = "states of generated puzzles at which each rule fires (8 per rule), with any subset of 6-12 candidates removed or put back, and every completion; " \
         "thorough: more states and larger subsets"
OUTSIDE = "states not near one of the stored ones"
EXPECT = ["rule:" + r for r in RULES] + ["contradiction", "no progress"]
THOROUGH_S = 3000


def _configs():
    out = []
    for r in RULES:
        for i in range(len(STATES[r])):
            quick = ["quick", "thorough"]
            late = ["thorough"]
            out.append(dict(name="step %s %d" % (r, i), rule=r, state=i, alone=False, out=5, back=3, tiers=quick if i < 6 else late, path_s=120))
            if r in ALONE:
                out.append(dict(name="alone %s %d" % (r, i), rule=r, state=i, alone=True, out=6, back=4, tiers=quick if i < 4 else late, path_s=120))
    return out


CONFIGS = _configs()


def setup(cfg):
    puzzle, filled, cand = STATES[cfg["rule"]][cfg["state"]]
    puzzle, filled = [int(x) for x in puzzle], [int(x) for x in filled]
    cand = [[int(x) for x in s] for s in cand.split(".")]
    S = solve(cand)
    rng = random.Random(cfg["name"])
    unique = cfg["rule"] in UNIQUE
    free = candidates(filled)
    removable = [(c, d) for c in CELLS if len(cand[c]) > 1 for d in cand[c] if not unique or d != S[c]]
    missing = [(c, d) for c in CELLS if not filled[c] for d in free[c] if d not in cand[c]]
    centre = rng.choice(removable)[0]
    near = lambda q: (q[0] != centre and q[0] not in PEERS[centre], rng.random())
    removed = sorted(removable, key=near)[:cfg["out"]]
    back = sorted(missing, key=near)[:cfg["back"]]
    T, ok = completion("t", [sorted(set(cand[c]) | {d for x, d in back if x == c}) for c in CELLS])
    return puzzle, filled, cand, S, removed, back, T, ok


def harness(c, cfg):
    m = c.mod("sudoku")
    puzzle, filled, cand, S, removed, back, T, ok = c.memo("setup", lambda: setup(cfg))
    unique = cfg["rule"] in UNIQUE
    absent = {}
    for x, d in removed:
        absent[x, d] = c.bool("gone_%d_%d" % (x, d))
    for x, d in back:
        absent[x, d] = c.bool("missing_%d_%d" % (x, d))
    g = m.Sudoku(puzzle)
    g.assume_unique = unique
    g.twosat = not unique
    for x in CELLS:
        if filled[x]:
            g.place(filled[x], x)
    for d in range(1, 10):
        known, sym = 0, {}
        for x in CELLS:
            if (x, d) in absent:
                sym[x] = c.zb(absent[x, d])
            elif not filled[x] and d not in cand[x]:
                known |= 1 << x
        g.unplace(d, bits.make(known, sym))
    before = list(g.locations)
    has = lambda masks, x, d: masks[d].bit(x) if isinstance(masks[d], bits.Mask) else bool(masks[d] >> x & 1)
    if unique:
        admitted = lambda masks: And([has(masks, x, S[x]) for x in CELLS])
        start = True
    else:
        admitted = lambda masks: And([Or(Not(t), has(masks, x, d)) for (x, d), t in T.items()])
        start = And(ok, admitted(before))

    def run(rule):
        g.progress = False
        _, e = c.attempt(rule, g)
        if e is None:
            return False
        c.check("only contradictions are raised: %r" % e, isinstance(e, m.BadSudoku))
        c.outcome("contradiction")
        c.check("a contradiction means there is no completion", Not(start))
        return True
    rules = [(name, rule) for name, rule, level in m.rules if name == cfg["rule"] or not cfg["alone"]]
    for name, rule in rules:
        if run(rule):
            return
        for x in CELLS:
            if g.contents[x] and not filled[x]:
                c.check("%s fills a cell with the digit every completion has there" % name,
                        Implies(start, T.get((x, g.contents[x]), False) if not unique else S[x] == g.contents[x]))
        if g.progress:
            c.outcome("rule:" + name)
            c.check("%s keeps every completion" % name, Implies(start, admitted(g.locations)))
            return
    c.outcome("no progress")
    c.check("no progress, nothing lost", Implies(start, admitted(g.locations)))
