"""Depth-first search."""
from props.common import *

BOUNDS = "every digraph with self-loops on 0-3 vertices, every loop-free digraph on 4 vertices, whole-graph search, " \
         "every start vertex and every reachability query; thorough: self-loops on 4 vertices, 5 vertices with at " \
         "most 7 edges"
OUTSIDE = "larger graphs; parallel edges"
EXPECT = ["whole", "start", "nontree", "forest", "reachable", "unreachable"]


def _configs():
    out = []
    for op in ("search", "agree", "reachable"):
        for n in range(4):
            if n or op != "reachable":
                out.append(dict(name="%s n%d" % (op, n), op=op, n=n, loops=True))
        out.append(dict(name=op + " n4", op=op, n=4))
        out.append(dict(name=op + " list", op=op, n=3, loops=True, kind="list", labels="mixed", order="rev"))
        out.append(dict(name=op + " n5 sparse", op=op, n=5, most=5 if op == "search" else 4))
        out.append(dict(name=op + " n4 loops", op=op, n=4, loops=True, tiers=["thorough"]))
        out.append(dict(name=op + " n5", op=op, n=5, most=7, tiers=["thorough"]))
    return out


CONFIGS = _configs()


def replay_events(c, m, events, V, E, start):
    """Check that the event list is a depth-first traversal."""
    stack, visited, seen, roots = [], [], {}, []
    for v, w, t in events:
        if t == m.forward:
            c.check("forward to an unvisited vertex", w not in visited)
            visited.append(w)
            if not stack:
                c.check("a tree starts with (root, root)", v == w)
                roots.append(w)
            else:
                c.check("tree edge leaves the current vertex", v == stack[-1])
                seen[v, w] = seen.get((v, w), 0) + 1
            stack.append(w)
        elif t == m.reverse:
            c.check("reverse matches the last open forward", bool(stack) and w == stack[-1])
            stack.pop()
            c.check("reverse returns to the parent", v == (stack[-1] if stack else w))
        else:
            c.check("known event type", t == m.nontree)
            c.check("nontree edge leaves the current vertex to a visited one",
                    bool(stack) and v == stack[-1] and w in visited)
            seen[v, w] = seen.get((v, w), 0) + 1
            c.outcome("nontree")
    c.check("all trees closed", not stack)
    c.check("each edge at most once", all(x == 1 for x in seen.values()))
    if len(roots) > 1:
        c.outcome("forest")
    if start is None:
        c.check("every vertex visited", set(visited) == set(V))
    else:
        R = c.memo("R", lambda: reach(V, E))
        c.check("single tree from the start", roots == [start])
        c.check("visited iff reachable", And([Iff(v in visited, R[start, v]) for v in V]))
    for v in visited:
        c.check("events are exactly the edges", And([Iff((v, w) in seen, E(v, w)) for w in V]))
    return visited


PROBES = """
from .dfs import search, preorder, postorder, reachable, Searcher, forward, reverse, nontree

def trace(events, given, start):
    stack = []
    visited = set()
    trees = 0
    for v, w, t in events:
        if t == forward:
            fact("forward to a visited vertex", w in visited)
            if not stack:
                fact("a tree does not start with (root, root)", v != w)
                fact("tree not at the start", given and w != start)
                trees += 1
            else:
                fact("tree edge does not leave the current vertex", v != stack[-1])
                fact(("edge twice", v, w), (v, w, "seen") in visited)
                visited.add((v, w, "seen"))
                fact(("edge", v, w))
            visited.add(w)
            stack.append(w)
        elif t == reverse:
            if not stack:
                fact("reverse without forward")
            else:
                fact("reverse does not match", w != stack[-1])
                stack.pop()
                if stack:
                    fact("reverse does not return to the parent", v != stack[-1])
                else:
                    fact("reverse does not return to the root", v != w)
        else:
            fact("unknown event", t != nontree)
            if not stack:
                fact("nontree edge outside a tree")
            else:
                fact("nontree edge does not leave the current vertex", v != stack[-1])
            fact("nontree edge to an unvisited vertex", w not in visited)
            fact("nontree")
            fact(("edge twice", v, w), (v, w, "seen") in visited)
            visited.add((v, w, "seen"))
            fact(("edge", v, w))
    fact("tree left open", stack)
    for v in visited:
        fact(("visited", v))
    fact(("trees", trees))

def whole(G):
    trace(search(G), False, None)

def single(G, s):
    trace(search(G, s), True, s)

def agree(G):
    events = list(search(G))
    forwards = [w for v, w, t in events if t == forward]
    reverses = [w for v, w, t in events if t == reverse]
    fact("preorder", list(preorder(G)) != forwards)
    fact("postorder", list(postorder(G)) != reverses)
    log = []

    class S(Searcher):
        def preorder(self, parent, child):
            log.append((parent, child, forward))

        def postorder(self, parent, child):
            log.append((parent, child, reverse))

        def backedge(self, source, destination):
            log.append((source, destination, nontree))
    S(G)
    fact("searcher callbacks", log != events)

def agree_from(G, s):
    events = list(search(G, s))
    fact("preorder", list(preorder(G, s)) != [w for v, w, t in events if t == forward])
    fact("postorder", list(postorder(G, s)) != [w for v, w, t in events if t == reverse])

def reaches(G, V):
    for u in V:
        for v in V:
            fact(("reach", u, v), reachable(G, u, v))
"""


def merged(m, cfg):
    op = cfg["op"]
    G, V, E = m.graph(directed=True)
    R = reach(V, E)
    if op == "reachable":
        f = m.run(PROBES, "reaches", [G, V])
        for u in V:
            for v in V:
                m.check("reachability", Iff(f("reach", u, v), R[u, v]))
        m.cover("reachable", Or([R[u, v] for u, v in pairs(V)] + [len(V) == 1]))
        m.cover("unreachable", Not(And([R[u, v] for u, v in pairs(V)])))
        return
    for k in range(-1, len(V)):
        if op == "agree" and 0 <= k < len(V) - 1:
            continue
        m.fixed = {"start": k + 1} if op == "search" else {"start": int(k >= 0)}
        s = None if k < 0 else V[k]
        m.cover("whole" if s is None else "start", True)
        if op == "agree":
            f = m.run(PROBES, "agree" if s is None else "agree_from", [G] if s is None else [G, s])
            for name in ("preorder", "postorder", "searcher callbacks"):
                m.check(name, Not(f(name)))
            m.finish()
            continue
        f = m.run(PROBES, "whole" if s is None else "single", [G] if s is None else [G, s])
        seen = [R[s, v] if s is not None else True for v in V]
        for v, r in zip(V, seen):
            m.check("visited iff reachable", Iff(f("visited", v), r))
            for w in V:
                m.check("events are exactly the edges", Iff(f("edge", v, w), And(r, E(v, w))))
        expected = {("visited", v) for v in V} | {("edge", v, w) for v in V for w in V}
        for key in list(m.facts):
            if key in expected or key == "nontree" or isinstance(key, tuple) and key[0] in ("trees", "visited"):
                continue
            m.check(str(key), Not(f(*key) if isinstance(key, tuple) else f(key)))
        m.cover("nontree", f("nontree"))
        if s is None:
            m.cover("forest", f("trees", 2))
        m.finish()
        m.facts = {}


def harness(c, cfg):
    m = c.mod("dfs")
    G, V, E = graph(c, cfg, directed=True)
    op = cfg["op"]
    start = None
    if op != "reachable" and V:
        k = c.choice("start", range(-1, len(V)) if op == "search" else (-1, len(V) - 1))
        start = None if k < 0 else V[k]
    c.outcome("whole" if start is None else "start")
    args = (G,) if start is None else (G, start)
    if op == "search":
        events = c.observe(list(m.search(*args)))
        replay_events(c, m, events, V, E, start)
    elif op == "agree":
        events = list(m.search(*args))
        pre, post = list(m.preorder(*args)), list(m.postorder(*args))
        c.observe((pre, post))
        c.check("preorder", pre == [w for v, w, t in events if t == m.forward])
        c.check("postorder", post == [w for v, w, t in events if t == m.reverse])
        if start is None:
            log = []

            class S(m.Searcher):
                def preorder(self, parent, child):
                    log.append((parent, child, m.forward))

                def postorder(self, parent, child):
                    log.append((parent, child, m.reverse))

                def backedge(self, source, destination):
                    log.append((source, destination, m.nontree))
            S(G)
            replay_events(c, m, log, V, E, None)
            c.check("searcher callbacks", log == events)
    else:
        i, j = c.choice("i", range(len(V))), c.choice("j", range(len(V)))
        r = c.observe(m.reachable(G, V[i], V[j]))
        c.outcome("reachable" if r else "unreachable")
        R = c.memo("R", lambda: reach(V, E))
        c.check("reachability", Iff(bool(r), R[V[i], V[j]]))
