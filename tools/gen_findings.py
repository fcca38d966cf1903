"""Write known_findings.json: open findings (none) and the defects already repaired in /repo."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = []
FIXED = [l.split(" ", 2) for l in """\
P05 820f0a5 isTopologicalOrder accepted [0, 0, 1] for the graph 0 -> 1
P06 1ccf0ae TracePaths split a path when its later vertices come first in the graph
P06 53f8f36 MaximumAntichain left out vertices without predecessors that have successors
P12 904075d PartitionRefinement([]) held one empty set, so lex_bfs({}) failed
P09 9f43336 st_orientation accepted a graph with an isolated vertex
P10 fe735aa imperfections of {0: [1, 2]} raised KeyError instead of reporting every edge
P11 1f9860e UnionFind.union(1, 'a') raised TypeError (objects compared)
P14 e45a387 core(G, k) with k above the degeneracy returned a nonempty set
P13 e83456e MinimumSpanningTree compared vertices when two weights are equal
P18 3ad497c partial cube labelling compared vertices that cannot be ordered
P27 a84cdf6 BitVectorHeap.remove(1) also removed values of other bits
P30 089b933 SortedSet listed an item twice when added again after an iteration
P31 153c9f0 PartitionRefinement.freeze twice lost every set
P28 f353776 Sequence()[0] returned None instead of raising IndexError
P28 0e99c5c querying a keyed Sequence returned keys instead of the stored items
P29 3ce2177 ordered sequences used sys.maxint, which does not exist
P29 a48686b append on a keyed ordered sequence stored the key
P29 63706f3 insertBefore between two items left the new item without a tag
P29 ff5691d renumbering a keyed ordered sequence wrote tags under the items
P34 b56a1e1 LCA raised TypeError for trees whose nodes cannot be ordered
P44 cebf1f8 every sparse6 text with the format header was refused
P44 f9a5d99 sparse6 ':A_' and others raised RuntimeError at the end of the data
P44 5cd4918 sparse6 padding after the last vertex was read as an edge to an unknown vertex
P45 0f3a87e every multi-line format raised TypeError (a filter object was indexed)
P45 9644585 a self-loop in a LEDA.GRAPH file was silently dropped
P42 66b0c42 the factorization yielded for 3 later became that of 6
P49 79612a7 GeneralizedCoxeterGraph(7, 2, 3) was not an undirected graph
P48 d58682e rectangle(0+5j, 1+6j) was drawn at y=0
P51 1f78113 NormalizePacking raised AttributeError
P23 a125237 pprint raised TypeError (Python 2 print statement)
P22 0d05ae0 the expression written for an automaton over {*} was '*', not an escaped star
P22 7afd71a RegExp() of an automaton for {empty, a} wrote '+a', in which the plus sign is a letter
P22 8dab046 RegExp('a)') was accepted
P22 0437641 RegExp('(a*b)*') accepted 'a'
P24 35faa08 every language was true, so <= never held
P24 3417e85 a language equalled its complement
P24 cd342a5 minimize merged inequivalent states of a 5-state automaton
P46 21e2782 all_solutions yielded the same completion twice (467385921900706800800090067080609700096070080701038096600857009078900600009063078)
P47 d70bde1 subproblem raised TypeError or IndexError, not BadSudoku, for a group that cannot be filled
P38 532ef0c wrap could not be imported (import of a top-level smawk)
""".splitlines() if l]


def main():
    with open(os.path.join(HERE, "known_findings.json"), "w") as f:
        json.dump(dict(findings=FINDINGS, fixed=["fixed: property=%s %s %s" % tuple(x) for x in FIXED]), f, indent=1)
        f.write("\n")


main()
