"""Write /verif/properties.jsonl from the table below (one property per entry)."""
import json, os

P = []


def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state:
        d["anchors"]["state"] = [dict(name=n, where=files[0]) for n in state]
    if observe:
        d["anchors"]["observe_at"] = observe
    assert len(title) <= 80, title
    P.append(d)


p("P01", "Basic graph utilities agree with the definition of a graph",
  "For every finite graph given as a mapping from vertices to neighbour collections: the undirectedness test is true exactly for symmetric loop-free graphs, degrees are the true minimum and maximum, copying and inducing a subgraph return exactly the requested vertices and the edges among them in fresh collections, and the union of graphs contains exactly the vertices and edges of its arguments. The independence test is true exactly when no two chosen vertices are adjacent.",
  ["inputs"], "all directed graphs, vertex subsets and pairs of graphs",
  "The tests use one or two hand-written graphs; a wrong treatment of asymmetric edges, self-loops or empty neighbour lists is invisible there.",
  ["pads/graphs.py"], [("utilities", "pads/graphs.py")])

p("P02", "Depth-first search visits exactly what is reachable, in nested order",
  "For every directed graph, a depth-first traversal visits each vertex exactly once (exactly the vertices reachable from the start when one is given), its forward and reverse events are properly nested tree edges, and every non-tree edge is reported once. Preorder, postorder and the callback-style searcher agree with that same traversal, and the reachability query is true exactly when a directed path exists.",
  ["inputs"], "all directed graphs, start vertices and source/target pairs",
  "Traversal mistakes depend on the interplay of edge order, cycles and restart order over all graphs, of which unit tests exercise a handful.",
  ["pads/dfs.py"], [("search generator", "pads/dfs.py:search"), ("Searcher callbacks", "pads/dfs.py:Searcher")])

p("P03", "Breadth-first levels are exactly the distance layers",
  "For every directed graph and start vertex, the breadth-first generator yields nonempty levels such that the i-th level holds exactly the vertices at directed distance i from the start, and it records, for each vertex, exactly the edges leading one level down.",
  ["inputs"], "all directed graphs and start vertices",
  "Only a single example is tested; an off-by-one in a level or a revisited vertex needs particular shortcuts in the graph.",
  ["pads/bfs.py"], [("breadth_first_levels", "pads/bfs.py")])

p("P04", "Strong components and condensation are exact for every digraph",
  "For every directed graph, the strongly connected components found partition the vertices so that two vertices share a component exactly when each reaches the other, each component is given with exactly its own internal edges, and the condensation has one vertex per component with an edge exactly between components joined by an edge of the graph, hence is acyclic.",
  ["inputs"], "all directed graphs (with and without self-loops)",
  "Low-link bookkeeping errors show only for specific combinations of cross, back and forward edges.",
  ["pads/strong_connectivity.py"], [("StronglyConnectedComponents, Condensation", "pads/strong_connectivity.py")])

p("P05", "Topological order, acyclicity and reachability oracles are exact",
  "For every directed graph, a topological order is produced exactly when the graph is acyclic (otherwise an error is raised), it lists every vertex once with all edges going forward, the topological-order and acyclicity tests answer accordingly, the transitive closure has exactly the nontrivially reachable pairs, and the acyclic reachability oracle answers every pair query exactly as path existence.",
  ["inputs"], "all directed graphs, candidate orderings and vertex pairs",
  "Correctness quantifies over all graphs and all orders of the vertex set; tests check one chain and one hypercube.",
  ["pads/partial_order.py", "pads/acyclic_reachability.py"],
  [("TopologicalOrder, TransitiveClosure", "pads/partial_order.py"), ("Reachability", "pads/acyclic_reachability.py")])

p("P06", "Path/chain decompositions are minimum and antichains are maximum",
  "For every directed acyclic graph, the path decomposition covers each vertex exactly once by directed paths and no decomposition with fewer paths exists, the chain decomposition does the same for chains of the induced partial order, and the antichain returned is a set of pairwise unrelated elements than which none is larger.",
  ["inputs"], "all directed acyclic graphs, in every vertex order",
  "Optimality is a claim against all alternatives and all vertex orders; the tests use a hypercube where most mistakes vanish.",
  ["pads/partial_order.py", "pads/bipartite_matching.py"],
  [("MinimumPathDecomposition, MinimumChainDecomposition, MaximumAntichain, TracePaths", "pads/partial_order.py")])

p("P07", "Bipartite recognition, colouring, orientation and odd core are exact",
  "For every undirected graph, the bipartiteness test succeeds exactly when a proper two-colouring exists, the colouring, bipartition and orientation returned are proper, cover everything and respect each other, non-bipartite input is rejected by them, and the odd core is exactly the union of the edges of all biconnected components that contain an odd cycle.",
  ["inputs"], "all undirected simple graphs",
  "Odd cycles may close on any non-tree edge in any component; tests contain a few cycles and cubes.",
  ["pads/bipartite.py"], [("two_color, bipartition, bipartite_orientation, odd_core", "pads/bipartite.py")])

p("P08", "Biconnected components and the biconnectivity test are exact",
  "For every undirected graph, the biconnected components found are exactly the maximal subgraphs without a cut vertex (every edge in exactly one component, an isolated vertex as a component of its own), and the biconnectivity test is true exactly for connected graphs that no single vertex removal disconnects.",
  ["inputs"], "all undirected simple graphs",
  "Needs agreement between low-point bookkeeping and vertex-removal connectivity on all graphs and search orders.",
  ["pads/biconnectivity.py", "pads/dfs.py"], [("BiconnectedComponents, BiconnectivityTester", "pads/biconnectivity.py")])

p("P09", "st-orientation is bipolar, or the graph is rejected",
  "For every undirected graph with at least two vertices, the st-orientation of a biconnected graph orients each edge exactly once, is acyclic and has exactly one source and exactly one sink, which are adjacent; a graph that is not biconnected is rejected with the dedicated error.",
  ["inputs"], "all undirected simple graphs on two or more vertices",
  "Every biconnected graph and search order must give a single source and sink; the tests check four graphs.",
  ["pads/biconnectivity.py"], [("st_orientation, STOrienter", "pads/biconnectivity.py")])

p("P10", "Bipartite matching is maximum and certified; imperfections are exact",
  "For every bipartite graph given by its left-side adjacency, the matching returned uses only edges of the graph, matches each vertex at most once, no larger matching exists, and the two accompanying vertex lists form an independent set as large as the vertex count minus the matching size. The imperfection report lists exactly the edges that belong to no perfect matching, or the whole graph when no perfect matching exists.",
  ["inputs"], "all bipartite graphs and all left/right vertex orders",
  "Maximality is a statement about every competing matching; augmenting-path errors need particular alternating structures.",
  ["pads/bipartite_matching.py"], [("matching, imperfections", "pads/bipartite_matching.py")])

p("P11", "General-graph matching is a maximum matching",
  "For every undirected graph and every valid initial matching supplied, the general matching algorithm returns a symmetric matching made of graph edges such that no larger matching of the graph exists; the greedy starter always returns a valid matching that no further edge of the graph can extend.",
  ["inputs"], "all undirected simple graphs and initial matchings",
  "Blossom handling fails only on odd-cycle structures in particular orders, which a few examples cannot cover.",
  ["pads/cardinality_matching.py", "pads/union_find.py"], [("matching, greedy_matching", "pads/cardinality_matching.py")])

p("P12", "Chordality recognition and lexicographic BFS order are exact",
  "For every undirected graph, the chordality test is true exactly when every cycle of length four or more has a chord, a chordal graph gets a perfect elimination ordering (for each vertex, its neighbours placed after it are pairwise adjacent) and others are rejected, and the lexicographic breadth-first order lists every vertex exactly once in an order satisfying the lexicographic label rule.",
  ["inputs"], "all undirected simple graphs",
  "Chordality must agree with a search over all cycles; refinement-order bugs keep small examples right.",
  ["pads/chordal.py", "pads/lex_bfs.py", "pads/partition_refinement.py", "pads/sequence.py"],
  [("perfect_elimination_ordering", "pads/chordal.py"), ("lex_bfs", "pads/lex_bfs.py")])

p("P13", "Minimum spanning tree is a spanning forest of least weight",
  "For every undirected weighted graph, the tree edges returned are edges of the graph, acyclic, connect exactly the vertices the graph connects, and their total weight is at most that of every other spanning forest, including with equal, negative and zero weights.",
  ["inputs"], "all weighted undirected graphs, all weight orders and ties",
  "Optimality over all weight assignments is an infinite claim; tests sum one example.",
  ["pads/minimum_spanning_tree.py", "pads/union_find.py"], [("minimum_spanning_tree", "pads/minimum_spanning_tree.py")])

p("P14", "Degeneracy order, cores and triangle listing are exact",
  "For every undirected graph, the degeneracy is the largest minimum degree over all nonempty subgraphs, the removal sequence and acyclic orientation attain it, the k-core is exactly the maximal subgraph of minimum degree k (empty if there is none, the deepest core if k is omitted), and every triangle is listed exactly once.",
  ["inputs"], "all undirected simple graphs and all k",
  "Both maximality and exactly-once listing quantify over all graphs; there are almost no tests of this module.",
  ["pads/graphdegeneracy.py", "pads/bucketqueue.py"], [("degeneracySequence, core, triangles", "pads/graphdegeneracy.py")])

p("P15", "All Hamiltonian cycles of a degree-three graph, each exactly once",
  "For every undirected graph of maximum degree three, the generator yields exactly the Hamiltonian cycles of the graph, each once and as a valid cycle through all vertices, and graphs with a vertex of larger degree are rejected.",
  ["inputs"], "all undirected graphs with maximum degree three",
  "Completeness means no cycle is lost by any of the forcing rules on any graph; tests count cycles in a few symmetric ones.",
  ["pads/cubic_ham.py"], [("hamiltonian_cycles", "pads/cubic_ham.py")])

p("P16", "Halin, wheel, D3-reducible and dual 3-tree recognition is exact",
  "For every undirected graph, the Halin test is true exactly for plane trees without degree-two vertices plus a cycle through their leaves, the leaf set returned is the leaf set of such a tree, the wheel, D3-reducible and dual-3-tree tests agree with their definitions, and the Hamiltonian cycle returned for a D3-reducible graph is one cycle of graph edges through all vertices.",
  ["inputs"], "all undirected simple graphs",
  "Recognition must be right on all non-members too; tests list a few members and non-members.",
  ["pads/halin.py"], [("is_D3_reducible, halin_leaf_vertices, hamiltonian_cycle_D3, is_wheel, is_dual_3_tree", "pads/halin.py")])

p("P17", "Media: routing, embedding and transition graph are consistent",
  "For every medium whose states are an isometric family of bit vectors, acting with tokens stays inside the states and obeys token reversal, the routing table's token always brings a state strictly closer to its target, the hypercube embedding makes Hamming distance equal token distance, and explicit and graph-labelled copies of the medium act identically.",
  ["inputs"], "all isometric families of bit vectors of small width and all state pairs",
  "The guarantees hold pairwise over all states of all media; tests use the full hypercube and permutohedra.",
  ["pads/medium.py"], [("BitvectorMedium, ExplicitMedium, LabeledGraphMedium, RoutingTable, HypercubeEmbedding, StateTransitionGraph", "pads/medium.py")])

p("P18", "Partial cube recognition and labelling are exact",
  "For every connected undirected graph, recognition succeeds exactly when the graph embeds isometrically in a hypercube, the labels produced have Hamming distance equal to graph distance for all pairs, and two edges get the same class exactly when they flip the same coordinate.",
  ["inputs"], "all connected undirected simple graphs",
  "Rejecting every non-partial-cube requires checking all of them, not the few named in tests.",
  ["pads/partial_cube.py", "pads/medium.py"], [("PartialCubeEdgeLabeling, PartialCubeLabeling, isPartialCube", "pads/partial_cube.py")])

p("P19", "Cubic match partitions and xyz embeddings are complete",
  "For every biconnected cubic graph, the match-partition generator yields every partition of the edges into three perfect matchings exactly once, and the xyz search yields exactly those for which placing vertices by bicoloured-path membership gives distinct points with axis-parallel edges, at most two vertices per axis-parallel line.",
  ["inputs"], "all biconnected cubic graphs",
  "Completeness over all edge three-colourings cannot be read off the two counts asserted in tests.",
  ["pads/xyz_graph.py", "pads/biconnectivity.py"], [("CubicMatchPartitions, xyzEmbeddings, isxyz", "pads/xyz_graph.py")])

p("P20", "2-satisfiability decisions and forced values are exact",
  "For every two-literal implication instance over hashable variables, satisfiability is reported exactly when some truth assignment satisfies all implications, a forced-value report maps exactly the variables that take the same value in all satisfying assignments to that value, and no report is given for an unsatisfiable instance. Symbolic negation is an involution consistent with equality and hashing.",
  ["inputs"], "all implication instances",
  "Exactness is with respect to all truth assignments of all instances; the tests use two.",
  ["pads/two_satisfiability.py", "pads/_not.py", "pads/acyclic_reachability.py"], [("Symmetrize, Satisfiable, Forced", "pads/two_satisfiability.py")])

p("P21", "Nonrepetitive-path queries are exact",
  "For every directed graph with edge labels, an edge is reported as lying on a closed nonrepetitive walk exactly when such a walk exists, the reachable report from a vertex and starting label contains exactly the vertex and final-label pairs joined by a walk in which consecutive labels differ, and the shortest-path query returns such a walk of least length or fails when none exists.",
  ["inputs"], "all small labelled digraphs and all queries",
  "Gadget construction depends on the number of labels at a vertex; only one graph is tested.",
  ["pads/repetitivity.py"], [("NonrepetitiveGraph", "pads/repetitivity.py")])

p("P22", "Regular expressions accept exactly the language they denote",
  "For every well-formed regular expression built from letters, concatenation, alternation, star, grouping, the empty group and escapes, the automaton built from it accepts a string exactly when the expression matches it, unbalanced groups and dangling escapes are rejected, and converting an automaton back to an expression preserves the language.",
  ["inputs", "programs"], "all regular expressions up to a length and all words up to a length",
  "Wrong follow sets or empty-word handling appear only for particular nestings of star, alternation and grouping.",
  ["pads/automata.py"], [("RegExp parser, NFA.RegExp", "pads/automata.py")])

p("P23", "Automaton operations compute the stated languages",
  "For all finite automata over one alphabet, determinisation, renumbering, complement, union, intersection, symmetric difference and reversal accept exactly the corresponding language, and words with symbols outside the alphabet are refused.",
  ["inputs", "programs"], "all small nondeterministic automata, pairs of them, and words",
  "The laws must hold for every automaton and word, including unreachable states, empty initial sets and dead ends.",
  ["pads/automata.py"], [("_ProductDFA, _ComplementDFA, _DFAfromNFA, _ReverseNFA, _RenumberNFA, LookupNFA", "pads/automata.py")])

p("P24", "DFA minimisation is minimal; language comparisons are exact",
  "For every deterministic automaton, minimisation preserves the language and yields the least number of states (no two states equivalent, all reachable), and language equality, inequality, subset, superset, proper containment and emptiness tests agree with the sets of accepted words.",
  ["inputs", "programs"], "all small deterministic automata and pairs of them",
  "A missed refinement needs a particular automaton and processing order; comparison of languages is over infinitely many words.",
  ["pads/automata.py", "pads/partition_refinement.py"], [("_MinimumDFA, DFA equality, RegularLanguage comparisons", "pads/automata.py")])

p("P25", "Union-find names identify exactly the merged sets",
  "For every history of lookups and unions over hashable objects, two objects have the same representative exactly when the unions performed connect them, a representative is a member of its own set, it stays unchanged as long as the set does, and iteration lists every object seen.",
  ["histories"], "all bounded histories of operations and all equality patterns of objects",
  "The guarantee is over all histories; path compression and weight errors need specific union orders.",
  ["pads/union_find.py"], [("UnionFind", "pads/union_find.py")], state=["parent forest and weights"])

p("P26", "Bucket queue always yields a minimum-priority item",
  "For every history of insertions, priority changes, deletions and removals with integer priorities, the bucket queue behaves as a mapping from items to their latest priority, iteration repeatedly removes an item of least priority, including when priorities change during the iteration, and non-integer priorities are rejected.",
  ["histories"], "all bounded histories and priority assignments",
  "Stale minimum pointers appear only after particular interleavings of decrease, delete and iterate.",
  ["pads/bucketqueue.py"], [("BucketQueue", "pads/bucketqueue.py")], state=["bucket table and current minimum"])

p("P27", "Integer heaps behave as sets with exact minimum",
  "For every history of insertions, deletions and minimum queries on the bit-vector, flat and linear integer heaps, the minimum reported is the least stored integer, truth value reflects non-emptiness, re-insertion and deletion of absent values change nothing, and no operation disturbs other stored values.",
  ["histories"], "all bounded histories of operations on integers in the declared range",
  "Bit-trick and recursive-structure errors corrupt other elements only for particular value combinations.",
  ["pads/integer_heap.py"], [("BitVectorHeap, FlatHeap, LinearHeap, IntegerHeap", "pads/integer_heap.py")], state=["bit vectors and recursive queues"])

p("P28", "Linked sequences behave as lists under every edit history",
  "For every history of appends, insertions before or after an item, removals and neighbour, index and length queries on a linked sequence of distinct items (with or without a key function), the contents and order equal those of an ordinary list edited the same way, and impossible edits or queries are refused without changing the contents.",
  ["histories"], "all bounded edit histories",
  "Circular pointer updates fail only for edits at particular ends of particular lengths.",
  ["pads/sequence.py"], [("Sequence", "pads/sequence.py")], state=["next/previous tables"])

p("P29", "Order-maintenance comparisons always match the sequence order",
  "For every history of insertions and removals on an order-maintaining sequence, comparing two members reports exactly which comes first in the sequence, also after the internal renumbering that dense insertions trigger, for both the simple and the logarithmic variants.",
  ["histories"], "all bounded edit histories, including ones preceded by enough dense insertions to exhaust the tag space",
  "Renumbering is reached only after dozens of adversarial insertions at one spot.",
  ["pads/ordered_sequence.py", "pads/sequence.py"], [("SimpleOrderedSequence, LogarithmicOrderedSequence", "pads/ordered_sequence.py")], state=["tags"])

p("P30", "Sorted set iteration equals sorting the current contents",
  "For every history of additions, removals, membership tests and iterations, iterating the sorted set gives exactly the current distinct members in increasing order, and membership and length reflect the history.",
  ["histories"], "all bounded histories and all value orders",
  "Lazy merging of pending additions and removals is wrong only for particular interleavings with iteration.",
  ["pads/sorted_set.py"], [("SortedSet", "pads/sorted_set.py")], state=["pending additions/removals"])

p("P31", "Partition refinement keeps an exact partition",
  "For every initial set of elements and every history of refinements, element additions and removals, the structure holds disjoint sets covering exactly the elements, two elements share a set exactly when no refinement separated them, each refinement reports exactly the sets it split as new part and remaining part, and freezing keeps the same partition.",
  ["histories"], "all bounded histories of refinements with arbitrary splitters",
  "Every splitter sequence must be right, including splitters covering whole sets or containing foreign elements.",
  ["pads/partition_refinement.py"], [("PartitionRefinement", "pads/partition_refinement.py")], state=["set and membership tables"])

p("P32", "Frequency estimates stay within the promised accuracy",
  "For every stream of hashable keys and every accuracy parameter, each key's estimated frequency is at most its true frequency and within the accuracy of it, and the number of keys tracked never exceeds the reciprocal of the accuracy.",
  ["histories"], "all bounded streams and several accuracies",
  "The error bound is a worst-case claim over all streams and every prefix.",
  ["pads/frequencyestimator.py"], [("FrequencyEstimator", "pads/frequencyestimator.py")], state=["counters"])

p("P33", "Range minimum structures equal the minimum of the slice",
  "For every list of comparable values, including ties, and every slice, each range-minimum structure returns the minimum of that slice, and out-of-range or stepped slices behave as documented.",
  ["inputs"], "all lists up to a length and all slices",
  "Block decomposition and precomputed tables err only for particular lengths, block boundaries and value patterns.",
  ["pads/lca.py"], [("RangeMin, RestrictedRangeMin, PrecomputedRangeMin, LogarithmicRangeMin", "pads/lca.py")])

p("P34", "Lowest common ancestors are exact, online and offline",
  "For every rooted tree given by parent links with arbitrary hashable node names, and every list of nodes queried, the online and the offline structures both return the deepest node that is an ancestor of all of them.",
  ["inputs"], "all rooted trees up to a size and all node tuples",
  "Must hold for all tree shapes and query pairs; tests use one tree.",
  ["pads/lca.py", "pads/union_find.py"], [("LCA, OfflineLCA", "pads/lca.py")])

p("P35", "Longest common subsequence is common and longest",
  "For all pairs of sequences, the subsequence returned is a subsequence of both inputs and no longer common subsequence exists.",
  ["inputs"], "all pairs of sequences up to a length, all equality patterns",
  "Optimality is over all alternatives; tests compare one pair.",
  ["pads/lcs.py"], [("LCS", "pads/lcs.py")])

p("P36", "Longest increasing subsequence is increasing, longest, lowest-ending",
  "For every sequence of comparable values, the result is a strictly increasing subsequence, none is longer, and among the longest none ends in a smaller value.",
  ["inputs"], "all sequences up to a length, all orders and ties",
  "Tie handling and predecessor bookkeeping errors need particular orders.",
  ["pads/longest_increasing_subsequence.py"], [("longest_increasing_subsequence", "pads/longest_increasing_subsequence.py")])

p("P37", "Column minima of totally monotone matrices are exact",
  "For every totally monotone matrix, the offline searcher returns for each column its minimum and the first row attaining it, and the online version, whose entries may depend on earlier minima, returns for each column the true minimum and an index attaining it.",
  ["inputs"], "all totally monotone matrices up to a size, all integer entries, ties included",
  "The reduce step discards columns; a wrong discard needs special value patterns among infinitely many matrices.",
  ["pads/smawk.py"], [("ConcaveMinima, OnlineConcaveMinima", "pads/smawk.py")])

p("P38", "Paragraph wrapping keeps the words and is optimal for its penalties",
  "For every text, word-width function and target width, wrapping returns lines whose words are the words of the text in order, separated as in the text, and (ignoring the one-word last-line penalty) the total penalty of the line breaks chosen is no larger than that of any other choice of breaks.",
  ["inputs"], "all width assignments for texts of a few words and all targets",
  "Optimality over all break choices and widths is not checkable by examples, and there is no test of this module.",
  ["pads/wrap.py", "pads/smawk.py"], [("wrap", "pads/wrap.py")])

p("P39", "Lyndon words, de Bruijn sequences and factorisations are exact",
  "For every alphabet size and length limit, the generators list exactly the Lyndon words in lexicographic order without repeats and the count agrees, the de Bruijn sequence contains every word of the given length exactly once cyclically, and for every sequence the factorisation is the unique nonincreasing one into Lyndon words, while smallest suffix, smallest rotation and the Lyndon test agree with their definitions.",
  ["inputs"], "all sequences up to a length over any ordered symbols; all small alphabet sizes and lengths",
  "Uniqueness and completeness are over all words.",
  ["pads/lyndon.py"], [("LengthLimitedLyndonWords, ChenFoxLyndonBreakpoints, SmallestRotation, DeBruijnSequence", "pads/lyndon.py")])

p("P40", "Permutation generators list each arrangement once by adjacent swaps",
  "For every list of items, the plain-changes generator yields every permutation exactly once with successive ones differing by one adjacent swap, the involution and Stirling-permutation generators yield exactly all involutions and Stirling permutations once each, and the double-permutation generator yields distinct arrangements of doubled items differing by one adjacent swap.",
  ["inputs"], "all sizes up to a bound and all arrangements",
  "Completeness is over all arrangements; the tests compare lists for tiny sizes.",
  ["pads/permutations.py"], [("PlainChanges, SteinhausJohnsonTrotter, StirlingPermutations, Involutions, DoubleSteinhausJohnsonTrotter", "pads/permutations.py")])

p("P41", "Integer partition generators are complete, ordered and repetition-free",
  "For every nonnegative integer, each partition generator yields exactly the partitions of it, each once as a nonincreasing list of positive parts and in its documented order; the restricted generators yield exactly the partitions of the documented kind, and conjugation is the transpose of the diagram and an involution.",
  ["inputs"], "all integers and lengths up to a bound; all partitions for conjugation",
  "Completeness is a claim about all partitions of all integers.",
  ["pads/integer_partitions.py"], [("mckay, revlex, lex, binary, fixed_length, conjugate", "pads/integer_partitions.py")])

p("P42", "Prime, factorisation, Moebius and practical-number streams are exact",
  "The prime stream lists exactly the primes in order, the factorisation stream gives every positive integer with its exact prime factorisation (and what was yielded stays correct while the stream advances), the Moebius stream has the values of the Moebius function, and the practical-number stream lists exactly the integers all of whose smaller numbers are sums of distinct divisors.",
  ["histories"], "every prefix of the streams up to a bound",
  "Sieve scheduling errors appear at composite collisions beyond the prefixes tested.",
  ["pads/eratosthenes.py"], [("primes, factored_integers, moebius_function, practical_numbers", "pads/eratosthenes.py")])

p("P43", "Integer grid points are enumerated once each by distance",
  "The grid-point stream yields every integer point of the plane exactly once, in nondecreasing order of distance from the origin.",
  ["histories"], "every prefix of the stream up to a radius",
  "Ordering and completeness concern an unbounded stream.",
  ["pads/integerpoints.py"], [("integer_points_by_distance", "pads/integerpoints.py")])

p("P44", "Compact graph formats decode to exactly the encoded graph",
  "For every graph, reading its graph6 encoding, and reading its sparse6 encoding with standard padding, with or without the format header, returns exactly that graph with each edge recorded symmetrically under one identifier, and data of the wrong length is refused.",
  ["inputs"], "all graphs up to a size with all their encodings",
  "Bit packing and padding errors depend on vertex count modulo word size and on particular edges.",
  ["pads/read_undirected_graph.py"], [("readGraph6, readSparse6, readUndirectedGraph", "pads/read_undirected_graph.py")])

p("P45", "Textual graph formats are detected and read back exactly",
  "For every graph written in edge-list, node-edge-list, MALF, LEDA or GraphML form, reading it with automatic format detection returns exactly its vertices and edges with distinct edge identifiers, symmetric in both directions; self-loops, unknown vertices and malformed lines are refused with the format error.",
  ["inputs"], "all graphs up to a size in each format, and single-field corruptions",
  "Format detection order and per-line parsing interact; there is almost no test of text formats.",
  ["pads/read_undirected_graph.py"], [("readEdgeList, readNodeEdgeList, readMALF, readLeda, readGraphML, readUndirectedGraph", "pads/read_undirected_graph.py")])

p("P46", "Sudoku search finds all solutions and only solutions",
  "For every puzzle, the solution generator yields every completion consistent with the given cells exactly once and nothing else, contradictory puzzles yield none, and the uniqueness test is true exactly when one completion exists.",
  ["inputs"], "all choices of given cells within a window of symbolic clues on several base grids",
  "Exactness is over all completions of all puzzles; the module has no tests.",
  ["pads/sudoku.py"], [("Sudoku, all_solutions, unisolvent", "pads/sudoku.py")])

p("P47", "Sudoku deduction rules never discard a possible solution",
  "From every reachable puzzle state, each deduction rule that does not presuppose uniqueness keeps every completion consistent with the puzzle possible, rules that presuppose uniqueness keep the unique completion, and a contradiction is announced only when no completion exists.",
  ["inputs", "histories"], "all choices of given cells within a window on several base grids, all rules, all deduction steps",
  "Unsound deductions need rare patterns of candidates.",
  ["pads/sudoku.py", "pads/bipartite_matching.py", "pads/repetitivity.py", "pads/two_satisfiability.py"], [("rules and step", "pads/sudoku.py")])

p("P48", "Vector drawing output places shapes where requested",
  "For all coordinates, every drawing primitive emits well-formed nested markup in which positions, sizes and radii are those requested (corners in any order for rectangles), and groups are closed in the order they were opened.",
  ["inputs"], "all coordinates and call nestings",
  "A swapped coordinate is only visible for unequal values; output is not tested.",
  ["pads/svg.py"], [("SVG", "pads/svg.py")])

p("P49", "Named graph constructors return the graphs they promise",
  "For all valid parameters, the generalised Petersen, generalised Coxeter and LCF constructors return undirected simple cubic graphs with the stated vertex and edge structure, and the named cubic graphs have their known order and girth.",
  ["inputs", "configurations"], "all parameters within a bound",
  "Parametric families are used by tests only through single instances.",
  ["pads/graph_examples.py"], [("GeneralizedPetersenGraph, GeneralizedCoxeterGraph, LCFNotation", "pads/graph_examples.py")])

p("P50", "Circle packing radii and positions converge to a valid packing",
  "For every triangulated planar complex with given boundary radii, the computed circles are tangent exactly for adjacent vertices and interior angle sums equal a full turn, up to the stated tolerance.",
  ["inputs"], "all triangulated complexes and boundary radii",
  "Convergence is a numerical claim over all inputs.",
  ["pads/circle_pack.py"], [("CirclePack", "pads/circle_pack.py")])

p("P51", "Packing transformations preserve tangency and scale correctly",
  "For every pair of circles in a packing, rescaling gives the reference circle the requested radius and keeps every shape up to similarity, and inversion keeps mutually tangent circles tangent and is undone by inverting again, up to rounding.",
  ["inputs"], "all packings of a few circles over the reals",
  "The geometric laws hold for all coordinates; no test calls these functions.",
  ["pads/circle_pack.py"], [("NormalizePacking, InvertPacking", "pads/circle_pack.py")])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P))
