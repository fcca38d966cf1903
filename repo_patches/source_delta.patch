From 820f0a519418d71a0abb764f599f51cebc60c41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:23:46 +0000
Subject: [PATCH 01/40] fix: reject orderings with repeated vertices in
 isTopologicalOrder

---
 pads/partial_order.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pads/partial_order.py b/pads/partial_order.py
index 630744f..9cde467 100644
--- a/pads/partial_order.py
+++ b/pads/partial_order.py
@@ -16,6 +16,8 @@ def isTopologicalOrder(G, L):
         if L[i] not in G:
             return False
         vnum[L[i]] = i
+    if len(vnum) != len(L):
+        return False
     for v in G:
         if v not in vnum:
             return False
-- 
2.43.0


From 1ccf0aeaa793a0a01d0123934e6d946e496477bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:23:46 +0000
Subject: [PATCH 02/40] fix: trace whole paths in TracePaths whatever the
 vertex order

---
 pads/partial_order.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/pads/partial_order.py b/pads/partial_order.py
index 9cde467..0dc9397 100644
--- a/pads/partial_order.py
+++ b/pads/partial_order.py
@@ -59,13 +59,14 @@ def TracePaths(G):
     """
     Turn a DAG with indegree and outdegree <= 1 into a sequence of lists.
     """
-    L = []
-    for v in TopologicalOrder(G):
-        if L and v not in G[L[-1]]:
-            yield L
-            L = []
-        L.append(v)
-    if L:
+    order = TopologicalOrder(G)
+    successors = {w for v in G for w in G[v]}
+    for v in order:
+        if v in successors:
+            continue
+        L = [v]
+        while G[L[-1]]:
+            L.extend(G[L[-1]])
         yield L
 
 
-- 
2.43.0


From 53f8f363fe735ff37b085a2ad6e3523cc38f272d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:23:46 +0000
Subject: [PATCH 03/40] fix: count vertices without predecessors in
 MaximumAntichain

---
 pads/partial_order.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pads/partial_order.py b/pads/partial_order.py
index 0dc9397..f252ac6 100644
--- a/pads/partial_order.py
+++ b/pads/partial_order.py
@@ -98,5 +98,8 @@ def MaximumAntichain(G):
     """
     if not isAcyclic(G):
         raise ValueError("MaximumAntichain: input is not acyclic.")
-    M, A, B = matching(TransitiveClosure(G))
-    return set(A).intersection(B)
+    TC = TransitiveClosure(G)
+    M, A, B = matching(TC)
+    # vertices without predecessors never show up on the right side
+    minimal = set(G).difference(*TC.values())
+    return set(A).intersection(minimal.union(B))
-- 
2.43.0


From 904075d1ecf994c23cb19d979291189d277bd1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:25:18 +0000
Subject: [PATCH 04/40] fix: start an empty partition without an empty set

---
 pads/partition_refinement.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/partition_refinement.py b/pads/partition_refinement.py
index b907d5d..1031b13 100644
--- a/pads/partition_refinement.py
+++ b/pads/partition_refinement.py
@@ -24,7 +24,7 @@ class PartitionRefinement:
         items.  Initially, all items belong to the same subset.
         """
         S = set(items)
-        self._sets = {id(S): S}
+        self._sets = {id(S): S} if S else {}
         self._partition = {x: S for x in S}
 
     def __getitem__(self, element):
-- 
2.43.0


From 9f43336d35a7de9e6b53d045ed2c31205c4ad0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:25:18 +0000
Subject: [PATCH 05/40] fix: reject isolated vertices in st_orientation

---
 pads/biconnectivity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/biconnectivity.py b/pads/biconnectivity.py
index eacc0b1..4960c82 100644
--- a/pads/biconnectivity.py
+++ b/pads/biconnectivity.py
@@ -191,7 +191,7 @@ class STOrienter(Searcher):
 def st_orientation(G):
     """Find an acyclic orientation of G, with one source and one sink."""
     stO = STOrienter(G)
-    if len(stO.roots) != 1:
+    if len(stO.roots) != 1 or not all(G[v] for v in G):
         raise NotBiconnected
 
     source, dest = stO.roots[0]
-- 
2.43.0


From fe735aab818c4a7adb678b6bc9c711e929b8e060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:26:19 +0000
Subject: [PATCH 06/40] fix: report no perfect matching when imperfections
 leaves a right vertex unmatched

---
 pads/bipartite_matching.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/bipartite_matching.py b/pads/bipartite_matching.py
index 7a4b156..9058a05 100644
--- a/pads/bipartite_matching.py
+++ b/pads/bipartite_matching.py
@@ -98,7 +98,7 @@ def imperfections(graph):
     not including v.
     """
     M, A, B = matching(graph)
-    if len(M) != len(graph):
+    if len(M) != len(graph) or any(w not in M for v in graph for w in graph[v]):
         return graph    # whole graph is imperfect
 
     orientation = {}
-- 
2.43.0


From 1f9860e1fe101fcd2484c465bc7955a7ca3dcff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:29:01 +0000
Subject: [PATCH 07/40] fix: allow union of objects that cannot be ordered

---
 pads/union_find.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/union_find.py b/pads/union_find.py
index 320bba1..402b836 100644
--- a/pads/union_find.py
+++ b/pads/union_find.py
@@ -59,7 +59,7 @@ class UnionFind:
     def union(self, *objects):
         """Find the sets containing the objects and merge them all."""
         roots = [self[x] for x in objects]
-        heaviest = max([(self.weights[r], r) for r in roots])[1]
+        heaviest = max(roots, key=lambda r: self.weights[r])
         for r in roots:
             if r != heaviest:
                 self.weights[heaviest] += self.weights[r]
-- 
2.43.0


From e45a387d0efe71f4e0946247462706dcd993add1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:31:52 +0000
Subject: [PATCH 08/40] fix: return an empty k-core when k exceeds the
 degeneracy

---
 pads/graphdegeneracy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pads/graphdegeneracy.py b/pads/graphdegeneracy.py
index 344d486..7ec7da1 100644
--- a/pads/graphdegeneracy.py
+++ b/pads/graphdegeneracy.py
@@ -49,6 +49,8 @@ def core(G, k=None):
                 coreset = set()         # yes, restart core
                 level = d
         coreset.add(v)
+    if k is not None and level < k:
+        return set()                    # no core is that deep
     return coreset
 
 
-- 
2.43.0


From e83456e78ba59c5fe9292dad84c34125165e3dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:31:52 +0000
Subject: [PATCH 09/40] fix: compare only weights when sorting spanning tree
 edges

---
 pads/minimum_spanning_tree.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pads/minimum_spanning_tree.py b/pads/minimum_spanning_tree.py
index 53cb041..a0759da 100644
--- a/pads/minimum_spanning_tree.py
+++ b/pads/minimum_spanning_tree.py
@@ -28,7 +28,8 @@ def MinimumSpanningTree(G):
     # part (the sort) is sped up by being built in to Python.
     subtrees = UnionFind()
     tree = []
-    for W, u, v in sorted((G[u][v], u, v) for u in G for v in G[u]):
+    for W, u, v in sorted(((G[u][v], u, v) for u in G for v in G[u]),
+                          key=lambda edge: edge[0]):
         if subtrees[u] != subtrees[v]:
             tree.append((u, v))
             subtrees.union(u, v)
-- 
2.43.0


From 3ad497c4e45a1de32b845984be0d7fa4c3d3f70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:31:52 +0000
Subject: [PATCH 10/40] fix: label partial cubes whose vertices cannot be
 ordered

---
 pads/partial_cube.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pads/partial_cube.py b/pads/partial_cube.py
index 19ac1ba..bae4af4 100644
--- a/pads/partial_cube.py
+++ b/pads/partial_cube.py
@@ -60,7 +60,8 @@ def PartialCubeEdgeLabeling(G):
             raise MediumError("graph is not bipartite")
 
         # Find max degree vertex in G, and update label limit
-        deg, root = max([(len(CG[v]), v) for v in CG])
+        root = max(CG, key=lambda v: len(CG[v]))
+        deg = len(CG[root])
         if deg > NL:
             raise MediumError("graph has too many equivalence classes")
         NL -= deg
-- 
2.43.0


From a84cdf6917bf2e6ccff1cbafffcceba6096f95cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:01:23 +0000
Subject: [PATCH 11/40] fix: remove only the given value from BitVectorHeap

---
 pads/integer_heap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/integer_heap.py b/pads/integer_heap.py
index f851690..e81b984 100644
--- a/pads/integer_heap.py
+++ b/pads/integer_heap.py
@@ -83,7 +83,7 @@ class BitVectorHeap:
 
     def remove(self, x):
         """Remove x from the values in the heap."""
-        self._S &= ~ 1 << x
+        self._S &= ~ (1 << x)
 
     def min(self):
         """Return the minimum value in the heap."""
-- 
2.43.0


From 089b933f4a79f3e9d03ec1ffeb3f62028f40b941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:01:23 +0000
Subject: [PATCH 12/40] fix: list an item once when it is added to a SortedSet
 again

---
 pads/sorted_set.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pads/sorted_set.py b/pads/sorted_set.py
index 82b71c2..dcf6a82 100644
--- a/pads/sorted_set.py
+++ b/pads/sorted_set.py
@@ -39,6 +39,8 @@ class SortedSet:
 
     def add(self, item):
         """Add the given item to a sorted set."""
+        if item in self._set:
+            return
         self._set.add(item)
         if self._previous:
             self._additions.add(item)
-- 
2.43.0


From 153c9f080b3f4d8a95dbeed2f41c886ba871dbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:01:23 +0000
Subject: [PATCH 13/40] fix: keep the sets when a partition is frozen twice

---
 pads/partition_refinement.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/partition_refinement.py b/pads/partition_refinement.py
index 1031b13..d2aacd9 100644
--- a/pads/partition_refinement.py
+++ b/pads/partition_refinement.py
@@ -87,5 +87,5 @@ class PartitionRefinement:
             F = frozenset(S)
             for x in F:
                 self._partition[x] = F
-            self._sets[id(F)] = F
             del self._sets[id(S)]
+            self._sets[id(F)] = F
-- 
2.43.0


From f3537766026c48f2bbdb5a6ac27690c43f293e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:01:23 +0000
Subject: [PATCH 14/40] fix: raise IndexError when indexing an empty sequence

---
 pads/sequence.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pads/sequence.py b/pads/sequence.py
index adc3a2b..38bc354 100644
--- a/pads/sequence.py
+++ b/pads/sequence.py
@@ -46,6 +46,8 @@ class Sequence:
 
     def __getitem__(self, i):
         """Return the ith item in the sequence."""
+        if not self._next:
+            raise IndexError("Index out of range")
         item = self._first
         while i:
             item = self._next[item]
-- 
2.43.0


From 0e99c5c9eeaba212d62720862a44cdfa885b876c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:01:23 +0000
Subject: [PATCH 15/40] fix: keep the stored items when a keyed sequence is
 queried

---
 pads/sequence.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pads/sequence.py b/pads/sequence.py
index 38bc354..716140d 100644
--- a/pads/sequence.py
+++ b/pads/sequence.py
@@ -71,9 +71,7 @@ class Sequence:
         """Apply supplied key function."""
         if not self._key:
             return x
-        key = self._key(x)
-        self._items[key] = x
-        return key
+        return self._key(x)
 
     def _insafter(self, x, y):
         """Unkeyed version of insertAfter."""
@@ -85,13 +83,14 @@ class Sequence:
 
     def append(self, x):
         """Add x to the end of the sequence."""
-        x = self.key(x)
+        item, x = x, self.key(x)
         if not self._next:  # add to empty sequence
             self._next = {x: x}
             self._prev = {x: x}
             self._first = x
         else:
             self._insafter(self._prev[self._first], x)
+        self._items[x] = item
 
     def remove(self, x):
         """Remove x from the sequence."""
@@ -105,15 +104,17 @@ class Sequence:
 
     def insertAfter(self, x, y):
         """Add y after x in the sequence."""
-        y = self.key(y)
+        item, y = y, self.key(y)
         x = self.key(x)
         self._insafter(x, y)
+        self._items[y] = item
 
     def insertBefore(self, x, y):
         """Add y before x in the sequence."""
-        y = self.key(y)
+        item, y = y, self.key(y)
         x = self.key(x)
         self._insafter(self._prev[x], y)
+        self._items[y] = item
         if self._first == x:
             self._first = y
 
-- 
2.43.0


From 3ce21776008dcb885a1943f32985c17c1469dc9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:01:23 +0000
Subject: [PATCH 16/40] fix: use sys.maxsize for the tags of ordered sequences

---
 pads/ordered_sequence.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pads/ordered_sequence.py b/pads/ordered_sequence.py
index 9d6a933..5f4e146 100644
--- a/pads/ordered_sequence.py
+++ b/pads/ordered_sequence.py
@@ -18,7 +18,7 @@ class SimpleOrderedSequence(Sequence):
     for each item, with the order of tags the same as the sequence order.
     When two tags collide, we renumber the whole sequence; this behavior
     can be changed by overriding the rebalance method.  Renumbers happen
-    infrequently (roughly one in every log(sys.maxint) insertions)
+    infrequently (roughly one in every log(sys.maxsize) insertions)
     but take time proportional to the number of items, so it is preferable
     to use this data structure only for sequences of very few items.
     """
@@ -45,7 +45,7 @@ class SimpleOrderedSequence(Sequence):
         """Add x to the end of the sequence."""
         if not self._next:  # add to empty sequence
             Sequence.append(self, x)
-            self._tag[self.key(x)] = sys.maxint // 2
+            self._tag[self.key(x)] = sys.maxsize // 2
         else:
             self.insertAfter(self._prev[self._first], x)
 
@@ -56,7 +56,7 @@ class SimpleOrderedSequence(Sequence):
         y = self.key(y)
         next = self._next[y]
         if next == self._first:
-            nexttag = sys.maxint
+            nexttag = sys.maxsize
         else:
             nexttag = self._tag[next]
         xtag = self._tag[x]
@@ -77,7 +77,7 @@ class SimpleOrderedSequence(Sequence):
     def rebalance(self, x):
         """Clean up after x and its successor's tags collide."""
         base = 0
-        increment = sys.maxint // len(self)
+        increment = sys.maxsize // len(self)
         for y in self:
             self._tag[y] = base
             base += increment
-- 
2.43.0


From a48686b90f1de22471afd84aab0e059cdb6479d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:01:46 +0000
Subject: [PATCH 17/40] fix: append items, not keys, to ordered sequences with
 a key function

---
 pads/ordered_sequence.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pads/ordered_sequence.py b/pads/ordered_sequence.py
index 5f4e146..9619454 100644
--- a/pads/ordered_sequence.py
+++ b/pads/ordered_sequence.py
@@ -47,7 +47,8 @@ class SimpleOrderedSequence(Sequence):
             Sequence.append(self, x)
             self._tag[self.key(x)] = sys.maxsize // 2
         else:
-            self.insertAfter(self._prev[self._first], x)
+            last = self._prev[self._first]
+            self.insertAfter(self._items.get(last, last), x)
 
     def insertAfter(self, x, y):
         """Add y after x and compute a tag for it."""
-- 
2.43.0


From 63706f30e8a6fb3a28e892fda9145b05c163f4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:01:46 +0000
Subject: [PATCH 18/40] fix: give a tag to items inserted before a later item
 of an ordered sequence

---
 pads/ordered_sequence.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pads/ordered_sequence.py b/pads/ordered_sequence.py
index 9619454..734475c 100644
--- a/pads/ordered_sequence.py
+++ b/pads/ordered_sequence.py
@@ -72,8 +72,11 @@ class SimpleOrderedSequence(Sequence):
         y = self.key(y)
         if self._first == y:
             self._tag[y] = self._tag[x] // 2
-            if self._tag[y] == self._tag[x]:
-                self.rebalance(y)
+        else:
+            prevtag = self._tag[self._prev[y]]
+            self._tag[y] = prevtag + (self._tag[x] - prevtag + 1) // 2
+        if self._tag[y] == self._tag[x]:
+            self.rebalance(y)
 
     def rebalance(self, x):
         """Clean up after x and its successor's tags collide."""
-- 
2.43.0


From ff5691d12a1a3747b33a28278e9598aa94be8b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:01:46 +0000
Subject: [PATCH 19/40] fix: renumber ordered sequences by key

---
 pads/ordered_sequence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/ordered_sequence.py b/pads/ordered_sequence.py
index 734475c..7ffc568 100644
--- a/pads/ordered_sequence.py
+++ b/pads/ordered_sequence.py
@@ -83,7 +83,7 @@ class SimpleOrderedSequence(Sequence):
         base = 0
         increment = sys.maxsize // len(self)
         for y in self:
-            self._tag[y] = base
+            self._tag[self.key(y)] = base
             base += increment
 
 
-- 
2.43.0


From b56a1e193023b4fe5db88c5092a946d5e1f572db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:15:25 +0000
Subject: [PATCH 20/40] fix: find ancestors in trees whose nodes cannot be
 ordered

---
 pads/lca.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pads/lca.py b/pads/lca.py
index 3d2de70..6e4e5b6 100644
--- a/pads/lca.py
+++ b/pads/lca.py
@@ -139,10 +139,10 @@ class RestrictedRangeMin:
             position = self._blocks[firstblock][i:i + right - left][1]
             return self._data[position + (firstblock << self._blocksize)]
         else:
-            best = min(self._suffix[left], self._prefix[right])
+            best = self._suffix[left]
             if lastblock > firstblock + 1:
                 best = min(best, self._blockrange[firstblock + 1:lastblock])
-            return best
+            return min(best, self._prefix[right])
 
     def _blockid(self, XX):
         """Return value such that all blocks with the same
-- 
2.43.0


From 532ef0c96dae09f275c43af2a570a051f39eacc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:15:25 +0000
Subject: [PATCH 21/40] fix: import smawk from the package in wrap

---
 pads/wrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/wrap.py b/pads/wrap.py
index f9dc6e0..cc83250 100644
--- a/pads/wrap.py
+++ b/pads/wrap.py
@@ -10,7 +10,7 @@ time via the OnlineConcaveMinima algorithm in SMAWK.py.
 D. Eppstein, August 2005.
 """
 
-from smawk import OnlineConcaveMinima
+from .smawk import OnlineConcaveMinima
 
 
 def wrap(text,                 # string or unicode to be wrapped
-- 
2.43.0


From cebf1f8432640b2bfb4302a890923112e97641af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:37:32 +0000
Subject: [PATCH 22/40] fix: strip the whole sparse6 header

The header has eleven characters; one of them was left in front of the
colon, so every graph with a header was refused.
---
 pads/read_undirected_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/read_undirected_graph.py b/pads/read_undirected_graph.py
index b0299d3..8513681 100644
--- a/pads/read_undirected_graph.py
+++ b/pads/read_undirected_graph.py
@@ -307,7 +307,7 @@ def readGraph6(str):
 def readSparse6(str):
     """Read undirected graph in sparse6 format."""
     if str.startswith('>>sparse6<<'):
-        str = str[10:]
+        str = str[11:]
     if not str.startswith(':'):
         raise GraphFormatError('Expected colon in sparse6')
     n, data = graph6n(graph6data(str[1:]))
-- 
2.43.0


From f9a5d9907b29de16059d8c1411e9acc4d8791cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:37:32 +0000
Subject: [PATCH 23/40] fix: stop at the end of sparse6 data

Running out of data inside the generator raised StopIteration there,
which Python 3.7 and later turn into a RuntimeError.
---
 pads/read_undirected_graph.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pads/read_undirected_graph.py b/pads/read_undirected_graph.py
index 8513681..e251d62 100644
--- a/pads/read_undirected_graph.py
+++ b/pads/read_undirected_graph.py
@@ -318,10 +318,12 @@ def readSparse6(str):
     def parseData():
         """Return stream of pairs b[i], x[i] for sparse6 format."""
         chunks = iter(data)
+        bitsLeft = 6 * len(data)
         d = None  # partial data word
         dLen = 0  # how many unparsed bits are left in d
 
-        while 1:
+        while bitsLeft > k:  # leftover bits are an incomplete pair
+            bitsLeft -= k + 1
             if dLen < 1:
                 d = next(chunks)
                 dLen = 6
-- 
2.43.0


From 5cd4918881b6d1fb808fea314a9bbd6e3c3dd994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:37:32 +0000
Subject: [PATCH 24/40] fix: recognise sparse6 padding that steps past the last
 vertex

Padding with ones also increases the current vertex, possibly beyond
the last one, and was then read as an edge to an unknown vertex.
---
 pads/read_undirected_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/read_undirected_graph.py b/pads/read_undirected_graph.py
index e251d62..c5e3f51 100644
--- a/pads/read_undirected_graph.py
+++ b/pads/read_undirected_graph.py
@@ -350,7 +350,7 @@ def readSparse6(str):
     for b, x in parseData():
         if b:
             v += 1
-        if x >= n:
+        if x >= n or v >= n:
             break			# padding with ones can cause overlarge number here
         elif x > v:
             v = x
-- 
2.43.0


From 0f3a87eb76f7b3cc8e430deb2f0feeffa2d91587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:37:32 +0000
Subject: [PATCH 25/40] fix: return a list of LEDA lines

The result is indexed by its caller, which fails for the iterator that
filter returns in Python 3; no multi-line format could be read.
---
 pads/read_undirected_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/read_undirected_graph.py b/pads/read_undirected_graph.py
index c5e3f51..6741560 100644
--- a/pads/read_undirected_graph.py
+++ b/pads/read_undirected_graph.py
@@ -372,7 +372,7 @@ def ledaLines(lines):
     """
     def relevant(line):
         return line and not line.startswith('#')
-    return filter(relevant, lines)
+    return [line for line in lines if relevant(line)]
 
 
 def readLeda(lines):
-- 
2.43.0


From 964458569d0a434705a724500631988490d18dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:37:32 +0000
Subject: [PATCH 26/40] fix: refuse self-loops in LEDA.GRAPH files

They were silently dropped, while all the other formats report them.
---
 pads/read_undirected_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/read_undirected_graph.py b/pads/read_undirected_graph.py
index 6741560..0a0d429 100644
--- a/pads/read_undirected_graph.py
+++ b/pads/read_undirected_graph.py
@@ -399,7 +399,7 @@ def readLeda(lines):
         if not reversal:
             raise GraphFormatError('Edge %d is directed in LEDA.GRAPH.'
                                    % (i + 1))
-        if source < target:
+        if source <= target:
             edge(G, source, target, i + 1)
 
     return G
-- 
2.43.0


From 66b0c42ebdd2a9c2850cdfb13bb30c1e46a497a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:41:02 +0000
Subject: [PATCH 27/40] fix: do not modify factorizations already yielded

The dictionary yielded for a prime power was reused for twice that
number, so a caller keeping it saw further factors appear in it.
---
 pads/eratosthenes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pads/eratosthenes.py b/pads/eratosthenes.py
index 7822da8..b8b05e6 100644
--- a/pads/eratosthenes.py
+++ b/pads/eratosthenes.py
@@ -77,12 +77,12 @@ def factored_integers():
         if i not in factorization:  # prime
             F = {i: 1}
             yield i, F
-            factorization[2 * i] = F
+            factorization[2 * i] = F.copy()
         elif len(factorization[i]) == 1:    # prime power
             p, x = next(iter(factorization[i].items()))
             F = {p: x + 1}
             yield i, F
-            factorization[2 * i] = F
+            factorization[2 * i] = F.copy()
             factorization[i + p**x][p] = x
             del factorization[i]
         else:
-- 
2.43.0


From 79612a77249e8eb9cecb3098b93ff67d35846552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:44:00 +0000
Subject: [PATCH 28/40] fix: join the third class of Coxeter graph vertices to
 itself

The neighbours of those vertices were named with the first class, so
the result was not an undirected graph.
---
 pads/graph_examples.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/graph_examples.py b/pads/graph_examples.py
index 69108a1..4584991 100644
--- a/pads/graph_examples.py
+++ b/pads/graph_examples.py
@@ -23,7 +23,7 @@ def GeneralizedCoxeterGraph(n, a, b):
         G[i, 0] = (i, 1), (i, 2), (i, 3)
         G[i, 1] = (i, 0), ((i + 1) % n, 1), ((i - 1) % n, 1)
         G[i, 2] = (i, 0), ((i + a) % n, 2), ((i - a) % n, 2)
-        G[i, 3] = (i, 0), ((i + b) % n, 1), ((i - b) % n, 1)
+        G[i, 3] = (i, 0), ((i + b) % n, 3), ((i - b) % n, 3)
     return G
 
 CoxeterGraph = GeneralizedCoxeterGraph(7, 2, 3)
-- 
2.43.0


From d58682e6302664b268f71d2256d20dda7182f8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:44:00 +0000
Subject: [PATCH 29/40] fix: place rectangles at their own y coordinate

The x coordinate of the corner was written for both coordinates.
---
 pads/svg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pads/svg.py b/pads/svg.py
index 0ebc634..a439293 100644
--- a/pads/svg.py
+++ b/pads/svg.py
@@ -111,11 +111,11 @@ class SVG:
     def rectangle(self, p, q, style={}, **morestyle):
         """Rectangle with corners at points p and q"""
         x = min(p.real, q.real)
-        # y = min(p.imag, q.imag)
+        y = min(p.imag, q.imag)
         width = abs((p - q).real)
         height = abs((p - q).imag)
         self.element('rect x="%s" y="%s" width="%s" height="%s"' %
-                     (_coord(x), _coord(x), _coord(width), _coord(height)),
+                     (_coord(x), _coord(y), _coord(width), _coord(height)),
                      style=style, **morestyle)
 
     def polygon(self, points, style={}, **morestyle):
-- 
2.43.0


From 1f78113f4d5c0ae2e7ae01edcdd1e6a74bee0a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:44:00 +0000
Subject: [PATCH 30/40] fix: rescale packings under Python 3

Dictionaries no longer have iteritems.
---
 pads/circle_pack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/circle_pack.py b/pads/circle_pack.py
index 49ce484..75cc7d8 100644
--- a/pads/circle_pack.py
+++ b/pads/circle_pack.py
@@ -85,7 +85,7 @@ def NormalizePacking(packing, k=None, target=1.0):
     else:
         z, r = packing[k]
     s = target / r
-    return dict((kk, (zz * s, rr * s)) for kk, (zz, rr) in packing.iteritems())
+    return dict((kk, (zz * s, rr * s)) for kk, (zz, rr) in packing.items())
 
 
 def InvertAround(packing, k, smallCircles=None):
-- 
2.43.0


From cd342a5056d39dcb5d954a2f496cbdf1f765584b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:12:56 +0000
Subject: [PATCH 31/40] fix: refine by the whole part for every symbol when
 minimizing

The part used as splitter can itself be split while the symbols are
processed; the remaining symbols then saw only what was left of it and
inequivalent states stayed together.
---
 pads/automata.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pads/automata.py b/pads/automata.py
index 590ae02..d28400c 100644
--- a/pads/automata.py
+++ b/pads/automata.py
@@ -584,9 +584,10 @@ class _MinimumDFA(DFA):
         while unrefined:
             part = arbitrary_item(unrefined)
             unrefined.remove(part)
+            states = list(part)  # refining may split the part itself
             for symbol in D.alphabet:
                 neighbors = set()
-                for state in part:
+                for state in states:
                     neighbors |= N.transition(state, symbol)
                 for new, old in P.refine(neighbors):
                     if old in unrefined or len(new) < len(old):
-- 
2.43.0


From 3417e85976b08717d644d4593f9ed51059c4d3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:12:56 +0000
Subject: [PATCH 32/40] fix: compare final states in DFA equality

Automata with the same transitions and different final states, such as
those of a language and its complement, were reported equal.
---
 pads/automata.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pads/automata.py b/pads/automata.py
index d28400c..128a1ed 100644
--- a/pads/automata.py
+++ b/pads/automata.py
@@ -209,6 +209,8 @@ class DFA(FiniteAutomaton):
         while unprocessed:
             x = unprocessed.pop()
             y = equivalences[x]
+            if bool(self.isfinal(x)) != bool(other.isfinal(y)):
+                return False
             for c in self.alphabet:
                 xc = self.transition(x, c)
                 yc = other.transition(y, c)
-- 
2.43.0


From 35faa0849aa2ecc7afbe5f6f195f6f3bdfa79535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:12:56 +0000
Subject: [PATCH 33/40] fix: make the truth value of a language say whether it
 is nonempty

Python 3 looks for __bool__, and states do not know whether they are
final. Every language was true, so no subset test ever held.
---
 pads/automata.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pads/automata.py b/pads/automata.py
index 128a1ed..5ffc7c6 100644
--- a/pads/automata.py
+++ b/pads/automata.py
@@ -94,13 +94,15 @@ class RegularLanguage:
             raise LanguageError("Unable to intersect nonregular language")
         return language(self.recognizer.symmetricDifference(other.recognizer))
 
-    def __nonzero__(self):
-        """Is this the empty language?"""
+    def __bool__(self):
+        """Is this a nonempty language?"""
         for x in self.recognizer.states():
-            if x.isfinal():
+            if self.recognizer.isfinal(x):
                 return True
         return False
 
+    __nonzero__ = __bool__
+
 
 class FiniteAutomaton:
 
-- 
2.43.0


From 04376413dc0352e1ea4c1501ffbe33630661ca8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:12:56 +0000
Subject: [PATCH 34/40] fix: accept the empty string without making other
 states final

Initial states can be entered again, for example in (a*b)*, which then
accepted the string a.
---
 pads/automata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/automata.py b/pads/automata.py
index 5ffc7c6..dae4ad2 100644
--- a/pads/automata.py
+++ b/pads/automata.py
@@ -393,7 +393,7 @@ class RegExp(NFA):
             self.successor[state].add(final)
         self.final = frozenset([final])
         if epsilon:
-            self.final = self.final | self.initial
+            self.initial = self.initial | self.final
 
     def transition(self, state, c):
         """Implement NFA transition function."""
-- 
2.43.0


From 8dab046463e4d96603490751441372a3379dad3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:12:56 +0000
Subject: [PATCH 35/40] fix: reject regular expressions with too many closing
 parentheses

The rest of the expression was silently ignored.
---
 pads/automata.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pads/automata.py b/pads/automata.py
index dae4ad2..f52b223 100644
--- a/pads/automata.py
+++ b/pads/automata.py
@@ -388,6 +388,9 @@ class RegExp(NFA):
         self.successor = {}
         self.alphabet = set()
         self.initial, penultimate, epsilon = self.expression()
+        if self.pos < len(self.expr):
+            raise LanguageError("Unexpected close paren at char "
+                                + str(self.pos))
         final = self.newstate(None)
         for state in penultimate:
             self.successor[state].add(final)
-- 
2.43.0


From 7afd71abc1205a99c0e2e1da17a0bc609334843a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:12:56 +0000
Subject: [PATCH 36/40] fix: write the empty alternative as () in regular
 expressions

A leading plus sign is read back as a letter.
---
 pads/automata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/automata.py b/pads/automata.py
index f52b223..4627851 100644
--- a/pads/automata.py
+++ b/pads/automata.py
@@ -314,7 +314,7 @@ class NFA(FiniteAutomaton):
                         if expr[s, y]:
                             xsy += self._parenthesize(expr[s, y])
                         if expr[x, y] is not None:
-                            xsy += ['+', expr[x, y] or '()']
+                            xsy = (xsy or ['()']) + ['+', expr[x, y] or '()']
                         expr[x, y] = ''.join(xsy)
         return expr[initial, final]
 
-- 
2.43.0


From 0d05ae0c374b5e7305ae422030b68a812e0c3e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:12:56 +0000
Subject: [PATCH 37/40] fix: escape special characters when writing regular
 expressions

Letters such as * were written bare and read back as operators.
---
 pads/automata.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pads/automata.py b/pads/automata.py
index 4627851..e226cec 100644
--- a/pads/automata.py
+++ b/pads/automata.py
@@ -294,11 +294,12 @@ class NFA(FiniteAutomaton):
             expr[x, x] = ''
         for x in self.states():
             for c in self.alphabet:
+                letter = '\\' + c if c in ('(', ')', '*', '+', '\\') else str(c)
                 for y in self.transition(x, c):
                     if expr[x, y]:
-                        expr[x, y] += '+' + str(c)
+                        expr[x, y] += '+' + letter
                     else:
-                        expr[x, y] = str(c)
+                        expr[x, y] = letter
 
         # eliminate states one at a time
         for s in self.states():
-- 
2.43.0


From a12523745ba99533e0e277f5e886697e77236874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:12:56 +0000
Subject: [PATCH 38/40] fix: print automata under Python 3

The Python 2 print statements raised TypeError.
---
 pads/automata.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pads/automata.py b/pads/automata.py
index e226cec..9543781 100644
--- a/pads/automata.py
+++ b/pads/automata.py
@@ -265,12 +265,12 @@ class NFA(FiniteAutomaton):
             if not [c for c in self.alphabet if self.transition(state, c)]:
                 adjectives.append("terminal")
             if not adjectives:
-                print >>output, state
+                output.write("%s\n" % (state,))
             else:
-                print >>output, state, "(" + ", ".join(adjectives) + ")"
+                output.write("%s (%s)\n" % (state, ", ".join(adjectives)))
             for c in self.alphabet:
                 for neighbor in self.transition(state, c):
-                    print >>output, "  --[" + str(c) + "]-->", neighbor
+                    output.write("  --[%s]--> %s\n" % (c, neighbor))
 
     def RegExp(self):
         """Convert to regular expression and return as a string.
-- 
2.43.0


From 21e27826e4473c0366f78b9042afa85f02731a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:12:52 +0000
Subject: [PATCH 39/40] fix: keep eliminated placements when the sudoku search
 branches

---
 pads/sudoku.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pads/sudoku.py b/pads/sudoku.py
index 72b1f2e..f6e5f75 100644
--- a/pads/sudoku.py
+++ b/pads/sudoku.py
@@ -1600,6 +1600,7 @@ def all_solutions(grid, fastrules=True):
         branch.logstream = grid.logstream
         branch.steps = grid.steps
         branch.original_cells = grid.original_cells
+        branch.locations = list(grid.locations)
         branch.place(d, c, "The backtracking search will try this placement"
                      " first. Then, after returning from this branch,"
                      " it will try preventing this placement.")
-- 
2.43.0


From d70bde1d503c4dd4209ee85fc79fc7717bcc53de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:12:52 +0000
Subject: [PATCH 40/40] fix: report sudoku groups that cannot be filled as
 contradictions

---
 pads/sudoku.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pads/sudoku.py b/pads/sudoku.py
index f6e5f75..110e39d 100644
--- a/pads/sudoku.py
+++ b/pads/sudoku.py
@@ -770,6 +770,9 @@ def subproblem(grid):
                 graph[d].append(unmask[bit])
                 locs &= ~ bit
         imp = imperfections(graph)
+        if imp is graph:
+            grid.log(["Unable to place all digits in", g.name + "."])
+            raise BadSudoku("No way to fill %s" % g.name)
         for d in list(imp.keys()):
             if not imp[d]:
                 del imp[d]
-- 
2.43.0

