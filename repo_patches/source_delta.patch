From 4c4407ff09842490eebf655ff9413e0d21c87f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:27:40 +0000
Subject: [PATCH 01/64] fix: reject isolated vertices in st_orientation

A graph with one biconnected component plus isolated vertices was
oriented with several sources instead of raising NotBiconnected.
---
 pads/biconnectivity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/biconnectivity.py b/pads/biconnectivity.py
index eacc0b1..cb502fd 100644
--- a/pads/biconnectivity.py
+++ b/pads/biconnectivity.py
@@ -191,7 +191,7 @@ class STOrienter(Searcher):
 def st_orientation(G):
     """Find an acyclic orientation of G, with one source and one sink."""
     stO = STOrienter(G)
-    if len(stO.roots) != 1:
+    if len(stO.roots) != 1 or not is_biconnected(G):
         raise NotBiconnected
 
     source, dest = stO.roots[0]
-- 
2.43.0


From 1975cc2278d4cdfcef048cea4eaa763c29ea36d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:27:40 +0000
Subject: [PATCH 02/64] fix: keep minimal elements in MaximumAntichain

Elements without predecessors never appear on the right side of the
bipartite graph, so they were missing from the answer.
---
 pads/partial_order.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pads/partial_order.py b/pads/partial_order.py
index 630744f..fc610fd 100644
--- a/pads/partial_order.py
+++ b/pads/partial_order.py
@@ -95,5 +95,8 @@ def MaximumAntichain(G):
     """
     if not isAcyclic(G):
         raise ValueError("MaximumAntichain: input is not acyclic.")
-    M, A, B = matching(TransitiveClosure(G))
-    return set(A).intersection(B)
+    TC = TransitiveClosure(G)
+    M, A, B = matching(TC)
+    # vertices without predecessors are not on the right side of the matching
+    covered = {w for v in TC for w in TC[v]}.difference(B)
+    return set(A) - covered
-- 
2.43.0


From d6ea307fc759394003a9ca5d1f9098a5d9418717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:27:40 +0000
Subject: [PATCH 03/64] fix: follow successors when tracing paths of a
 decomposition

TracePaths relied on the vertices of a path being consecutive in the
topological order, which is not always so.  Path and chain
decompositions then had more pieces than necessary.
---
 pads/partial_order.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pads/partial_order.py b/pads/partial_order.py
index fc610fd..af2c1e5 100644
--- a/pads/partial_order.py
+++ b/pads/partial_order.py
@@ -57,14 +57,15 @@ def TracePaths(G):
     """
     Turn a DAG with indegree and outdegree <= 1 into a sequence of lists.
     """
-    L = []
+    traced = set()
     for v in TopologicalOrder(G):
-        if L and v not in G[L[-1]]:
+        if v not in traced:
+            L = [v]
+            while G[v]:
+                v, = G[v]
+                L.append(v)
+            traced.update(L)
             yield L
-            L = []
-        L.append(v)
-    if L:
-        yield L
 
 
 def MinimumPathDecomposition(G):
-- 
2.43.0


From 685d15c37109353b8d90ea5dce776bc54f2807c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:27:40 +0000
Subject: [PATCH 04/64] fix: treat unbalanced graphs as imperfect in
 imperfections

When the right side is larger than the left side there is no perfect
matching.  The function raised KeyError instead of returning the graph.
---
 pads/bipartite_matching.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pads/bipartite_matching.py b/pads/bipartite_matching.py
index 7a4b156..ea2e841 100644
--- a/pads/bipartite_matching.py
+++ b/pads/bipartite_matching.py
@@ -98,7 +98,8 @@ def imperfections(graph):
     not including v.
     """
     M, A, B = matching(graph)
-    if len(M) != len(graph):
+    if len(M) != len(graph) or any(w not in M for v in graph
+                                   for w in graph[v]):
         return graph    # whole graph is imperfect
 
     orientation = {}
-- 
2.43.0


From 6c796a4bc07a0bb8cab90b9224c2fcb02038fee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:27:40 +0000
Subject: [PATCH 05/64] fix: do not compare items in UnionFind.union

Sets of equal weight made union compare their members, which fails for
hashable items that have no order.
---
 pads/union_find.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/union_find.py b/pads/union_find.py
index 320bba1..402b836 100644
--- a/pads/union_find.py
+++ b/pads/union_find.py
@@ -59,7 +59,7 @@ class UnionFind:
     def union(self, *objects):
         """Find the sets containing the objects and merge them all."""
         roots = [self[x] for x in objects]
-        heaviest = max([(self.weights[r], r) for r in roots])[1]
+        heaviest = max(roots, key=lambda r: self.weights[r])
         for r in roots:
             if r != heaviest:
                 self.weights[heaviest] += self.weights[r]
-- 
2.43.0


From 6437489f6c59413c0ecf45874a22c225e936a00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:27:40 +0000
Subject: [PATCH 06/64] fix: sort spanning tree edges by length only

Edges of equal length made the sort compare vertices, which fails for
hashable vertices that have no order.
---
 pads/minimum_spanning_tree.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pads/minimum_spanning_tree.py b/pads/minimum_spanning_tree.py
index 53cb041..a0759da 100644
--- a/pads/minimum_spanning_tree.py
+++ b/pads/minimum_spanning_tree.py
@@ -28,7 +28,8 @@ def MinimumSpanningTree(G):
     # part (the sort) is sped up by being built in to Python.
     subtrees = UnionFind()
     tree = []
-    for W, u, v in sorted((G[u][v], u, v) for u in G for v in G[u]):
+    for W, u, v in sorted(((G[u][v], u, v) for u in G for v in G[u]),
+                          key=lambda edge: edge[0]):
         if subtrees[u] != subtrees[v]:
             tree.append((u, v))
             subtrees.union(u, v)
-- 
2.43.0


From 4e47e18f24c24e3c8fe1b061811d559d6cfcbbfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:27:40 +0000
Subject: [PATCH 07/64] fix: return an empty k-core when k exceeds the
 degeneracy

---
 pads/graphdegeneracy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pads/graphdegeneracy.py b/pads/graphdegeneracy.py
index 344d486..2feb182 100644
--- a/pads/graphdegeneracy.py
+++ b/pads/graphdegeneracy.py
@@ -49,6 +49,8 @@ def core(G, k=None):
                 coreset = set()         # yes, restart core
                 level = d
         coreset.add(v)
+    if k is not None and level < k:
+        return set()                    # no vertex is that deep
     return coreset
 
 
-- 
2.43.0


From 101a9db7a5bf2f112f25d519328ac1620ecc3b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:27:40 +0000
Subject: [PATCH 08/64] fix: let lex_bfs handle the graph without vertices

---
 pads/lex_bfs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/lex_bfs.py b/pads/lex_bfs.py
index b23d0bd..c02c1df 100644
--- a/pads/lex_bfs.py
+++ b/pads/lex_bfs.py
@@ -22,7 +22,7 @@ def lex_bfs(G):
     Running time is O(n+m) and additional space usage over G is O(n).
     """
     P = PartitionRefinement(G)
-    S = Sequence(P, key=id)
+    S = Sequence([A for A in P if A], key=id)
     while S:
         set = S[0]
         v = arbitrary_item(set)
-- 
2.43.0


From d262517421ac473f2eed7ce81b120d5560682c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:27:40 +0000
Subject: [PATCH 09/64] fix: do not hide failures in is_chordal

A bare except turned interrupts, memory errors and errors of the
caller's graph into the answer False.
---
 pads/chordal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/chordal.py b/pads/chordal.py
index 4568aa0..c3ec2ff 100644
--- a/pads/chordal.py
+++ b/pads/chordal.py
@@ -43,6 +43,6 @@ def is_chordal(G):
         raise ValueError("Input to Chordal is not an undirected graph")
     try:
         perfect_elimination_ordering(G)
-    except:
+    except ValueError:
         return False
     return True
-- 
2.43.0


From b5ea8ffdd647f46aa89c8498ad042f85b6afd473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:33:56 +0000
Subject: [PATCH 10/64] fix: BitVectorHeap.remove drops only the removed value

The shift was applied to the complement, so removing x also removed
every smaller value.
---
 pads/integer_heap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/integer_heap.py b/pads/integer_heap.py
index f851690..e81b984 100644
--- a/pads/integer_heap.py
+++ b/pads/integer_heap.py
@@ -83,7 +83,7 @@ class BitVectorHeap:
 
     def remove(self, x):
         """Remove x from the values in the heap."""
-        self._S &= ~ 1 << x
+        self._S &= ~ (1 << x)
 
     def min(self):
         """Return the minimum value in the heap."""
-- 
2.43.0


From e94f6f6fdcc5b708642854b7c42eb34a24032845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:33:56 +0000
Subject: [PATCH 11/64] fix: do not list a SortedSet item twice when it is
 added again

Adding an item that was already listed put it both in the previous
listing and in the additions, and the next listing contained it twice.
---
 pads/sorted_set.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pads/sorted_set.py b/pads/sorted_set.py
index 82b71c2..30a41f3 100644
--- a/pads/sorted_set.py
+++ b/pads/sorted_set.py
@@ -65,7 +65,8 @@ class SortedSet:
         else:
             sortarg = chain(self._additions,
                             (x for x in self._previous
-                             if x not in self._removals))
+                             if x not in self._removals
+                             and x not in self._additions))
         if self._comparison:
             self._previous = sorted(sortarg, key=cmp_to_key(self._comparison))
         else:
-- 
2.43.0


From 7cbb7ed0df2140d196fcdf6ce0f048e3404e16fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:33:56 +0000
Subject: [PATCH 12/64] fix: keep the sets of a partition when it is frozen
 twice

A frozen set keeps its identity when it is frozen again, so its entry
was deleted right after it was stored.
---
 pads/partition_refinement.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/partition_refinement.py b/pads/partition_refinement.py
index b907d5d..c3f5f48 100644
--- a/pads/partition_refinement.py
+++ b/pads/partition_refinement.py
@@ -87,5 +87,5 @@ class PartitionRefinement:
             F = frozenset(S)
             for x in F:
                 self._partition[x] = F
-            self._sets[id(F)] = F
             del self._sets[id(S)]
+            self._sets[id(F)] = F
-- 
2.43.0


From 3b98ed27efda91089792bb2360389bfd5ff7a381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:33:56 +0000
Subject: [PATCH 13/64] fix: indexing an empty Sequence raises IndexError

It returned the last removed item, or None if there was none.
---
 pads/sequence.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pads/sequence.py b/pads/sequence.py
index adc3a2b..38bc354 100644
--- a/pads/sequence.py
+++ b/pads/sequence.py
@@ -46,6 +46,8 @@ class Sequence:
 
     def __getitem__(self, i):
         """Return the ith item in the sequence."""
+        if not self._next:
+            raise IndexError("Index out of range")
         item = self._first
         while i:
             item = self._next[item]
-- 
2.43.0


From 2ae68a6d308b0cf6e249cf11ebd29398eb280797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:33:56 +0000
Subject: [PATCH 14/64] fix: looking up a keyed Sequence item does not replace
 it

Every use of the key function recorded its argument as the item stored
under that key.  A lookup or a refused insertion of another object with
the same key therefore changed the contents of the sequence.
---
 pads/sequence.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/pads/sequence.py b/pads/sequence.py
index 38bc354..a7c7009 100644
--- a/pads/sequence.py
+++ b/pads/sequence.py
@@ -71,9 +71,12 @@ class Sequence:
         """Apply supplied key function."""
         if not self._key:
             return x
-        key = self._key(x)
-        self._items[key] = x
-        return key
+        return self._key(x)
+
+    def _keep(self, key, x):
+        """Remember which item has been added under the given key."""
+        if self._key:
+            self._items[key] = x
 
     def _insafter(self, x, y):
         """Unkeyed version of insertAfter."""
@@ -85,13 +88,14 @@ class Sequence:
 
     def append(self, x):
         """Add x to the end of the sequence."""
-        x = self.key(x)
+        item, x = x, self.key(x)
         if not self._next:  # add to empty sequence
             self._next = {x: x}
             self._prev = {x: x}
             self._first = x
         else:
             self._insafter(self._prev[self._first], x)
+        self._keep(x, item)
 
     def remove(self, x):
         """Remove x from the sequence."""
@@ -102,18 +106,21 @@ class Sequence:
         if x == self._first:
             self._first = next
         del self._next[x], self._prev[x]
+        self._items.pop(x, None)
 
     def insertAfter(self, x, y):
         """Add y after x in the sequence."""
-        y = self.key(y)
+        item, y = y, self.key(y)
         x = self.key(x)
         self._insafter(x, y)
+        self._keep(y, item)
 
     def insertBefore(self, x, y):
         """Add y before x in the sequence."""
-        y = self.key(y)
+        item, y = y, self.key(y)
         x = self.key(x)
         self._insafter(self._prev[x], y)
+        self._keep(y, item)
         if self._first == x:
             self._first = y
 
-- 
2.43.0


From 20ee8de5aca5923acfd4477a6d08717a44883687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:33:56 +0000
Subject: [PATCH 15/64] fix: use sys.maxsize for the tags of ordered sequences

sys.maxint does not exist in Python 3, so no item could be appended.
---
 pads/ordered_sequence.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pads/ordered_sequence.py b/pads/ordered_sequence.py
index 9d6a933..5f4e146 100644
--- a/pads/ordered_sequence.py
+++ b/pads/ordered_sequence.py
@@ -18,7 +18,7 @@ class SimpleOrderedSequence(Sequence):
     for each item, with the order of tags the same as the sequence order.
     When two tags collide, we renumber the whole sequence; this behavior
     can be changed by overriding the rebalance method.  Renumbers happen
-    infrequently (roughly one in every log(sys.maxint) insertions)
+    infrequently (roughly one in every log(sys.maxsize) insertions)
     but take time proportional to the number of items, so it is preferable
     to use this data structure only for sequences of very few items.
     """
@@ -45,7 +45,7 @@ class SimpleOrderedSequence(Sequence):
         """Add x to the end of the sequence."""
         if not self._next:  # add to empty sequence
             Sequence.append(self, x)
-            self._tag[self.key(x)] = sys.maxint // 2
+            self._tag[self.key(x)] = sys.maxsize // 2
         else:
             self.insertAfter(self._prev[self._first], x)
 
@@ -56,7 +56,7 @@ class SimpleOrderedSequence(Sequence):
         y = self.key(y)
         next = self._next[y]
         if next == self._first:
-            nexttag = sys.maxint
+            nexttag = sys.maxsize
         else:
             nexttag = self._tag[next]
         xtag = self._tag[x]
@@ -77,7 +77,7 @@ class SimpleOrderedSequence(Sequence):
     def rebalance(self, x):
         """Clean up after x and its successor's tags collide."""
         base = 0
-        increment = sys.maxint // len(self)
+        increment = sys.maxsize // len(self)
         for y in self:
             self._tag[y] = base
             base += increment
-- 
2.43.0


From 7c5a846b2a6f5e43b79a8e0631a89d8b9e1dcdd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:33:56 +0000
Subject: [PATCH 16/64] fix: give every item of an ordered sequence a tag under
 its key

Inserting before an item other than the first assigned no tag.
With a key function, appending and renumbering mixed up items and keys.
---
 pads/ordered_sequence.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pads/ordered_sequence.py b/pads/ordered_sequence.py
index 5f4e146..da03be4 100644
--- a/pads/ordered_sequence.py
+++ b/pads/ordered_sequence.py
@@ -47,7 +47,7 @@ class SimpleOrderedSequence(Sequence):
             Sequence.append(self, x)
             self._tag[self.key(x)] = sys.maxsize // 2
         else:
-            self.insertAfter(self._prev[self._first], x)
+            self.insertAfter(self.predecessor(self[0]), x)
 
     def insertAfter(self, x, y):
         """Add y after x and compute a tag for it."""
@@ -66,20 +66,22 @@ class SimpleOrderedSequence(Sequence):
 
     def insertBefore(self, x, y):
         """Add y before x in the sequence."""
+        if self._first != self.key(x):
+            self.insertAfter(self.predecessor(x), y)
+            return
         Sequence.insertBefore(self, x, y)
         x = self.key(x)
         y = self.key(y)
-        if self._first == y:
-            self._tag[y] = self._tag[x] // 2
-            if self._tag[y] == self._tag[x]:
-                self.rebalance(y)
+        self._tag[y] = self._tag[x] // 2
+        if self._tag[y] == self._tag[x]:
+            self.rebalance(y)
 
     def rebalance(self, x):
         """Clean up after x and its successor's tags collide."""
         base = 0
         increment = sys.maxsize // len(self)
         for y in self:
-            self._tag[y] = base
+            self._tag[self.key(y)] = base
             base += increment
 
 
-- 
2.43.0


From 2fa9ef6ef61a7b93e4f91a1748a6bbc0c699d5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:34:05 +0000
Subject: [PATCH 17/64] fix: count a key in FrequencyEstimator only once it is
 accepted

An unhashable key was refused, but it had already been added to the
total, so all later estimates were too low.
---
 pads/frequencyestimator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/frequencyestimator.py b/pads/frequencyestimator.py
index 5139c1f..2314e97 100644
--- a/pads/frequencyestimator.py
+++ b/pads/frequencyestimator.py
@@ -17,7 +17,6 @@ class FrequencyEstimator:
         """FrequencyEstimator += key counts another copy of the key.
         This operation takes amortized constant time, but the worst-case
         time may be O(1/accuracy)."""
-        self._total += 1
         if key in self._counts:
             self._counts[key] += 1      # Already there, increment its counter.
         elif len(self._counts) < self._howmany:
@@ -47,6 +46,7 @@ class FrequencyEstimator:
             while linkchain != anchor:
                 victim, linkchain = linkchain, self._counts[linkchain]
                 del self._counts[victim]
+        self._total += 1
         return self
 
     def __iter__(self):
-- 
2.43.0


From fb23a22a365907681c11e4728af3a3d46b97eade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:36:55 +0000
Subject: [PATCH 18/64] fix: import smawk relatively in wrap

The absolute import does not work in Python 3, so neither wrap nor
sudoku could be imported.
---
 pads/wrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/wrap.py b/pads/wrap.py
index f9dc6e0..cc83250 100644
--- a/pads/wrap.py
+++ b/pads/wrap.py
@@ -10,7 +10,7 @@ time via the OnlineConcaveMinima algorithm in SMAWK.py.
 D. Eppstein, August 2005.
 """
 
-from smawk import OnlineConcaveMinima
+from .smawk import OnlineConcaveMinima
 
 
 def wrap(text,                 # string or unicode to be wrapped
-- 
2.43.0


From 181e945e97b5862d6095bb91b647e2234644e9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:36:55 +0000
Subject: [PATCH 19/64] fix: OnlineConcaveMinima can go on after Matrix raised
 an exception

The tentative column was moved before the columns up to it had been
computed.  If Matrix failed in between, later calls used values that
were never stored or returned minima that are too large.
---
 pads/smawk.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pads/smawk.py b/pads/smawk.py
index 948ab4c..1255b51 100644
--- a/pads/smawk.py
+++ b/pads/smawk.py
@@ -152,8 +152,8 @@ class OnlineConcaveMinima:
         i = self._finished + 1
         if i > self._tentative:
             rows = range(self._base, self._finished + 1)
-            self._tentative = self._finished + len(rows)
-            cols = range(self._finished + 1, self._tentative + 1)
+            tentative = self._finished + len(rows)
+            cols = range(self._finished + 1, tentative + 1)
             minima = ConcaveMinima(rows, cols, self._matrix)
             for col in cols:
                 if col >= len(self._values):
@@ -161,6 +161,7 @@ class OnlineConcaveMinima:
                     self._indices.append(minima[col][1])
                 elif minima[col][0] < self._values[col]:
                     self._values[col], self._indices[col] = minima[col]
+            self._tentative = tentative
             self._finished = i
             return
 
-- 
2.43.0


From 5c9dd39c4632a18cbcc499150c7c06d9007e54c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:36:55 +0000
Subject: [PATCH 20/64] fix: LCA handles deep trees and nodes that cannot be
 compared

The traversal recursed once per level, so a path of a thousand nodes
(or RangeMin of a sorted list of that length) hit the recursion limit.
Two nodes of one level were compared with each other although the tree
nodes may be any hashable objects.
---
 pads/lca.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/pads/lca.py b/pads/lca.py
index 3d2de70..45eae1a 100644
--- a/pads/lca.py
+++ b/pads/lca.py
@@ -209,6 +209,7 @@ class LCA:
             raise ValueError("LCA input is not a tree")
 
         levels = []
+        self._nodes = {}    # map position of first visit to node
         self._representatives = {}
         self._visit(children, levels, root[0], 0)
         if [x for x in parent if x not in self._representatives]:
@@ -218,16 +219,23 @@ class LCA:
     def __call__(self, *nodes):
         """Find least common ancestor of a set of nodes."""
         r = [self._representatives[x] for x in nodes]
-        return self._rangemin[min(r):max(r) + 1][1]
+        return self._nodes[self._rangemin[min(r):max(r) + 1][1]]
 
     def _visit(self, children, levels, node, level):
         """Perform Euler traversal of tree."""
-        self._representatives[node] = len(levels)
-        pair = (level, node)
-        levels.append(pair)
-        for child in children[node]:
-            self._visit(children, levels, child, level + 1)
-            levels.append(pair)
+        stack = [(None, iter([node]))]
+        while stack:
+            for node in stack[-1][1]:
+                self._representatives[node] = len(levels)
+                self._nodes[len(levels)] = node
+                pair = (level + len(stack) - 1, len(levels))
+                levels.append(pair)
+                stack.append((pair, iter(children[node])))
+                break
+            else:
+                stack.pop()
+                if len(stack) > 1:
+                    levels.append(stack[-1][0])
 
 
 class OfflineLCA(defaultdict):
-- 
2.43.0


From c499feaea1a3384e602a7cacff808c41fdf9293a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:36:55 +0000
Subject: [PATCH 21/64] fix: OfflineLCA handles deep trees

The traversal recursed once per level of the tree.
---
 pads/lca.py | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/pads/lca.py b/pads/lca.py
index 45eae1a..1dda0bc 100644
--- a/pads/lca.py
+++ b/pads/lca.py
@@ -276,15 +276,24 @@ class OfflineLCA(defaultdict):
     def traverse(self, node):
         """Perform depth first traversal of tree."""
         self.ancestors[self.descendants[node]] = node
-        for child in self.children[node]:
-            self.traverse(child)
-            self.descendants.union(child, node)
-            self.ancestors[self.descendants[node]] = node
-        self.visited.add(node)
-        for query in self[node]:
-            if query in self.visited:
-                lca = self.ancestors[self.descendants[query]]
-                self[node][query] = self[query][node] = lca
+        stack = [(node, iter(self.children[node]))]
+        while stack:
+            node, children = stack[-1]
+            for child in children:
+                self.ancestors[self.descendants[child]] = child
+                stack.append((child, iter(self.children[child])))
+                break
+            else:
+                stack.pop()
+                self.visited.add(node)
+                for query in self[node]:
+                    if query in self.visited:
+                        lca = self.ancestors[self.descendants[query]]
+                        self[node][query] = self[query][node] = lca
+                if stack:
+                    parent = stack[-1][0]
+                    self.descendants.union(node, parent)
+                    self.ancestors[self.descendants[parent]] = parent
 
 # Various utility functions
 
-- 
2.43.0


From aca60758cddeba377ad4e5ac93cfc67eb53df196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:36:55 +0000
Subject: [PATCH 22/64] fix: range minima do not share a table between threads

Two threads that extended the table of logarithms at the same time left
wrong entries in it, and range minima were wrong from then on.
---
 pads/lca.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/pads/lca.py b/pads/lca.py
index 1dda0bc..f2b8033 100644
--- a/pads/lca.py
+++ b/pads/lca.py
@@ -183,7 +183,7 @@ class LogarithmicRangeMin:
     def __getitem__(self, it):
         """When called by X[left:right], return min(X[left:right])."""
         left, right = _decode_slice(self, it)
-        j = _logtable[right - left]
+        j = _log2(right - left)
         row = self._minima[j]
         return min(row[left], row[right - 2**j])
 
@@ -323,11 +323,7 @@ def _pairs(X, reversed=False):
         indices = range(len(X))
     return [(X[i], i) for i in indices]
 
-_logtable = [None, 0]
-
 
 def _log2(n):
-    """Make table of logs reach up to n and return floor(log_2(n))."""
-    while len(_logtable) <= n:
-        _logtable.extend([1 + _logtable[-1]] * len(_logtable))
-    return _logtable[n]
+    """Return floor(log_2(n))."""
+    return n.bit_length() - 1
-- 
2.43.0


From 3df7f842272e71cd8b80a6b01af838d8811b33c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:41:57 +0000
Subject: [PATCH 23/64] fix: factored_integers does not change factorizations
 it has yielded

The yielded dictionaries were also used inside the sieve, so they
received factors of other numbers when the generator went on.
---
 pads/eratosthenes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pads/eratosthenes.py b/pads/eratosthenes.py
index 7822da8..0224725 100644
--- a/pads/eratosthenes.py
+++ b/pads/eratosthenes.py
@@ -76,17 +76,17 @@ def factored_integers():
     while True:
         if i not in factorization:  # prime
             F = {i: 1}
-            yield i, F
+            yield i, dict(F)
             factorization[2 * i] = F
         elif len(factorization[i]) == 1:    # prime power
             p, x = next(iter(factorization[i].items()))
             F = {p: x + 1}
-            yield i, F
+            yield i, dict(F)
             factorization[2 * i] = F
             factorization[i + p**x][p] = x
             del factorization[i]
         else:
-            yield i, factorization[i]
+            yield i, dict(factorization[i])
             for p, x in factorization[i].items():
                 q = p**x
                 iq = i + q
-- 
2.43.0


From 3e5a2560eed206bd2c0804db929e59ef77b97d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:41:57 +0000
Subject: [PATCH 24/64] fix: moebius_function does not share a generator
 between calls

All calls advanced one global generator.  Two threads calling the
function at the same time failed, and a call that was interrupted
left the generator exhausted, so that every later call failed.
---
 pads/eratosthenes.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/pads/eratosthenes.py b/pads/eratosthenes.py
index 0224725..3ebd489 100644
--- a/pads/eratosthenes.py
+++ b/pads/eratosthenes.py
@@ -105,16 +105,22 @@ def moebius_sequence():
         else:
             yield (-1)**len(F)
 
-moebius_function_values = [None]
-moebius_function_iterator = moebius_sequence()
-
 
 def moebius_function(n):
     """A functional version of the Moebius sequence.
     Efficient only for small values of n."""
-    while n >= len(moebius_function_values):
-        moebius_function_values.append(next(moebius_function_iterator))
-    return moebius_function_values[n]
+    if n < 1:
+        return None
+    result = 1
+    p = 2
+    while n > 1:
+        if n % p == 0:
+            n //= p
+            if n % p == 0:
+                return 0
+            result = -result
+        p += 1
+    return result
 
 
 def is_practical_factorization(f):
-- 
2.43.0


From 8b6076312d8382cbbadda838d94a2791683e7d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:41:57 +0000
Subject: [PATCH 25/64] fix: SteinhausJohnsonTrotter passes on errors of its
 input iterable

Any exception while listing the items, including an interrupt, was
swallowed and replaced by an unrelated TypeError.
---
 pads/permutations.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pads/permutations.py b/pads/permutations.py
index b1cd2f1..4cb167f 100644
--- a/pads/permutations.py
+++ b/pads/permutations.py
@@ -66,9 +66,10 @@ def SteinhausJohnsonTrotter(x):
 
     # set up the permutation and its length
     try:
-        perm = list(x)
-    except:
-        perm = list(range(x))
+        items = iter(x)
+    except TypeError:
+        items = range(x)
+    perm = list(items)
     n = len(perm)
 
     # run through the sequence of swaps
-- 
2.43.0


From d747515a825279697ecda041f8b6706d50f29a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:41:57 +0000
Subject: [PATCH 26/64] fix: no nonempty Lyndon words of length zero or over no
 symbols

For length limit zero single symbols were generated, and for an empty
alphabet the generator never ended.
---
 pads/lyndon.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pads/lyndon.py b/pads/lyndon.py
index 0306e04..96652a4 100644
--- a/pads/lyndon.py
+++ b/pads/lyndon.py
@@ -11,6 +11,8 @@ def LengthLimitedLyndonWords(s, n):
     J.-P. Duval, Theor. Comput. Sci. 1988, doi:10.1016/0304-3975(88)90113-2.
     As shown by Berstel and Pocchiola, it takes constant average time
     per generated word."""
+    if s < 1 or n < 1:
+        return
     w = [-1]                            # set up for first increment
     while w:
         w[-1] += 1                      # increment the last non-z symbol
-- 
2.43.0


From 4114a61ad023964286974bd053f6a930fdb6d3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:41:57 +0000
Subject: [PATCH 27/64] fix: smallest suffix and rotation of an empty sequence

Both functions failed instead of returning the empty sequence.
---
 pads/lyndon.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pads/lyndon.py b/pads/lyndon.py
index 96652a4..e4de9e8 100644
--- a/pads/lyndon.py
+++ b/pads/lyndon.py
@@ -105,6 +105,7 @@ def ChenFoxLyndon(s):
 
 def SmallestSuffix(s):
     """Find the suffix of s that is smallest in lexicographic order."""
+    w = s
     for w in ChenFoxLyndon(s):
         pass
     return w
@@ -114,6 +115,8 @@ def SmallestRotation(s):
     """Find the rotation of s that is smallest in lexicographic order.
     Duval 1983 describes how to modify his algorithm to do so but I think
     it's cleaner and more general to work from the ChenFoxLyndon output."""
+    if len(s) == 0:
+        return s
     prev, rep = None, 0
     for w in ChenFoxLyndon(s + s):
         if w == prev:
-- 
2.43.0


From 25d371974340dbf44ec2116374171d3f871606d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:51:42 +0000
Subject: [PATCH 28/64] fix: make regular expressions accept the empty string
 correctly

Initial states were marked as accepting, which rejected the empty string
for "()" and accepted "a" for "(a*b)*".
---
 pads/automata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/automata.py b/pads/automata.py
index 590ae02..02ae010 100644
--- a/pads/automata.py
+++ b/pads/automata.py
@@ -389,7 +389,7 @@ class RegExp(NFA):
             self.successor[state].add(final)
         self.final = frozenset([final])
         if epsilon:
-            self.final = self.final | self.initial
+            self.initial = self.initial | self.final
 
     def transition(self, state, c):
         """Implement NFA transition function."""
-- 
2.43.0


From b8285f8b4e181fcfbf5393ee64886cacd3b75d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:51:42 +0000
Subject: [PATCH 29/64] fix: make truth and subset tests of regular languages
 work

Python 3 never called __nonzero__, so every language counted as true.
---
 pads/automata.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pads/automata.py b/pads/automata.py
index 02ae010..8cf4ff0 100644
--- a/pads/automata.py
+++ b/pads/automata.py
@@ -97,10 +97,12 @@ class RegularLanguage:
     def __nonzero__(self):
         """Is this the empty language?"""
         for x in self.recognizer.states():
-            if x.isfinal():
+            if self.recognizer.isfinal(x):
                 return True
         return False
 
+    __bool__ = __nonzero__
+
 
 class FiniteAutomaton:
 
-- 
2.43.0


From 3a3fe5e9af6989bde31eeaa0e71e7aec195bdb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:51:42 +0000
Subject: [PATCH 30/64] fix: compare accepting states when comparing automata

---
 pads/automata.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pads/automata.py b/pads/automata.py
index 8cf4ff0..1a1e415 100644
--- a/pads/automata.py
+++ b/pads/automata.py
@@ -211,6 +211,8 @@ class DFA(FiniteAutomaton):
         while unprocessed:
             x = unprocessed.pop()
             y = equivalences[x]
+            if bool(self.isfinal(x)) != bool(other.isfinal(y)):
+                return False
             for c in self.alphabet:
                 xc = self.transition(x, c)
                 yc = other.transition(y, c)
-- 
2.43.0


From 41e667e0152cb40e26518d88d861eca94da164e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:51:42 +0000
Subject: [PATCH 31/64] fix: print automata on Python 3

---
 pads/automata.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pads/automata.py b/pads/automata.py
index 1a1e415..b22f537 100644
--- a/pads/automata.py
+++ b/pads/automata.py
@@ -265,12 +265,12 @@ class NFA(FiniteAutomaton):
             if not [c for c in self.alphabet if self.transition(state, c)]:
                 adjectives.append("terminal")
             if not adjectives:
-                print >>output, state
+                print(state, file=output)
             else:
-                print >>output, state, "(" + ", ".join(adjectives) + ")"
+                print(state, "(" + ", ".join(adjectives) + ")", file=output)
             for c in self.alphabet:
                 for neighbor in self.transition(state, c):
-                    print >>output, "  --[" + str(c) + "]-->", neighbor
+                    print("  --[" + str(c) + "]-->", neighbor, file=output)
 
     def RegExp(self):
         """Convert to regular expression and return as a string.
-- 
2.43.0


From 6d4e8b2d5cf00cad01bb882639c2a71596ac9475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:51:42 +0000
Subject: [PATCH 32/64] fix: write regular expressions that can be read back

An empty alternative was dropped and special characters were not escaped.
---
 pads/automata.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pads/automata.py b/pads/automata.py
index b22f537..c68ada4 100644
--- a/pads/automata.py
+++ b/pads/automata.py
@@ -295,10 +295,13 @@ class NFA(FiniteAutomaton):
         for x in self.states():
             for c in self.alphabet:
                 for y in self.transition(x, c):
+                    symbol = str(c)
+                    if symbol in ('(', ')', '*', '+', '\\'):
+                        symbol = '\\' + symbol
                     if expr[x, y]:
-                        expr[x, y] += '+' + str(c)
+                        expr[x, y] += '+' + symbol
                     else:
-                        expr[x, y] = str(c)
+                        expr[x, y] = symbol
 
         # eliminate states one at a time
         for s in self.states():
@@ -314,6 +317,7 @@ class NFA(FiniteAutomaton):
                         if expr[s, y]:
                             xsy += self._parenthesize(expr[s, y])
                         if expr[x, y] is not None:
+                            xsy = xsy or ['()']
                             xsy += ['+', expr[x, y] or '()']
                         expr[x, y] = ''.join(xsy)
         return expr[initial, final]
-- 
2.43.0


From bed8119c4b4139fac246701590fa681b9e3fcc54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:51:42 +0000
Subject: [PATCH 33/64] fix: reject regular expressions with an unmatched close
 paren

---
 pads/automata.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pads/automata.py b/pads/automata.py
index c68ada4..65d637e 100644
--- a/pads/automata.py
+++ b/pads/automata.py
@@ -392,6 +392,9 @@ class RegExp(NFA):
         self.successor = {}
         self.alphabet = set()
         self.initial, penultimate, epsilon = self.expression()
+        if self.pos < len(self.expr):
+            raise RegExpError("Unexpected close paren at char " +
+                              str(self.pos))
         final = self.newstate(None)
         for state in penultimate:
             self.successor[state].add(final)
-- 
2.43.0


From babf0b5307e6e8fc61b1f230c94f4cc9c6a9b898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:52:01 +0000
Subject: [PATCH 34/64] fix: recognize partial cubes whose vertices cannot be
 compared

---
 pads/partial_cube.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pads/partial_cube.py b/pads/partial_cube.py
index 19ac1ba..bae4af4 100644
--- a/pads/partial_cube.py
+++ b/pads/partial_cube.py
@@ -60,7 +60,8 @@ def PartialCubeEdgeLabeling(G):
             raise MediumError("graph is not bipartite")
 
         # Find max degree vertex in G, and update label limit
-        deg, root = max([(len(CG[v]), v) for v in CG])
+        root = max(CG, key=lambda v: len(CG[v]))
+        deg = len(CG[root])
         if deg > NL:
             raise MediumError("graph has too many equivalence classes")
         NL -= deg
-- 
2.43.0


From 83f89846a772d680dd7797b2cfc1f5ee196e6e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:52:59 +0000
Subject: [PATCH 35/64] fix: keep distinguishable states apart when minimizing
 a DFA

Refining by one symbol could split the set that the remaining symbols
were about to use, so some splits were never made.
---
 pads/automata.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pads/automata.py b/pads/automata.py
index 65d637e..b7cb48a 100644
--- a/pads/automata.py
+++ b/pads/automata.py
@@ -595,9 +595,10 @@ class _MinimumDFA(DFA):
         while unrefined:
             part = arbitrary_item(unrefined)
             unrefined.remove(part)
+            splitter = list(part)   # refining may change the part itself
             for symbol in D.alphabet:
                 neighbors = set()
-                for state in part:
+                for state in splitter:
                     neighbors |= N.transition(state, symbol)
                 for new, old in P.refine(neighbors):
                     if old in unrefined or len(new) < len(old):
-- 
2.43.0


From 72cc7a717f9e5cda84dfd56eae22f2de3ff708f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:56:42 +0000
Subject: [PATCH 36/64] fix: draw rectangles at their own height

---
 pads/svg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pads/svg.py b/pads/svg.py
index 0ebc634..a439293 100644
--- a/pads/svg.py
+++ b/pads/svg.py
@@ -111,11 +111,11 @@ class SVG:
     def rectangle(self, p, q, style={}, **morestyle):
         """Rectangle with corners at points p and q"""
         x = min(p.real, q.real)
-        # y = min(p.imag, q.imag)
+        y = min(p.imag, q.imag)
         width = abs((p - q).real)
         height = abs((p - q).imag)
         self.element('rect x="%s" y="%s" width="%s" height="%s"' %
-                     (_coord(x), _coord(x), _coord(width), _coord(height)),
+                     (_coord(x), _coord(y), _coord(width), _coord(height)),
                      style=style, **morestyle)
 
     def polygon(self, points, style={}, **morestyle):
-- 
2.43.0


From 06cde4c62c401729686b2fcc7172d1968ec3a21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:56:42 +0000
Subject: [PATCH 37/64] fix: detect graph file formats on Python 3

The filtered lines are an iterator there, so every format other than
graph6 and sparse6 failed with a TypeError.
---
 pads/read_undirected_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/read_undirected_graph.py b/pads/read_undirected_graph.py
index b0299d3..cf8a451 100644
--- a/pads/read_undirected_graph.py
+++ b/pads/read_undirected_graph.py
@@ -431,7 +431,7 @@ def readUndirectedGraph(arg):
             return readSparse6(line)
 
     # LEDA.GRAPH
-    leda = ledaLines(lines)
+    leda = list(ledaLines(lines))
     if leda and leda[0] == 'LEDA.GRAPH':
         return readLeda(leda)
 
-- 
2.43.0


From 69d156567023ccc94e3d293caec10518f0c34285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:56:42 +0000
Subject: [PATCH 38/64] fix: read sparse6 graphs

The end of the data raised RuntimeError, the header was cut one character
short, and padding could be taken for an edge to a missing vertex.
---
 pads/read_undirected_graph.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pads/read_undirected_graph.py b/pads/read_undirected_graph.py
index cf8a451..7a59b95 100644
--- a/pads/read_undirected_graph.py
+++ b/pads/read_undirected_graph.py
@@ -307,7 +307,7 @@ def readGraph6(str):
 def readSparse6(str):
     """Read undirected graph in sparse6 format."""
     if str.startswith('>>sparse6<<'):
-        str = str[10:]
+        str = str[11:]
     if not str.startswith(':'):
         raise GraphFormatError('Expected colon in sparse6')
     n, data = graph6n(graph6data(str[1:]))
@@ -323,7 +323,9 @@ def readSparse6(str):
 
         while 1:
             if dLen < 1:
-                d = next(chunks)
+                d = next(chunks, None)
+                if d is None:
+                    return
                 dLen = 6
             dLen -= 1
             b = (d >> dLen) & 1  # grab top remaining bit
@@ -331,7 +333,9 @@ def readSparse6(str):
             x = d & ((1 << dLen) - 1) 	# partially built up value of x
             xLen = dLen				# how many bits included so far in x
             while xLen < k:			# now grab full chunks until we have enough
-                d = next(chunks)
+                d = next(chunks, None)
+                if d is None:
+                    return
                 dLen = 6
                 x = (x << 6) + d
                 xLen += 6
@@ -348,7 +352,7 @@ def readSparse6(str):
     for b, x in parseData():
         if b:
             v += 1
-        if x >= n:
+        if x >= n or v >= n:
             break			# padding with ones can cause overlarge number here
         elif x > v:
             v = x
-- 
2.43.0


From 090f240b972db819bb07eb1a5599f3850430dd51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:56:42 +0000
Subject: [PATCH 39/64] fix: report a node edge list that ends within an edge

---
 pads/read_undirected_graph.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pads/read_undirected_graph.py b/pads/read_undirected_graph.py
index 7a59b95..2fe13cc 100644
--- a/pads/read_undirected_graph.py
+++ b/pads/read_undirected_graph.py
@@ -151,12 +151,17 @@ def readNodeEdgeList(lines):
     lines = iter(filter(None, lines))
     numEdges = [0]
 
+    def nextLine():
+        for line in lines:
+            return line
+        raise GraphFormatError('Unexpected end of node edge list')
+
     def addVertex(line):
         vertex(G, line)
 
     def addEdge(line, id):
         u = line
-        v = next(lines)
+        v = nextLine()
         if v.startswith('//'):
             raise GraphFormatError('Missing edge endpoint in node edge list')
         edge(G, u, v, id)
@@ -170,7 +175,7 @@ def readNodeEdgeList(lines):
         if id in EdgeNames:
             raise GraphFormatError('Edge name "%s" used twice in node edge'
                                    ' list' % id)
-        addEdge(next(lines), id)
+        addEdge(nextLine(), id)
         EdgeNames[id] = id
 
     def noActionYet(line):
-- 
2.43.0


From 3f9da94a3bd19db2a31fde4df0e8f7d7b855ef56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:56:42 +0000
Subject: [PATCH 40/64] fix: report a LEDA.GRAPH file that ends too early

---
 pads/read_undirected_graph.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/pads/read_undirected_graph.py b/pads/read_undirected_graph.py
index 2fe13cc..d2489d5 100644
--- a/pads/read_undirected_graph.py
+++ b/pads/read_undirected_graph.py
@@ -385,18 +385,24 @@ def ledaLines(lines):
 def readLeda(lines):
     """Parse filtered LEDA.GRAPH format file."""
     lines = iter(lines)
+
+    def nextLine():
+        for line in lines:
+            return line
+        raise GraphFormatError('Unexpected end of LEDA.GRAPH file')
+
     for i in range(3):
-        next(lines)			    # skip header lines
+        nextLine()			    # skip header lines
     G = graph()
 
-    n = graphNum(next(lines))  # number of vertices
+    n = graphNum(nextLine())   # number of vertices
     for i in range(n):
         vertex(G, i + 1)
-        next(lines)			    # skip LEDA data
+        nextLine()			    # skip LEDA data
 
-    m = graphNum(next(lines))  # number of edges
+    m = graphNum(nextLine())   # number of edges
     for i in range(m):
-        words = next(lines).split()
+        words = nextLine().split()
         if len(words) < 4:
             raise GraphFormatError('Too few fields in LEDA.GRAPH edge %d'
                                    % (i + 1))
-- 
2.43.0


From 8e32048fff6e4e6aedd42e1a7eb4f187bc41c483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:56:42 +0000
Subject: [PATCH 41/64] fix: report empty, truncated or invalid graph6 data

---
 pads/read_undirected_graph.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pads/read_undirected_graph.py b/pads/read_undirected_graph.py
index d2489d5..adb1e49 100644
--- a/pads/read_undirected_graph.py
+++ b/pads/read_undirected_graph.py
@@ -258,7 +258,7 @@ def readGraphML(lines):
 def graph6data(str):
     """Convert graph6 character sequence to 6-bit integers."""
     v = [ord(c) - 63 for c in str]
-    if min(v) < 0 or max(v) > 63:
+    if not v or min(v) < 0 or max(v) > 63:
         return None
     return v
 
@@ -268,8 +268,12 @@ def graph6n(data):
     value, rest of seq.
 
     """
+    if not data:
+        raise GraphFormatError('Missing or invalid graph6 data')
     if data[0] <= 62:
         return data[0], data[1:]
+    if len(data) < 4:
+        raise GraphFormatError('Incomplete size in graph6 data')
     return (data[1] << 12) + (data[2] << 6) + data[3], data[4:]
 
 
-- 
2.43.0


From fdc135bc00781d7b7ce40c4dba3746f915bb65bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:56:42 +0000
Subject: [PATCH 42/64] fix: read an empty input as an empty graph

---
 pads/read_undirected_graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pads/read_undirected_graph.py b/pads/read_undirected_graph.py
index adb1e49..709e84b 100644
--- a/pads/read_undirected_graph.py
+++ b/pads/read_undirected_graph.py
@@ -455,11 +455,11 @@ def readUndirectedGraph(arg):
         return readLeda(leda)
 
     # GraphML
-    if lines[0].startswith("<"):
+    if lines and lines[0].startswith("<"):
         return readGraphML(lines)
 
     # Node edge list
-    if lines[0].startswith("//"):
+    if lines and lines[0].startswith("//"):
         return readNodeEdgeList(lines)
 
     # MALF
-- 
2.43.0


From 972c3968a80c8bb08b1539192d83f602b7c0c348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:56:42 +0000
Subject: [PATCH 43/64] fix: read GraphML tags that span lines and report
 malformed XML

---
 pads/read_undirected_graph.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pads/read_undirected_graph.py b/pads/read_undirected_graph.py
index 709e84b..27558c5 100644
--- a/pads/read_undirected_graph.py
+++ b/pads/read_undirected_graph.py
@@ -245,9 +245,12 @@ def readGraphML(lines):
     p = xml.parsers.expat.ParserCreate()
     p.StartElementHandler = start_element
     p.EndElementHandler = end_element
-    for line in lines:
-        p.Parse(line)
-    p.Parse("", 1)
+    try:
+        for line in lines:
+            p.Parse(line + "\n")
+        p.Parse("", 1)
+    except xml.parsers.expat.ExpatError as e:
+        raise GraphFormatError('Malformed XML in GraphML: %s' % e)
     return G
 
 
-- 
2.43.0


From 1c48270ae452de2f46d895685afed0808764440e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:56:42 +0000
Subject: [PATCH 44/64] fix: let interrupts through while parsing numbers

---
 pads/read_undirected_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/read_undirected_graph.py b/pads/read_undirected_graph.py
index 27558c5..f3b4d95 100644
--- a/pads/read_undirected_graph.py
+++ b/pads/read_undirected_graph.py
@@ -49,7 +49,7 @@ def graphNum(s):
     """Parse s as an integer, complain appropriately if it fails."""
     try:
         return int(s)
-    except:
+    except (TypeError, ValueError):
         raise GraphFormatError('Number expected: "%s"' % s)
 
 
-- 
2.43.0


From 4c67295878a211b66571d465904baf9d892fe964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:56:42 +0000
Subject: [PATCH 45/64] fix: name the vertex in duplicate vertex errors

---
 pads/read_undirected_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/read_undirected_graph.py b/pads/read_undirected_graph.py
index f3b4d95..939b3f3 100644
--- a/pads/read_undirected_graph.py
+++ b/pads/read_undirected_graph.py
@@ -61,7 +61,7 @@ def graph():
 def vertex(G, v):
     """Add new vertex v to graph G."""
     if v in G:
-        raise GraphFormatError('Duplicate vertex %s', str(v))
+        raise GraphFormatError('Duplicate vertex %s' % str(v))
     G[v] = {}
 
 
-- 
2.43.0


From 183dc57ab98f848a00a3322d46c33ed403b40734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:56:42 +0000
Subject: [PATCH 46/64] fix: accept strings of several lines and lines with
 newlines

Only file objects had their lines split and stripped.
---
 pads/read_undirected_graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pads/read_undirected_graph.py b/pads/read_undirected_graph.py
index 939b3f3..85dd0ef 100644
--- a/pads/read_undirected_graph.py
+++ b/pads/read_undirected_graph.py
@@ -436,9 +436,9 @@ def readUndirectedGraph(arg):
     if isinstance(arg, FILE_TYPES):
         lines = [L.strip() for L in arg]
     elif isinstance(arg, STR_TYPES):
-        lines = [arg]
+        lines = [L.strip() for L in arg.splitlines()]
     else:
-        lines = list(arg)
+        lines = [L.strip() for L in arg]
 
     # Test out different possible formats,
     # ordered from more distinctive to more ambiguous.
-- 
2.43.0


From 164fa2b4203a9edf02de88e87754bf4bed31f4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:05:17 +0000
Subject: [PATCH 47/64] fix: keep excluded digits in backtracking sudoku
 branches

A branch was rebuilt from the filled cells alone, so it listed solutions
with digits that had already been ruled out.
---
 pads/sudoku.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pads/sudoku.py b/pads/sudoku.py
index 72b1f2e..a3ff027 100644
--- a/pads/sudoku.py
+++ b/pads/sudoku.py
@@ -1595,6 +1595,7 @@ def all_solutions(grid, fastrules=True):
 
         # try it both ways
         branch = Sudoku(grid)
+        branch.locations = list(grid.locations)
         grid.log("Failed to progress, "
                  "creating a new backtracking search branch.")
         branch.logstream = grid.logstream
-- 
2.43.0


From 48a3779610e431057c736230b9370b0b45455bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:07:26 +0000
Subject: [PATCH 48/64] fix: find long augmenting paths in bipartite matching

The search for augmenting paths recursed once per path edge and ran out
of stack on long paths.
---
 pads/bipartite_matching.py | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/pads/bipartite_matching.py b/pads/bipartite_matching.py
index ea2e841..4ba6a5a 100644
--- a/pads/bipartite_matching.py
+++ b/pads/bipartite_matching.py
@@ -67,23 +67,31 @@ def matching(graph):
                         unlayered[v] = None
             return (matching, list(pred), list(unlayered))
 
-        # recursively search backward through layers to find alternating paths
-        # recursion returns true if found path, false otherwise
-        def recurse(v):
-            if v in preds:
-                L = preds[v]
-                del preds[v]
-                for u in L:
+        # search backward through layers to find alternating paths,
+        # without recursion as the paths may be long
+        # stack pairs each vertex in V with its remaining predecessors
+        # tried has the predecessor being tried for all but the last of them
+        def search(v):
+            stack = [(v, iter(preds.pop(v, ())))]
+            tried = []
+            while stack:
+                for u in stack[-1][1]:
                     if u in pred:
-                        pu = pred[u]
-                        del pred[u]
-                        if pu is unmatched or recurse(pu):
-                            matching[v] = u
-                            return True
-            return False
+                        pu = pred.pop(u)
+                        tried.append(u)
+                        if pu is unmatched:
+                            for (v, L), u in zip(stack, tried):
+                                matching[v] = u
+                            return
+                        stack.append((pu, iter(preds.pop(pu, ()))))
+                        break
+                else:
+                    stack.pop()
+                    if tried:
+                        tried.pop()
 
         for v in unmatched:
-            recurse(v)
+            search(v)
 
 
 def imperfections(graph):
-- 
2.43.0


From 33b221306e061a990496498f61a3dc949326d670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:56:18 +0000
Subject: [PATCH 49/64] fix: break ties between rows by position in column
 minima

---
 pads/smawk.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pads/smawk.py b/pads/smawk.py
index 1255b51..4c88fa6 100644
--- a/pads/smawk.py
+++ b/pads/smawk.py
@@ -69,7 +69,9 @@ def ConcaveMinima(RowIndices, ColIndices, Matrix):
         while row != lastrow:
             r += 1
             row = RowIndices[r]
-            pair = min(pair, (Matrix(row, col), row))
+            value = Matrix(row, col)
+            if value < pair[0]:
+                pair = (value, row)
         minima[col] = pair
 
     return minima
-- 
2.43.0


From cd16a69ef77c830f83219a590a1048ffeb326e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:56:18 +0000
Subject: [PATCH 50/64] fix: connect the outer ring of generalized Coxeter
 graphs to itself

---
 pads/graph_examples.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/graph_examples.py b/pads/graph_examples.py
index 69108a1..4584991 100644
--- a/pads/graph_examples.py
+++ b/pads/graph_examples.py
@@ -23,7 +23,7 @@ def GeneralizedCoxeterGraph(n, a, b):
         G[i, 0] = (i, 1), (i, 2), (i, 3)
         G[i, 1] = (i, 0), ((i + 1) % n, 1), ((i - 1) % n, 1)
         G[i, 2] = (i, 0), ((i + a) % n, 2), ((i - a) % n, 2)
-        G[i, 3] = (i, 0), ((i + b) % n, 1), ((i - b) % n, 1)
+        G[i, 3] = (i, 0), ((i + b) % n, 3), ((i - b) % n, 3)
     return G
 
 CoxeterGraph = GeneralizedCoxeterGraph(7, 2, 3)
-- 
2.43.0


From b08aec81cf3c5b5e4d6b8fe3c3b92237ff5d5bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:56:18 +0000
Subject: [PATCH 51/64] fix: iterate over packings with items

---
 pads/circle_pack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/circle_pack.py b/pads/circle_pack.py
index 49ce484..75cc7d8 100644
--- a/pads/circle_pack.py
+++ b/pads/circle_pack.py
@@ -85,7 +85,7 @@ def NormalizePacking(packing, k=None, target=1.0):
     else:
         z, r = packing[k]
     s = target / r
-    return dict((kk, (zz * s, rr * s)) for kk, (zz, rr) in packing.iteritems())
+    return dict((kk, (zz * s, rr * s)) for kk, (zz, rr) in packing.items())
 
 
 def InvertAround(packing, k, smallCircles=None):
-- 
2.43.0


From 1b84c05ead11998ddc6a9041bfc55740a255f1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:08:22 +0000
Subject: [PATCH 52/64] fix: use blocks of logarithmic length for range minima

---
 pads/lca.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/lca.py b/pads/lca.py
index f2b8033..f85ec41 100644
--- a/pads/lca.py
+++ b/pads/lca.py
@@ -98,7 +98,7 @@ class RestrictedRangeMin:
         # Compute parameters for partition into blocks.
         # Position i in X becomes transformed into
         # position i&self._blockmask in block i>>self.blocklen
-        self._blocksize = _log2(len(X)) // 2
+        self._blocksize = _log2(max(1, _log2(len(X)) // 2))
         self._blockmask = (1 << self._blocksize) - 1
         blocklen = 1 << self._blocksize
 
-- 
2.43.0


From ef5c9e8edc2d0087f83ccfa476b196f2cc995c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:35:12 +0000
Subject: [PATCH 53/64] fix: find alternating paths through nested blossoms
 without recursion

---
 pads/cardinality_matching.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/pads/cardinality_matching.py b/pads/cardinality_matching.py
index 25e7515..13c7ee7 100644
--- a/pads/cardinality_matching.py
+++ b/pads/cardinality_matching.py
@@ -95,21 +95,26 @@ def matching(G, initial_matching=None):
             an alternating path to the structure tree root.
             """
             path = []
+            outer = []      # unfinished paths around the current one
             while 1:
                 while start in T:
                     v, w = base[start]
-                    vs = alternating_path(v, start)
-                    vs.reverse()
-                    path += vs
-                    start = w
+                    outer.append((path, w, goal))
+                    path, start, goal = [], v, start
                 path.append(start)
-                if start not in matching:
-                    return path     # reached top of structure tree, done!
-                tnode = matching[start]
-                path.append(tnode)
-                if tnode == goal:
-                    return path     # finished recursive subpath
-                start = T[tnode]
+                if start in matching:
+                    tnode = matching[start]
+                    path.append(tnode)
+                    if tnode != goal:
+                        start = T[tnode]
+                        continue
+                # here at top of structure tree or with finished subpath
+                if not outer:
+                    return path
+                vs = path
+                vs.reverse()
+                path, start, goal = outer.pop()
+                path += vs
 
         def alternate(v):
             """Make v unmatched by alternating the path to the root of its
-- 
2.43.0


From 9440615484cc91bba4c143a5f56f730a757858a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:35:50 +0000
Subject: [PATCH 54/64] fix: refuse orders that list a vertex twice

---
 pads/partial_order.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/partial_order.py b/pads/partial_order.py
index af2c1e5..373e9e8 100644
--- a/pads/partial_order.py
+++ b/pads/partial_order.py
@@ -13,7 +13,7 @@ def isTopologicalOrder(G, L):
     """Check that L is a topological ordering of directed graph G."""
     vnum = {}
     for i in range(len(L)):
-        if L[i] not in G:
+        if L[i] not in G or L[i] in vnum:
             return False
         vnum[L[i]] = i
     for v in G:
-- 
2.43.0


From 391b284899c8208f1477ddadd8c1f7e7a4af3075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:43:03 +0000
Subject: [PATCH 55/64] fix: refuse a cycle beside the tree in offline
 ancestors

---
 pads/lca.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pads/lca.py b/pads/lca.py
index f85ec41..01469a7 100644
--- a/pads/lca.py
+++ b/pads/lca.py
@@ -272,6 +272,8 @@ class OfflineLCA(defaultdict):
         # initiate depth first traversal
         self.visited = set()
         self.traverse(root[0])
+        if [x for x in parent if x not in self.visited]:
+            raise ValueError("LCA input is not a tree")
 
     def traverse(self, node):
         """Perform depth first traversal of tree."""
-- 
2.43.0


From 58840339c2b49e942d24dd53bddd63ee37b4a3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:23:23 +0000
Subject: [PATCH 56/64] fix: let inversion around a circle look only at other
 circles

---
 pads/circle_pack.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pads/circle_pack.py b/pads/circle_pack.py
index 75cc7d8..90a3c4e 100644
--- a/pads/circle_pack.py
+++ b/pads/circle_pack.py
@@ -101,7 +101,8 @@ def InvertAround(packing, k, smallCircles=None):
     for the minimum radius circle will look only at these circles"""
     z, r = packing[k]
     if smallCircles:
-        optpack = {k: packing[k] for k in smallCircles}
+        optpack = {c: packing[c] for c in smallCircles}
+        optpack[k] = packing[k]  # radii are compared relative to circle k
     else:
         optpack = packing
     q, g = z, r * 0.4
-- 
2.43.0


From 5f680d2cfdd188d883693cebdfed495477c0ca59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:53:05 +0000
Subject: [PATCH 57/64] fix: set puzzle and solution apart when printing both

---
 pads/sudoku.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/sudoku.py b/pads/sudoku.py
index a3ff027..1aff41a 100644
--- a/pads/sudoku.py
+++ b/pads/sudoku.py
@@ -1814,7 +1814,7 @@ if __name__ == '__main__':
         print_level = outputter(puzzle)
 
     if options.output_both and print_level:
-        print
+        print()
 
     if options.backtrack:
         solns = all_solutions(puzzle, False)
-- 
2.43.0


From 09be0e2151ae12ce070debb80a7a215e5acc6e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:14:15 +0000
Subject: [PATCH 58/64] fix: refuse to split the sets of a frozen partition

---
 pads/partition_refinement.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pads/partition_refinement.py b/pads/partition_refinement.py
index c3f5f48..5aa1704 100644
--- a/pads/partition_refinement.py
+++ b/pads/partition_refinement.py
@@ -74,6 +74,8 @@ class PartitionRefinement:
         for A, AS in hit.items():
             A = self._sets[A]
             if AS != A:
+                if isinstance(A, frozenset):
+                    raise PartitionError("Set has been frozen")
                 self._sets[id(AS)] = AS
                 for x in AS:
                     self._partition[x] = AS
-- 
2.43.0


From 48d9d4e525b6a10be43229daba7bf09b359c6006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:14:16 +0000
Subject: [PATCH 59/64] fix: do not list items that are updated without being
 in the set

---
 pads/sorted_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/sorted_set.py b/pads/sorted_set.py
index 30a41f3..52accf4 100644
--- a/pads/sorted_set.py
+++ b/pads/sorted_set.py
@@ -55,7 +55,7 @@ class SortedSet:
         neighbors in the order.
 
         """
-        if self._previous:
+        if self._previous and item in self._set:
             self._removals.add(item)
             self._additions.add(item)
 
-- 
2.43.0


From a74ac07e66f9f8554f3b103575ad2359b4dba584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:14:17 +0000
Subject: [PATCH 60/64] fix: stop comparing items removed from an ordered
 sequence

---
 pads/ordered_sequence.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pads/ordered_sequence.py b/pads/ordered_sequence.py
index da03be4..aabe855 100644
--- a/pads/ordered_sequence.py
+++ b/pads/ordered_sequence.py
@@ -49,6 +49,12 @@ class SimpleOrderedSequence(Sequence):
         else:
             self.insertAfter(self.predecessor(self[0]), x)
 
+    def remove(self, x):
+        """Remove x from the sequence, and forget its tag."""
+        key = self.key(x)
+        Sequence.remove(self, x)
+        del self._tag[key]
+
     def insertAfter(self, x, y):
         """Add y after x and compute a tag for it."""
         Sequence.insertAfter(self, x, y)
-- 
2.43.0


From f87587d3bab7268ab19f103619de2b9bae359efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:14:19 +0000
Subject: [PATCH 61/64] fix: read graph6 and sparse6 sizes above 258047

---
 pads/read_undirected_graph.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pads/read_undirected_graph.py b/pads/read_undirected_graph.py
index 85dd0ef..b036e7f 100644
--- a/pads/read_undirected_graph.py
+++ b/pads/read_undirected_graph.py
@@ -267,8 +267,8 @@ def graph6data(str):
 
 
 def graph6n(data):
-    """Read initial one or four-unit value from graph6 sequence.  Return
-    value, rest of seq.
+    """Read initial one, four, or eight-unit value from graph6 sequence.
+    Return value, rest of seq.
 
     """
     if not data:
@@ -277,6 +277,13 @@ def graph6n(data):
         return data[0], data[1:]
     if len(data) < 4:
         raise GraphFormatError('Incomplete size in graph6 data')
+    if data[1] > 62:
+        if len(data) < 8:
+            raise GraphFormatError('Incomplete size in graph6 data')
+        n = 0
+        for d in data[2:8]:
+            n = (n << 6) + d
+        return n, data[8:]
     return (data[1] << 12) + (data[2] << 6) + data[3], data[4:]
 
 
-- 
2.43.0


From e1212fec9845ba6b614337ac1ccba27efa1329c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:14:20 +0000
Subject: [PATCH 62/64] fix: recognise the graph format behind blank lines

---
 pads/read_undirected_graph.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pads/read_undirected_graph.py b/pads/read_undirected_graph.py
index b036e7f..225a685 100644
--- a/pads/read_undirected_graph.py
+++ b/pads/read_undirected_graph.py
@@ -446,6 +446,7 @@ def readUndirectedGraph(arg):
         lines = [L.strip() for L in arg.splitlines()]
     else:
         lines = [L.strip() for L in arg]
+    lines = [L for L in lines if L]     # no format needs its blank lines
 
     # Test out different possible formats,
     # ordered from more distinctive to more ambiguous.
-- 
2.43.0


From c12dcc74128c7c36b5fd50eb6af6234b8ff6204e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:16:18 +0000
Subject: [PATCH 63/64] fix: refuse LEDA edges listed without their reversal

---
 pads/read_undirected_graph.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pads/read_undirected_graph.py b/pads/read_undirected_graph.py
index 225a685..3833161 100644
--- a/pads/read_undirected_graph.py
+++ b/pads/read_undirected_graph.py
@@ -414,6 +414,7 @@ def readLeda(lines):
         vertex(G, i + 1)
         nextLine()			    # skip LEDA data
 
+    back = []                  # edges listed from their larger endpoint
     m = graphNum(nextLine())   # number of edges
     for i in range(m):
         words = nextLine().split()
@@ -428,6 +429,13 @@ def readLeda(lines):
                                    % (i + 1))
         if source < target:
             edge(G, source, target, i + 1)
+        else:
+            back.append((source, target))
+
+    for source, target in back:
+        if source not in G.get(target, ()):
+            raise GraphFormatError('Edge from %d to %d has no reversal in'
+                                   ' LEDA.GRAPH' % (source, target))
 
     return G
 
-- 
2.43.0


From 9bf19222f794a9fecfb215a5d2479af81390836b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:13:00 +0000
Subject: [PATCH 64/64] fix: there are no partitions into a negative number of
 parts

---
 pads/integer_partitions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/integer_partitions.py b/pads/integer_partitions.py
index deafb67..c7cbd33 100644
--- a/pads/integer_partitions.py
+++ b/pads/integer_partitions.py
@@ -163,7 +163,7 @@ def fixed_length_partitions(n, L):
         if n > 0:
             yield [n]
         return
-    if n < L:
+    if L < 0 or n < L:
         return
 
     partition = [n - L + 1] + (L - 1) * [1]
-- 
2.43.0

