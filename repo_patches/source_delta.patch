From 078158689d5776d927a770fd6864df900954b0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:29 +0000
Subject: [PATCH 01/58] fix: refuse negative vertex indices in graph edge lists

---
 dhg/structure/base.py                   | 3 ++-
 dhg/structure/graphs/bipartite_graph.py | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/dhg/structure/base.py b/dhg/structure/base.py
index 80b853d..3dca176 100644
--- a/dhg/structure/base.py
+++ b/dhg/structure/base.py
@@ -133,7 +133,8 @@ class BaseGraph:
             e_list = [e_list]
             if e_weight is not None:
                 e_weight = [e_weight]
-        assert np.array(e_list).max() < self._num_v, "Vertex index out of range"
+        e_array = np.array(e_list)
+        assert e_array.min() >= 0 and e_array.max() < self._num_v, "Vertex index out of range"
         # complete the weight
         if e_weight is None:
             e_weight = [1.0] * len(e_list)
diff --git a/dhg/structure/graphs/bipartite_graph.py b/dhg/structure/graphs/bipartite_graph.py
index 7c81f53..094ac6e 100644
--- a/dhg/structure/graphs/bipartite_graph.py
+++ b/dhg/structure/graphs/bipartite_graph.py
@@ -197,6 +197,7 @@ class BiGraph(BaseGraph):
             if e_weight is not None:
                 e_weight = [e_weight]
         e_array = np.array(e_list)
+        assert e_array.min() >= 0, "The index in e_list should not be negative."
         assert e_array[:, 0].max() < self.num_u, "The u_idx in e_list is out of range."
         assert e_array[:, 1].max() < self.num_v, "The v_idx in e_list is out of range."
         # complete the weight
-- 
2.43.0


From 61033575aa4f7f0303d191792cbafe077d096743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:29 +0000
Subject: [PATCH 02/58] fix: store edge weights as floats and refuse an
 edge/weight count mismatch

---
 dhg/structure/base.py                   | 3 +++
 dhg/structure/graphs/bipartite_graph.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/dhg/structure/base.py b/dhg/structure/base.py
index 3dca176..fb10ea5 100644
--- a/dhg/structure/base.py
+++ b/dhg/structure/base.py
@@ -138,6 +138,9 @@ class BaseGraph:
         # complete the weight
         if e_weight is None:
             e_weight = [1.0] * len(e_list)
+        else:
+            e_weight = [float(w) for w in e_weight]
+        assert len(e_list) == len(e_weight), "The number of edges and the number of weights are not equal."
         return e_list, e_weight
 
     # =====================================================================================
diff --git a/dhg/structure/graphs/bipartite_graph.py b/dhg/structure/graphs/bipartite_graph.py
index 094ac6e..7fb8ad0 100644
--- a/dhg/structure/graphs/bipartite_graph.py
+++ b/dhg/structure/graphs/bipartite_graph.py
@@ -203,6 +203,9 @@ class BiGraph(BaseGraph):
         # complete the weight
         if e_weight is None:
             e_weight = [1.0] * len(e_list)
+        else:
+            e_weight = [float(w) for w in e_weight]
+        assert len(e_list) == len(e_weight), "The number of edges and the number of weights are not equal."
         return e_list, e_weight
 
     # =====================================================================================
-- 
2.43.0


From b75e88ced3d3c81c9eebc2e5c2ea925c95c8282c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:29 +0000
Subject: [PATCH 03/58] fix: removing an empty edge list from a graph is a
 no-op

---
 dhg/structure/graphs/bipartite_graph.py | 2 ++
 dhg/structure/graphs/directed_graph.py  | 2 ++
 dhg/structure/graphs/graph.py           | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/dhg/structure/graphs/bipartite_graph.py b/dhg/structure/graphs/bipartite_graph.py
index 7fb8ad0..adbff27 100644
--- a/dhg/structure/graphs/bipartite_graph.py
+++ b/dhg/structure/graphs/bipartite_graph.py
@@ -332,6 +332,8 @@ class BiGraph(BaseGraph):
         Args:
             ``e_list`` (``Union[List[int], List[List[int]]]``): Edges to be removed.
         """
+        if len(e_list) == 0:
+            return
         e_list, _ = self._format_edges(e_list)
         for src, dst in e_list:
             self._remove_edge(src, dst)
diff --git a/dhg/structure/graphs/directed_graph.py b/dhg/structure/graphs/directed_graph.py
index 645f652..2928b20 100644
--- a/dhg/structure/graphs/directed_graph.py
+++ b/dhg/structure/graphs/directed_graph.py
@@ -274,6 +274,8 @@ class DiGraph(BaseGraph):
         Args:
             ``e_list`` (``Union[List[int], List[List[int]]]``): Edges to be removed.
         """
+        if len(e_list) == 0:
+            return
         e_list, _ = self._format_edges(e_list)
         for src, dst in e_list:
             self._remove_edge(src, dst)
diff --git a/dhg/structure/graphs/graph.py b/dhg/structure/graphs/graph.py
index 82fb6e4..75fb10b 100644
--- a/dhg/structure/graphs/graph.py
+++ b/dhg/structure/graphs/graph.py
@@ -331,6 +331,8 @@ class Graph(BaseGraph):
         Args:
             ``e_list`` (``Union[List[int], List[List[int]]]``): Edges to be removed.
         """
+        if len(e_list) == 0:
+            return
         e_list, _ = self._format_edges(e_list)
         for src, dst in e_list:
             if src > dst:
-- 
2.43.0


From d9acdf7e828aa61579e386176df975c42010a00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:29 +0000
Subject: [PATCH 04/58] fix: DiGraph.reverse_direction drops the cached views

---
 dhg/structure/graphs/directed_graph.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dhg/structure/graphs/directed_graph.py b/dhg/structure/graphs/directed_graph.py
index 2928b20..d19598e 100644
--- a/dhg/structure/graphs/directed_graph.py
+++ b/dhg/structure/graphs/directed_graph.py
@@ -300,6 +300,7 @@ class DiGraph(BaseGraph):
         r"""Reverse the direction of edges in directed graph.
         """
         self._raw_e_dict = {(dst, src): w for (src, dst), w in self._raw_e_dict.items()}
+        self._clear_cache()
 
     def drop_edges(self, drop_rate: float, ord: str = "uniform"):
         r"""Randomly drop edges from the directed graph. This function will return a new directed graph with non-dropped edges.
-- 
2.43.0


From 4696ad6ed6709b039314f03d7d789a7f86686a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:39 +0000
Subject: [PATCH 05/58] fix: Graph.v2v softmax_then_sum without e_weight takes
 the softmax

---
 dhg/structure/graphs/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dhg/structure/graphs/graph.py b/dhg/structure/graphs/graph.py
index 75fb10b..5bb4b9c 100644
--- a/dhg/structure/graphs/graph.py
+++ b/dhg/structure/graphs/graph.py
@@ -679,7 +679,7 @@ class Graph(BaseGraph):
             elif aggr == "sum":
                 X = torch.sparse.mm(P, X)
             elif aggr == "softmax_then_sum":
-                P = torch.sparse.mm(P, dim=1)
+                P = torch.sparse.softmax(P, dim=1)
                 X = torch.sparse.mm(P, X)
             else:
                 pass
-- 
2.43.0


From 707c7ce41fb1197c35edea1140827f115a73a30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:50 +0000
Subject: [PATCH 06/58] fix: weighted mean message passing divides by the sum
 of the weights

---
 dhg/structure/graphs/bipartite_graph.py | 4 ++--
 dhg/structure/graphs/directed_graph.py  | 4 ++--
 dhg/structure/graphs/graph.py           | 2 +-
 dhg/structure/hypergraphs/hypergraph.py | 8 ++++----
 4 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/dhg/structure/graphs/bipartite_graph.py b/dhg/structure/graphs/bipartite_graph.py
index adbff27..a723a75 100644
--- a/dhg/structure/graphs/bipartite_graph.py
+++ b/dhg/structure/graphs/bipartite_graph.py
@@ -687,7 +687,7 @@ class BiGraph(BaseGraph):
             # message passing
             if aggr == "mean":
                 X = torch.sparse.mm(P, X)
-                D_v_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1)
+                D_v_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1) ** (-1)
                 D_v_neg_1[torch.isinf(D_v_neg_1)] = 0
                 X = D_v_neg_1 * X
             elif aggr == "sum":
@@ -740,7 +740,7 @@ class BiGraph(BaseGraph):
             # message passing
             if aggr == "mean":
                 X = torch.sparse.mm(P, X)
-                D_u_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1)
+                D_u_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1) ** (-1)
                 D_u_neg_1[torch.isinf(D_u_neg_1)] = 0
                 X = D_u_neg_1 * X
             elif aggr == "sum":
diff --git a/dhg/structure/graphs/directed_graph.py b/dhg/structure/graphs/directed_graph.py
index d19598e..be90ef6 100644
--- a/dhg/structure/graphs/directed_graph.py
+++ b/dhg/structure/graphs/directed_graph.py
@@ -587,7 +587,7 @@ class DiGraph(BaseGraph):
                 # message passing
                 if aggr == "mean":
                     X = torch.sparse.mm(P, X)
-                    D_v_in_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1)
+                    D_v_in_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1) ** (-1)
                     D_v_in_neg_1[torch.isinf(D_v_in_neg_1)] = 0
                     X = D_v_in_neg_1 * X
                 elif aggr == "sum":
@@ -629,7 +629,7 @@ class DiGraph(BaseGraph):
                 # message passing
                 if aggr == "mean":
                     X = torch.sparse.mm(P, X)
-                    D_v_in_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1)
+                    D_v_in_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1) ** (-1)
                     D_v_in_neg_1[torch.isinf(D_v_in_neg_1)] = 0
                     X = D_v_in_neg_1 * X
                 elif aggr == "sum":
diff --git a/dhg/structure/graphs/graph.py b/dhg/structure/graphs/graph.py
index 5bb4b9c..3195cd3 100644
--- a/dhg/structure/graphs/graph.py
+++ b/dhg/structure/graphs/graph.py
@@ -694,7 +694,7 @@ class Graph(BaseGraph):
             # message passing
             if aggr == "mean":
                 X = torch.sparse.mm(P, X)
-                D_v_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1)
+                D_v_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1) ** (-1)
                 D_v_neg_1[torch.isinf(D_v_neg_1)] = 0
                 X = D_v_neg_1 * X
             elif aggr == "sum":
diff --git a/dhg/structure/hypergraphs/hypergraph.py b/dhg/structure/hypergraphs/hypergraph.py
index 2390ede..7bd2667 100644
--- a/dhg/structure/hypergraphs/hypergraph.py
+++ b/dhg/structure/hypergraphs/hypergraph.py
@@ -1283,7 +1283,7 @@ class Hypergraph(BaseHypergraph):
             # message passing
             if aggr == "mean":
                 X = torch.sparse.mm(P, X)
-                D_e_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1)
+                D_e_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1) ** (-1)
                 D_e_neg_1[torch.isinf(D_e_neg_1)] = 0
                 X = D_e_neg_1 * X
             elif aggr == "sum":
@@ -1347,7 +1347,7 @@ class Hypergraph(BaseHypergraph):
             # message passing
             if aggr == "mean":
                 X = torch.sparse.mm(P, X)
-                D_e_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1)
+                D_e_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1) ** (-1)
                 D_e_neg_1[torch.isinf(D_e_neg_1)] = 0
                 X = D_e_neg_1 * X
             elif aggr == "sum":
@@ -1482,7 +1482,7 @@ class Hypergraph(BaseHypergraph):
             # message passing
             if aggr == "mean":
                 X = torch.sparse.mm(P, X)
-                D_v_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1)
+                D_v_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1) ** (-1)
                 D_v_neg_1[torch.isinf(D_v_neg_1)] = 0
                 X = D_v_neg_1 * X
             elif aggr == "sum":
@@ -1546,7 +1546,7 @@ class Hypergraph(BaseHypergraph):
             # message passing
             if aggr == "mean":
                 X = torch.sparse.mm(P, X)
-                D_v_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1)
+                D_v_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1) ** (-1)
                 D_v_neg_1[torch.isinf(D_v_neg_1)] = 0
                 X = D_v_neg_1 * X
             elif aggr == "sum":
-- 
2.43.0


From 0b006ad472cb7e99c13b03e9d5668d6a70ac25ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:15 +0000
Subject: [PATCH 07/58] fix: keep hypergraph vertex weights across clone,
 save/load, drop and clear

---
 dhg/structure/base.py                   |  2 +-
 dhg/structure/hypergraphs/hypergraph.py | 14 ++++++++------
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/dhg/structure/base.py b/dhg/structure/base.py
index fb10ea5..041bb88 100644
--- a/dhg/structure/base.py
+++ b/dhg/structure/base.py
@@ -816,7 +816,7 @@ class BaseHypergraph:
         r"""Set the vertex weights of the hypergraph.
         """
         assert len(v_weight) == self.num_v, "The length of vertex weights must be equal to the number of vertices."
-        self._v_weight = v_weight
+        self._v_weight = list(v_weight)
         self._clear_cache()
 
     @property
diff --git a/dhg/structure/hypergraphs/hypergraph.py b/dhg/structure/hypergraphs/hypergraph.py
index 7bd2667..86191d2 100644
--- a/dhg/structure/hypergraphs/hypergraph.py
+++ b/dhg/structure/hypergraphs/hypergraph.py
@@ -42,7 +42,7 @@ class Hypergraph(BaseHypergraph):
             self._v_weight = [1.0] * self.num_v
         else:
             assert len(v_weight) == self.num_v, "The length of vertex weight is not equal to the number of vertices."
-            self._v_weight = v_weight
+            self._v_weight = list(v_weight)
         # init hyperedges
         if e_list is not None:
             self.add_hyperedges(e_list, e_weight, merge_op=merge_op)
@@ -56,7 +56,7 @@ class Hypergraph(BaseHypergraph):
     def state_dict(self) -> Dict[str, Any]:
         r"""Get the state dict of the hypergraph.
         """
-        return {"num_v": self.num_v, "raw_groups": self._raw_groups}
+        return {"num_v": self.num_v, "raw_groups": self._raw_groups, "v_weight": self.v_weight}
 
     def save(self, file_path: Union[str, Path]):
         r"""Save the DHG's hypergraph structure a file.
@@ -148,7 +148,7 @@ class Hypergraph(BaseHypergraph):
     def clone(self) -> "Hypergraph":
         r"""Return a copy of the hypergraph.
         """
-        hg = Hypergraph(self.num_v, device=self.device)
+        hg = Hypergraph(self.num_v, v_weight=self.v_weight, device=self.device)
         hg._raw_groups = deepcopy(self._raw_groups)
         hg.cache = deepcopy(self.cache)
         hg.group_cache = deepcopy(self.group_cache)
@@ -171,7 +171,7 @@ class Hypergraph(BaseHypergraph):
         Args:
             ``state_dict`` (``dict``): The state dict to load the hypergraph.
         """
-        _hg = Hypergraph(state_dict["num_v"])
+        _hg = Hypergraph(state_dict["num_v"], v_weight=state_dict.get("v_weight"))
         _hg._raw_groups = deepcopy(state_dict["raw_groups"])
         return _hg
 
@@ -462,6 +462,7 @@ class Hypergraph(BaseHypergraph):
             state_dict = {
                 "num_v": self.num_v,
                 "raw_groups": _raw_groups,
+                "v_weight": self.v_weight,
             }
             _hg = Hypergraph.from_state_dict(state_dict)
             _hg = _hg.to(self.device)
@@ -489,6 +490,7 @@ class Hypergraph(BaseHypergraph):
             state_dict = {
                 "num_v": self.num_v,
                 "raw_groups": _raw_groups,
+                "v_weight": self.v_weight,
             }
             _hg = Hypergraph.from_state_dict(state_dict)
             _hg = _hg.to(self.device)
@@ -504,11 +506,11 @@ class Hypergraph(BaseHypergraph):
         """
         return super().v
     
-    @property
+    @BaseHypergraph.v_weight.getter
     def v_weight(self) -> List[float]:
         r"""Return the list of vertex weights.
         """
-        return self._v_weight
+        return super().v_weight
 
     @property
     def e(self) -> Tuple[List[List[int]], List[float]]:
-- 
2.43.0


From 8d3af3ef024e75c3756d39f90f19a23e1cdce67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:15 +0000
Subject: [PATCH 08/58] fix: missing comma in Hypergraph.vars_for_DL

---
 dhg/structure/hypergraphs/hypergraph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dhg/structure/hypergraphs/hypergraph.py b/dhg/structure/hypergraphs/hypergraph.py
index 86191d2..e2ded99 100644
--- a/dhg/structure/hypergraphs/hypergraph.py
+++ b/dhg/structure/hypergraphs/hypergraph.py
@@ -674,7 +674,8 @@ class Hypergraph(BaseHypergraph):
             "D_e_neg_1",
             "v2e_src",
             "v2e_dst",
-            "v2e_weight" "e2v_src",
+            "v2e_weight",
+            "e2v_src",
             "e2v_dst",
             "e2v_weight",
         ]
-- 
2.43.0


From a017d89ac5b42850fa8a18b5f4ae28cf3561475b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:15 +0000
Subject: [PATCH 09/58] fix: do not rewrite the caller's hyperedge list (or the
 source graph's edge cache)

---
 dhg/structure/base.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/dhg/structure/base.py b/dhg/structure/base.py
index 041bb88..fc84906 100644
--- a/dhg/structure/base.py
+++ b/dhg/structure/base.py
@@ -497,15 +497,9 @@ class BaseHypergraph:
         """
         if len(e_list) > 0 and type(e_list[0]) in (int, float):
             return [tuple(sorted(e_list))]
-        elif type(e_list) == tuple:
-            e_list = list(e_list)
-        elif type(e_list) == list:
-            pass
-        else:
+        elif type(e_list) not in (tuple, list):
             raise TypeError("e_list must be List[int] or List[List[int]].")
-        for _idx in range(len(e_list)):
-            e_list[_idx] = tuple(sorted(e_list[_idx]))
-        return e_list
+        return [tuple(sorted(e)) for e in e_list]
 
     @staticmethod
     def _format_e_list_and_w_on_them(
-- 
2.43.0


From 47756ff4d911c1d71d5e39205c85885bd5ba39ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:17 +0000
Subject: [PATCH 10/58] fix: refuse an unknown merge op before changing a
 hypergraph

---
 dhg/structure/hypergraphs/hypergraph.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dhg/structure/hypergraphs/hypergraph.py b/dhg/structure/hypergraphs/hypergraph.py
index e2ded99..2209759 100644
--- a/dhg/structure/hypergraphs/hypergraph.py
+++ b/dhg/structure/hypergraphs/hypergraph.py
@@ -342,6 +342,7 @@ class Hypergraph(BaseHypergraph):
         else:
             raise TypeError(f"The type of e_weight should be float or list, but got {type(e_weight)}")
         assert len(e_list) == len(e_weight), "The number of hyperedges and the number of weights are not equal."
+        assert merge_op in ["mean", "sum", "max"], "Hyperedge merge operation must be one of ['mean', 'sum', 'max']"
 
         for _idx in range(len(e_list)):
             self._add_hyperedge(
-- 
2.43.0


From 49894cb3ecc14369c1583b2f2526bc0d935973d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:36 +0000
Subject: [PATCH 11/58] fix: hypergraphs without any hyperedge group have empty
 incidence and degree matrices

---
 dhg/structure/base.py                   | 4 ++++
 dhg/structure/hypergraphs/hypergraph.py | 8 ++++----
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/dhg/structure/base.py b/dhg/structure/base.py
index fc84906..0064aaa 100644
--- a/dhg/structure/base.py
+++ b/dhg/structure/base.py
@@ -919,6 +919,8 @@ class BaseHypergraph:
         """
         if self.cache.get("H_v2e") is None:
             _tmp = [self.H_v2e_of_group(name) for name in self.group_names]
+            if len(_tmp) == 0:
+                _tmp = [torch.sparse_coo_tensor(size=(self.num_v, 0), device=self.device)]
             self.cache["H_v2e"] = torch.cat(_tmp, dim=1)
         return self.cache["H_v2e"]
 
@@ -939,6 +941,8 @@ class BaseHypergraph:
         """
         if self.cache.get("H_e2v") is None:
             _tmp = [self.H_e2v_of_group(name) for name in self.group_names]
+            if len(_tmp) == 0:
+                _tmp = [torch.sparse_coo_tensor(size=(self.num_v, 0), device=self.device)]
             self.cache["H_e2v"] = torch.cat(_tmp, dim=1)
         return self.cache["H_e2v"]
 
diff --git a/dhg/structure/hypergraphs/hypergraph.py b/dhg/structure/hypergraphs/hypergraph.py
index 2209759..c4622ee 100644
--- a/dhg/structure/hypergraphs/hypergraph.py
+++ b/dhg/structure/hypergraphs/hypergraph.py
@@ -830,7 +830,7 @@ class Hypergraph(BaseHypergraph):
         """
         if self.cache.get("W_e") is None:
             _tmp = [self.W_e_of_group(name)._values().clone() for name in self.group_names]
-            _tmp = torch.cat(_tmp, dim=0).view(-1)
+            _tmp = torch.cat(_tmp or [torch.zeros(0, device=self.device)], dim=0).view(-1)
             _num_e = _tmp.size(0)
             self.cache["W_e"] = torch.sparse_coo_tensor(
                 torch.arange(0, _num_e, device=self.device).view(1, -1).repeat(2, 1),
@@ -864,7 +864,7 @@ class Hypergraph(BaseHypergraph):
         """
         if self.cache.get("D_v") is None:
             _tmp = [self.D_v_of_group(name)._values().clone() for name in self.group_names]
-            _tmp = torch.vstack(_tmp).sum(dim=0).view(-1)
+            _tmp = torch.vstack(_tmp or [torch.zeros(self.num_v, device=self.device)]).sum(dim=0).view(-1)
             self.cache["D_v"] = torch.sparse_coo_tensor(
                 torch.arange(0, self.num_v, device=self.device).view(1, -1).repeat(2, 1),
                 _tmp,
@@ -959,7 +959,7 @@ class Hypergraph(BaseHypergraph):
         """
         if self.cache.get("D_e") is None:
             _tmp = [self.D_e_of_group(name)._values().clone() for name in self.group_names]
-            _tmp = torch.cat(_tmp, dim=0).view(-1)
+            _tmp = torch.cat(_tmp or [torch.zeros(0, device=self.device)], dim=0).view(-1)
             _num_e = _tmp.size(0)
             self.cache["D_e"] = torch.sparse_coo_tensor(
                 torch.arange(0, _num_e, device=self.device).view(1, -1).repeat(2, 1),
@@ -1030,7 +1030,7 @@ class Hypergraph(BaseHypergraph):
         for name in self.group_names:
             _tmp.append(self.N_e_of_group(v_idx, name) + e_bias)
             e_bias += self.num_e_of_group(name)
-        return torch.cat(_tmp, dim=0)
+        return torch.cat(_tmp or [torch.zeros(0, dtype=torch.long, device=self.device)], dim=0)
 
     def N_e_of_group(self, v_idx: int, group_name: str) -> torch.Tensor:
         r"""Return the neighbor hyperedges of the specified vertex of the specified hyperedge group with ``torch.Tensor`` format.
-- 
2.43.0


From a4d800d22b6de797b5e509b93fe0651c5d7e0d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:00 +0000
Subject: [PATCH 12/58] fix: Graph.from_hypergraph_clique uses the given miu

---
 dhg/structure/graphs/graph.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/dhg/structure/graphs/graph.py b/dhg/structure/graphs/graph.py
index 3195cd3..3cf4d7e 100644
--- a/dhg/structure/graphs/graph.py
+++ b/dhg/structure/graphs/graph.py
@@ -243,7 +243,6 @@ class Graph(BaseGraph):
             ``device`` (``torch.device``): The device to store the graph. Defaults to ``torch.device("cpu")``.
         """
         num_v = hypergraph.num_v
-        miu = 1.0
         adj = miu * hypergraph.H.mm(hypergraph.H_T).coalesce().cpu().clone()
         src_idx, dst_idx = adj._indices()
         edge_mask = src_idx < dst_idx
-- 
2.43.0


From 81fc4fc3ce8aeb6cc9607f2561d61e4004f189ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:20 +0000
Subject: [PATCH 13/58] fix: HyperGCN conversion with mediators keeps the edge
 between the two extreme vertices

---
 dhg/structure/graphs/graph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dhg/structure/graphs/graph.py b/dhg/structure/graphs/graph.py
index 3cf4d7e..210be80 100644
--- a/dhg/structure/graphs/graph.py
+++ b/dhg/structure/graphs/graph.py
@@ -285,6 +285,8 @@ class Graph(BaseGraph):
                 new_e_weight.append(1.0 / num_v_in_e)
             else:
                 w = 1.0 / (2 * num_v_in_e - 3)
+                new_e_list.append([e[v_a_idx], e[v_b_idx]])
+                new_e_weight.append(w)
                 for mid_v_idx in range(num_v_in_e):
                     if mid_v_idx != v_a_idx and mid_v_idx != v_b_idx:
                         new_e_list.append([e[v_a_idx], e[mid_v_idx]])
-- 
2.43.0


From 4956923088c4472323a27b3ba3b89573f06c0465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:20 +0000
Subject: [PATCH 14/58] fix: HyperGCN conversion of a hypergraph that yields no
 edge

---
 dhg/structure/graphs/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dhg/structure/graphs/graph.py b/dhg/structure/graphs/graph.py
index 210be80..fec8956 100644
--- a/dhg/structure/graphs/graph.py
+++ b/dhg/structure/graphs/graph.py
@@ -295,7 +295,7 @@ class Graph(BaseGraph):
                         new_e_weight.append(w)
         # remove selfloop
         if remove_selfloop:
-            new_e_list = torch.tensor(new_e_list, dtype=torch.long)
+            new_e_list = torch.tensor(new_e_list, dtype=torch.long).view(-1, 2)
             new_e_weight = torch.tensor(new_e_weight, dtype=torch.float)
             e_mask = (new_e_list[:, 0] != new_e_list[:, 1]).bool()
             new_e_list = new_e_list[e_mask].numpy().tolist()
-- 
2.43.0


From beba71adb37f170c729c0efa1a5270923641dcf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:52 +0000
Subject: [PATCH 15/58] fix: DiGraph.from_feature_kNN with k=1 and with
 duplicate feature rows

---
 dhg/structure/graphs/directed_graph.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dhg/structure/graphs/directed_graph.py b/dhg/structure/graphs/directed_graph.py
index be90ef6..4da9717 100644
--- a/dhg/structure/graphs/directed_graph.py
+++ b/dhg/structure/graphs/directed_graph.py
@@ -230,10 +230,13 @@ class DiGraph(BaseGraph):
             find_tk = k
         else:
             find_tk = k + 1
-        nbr_dist, nbr_idx = tree.query(features, k=find_tk, p=p)
+        nbr_dist, nbr_idx = tree.query(features, k=list(range(1, find_tk + 1)), p=p)
         center_idx = np.arange(num_v).reshape(-1, 1).repeat(find_tk - 1, 1)
-        nbr_dist = nbr_dist[:, 1:]
-        nbr_idx = nbr_idx[:, 1:]
+        # the center is not always the first neighbor when several vertices share the same features
+        is_center = nbr_idx == np.arange(num_v).reshape(-1, 1)
+        is_center[~is_center.any(axis=1), -1] = True
+        nbr_dist = nbr_dist[~is_center].reshape(num_v, -1)
+        nbr_idx = nbr_idx[~is_center].reshape(num_v, -1)
         if center_as_src:
             e_list = np.concatenate([center_idx.reshape(-1, 1), nbr_idx.reshape(-1, 1)], axis=1).tolist()
         else:
-- 
2.43.0


From dee331bf881adbb51b4c2dff03bf73772bb07683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:25 +0000
Subject: [PATCH 16/58] fix: the fast Gnp generators accept the probabilities 0
 and 1

---
 dhg/random/graphs/directed_graph.py | 3 +++
 dhg/random/graphs/graph.py          | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/dhg/random/graphs/directed_graph.py b/dhg/random/graphs/directed_graph.py
index 1861253..5c79ead 100644
--- a/dhg/random/graphs/directed_graph.py
+++ b/dhg/random/graphs/directed_graph.py
@@ -43,6 +43,9 @@ def digraph_Gnp_fast(num_v: int, prob: float):
     assert num_v > 1, "num_v must be greater than 1"
     assert prob >= 0 and prob <= 1, "prob must be between 0 and 1"
 
+    if prob in (0, 1):
+        return digraph_Gnp(num_v, prob)
+
     lp = math.log(1.0 - prob)
     e_list = []
     # w -> v
diff --git a/dhg/random/graphs/graph.py b/dhg/random/graphs/graph.py
index 5977b52..e5acc6e 100644
--- a/dhg/random/graphs/graph.py
+++ b/dhg/random/graphs/graph.py
@@ -44,6 +44,9 @@ def graph_Gnp_fast(num_v: int, prob: float):
     assert num_v > 1, "num_v must be greater than 1"
     assert prob >= 0 and prob <= 1, "prob must be between 0 and 1"
 
+    if prob in (0, 1):
+        return graph_Gnp(num_v, prob)
+
     e_list = []
     lp = math.log(1.0 - prob)
     v, w = 1, -1
-- 
2.43.0


From 39bb4e78974b57f52ceb67bf0dc1e18eacb1ae9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:25 +0000
Subject: [PATCH 17/58] fix: the Gnm generators accept the complete graph

---
 dhg/random/graphs/directed_graph.py | 2 +-
 dhg/random/graphs/graph.py          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dhg/random/graphs/directed_graph.py b/dhg/random/graphs/directed_graph.py
index 5c79ead..462f380 100644
--- a/dhg/random/graphs/directed_graph.py
+++ b/dhg/random/graphs/directed_graph.py
@@ -87,7 +87,7 @@ def digraph_Gnm(num_v: int, num_e: int):
     """
 
     assert num_v > 1, "num_v must be greater than 1"
-    assert num_e < num_v * (
+    assert num_e <= num_v * (
         num_v - 1
     ), "the specified num_e is larger than the possible number of edges"
 
diff --git a/dhg/random/graphs/graph.py b/dhg/random/graphs/graph.py
index e5acc6e..b05fd58 100644
--- a/dhg/random/graphs/graph.py
+++ b/dhg/random/graphs/graph.py
@@ -77,7 +77,7 @@ def graph_Gnm(num_v: int, num_e: int):
     """
     assert num_v > 1, "num_v must be greater than 1"
     assert (
-        num_e < num_v * (num_v - 1) // 2
+        num_e <= num_v * (num_v - 1) // 2
     ), "the specified num_e is larger than the possible number of edges"
 
     v_list = list(range(num_v))
-- 
2.43.0


From b354fcd72554d5a7df3013407931ebc66935ae41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:11 +0000
Subject: [PATCH 18/58] fix: C(n, m) is exact for large arguments and zero when
 m exceeds n

---
 dhg/utils/math.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/dhg/utils/math.py b/dhg/utils/math.py
index 955c7a0..6e57cbd 100644
--- a/dhg/utils/math.py
+++ b/dhg/utils/math.py
@@ -1,14 +1,7 @@
-from math import log, exp
+from math import comb
 
 
 def C(n, m):
-    r""" Compute the C(n, m) function.
-        log(C(n, m)) = log(n!/(n-m)!) - log m!
-                     = log(n-m+1) + log(n-m+2) + ...
-                        - (log 1 + log 2 + ...)
+    r""" Compute the C(n, m) function, i.e., the number of ways to choose ``m`` items from ``n`` items.
     """
-    log_value = 0
-    m = min(m, n - m)
-    for i in range(1, m + 1):
-        log_value = log_value + log(n - m + i) - log(i)
-    return int(round(exp(log_value), 0))
+    return comb(n, m)
-- 
2.43.0


From f133f32c7909de89dd3786b074e43bdb6e1be619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:11 +0000
Subject: [PATCH 19/58] fix: refuse to draw more hyperedges than exist instead
 of looping forever

---
 dhg/random/hypergraphs/hypergraph.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dhg/random/hypergraphs/hypergraph.py b/dhg/random/hypergraphs/hypergraph.py
index a0948b7..d59e001 100644
--- a/dhg/random/hypergraphs/hypergraph.py
+++ b/dhg/random/hypergraphs/hypergraph.py
@@ -51,6 +51,7 @@ def uniform_hypergraph_Gnm(k: int, num_v: int, num_e: int):
     assert k > 1, "k must be greater than 1"  # TODO ?
     assert num_v > 1, "num_v must be greater than 1"
     assert num_e > 0, "num_e must be greater than 0"
+    assert num_e <= C(num_v, k), "the specified num_e is larger than the possible number of hyperedges"
 
     edges = set()
     while len(edges) < num_e:
@@ -107,6 +108,8 @@ def hypergraph_Gnm(num_v: int, num_e: int, method:str="low_order_first", prob_k_
         prob_k_list = [prob_k / sum_of_prob_k_list for prob_k in prob_k_list]
     else:
         raise ValueError(f"Unknown method: {method}")
+    max_num_e = sum(C(num_v, k) for k, prob_k in zip(deg_e_list, prob_k_list) if prob_k > 0)
+    assert num_e <= max_num_e, "the specified num_e is larger than the possible number of hyperedges"
 
     edges = set()
     while len(edges) < num_e:
-- 
2.43.0


From ee16a012680d7798e77affcfdc388304c0e54394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:26 +0000
Subject: [PATCH 20/58] fix: UniGINConv scales the vertex feature, not the
 message, by 1 + eps

---
 dhg/nn/convs/hypergraphs/unignn_conv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dhg/nn/convs/hypergraphs/unignn_conv.py b/dhg/nn/convs/hypergraphs/unignn_conv.py
index cc67be8..db05697 100644
--- a/dhg/nn/convs/hypergraphs/unignn_conv.py
+++ b/dhg/nn/convs/hypergraphs/unignn_conv.py
@@ -272,7 +272,7 @@ class UniGINConv(nn.Module):
         """
         X = self.theta(X)
         Y = hg.v2e(X, aggr="mean")
-        X = (1 + self.eps) * hg.e2v(Y, aggr="sum") + X
+        X = (1 + self.eps) * X + hg.e2v(Y, aggr="sum")
         if not self.is_last:
             X = self.act(X)
             if self.bn is not None:
-- 
2.43.0


From 90eb729d131a3f01770ebd3da675d7e58e338be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:26 +0000
Subject: [PATCH 21/58] fix: downloading to a directory outside of the cache
 root

---
 dhg/utils/download.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dhg/utils/download.py b/dhg/utils/download.py
index b7c0f6c..a26f300 100644
--- a/dhg/utils/download.py
+++ b/dhg/utils/download.py
@@ -68,6 +68,7 @@ def _try_migrate_from_legacy_cache(file_path: Path, md5: str) -> bool:
     from dhg._global import CACHE_ROOT
     LEGACY_CACHE_ROOT = Path.home() / ".dhg"
 
+    if CACHE_ROOT not in file_path.parents: return False
     legacy_path = LEGACY_CACHE_ROOT / file_path.relative_to(CACHE_ROOT)
     if legacy_path is None or not legacy_path.exists(): return False
     file_path.parent.mkdir(parents=True, exist_ok=True)
-- 
2.43.0


From ca2670a0813ca9b9ec444556bed858c8ae1efd88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:27 +0000
Subject: [PATCH 22/58] fix: download a corrupted file again, as announced

---
 dhg/utils/download.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dhg/utils/download.py b/dhg/utils/download.py
index a26f300..300457e 100644
--- a/dhg/utils/download.py
+++ b/dhg/utils/download.py
@@ -80,7 +80,7 @@ def _try_migrate_from_legacy_cache(file_path: Path, md5: str) -> bool:
     return True
 
 
-@_retry(3)
+@_retry(3, (requests.HTTPError, ValueError))
 def download_and_check(url: str, file_path: Path, md5: str):
     r""" Download a file from a url and check its integrity.
 
-- 
2.43.0


From eab60d4e703c0703ba9ad40aa41a52b4daacc1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:50 +0000
Subject: [PATCH 23/58] fix: experiments keep the best model when the direction
 is minimize

---
 dhg/experiments/base.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/dhg/experiments/base.py b/dhg/experiments/base.py
index 211286f..f79653b 100644
--- a/dhg/experiments/base.py
+++ b/dhg/experiments/base.py
@@ -106,10 +106,9 @@ class BaseTask:
                 raise optuna.exceptions.TrialPruned()
             if scheduler is not None:
                 scheduler.step()
-            if self.direction == "maximize":
-                if val_res > best_score:
-                    best_score = val_res
-                    best_model = deepcopy(model)
+            if (val_res > best_score) if self.direction == "maximize" else (val_res < best_score):
+                best_score = val_res
+                best_model = deepcopy(model)
         with open(self.cache_root / f"{trial.number}_model.pth", "wb") as f:
             torch.save(best_model.cpu().state_dict(), f)
         self.data["structure"].save(self.cache_root / f"{trial.number}_structure.dhg")
-- 
2.43.0


From abdf8a28db2df99b64fd299a41d3131e75ea8bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:22 +0000
Subject: [PATCH 24/58] fix: recommender metrics with a ratio need numpy

---
 dhg/metrics/recommender.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dhg/metrics/recommender.py b/dhg/metrics/recommender.py
index 6264a82..7ba826c 100644
--- a/dhg/metrics/recommender.py
+++ b/dhg/metrics/recommender.py
@@ -1,6 +1,7 @@
 from typing import Optional, Union, Tuple, List, Dict
 
 import torch
+import numpy as np
 
 
 from .base import BaseEvaluator
-- 
2.43.0


From 436d651d2360e4c8dfc926da6e24671ccf559884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:22 +0000
Subject: [PATCH 25/58] fix: GraphVertexClassificationTask accepts the
 documented structure_builder

---
 dhg/experiments/graphs/graph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dhg/experiments/graphs/graph.py b/dhg/experiments/graphs/graph.py
index bcfbba5..fd69014 100644
--- a/dhg/experiments/graphs/graph.py
+++ b/dhg/experiments/graphs/graph.py
@@ -31,6 +31,7 @@ class GraphVertexClassificationTask(VertexClassificationTask):
         train_builder: Callable,
         evaluator: BaseEvaluator,
         device: torch.device,
+        structure_builder: Optional[Callable] = None,
         study_name: Optional[str] = None,
         overwrite: bool = True,
     ):
@@ -41,6 +42,7 @@ class GraphVertexClassificationTask(VertexClassificationTask):
             train_builder,
             evaluator,
             device,
+            structure_builder=structure_builder,
             study_name=study_name,
             overwrite=overwrite,
         )
-- 
2.43.0


From 04ae7360520d162af22a6ddc8d59525598ab152f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:22 +0000
Subject: [PATCH 26/58] fix: draw_bigraph lays out the edges it draws

---
 dhg/visualization/structure/draw.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dhg/visualization/structure/draw.py b/dhg/visualization/structure/draw.py
index 339fbae..cb23f8a 100644
--- a/dhg/visualization/structure/draw.py
+++ b/dhg/visualization/structure/draw.py
@@ -230,6 +230,8 @@ def draw_bigraph(
         pull_u_center_strength,
         pull_v_center_strength,
     )
+    # in the layout and the drawing, the vertices of V are numbered after those of U
+    e_list = [(u, v + num_u) for u, v in e_list]
     # layout
     u_coor, v_coor = bipartite_force_layout(
         num_u,
@@ -244,7 +246,6 @@ def draw_bigraph(
     )
 
     # preprocess
-    e_list = [(u, v + num_u) for u, v in e_list]
     if e_style == "line":
         draw_line_edge(
             ax, np.vstack([u_coor, v_coor]), u_size + v_size, e_list, False, e_color, e_line_width,
-- 
2.43.0


From 290d866d146e4526d6be9cea13be83e07a42342d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:22 +0000
Subject: [PATCH 27/58] fix: draw_graph, draw_digraph and draw_hypergraph use
 the given font_size

---
 dhg/visualization/structure/draw.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/dhg/visualization/structure/draw.py b/dhg/visualization/structure/draw.py
index cb23f8a..4501908 100644
--- a/dhg/visualization/structure/draw.py
+++ b/dhg/visualization/structure/draw.py
@@ -63,7 +63,9 @@ def draw_graph(
     num_v, e_list = g.num_v, deepcopy(g.e[0])
     # default configures
     v_color, e_color, e_fill_color = default_style(g.num_v, g.num_e, v_color, e_color, e_fill_color)
-    v_size, v_line_width, e_line_width, font_size = default_size(num_v, e_list, v_size, v_line_width, e_line_width)
+    v_size, v_line_width, e_line_width, font_size = default_size(
+        num_v, e_list, v_size, v_line_width, e_line_width, font_size
+    )
     (push_v_strength, push_e_strength, pull_e_strength, pull_center_strength,) = default_strength(
         num_v, e_list, push_v_strength, push_e_strength, pull_e_strength, pull_center_strength,
     )
@@ -130,7 +132,9 @@ def draw_digraph(
     num_v, e_list = g.num_v, deepcopy(g.e[0])
     # default configures
     v_color, e_color, _ = default_style(g.num_v, g.num_e, v_color, e_color, None)
-    v_size, v_line_width, e_line_width, font_size = default_size(num_v, e_list, v_size, v_line_width, e_line_width)
+    v_size, v_line_width, e_line_width, font_size = default_size(
+        num_v, e_list, v_size, v_line_width, e_line_width, font_size
+    )
     (push_v_strength, push_e_strength, pull_e_strength, pull_center_strength,) = default_strength(
         num_v, e_list, push_v_strength, push_e_strength, pull_e_strength, pull_center_strength,
     )
@@ -314,7 +318,9 @@ def draw_hypergraph(
     num_v, e_list = hg.num_v, deepcopy(hg.e[0])
     # default configures
     v_color, e_color, e_fill_color = default_hypergraph_style(hg.num_v, hg.num_e, v_color, e_color, e_fill_color)
-    v_size, v_line_width, e_line_width, font_size = default_size(num_v, e_list, v_size, v_line_width, e_line_width)
+    v_size, v_line_width, e_line_width, font_size = default_size(
+        num_v, e_list, v_size, v_line_width, e_line_width, font_size
+    )
     (push_v_strength, push_e_strength, pull_e_strength, pull_center_strength,) = default_hypergraph_strength(
         num_v, e_list, push_v_strength, push_e_strength, pull_e_strength, pull_center_strength,
     )
-- 
2.43.0


From 8ba4c29c4b773470bcf0b941a5c7d74bcbab25f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:37 +0000
Subject: [PATCH 28/58] fix: the result of a test epoch is not overwritten by
 the next epoch

---
 dhg/metrics/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dhg/metrics/base.py b/dhg/metrics/base.py
index 5dbdfa6..64cc2d5 100644
--- a/dhg/metrics/base.py
+++ b/dhg/metrics/base.py
@@ -153,6 +153,7 @@ class BaseEvaluator:
         if self.test_res_dict == {} and self.last_test_res is not None:
             return self.last_test_res
         assert self.test_res_dict != {}, "No batch data added for testing."
+        self.last_test_res = {}
         for name, res_list in self.test_res_dict.items():
             if not isinstance(res_list[0], list):
                 self.last_test_res[name] = np.vstack(res_list).mean(0).squeeze().tolist()
-- 
2.43.0


From a98d1feddef4983848913ee119a057b64da14310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:05 +0000
Subject: [PATCH 29/58] fix: remapping adjacency lists keeps vertices which
 have no neighbor

---
 dhg/utils/structure.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dhg/utils/structure.py b/dhg/utils/structure.py
index 207d4e5..bb250ad 100644
--- a/dhg/utils/structure.py
+++ b/dhg/utils/structure.py
@@ -157,7 +157,7 @@ def remap_adj_list(
     if bipartite_graph:
         u_set, v_set = set(), set()
         for line in adj_list:
-            if len(line) <= 1:
+            if len(line) == 0:
                 continue
             u_set.add(line[0])
             for v in line[1:]:
@@ -177,7 +177,7 @@ def remap_adj_list(
     else:
         v_set = set()
         for line in adj_list:
-            if len(line) <= 1:
+            if len(line) == 0:
                 continue
             for v in line:
                 v_set.add(v)
@@ -210,7 +210,7 @@ def remap_adj_lists(
         u_set, v_set = set(), set()
         for adj_list in adj_lists:
             for line in adj_list:
-                if len(line) <= 1:
+                if len(line) == 0:
                     continue
                 u_set.add(line[0])
                 for v in line[1:]:
@@ -232,7 +232,7 @@ def remap_adj_lists(
         v_set = set()
         for adj_list in adj_lists:
             for line in adj_list:
-                if len(line) <= 1:
+                if len(line) == 0:
                     continue
                 for v in line:
                     v_set.add(v)
-- 
2.43.0


From 15ed5c8ccb5df473e14316f111fcfee250c7c899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:19 +0000
Subject: [PATCH 30/58] fix: fast Gnp generators accept tiny probabilities

---
 dhg/random/graphs/directed_graph.py | 2 +-
 dhg/random/graphs/graph.py          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dhg/random/graphs/directed_graph.py b/dhg/random/graphs/directed_graph.py
index 462f380..2275abc 100644
--- a/dhg/random/graphs/directed_graph.py
+++ b/dhg/random/graphs/directed_graph.py
@@ -46,7 +46,7 @@ def digraph_Gnp_fast(num_v: int, prob: float):
     if prob in (0, 1):
         return digraph_Gnp(num_v, prob)
 
-    lp = math.log(1.0 - prob)
+    lp = math.log1p(-prob)
     e_list = []
     # w -> v
     v, w = 1, -1
diff --git a/dhg/random/graphs/graph.py b/dhg/random/graphs/graph.py
index b05fd58..aa84acf 100644
--- a/dhg/random/graphs/graph.py
+++ b/dhg/random/graphs/graph.py
@@ -48,7 +48,7 @@ def graph_Gnp_fast(num_v: int, prob: float):
         return graph_Gnp(num_v, prob)
 
     e_list = []
-    lp = math.log(1.0 - prob)
+    lp = math.log1p(-prob)
     v, w = 1, -1
     while v < num_v:
         lr = math.log(1.0 - random.random())
-- 
2.43.0


From a2e78bd0680ab2c7b8a1674ac5fe6cbc8d672391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:00 +0000
Subject: [PATCH 31/58] fix: vertex splits do not skip classes when labels are
 not contiguous

---
 dhg/utils/dataset_split.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/dhg/utils/dataset_split.py b/dhg/utils/dataset_split.py
index 9309661..bd6b7a5 100644
--- a/dhg/utils/dataset_split.py
+++ b/dhg/utils/dataset_split.py
@@ -57,7 +57,6 @@ def split_by_num(
     assert v_label.ndim == 1
     if v_label.min() == 1:
         v_label -= 1
-    num_classes = np.unique(v_label).shape[0]
 
     train_idx, test_idx = [], []
     val_num = val_num if val_num is not None else 0
@@ -66,7 +65,7 @@ def split_by_num(
     else:
         val_idx = None
 
-    for lbl_idx in range(num_classes):
+    for lbl_idx in np.unique(v_label):
         lbl_v_idx = np.where(v_label == lbl_idx)[0]
         random.shuffle(lbl_v_idx)
         train_idx.extend(lbl_v_idx[:train_num])
@@ -118,7 +117,6 @@ def split_by_ratio(
     assert v_label.ndim == 1
     if v_label.min() == 1:
         v_label -= 1
-    num_classes = np.unique(v_label).shape[0]
 
     val_ratio = val_ratio if val_ratio is not None else 0
     if test_ratio is not None:
@@ -132,7 +130,7 @@ def split_by_ratio(
     else:
         val_idx = None
 
-    for lbl_idx in range(num_classes):
+    for lbl_idx in np.unique(v_label):
         lbl_v_idx = np.where(v_label == lbl_idx)[0]
         _num = lbl_v_idx.shape[0]
         random.shuffle(lbl_v_idx)
-- 
2.43.0


From f7325860055fb03ead21a91ea4a8a7dd8ffef1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:01 +0000
Subject: [PATCH 32/58] fix: split_by_ratio accepts ratios that sum to 1 up to
 rounding

---
 dhg/utils/dataset_split.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dhg/utils/dataset_split.py b/dhg/utils/dataset_split.py
index bd6b7a5..b5dcada 100644
--- a/dhg/utils/dataset_split.py
+++ b/dhg/utils/dataset_split.py
@@ -120,7 +120,7 @@ def split_by_ratio(
 
     val_ratio = val_ratio if val_ratio is not None else 0
     if test_ratio is not None:
-        assert train_ratio + val_ratio + test_ratio <= 1
+        assert train_ratio + val_ratio + test_ratio <= 1 + 1e-8
     else:
         assert train_ratio + val_ratio < 1
 
-- 
2.43.0


From 7e59e91956b9abe91441ff2705c12ccb587fa08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:19 +0000
Subject: [PATCH 33/58] fix: retrieval ap, map, rr and mrr score 0 instead of
 NaN for samples without a hit

---
 dhg/metrics/retrieval.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dhg/metrics/retrieval.py b/dhg/metrics/retrieval.py
index 5efc906..782088f 100644
--- a/dhg/metrics/retrieval.py
+++ b/dhg/metrics/retrieval.py
@@ -151,6 +151,8 @@ def ap(
 
     pred_seq = y_true[torch.argsort(y_pred, descending=True)]
     pred_index = torch.arange(1, len(y_true) + 1, device=y_true.device)[pred_seq > 0]
+    if len(pred_index) == 0:
+        return 0.0
     recall_seq = torch.arange(1, len(pred_index) + 1, device=y_true.device)
     res = recall_seq / pred_index
     if method == "pascal_voc":
@@ -292,6 +294,8 @@ def rr(y_true: torch.Tensor, y_pred: torch.Tensor, k: Optional[int] = None, rati
 
     pred_seq = y_true[torch.argsort(y_pred, dim=-1, descending=True)][:k]
     pred_index = torch.nonzero(pred_seq).view(-1)
+    if len(pred_index) == 0:
+        return 0.0
     res = (1 / (pred_index + 1)).mean().cpu()
     return res.mean().item()
 
-- 
2.43.0


From d302f26627bbb6c7f0dd06a96e723676f5d8ec2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:11 +0000
Subject: [PATCH 34/58] fix: Facebook dataset reports its documented feature
 dimension

---
 dhg/data/facebook.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dhg/data/facebook.py b/dhg/data/facebook.py
index 2572b78..e4282d9 100644
--- a/dhg/data/facebook.py
+++ b/dhg/data/facebook.py
@@ -35,7 +35,7 @@ class Facebook(BaseData):
             "num_classes": 4,
             "num_vertices": 22470,
             "num_edges": 85501,
-            "dim_features": 8189,
+            "dim_features": 4714,
             "features": {
                 "upon": [{"filename": "features.pkl", "md5": "046eec1b67fb5bf504eaad75e98af141"}],
                 "loader": load_from_pickle,
-- 
2.43.0


From 0bc4bd23ea2e8f7f797c543971049c1436e00147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:57 +0000
Subject: [PATCH 35/58] fix: attention convolutions fail on a structure with a
 single connection

Squeezing the (1, 1) attention score removed both dimensions, so v2v / e2v
could not read its length.
---
 dhg/nn/convs/graphs/gat_conv.py         | 2 +-
 dhg/nn/convs/hypergraphs/unignn_conv.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dhg/nn/convs/graphs/gat_conv.py b/dhg/nn/convs/graphs/gat_conv.py
index 91996f6..74d1274 100644
--- a/dhg/nn/convs/graphs/gat_conv.py
+++ b/dhg/nn/convs/graphs/gat_conv.py
@@ -48,7 +48,7 @@ class GATConv(nn.Module):
         x_for_src = self.atten_src(X)
         x_for_dst = self.atten_dst(X)
         e_atten_score = x_for_src[g.e_src] + x_for_dst[g.e_dst]
-        e_atten_score = self.atten_dropout(self.atten_act(e_atten_score).squeeze())
+        e_atten_score = self.atten_dropout(self.atten_act(e_atten_score).squeeze(-1))
         # ================================================================================
         # We suggest to add a clamp on attention weight to avoid Nan error in training.
         e_atten_score = torch.clamp(e_atten_score, min=0.001, max=5)
diff --git a/dhg/nn/convs/hypergraphs/unignn_conv.py b/dhg/nn/convs/hypergraphs/unignn_conv.py
index db05697..a01388f 100644
--- a/dhg/nn/convs/hypergraphs/unignn_conv.py
+++ b/dhg/nn/convs/hypergraphs/unignn_conv.py
@@ -136,7 +136,7 @@ class UniGATConv(nn.Module):
         # ===============================================
         alpha_e = self.atten_e(Y)
         e_atten_score = alpha_e[hg.e2v_src]
-        e_atten_score = self.atten_dropout(self.atten_act(e_atten_score).squeeze())
+        e_atten_score = self.atten_dropout(self.atten_act(e_atten_score).squeeze(-1))
         # ================================================================================
         # We suggest to add a clamp on attention weight to avoid Nan error in training.
         e_atten_score = torch.clamp(e_atten_score, min=0.001, max=5)
-- 
2.43.0


From 1658bee59497760d4cc68547dc234ba46d79526c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:06 +0000
Subject: [PATCH 36/58] fix: experiments run without a structure, which the
 recommender task allows

---
 dhg/experiments/base.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/dhg/experiments/base.py b/dhg/experiments/base.py
index f79653b..0434cd8 100644
--- a/dhg/experiments/base.py
+++ b/dhg/experiments/base.py
@@ -111,7 +111,8 @@ class BaseTask:
                 best_model = deepcopy(model)
         with open(self.cache_root / f"{trial.number}_model.pth", "wb") as f:
             torch.save(best_model.cpu().state_dict(), f)
-        self.data["structure"].save(self.cache_root / f"{trial.number}_structure.dhg")
+        if self.data.get("structure", None) is not None:
+            self.data["structure"].save(self.cache_root / f"{trial.number}_structure.dhg")
         return best_score
 
     def _remove_cached_data(self):
@@ -139,9 +140,12 @@ class BaseTask:
         self._remove_cached_data()
         self.best_model = self.model_builder(self.study.best_trial)
         self.best_model.load_state_dict(torch.load(f"{self.cache_root}/{self.study.best_trial.number}_model.pth"))
-        self.best_structure = load_structure(f"{self.cache_root}/{self.study.best_trial.number}_structure.dhg")
         self.best_model = self.best_model.to(self.device)
-        self.best_structure = self.best_structure.to(self.device)
+        if self.data.get("structure", None) is not None:
+            self.best_structure = load_structure(f"{self.cache_root}/{self.study.best_trial.number}_structure.dhg")
+            self.best_structure = self.best_structure.to(self.device)
+        else:
+            self.best_structure = None
 
         self.logger.info("Best trial:")
         self.best_trial = self.study.best_trial
-- 
2.43.0


From 77272a653beb5cb3a50848cf2e727160243e51dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:06 +0000
Subject: [PATCH 37/58] fix: experiments can report test results that are not a
 single number

---
 dhg/experiments/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dhg/experiments/base.py b/dhg/experiments/base.py
index 0434cd8..2ab5f4f 100644
--- a/dhg/experiments/base.py
+++ b/dhg/experiments/base.py
@@ -156,7 +156,8 @@ class BaseTask:
         test_res = self.test()
         self.logger.info(f"Final test results:")
         for key, value in test_res.items():
-            self.logger.info(f"\t{key} |-> {value:.3f}")
+            value = f"{value:.3f}" if isinstance(value, float) else value
+            self.logger.info(f"\t{key} |-> {value}")
 
     @abc.abstractmethod
     def train(
-- 
2.43.0


From a50a3aedfcfb4da6100fd7cd28ae8a12879dfd29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:39 +0000
Subject: [PATCH 38/58] fix: draw a hypergraph that has the same hyperedge in
 several groups

---
 dhg/visualization/structure/simulator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dhg/visualization/structure/simulator.py b/dhg/visualization/structure/simulator.py
index 8a061d2..b08c095 100644
--- a/dhg/visualization/structure/simulator.py
+++ b/dhg/visualization/structure/simulator.py
@@ -141,6 +141,7 @@ class Simulator:
         f_scale = k / (dist ** 2)  # (m, m)
         f_dir = e_center[:, np.newaxis, :] - e_center[np.newaxis, :, :]  # (m, 1, 2) - (1, m, 2) -> (m, m, 2)
         f_dir_len = np.linalg.norm(f_dir, axis=2)  # (m, m)
+        f_scale[f_dir_len == 0] = 0  # the same hyperedge in several groups
         f_dir_len[r, c] = np.inf
         # f_dir = f_dir / f_dir_len[:, :, np.newaxis]  # (m, m, 2)
         f_dir = safe_div(f_dir, f_dir_len[:, :, np.newaxis])  # (m, m, 2)
-- 
2.43.0


From 0b0728b8f10fd1aa777410854045c85b68c9f0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:39 +0000
Subject: [PATCH 39/58] fix: layout of a single vertex is not NaN

---
 dhg/visualization/structure/layout.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dhg/visualization/structure/layout.py b/dhg/visualization/structure/layout.py
index c1c4600..327eaf3 100644
--- a/dhg/visualization/structure/layout.py
+++ b/dhg/visualization/structure/layout.py
@@ -28,7 +28,9 @@ def force_layout(
         centers=centers,
     )
     v_coor = sim.simulate(v_coor, edge_list_to_incidence_matrix(num_v, e_list))
-    v_coor = (v_coor - v_coor.min(0)) / (v_coor.max(0) - v_coor.min(0)) * 0.8 + 0.1
+    v_range = v_coor.max(0) - v_coor.min(0)
+    v_range[v_range == 0] = 1.0
+    v_coor = (v_coor - v_coor.min(0)) / v_range * 0.8 + 0.1
     return v_coor
 
 
-- 
2.43.0


From 9040ac5414072669117072fa692862cd610a0518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:39 +0000
Subject: [PATCH 40/58] fix: draw_graph in the circle style fails on a
 self-loop

---
 dhg/visualization/structure/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dhg/visualization/structure/utils.py b/dhg/visualization/structure/utils.py
index ac0af3b..374e588 100644
--- a/dhg/visualization/structure/utils.py
+++ b/dhg/visualization/structure/utils.py
@@ -164,7 +164,7 @@ def hull_layout(n_v, e_list, pos, v_size, radius_increment=0.3):
     # for edge in e_list:
     for e_idx in e_idxs:
 
-        edge = list(e_list[e_idx])
+        edge = list(dict.fromkeys(e_list[e_idx]))  # a self-loop is a circle around its vertex
 
         line_path_for_e = []
         arc_path_for_e = []
-- 
2.43.0


From f662edeb97f160687ed377d991909fa2850fef7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:39 +0000
Subject: [PATCH 41/58] fix: no arrow with NaN coordinates for a self-loop

---
 dhg/visualization/structure/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dhg/visualization/structure/utils.py b/dhg/visualization/structure/utils.py
index 374e588..0ad730a 100644
--- a/dhg/visualization/structure/utils.py
+++ b/dhg/visualization/structure/utils.py
@@ -41,6 +41,8 @@ def draw_line_edge(
         end_pos = v_coor[e[1]]
 
         dir = end_pos - start_pos
+        if np.linalg.norm(dir) == 0:  # a self-loop has no direction
+            continue
         dir = dir / np.linalg.norm(dir)
 
         start_pos = start_pos + dir * v_size[e[0]]
-- 
2.43.0


From 5cd19a24171781f3eb7987362b4d78cef92d3d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:39 +0000
Subject: [PATCH 42/58] fix: drawing fails with a math domain error when one
 vertex circle contains another

---
 dhg/visualization/structure/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dhg/visualization/structure/geometry.py b/dhg/visualization/structure/geometry.py
index e15e11b..d238eff 100644
--- a/dhg/visualization/structure/geometry.py
+++ b/dhg/visualization/structure/geometry.py
@@ -24,7 +24,7 @@ def vlen(vector):
 
 
 def common_tangent_radian(r1, r2, d):
-    alpha = math.acos(abs(r2 - r1) / d)
+    alpha = math.acos(min(abs(r2 - r1) / d, 1.0))
     alpha = alpha if r1 > r2 else pi - alpha
     return alpha
 
-- 
2.43.0


From c64999aba9b97b281c19bf38b0a2b545b7e266b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:39 +0000
Subject: [PATCH 43/58] fix: the line width of vertices is applied

---
 dhg/visualization/structure/utils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/dhg/visualization/structure/utils.py b/dhg/visualization/structure/utils.py
index 0ad730a..fe17818 100644
--- a/dhg/visualization/structure/utils.py
+++ b/dhg/visualization/structure/utils.py
@@ -135,9 +135,8 @@ def draw_vertex(
     n = v_coor.shape[0]
     if v_label is None:
         v_label = [""] * n
-    for coor, label, size, width in zip(v_coor.tolist(), v_label, v_size, v_line_width):
+    for coor, label, size in zip(v_coor.tolist(), v_label, v_size):
         circle = Circle(coor, size)
-        circle.lineWidth = width
         # circle.label = label
         if label != '':
             x, y = coor[0], coor[1]
@@ -146,7 +145,7 @@ def draw_vertex(
             y += offset[1]
             ax.text(x, y, label, fontsize=font_size, fontfamily=font_family, ha='center', va='top')
         patches.append(circle)
-    p = PatchCollection(patches, facecolors=v_color, edgecolors="black")
+    p = PatchCollection(patches, facecolors=v_color, edgecolors="black", linewidths=v_line_width)
     ax.add_collection(p)
 
 
-- 
2.43.0


From 95415b94b694cd3c739c5b882c512d8672b7afea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:39 +0000
Subject: [PATCH 44/58] fix: draw_bigraph uses each font size for its side
 instead of the sum for both

---
 dhg/visualization/structure/draw.py  |  2 +-
 dhg/visualization/structure/utils.py | 10 ++++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/dhg/visualization/structure/draw.py b/dhg/visualization/structure/draw.py
index 4501908..d4451c0 100644
--- a/dhg/visualization/structure/draw.py
+++ b/dhg/visualization/structure/draw.py
@@ -261,7 +261,7 @@ def draw_bigraph(
         ax,
         np.vstack([u_coor, v_coor]),
         list(u_label) + list(v_label) if u_label is not None and v_label is not None else None,
-        u_font_size + v_font_size,
+        [u_font_size] * num_u + [v_font_size] * num_v,
         font_family,
         u_size + v_size,
         u_color + v_color,
diff --git a/dhg/visualization/structure/utils.py b/dhg/visualization/structure/utils.py
index fe17818..d95a30f 100644
--- a/dhg/visualization/structure/utils.py
+++ b/dhg/visualization/structure/utils.py
@@ -1,5 +1,5 @@
 from itertools import chain
-from typing import Optional, List, Tuple
+from typing import Optional, List, Tuple, Union
 
 import matplotlib
 import numpy as np
@@ -125,7 +125,7 @@ def draw_vertex(
     ax: matplotlib.axes.Axes,
     v_coor: List[Tuple[float, float]],
     v_label: Optional[List[str]],
-    font_size: int,
+    font_size: Union[float, list],
     font_family: str,
     v_size: list,
     v_color: list,
@@ -135,7 +135,9 @@ def draw_vertex(
     n = v_coor.shape[0]
     if v_label is None:
         v_label = [""] * n
-    for coor, label, size in zip(v_coor.tolist(), v_label, v_size):
+    if not isinstance(font_size, list):
+        font_size = [font_size] * n
+    for coor, label, size, font in zip(v_coor.tolist(), v_label, v_size, font_size):
         circle = Circle(coor, size)
         # circle.label = label
         if label != '':
@@ -143,7 +145,7 @@ def draw_vertex(
             offset = 0, -1.3 * size
             x += offset[0]
             y += offset[1]
-            ax.text(x, y, label, fontsize=font_size, fontfamily=font_family, ha='center', va='top')
+            ax.text(x, y, label, fontsize=font, fontfamily=font_family, ha='center', va='top')
         patches.append(circle)
     p = PatchCollection(patches, facecolors=v_color, edgecolors="black", linewidths=v_line_width)
     ax.add_collection(p)
-- 
2.43.0


From e34bfe34bc4d2b32d65dc4bc25121d780ada08c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:56 +0000
Subject: [PATCH 45/58] fix: draw_bigraph draws the labels of one side when
 only these are given

---
 dhg/visualization/structure/draw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dhg/visualization/structure/draw.py b/dhg/visualization/structure/draw.py
index d4451c0..1a7ff2c 100644
--- a/dhg/visualization/structure/draw.py
+++ b/dhg/visualization/structure/draw.py
@@ -260,7 +260,7 @@ def draw_bigraph(
     draw_vertex(
         ax,
         np.vstack([u_coor, v_coor]),
-        list(u_label) + list(v_label) if u_label is not None and v_label is not None else None,
+        list(u_label if u_label is not None else [""] * num_u) + list(v_label if v_label is not None else [""] * num_v),
         [u_font_size] * num_u + [v_font_size] * num_v,
         font_family,
         u_size + v_size,
-- 
2.43.0


From 331a385336ffd8d162a960565315534b16dc1432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:43 +0000
Subject: [PATCH 46/58] fix: a hyperedge weight that is no number leaves the
 hypergraph half-edited with stale views

---
 dhg/structure/hypergraphs/hypergraph.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dhg/structure/hypergraphs/hypergraph.py b/dhg/structure/hypergraphs/hypergraph.py
index c4622ee..68cc4d1 100644
--- a/dhg/structure/hypergraphs/hypergraph.py
+++ b/dhg/structure/hypergraphs/hypergraph.py
@@ -343,10 +343,12 @@ class Hypergraph(BaseHypergraph):
             raise TypeError(f"The type of e_weight should be float or list, but got {type(e_weight)}")
         assert len(e_list) == len(e_weight), "The number of hyperedges and the number of weights are not equal."
         assert merge_op in ["mean", "sum", "max"], "Hyperedge merge operation must be one of ['mean', 'sum', 'max']"
+        # refuse bad weights before the first hyperedge is added
+        e_weight = [float(w) for w in e_weight]
 
         for _idx in range(len(e_list)):
             self._add_hyperedge(
-                self._hyperedge_code(e_list[_idx], e_list[_idx]), {"w_e": float(e_weight[_idx])}, merge_op, group_name,
+                self._hyperedge_code(e_list[_idx], e_list[_idx]), {"w_e": e_weight[_idx]}, merge_op, group_name,
             )
         self._clear_cache(group_name)
 
-- 
2.43.0


From 4f22828752c874e51be30a87ce79e3a79a64a33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:14 +0000
Subject: [PATCH 47/58] fix: reading a graph's GCN Laplacian fails while
 another thread reads views of the same graph

---
 dhg/structure/graphs/graph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dhg/structure/graphs/graph.py b/dhg/structure/graphs/graph.py
index fec8956..71baaa1 100644
--- a/dhg/structure/graphs/graph.py
+++ b/dhg/structure/graphs/graph.py
@@ -150,7 +150,8 @@ class Graph(BaseGraph):
             _g._raw_e_dict = deepcopy(self._raw_e_dict)
         if self._raw_selfloop_dict is not None:
             _g._raw_selfloop_dict = deepcopy(self._raw_selfloop_dict)
-        _g.cache = deepcopy(self.cache)
+        # copied first: another thread may be reading (and thereby caching) views meanwhile
+        _g.cache = deepcopy(self.cache.copy())
         return _g
 
     def to(self, device: torch.device):
-- 
2.43.0


From 9ce4723a5beec4e2c748a4a158683ddb61dc35ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:49 +0000
Subject: [PATCH 48/58] fix: find the exact nearest neighbours of offset
 features in feature-kNN hyperedges

---
 dhg/structure/hypergraphs/hypergraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dhg/structure/hypergraphs/hypergraph.py b/dhg/structure/hypergraphs/hypergraph.py
index 68cc4d1..6fba979 100644
--- a/dhg/structure/hypergraphs/hypergraph.py
+++ b/dhg/structure/hypergraphs/hypergraph.py
@@ -187,7 +187,7 @@ class Hypergraph(BaseHypergraph):
         assert (
             k <= features.shape[0]
         ), "The number of nearest neighbors should be less than or equal to the number of vertices."
-        dist_matrix = torch.cdist(features, features)
+        dist_matrix = torch.cdist(features, features, compute_mode="donot_use_mm_for_euclid_dist")
         _, nbr_indices = torch.topk(dist_matrix, k, largest=False)
         return nbr_indices.tolist()
 
-- 
2.43.0


From c7371c909aa6f0c14dd539ccfdf030b4d4c8cf88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:39 +0000
Subject: [PATCH 49/58] fix: connections dropped in message passing still count
 in softmax_then_sum

---
 dhg/utils/sparse.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/dhg/utils/sparse.py b/dhg/utils/sparse.py
index c69dfbc..d85fe0c 100644
--- a/dhg/utils/sparse.py
+++ b/dhg/utils/sparse.py
@@ -16,6 +16,16 @@ def sparse_dropout(sp_mat: torch.Tensor, p: float, fill_value: float = 0.0) -> t
         return sp_mat
     p = torch.ones(sp_mat._nnz(), device=device) * p
     keep_mask = torch.bernoulli(1 - p).to(device)
+    if fill_value == 0:
+        # dropped elements are not stored: a stored zero would still count in a sparse softmax
+        keep_mask = keep_mask.bool()
+        return torch.sparse_coo_tensor(
+            sp_mat._indices()[:, keep_mask],
+            sp_mat._values()[keep_mask],
+            size=sp_mat.size(),
+            device=sp_mat.device,
+            dtype=sp_mat.dtype,
+        )
     fill_values = torch.logical_not(keep_mask) * fill_value
     new_sp_mat = torch.sparse_coo_tensor(
         sp_mat._indices(),
-- 
2.43.0


From f396603db0edcef47791b272f40fed8eb32e22d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:39 +0000
Subject: [PATCH 50/58] fix: explicit weights get no gradient when connections
 are dropped

---
 dhg/utils/sparse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dhg/utils/sparse.py b/dhg/utils/sparse.py
index d85fe0c..eae5095 100644
--- a/dhg/utils/sparse.py
+++ b/dhg/utils/sparse.py
@@ -21,7 +21,7 @@ def sparse_dropout(sp_mat: torch.Tensor, p: float, fill_value: float = 0.0) -> t
         keep_mask = keep_mask.bool()
         return torch.sparse_coo_tensor(
             sp_mat._indices()[:, keep_mask],
-            sp_mat._values()[keep_mask],
+            sp_mat.values()[keep_mask],
             size=sp_mat.size(),
             device=sp_mat.device,
             dtype=sp_mat.dtype,
@@ -29,7 +29,7 @@ def sparse_dropout(sp_mat: torch.Tensor, p: float, fill_value: float = 0.0) -> t
     fill_values = torch.logical_not(keep_mask) * fill_value
     new_sp_mat = torch.sparse_coo_tensor(
         sp_mat._indices(),
-        sp_mat._values() * keep_mask + fill_values,
+        sp_mat.values() * keep_mask + fill_values,
         size=sp_mat.size(),
         device=sp_mat.device,
         dtype=sp_mat.dtype,
-- 
2.43.0


From bcc04ffc3699d47927a54b9e128d066ac643823a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:57 +0000
Subject: [PATCH 51/58] fix: cached matrices stay behind when a structure moves
 to another device

---
 dhg/structure/base.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/dhg/structure/base.py b/dhg/structure/base.py
index 0064aaa..7b97511 100644
--- a/dhg/structure/base.py
+++ b/dhg/structure/base.py
@@ -108,9 +108,9 @@ class BaseGraph:
             ``device`` (``torch.device``): The device to store the graph.
         """
         self.device = device
-        for v in self.vars_for_DL:
-            if self.cache.get(v, None) is not None:
-                self.cache[v] = self.cache[v].to(device)
+        for k, v in list(self.cache.items()):
+            if isinstance(v, torch.Tensor):
+                self.cache[k] = v.to(device)
         return self
 
     # utils
@@ -453,12 +453,10 @@ class BaseHypergraph:
             ``device`` (``torch.device``): The device to store the hypergraph.
         """
         self.device = device
-        for v in self.vars_for_DL:
-            if v in self.cache and self.cache[v] is not None:
-                self.cache[v] = self.cache[v].to(device)
-            for name in self.group_names:
-                if v in self.group_cache[name] and self.group_cache[name][v] is not None:
-                    self.group_cache[name][v] = self.group_cache[name][v].to(device)
+        for cache in [self.cache] + [self.group_cache[name] for name in self.group_names]:
+            for k, v in list(cache.items()):
+                if isinstance(v, torch.Tensor):
+                    cache[k] = v.to(device)
         return self
 
     # utils
-- 
2.43.0


From 60db0a18786a17ecd7eb8e1d79b5ab434f70c854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:57 +0000
Subject: [PATCH 52/58] fix: matrices of an empty DiGraph or BiGraph are not on
 its device

---
 dhg/structure/graphs/bipartite_graph.py | 2 +-
 dhg/structure/graphs/directed_graph.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dhg/structure/graphs/bipartite_graph.py b/dhg/structure/graphs/bipartite_graph.py
index a723a75..4973ceb 100644
--- a/dhg/structure/graphs/bipartite_graph.py
+++ b/dhg/structure/graphs/bipartite_graph.py
@@ -489,7 +489,7 @@ class BiGraph(BaseGraph):
         """
         if self.cache.get("B", None) is None:
             if self.num_e == 0:
-                self.cache["B"] = torch.sparse_coo_tensor(size=(self.num_u, self.num_v))
+                self.cache["B"] = torch.sparse_coo_tensor(size=(self.num_u, self.num_v), device=self.device)
             else:
                 e_list, e_weight = self.e
                 self.cache["B"] = torch.sparse_coo_tensor(
diff --git a/dhg/structure/graphs/directed_graph.py b/dhg/structure/graphs/directed_graph.py
index 4da9717..eb16ee1 100644
--- a/dhg/structure/graphs/directed_graph.py
+++ b/dhg/structure/graphs/directed_graph.py
@@ -423,7 +423,7 @@ class DiGraph(BaseGraph):
         """
         if self.cache.get("A", None) is None:
             if self.num_e == 0:
-                self.cache["A"] = torch.sparse_coo_tensor(size=(self.num_v, self.num_v))
+                self.cache["A"] = torch.sparse_coo_tensor(size=(self.num_v, self.num_v), device=self.device)
             else:
                 e_list, e_weight = self.e
                 self.cache["A"] = torch.sparse_coo_tensor(
-- 
2.43.0


From 5b1b20e5b6db63926356cf9567022a47d0f6afbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:57 +0000
Subject: [PATCH 53/58] fix: testing a recommender adds a mask from the CPU to
 scores of another device

---
 dhg/experiments/recommender.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dhg/experiments/recommender.py b/dhg/experiments/recommender.py
index af405f1..f9626bd 100644
--- a/dhg/experiments/recommender.py
+++ b/dhg/experiments/recommender.py
@@ -163,6 +163,7 @@ class UserItemRecommenderTask(BaseTask):
         model.eval()
         for users, train_mask, true_rating in test_loader:
             users = users.to(self.device)
+            train_mask = train_mask.to(self.device)
             true_rating = true_rating.to(self.device)
             if structure is not None:
                 emb_u, emb_i = model(structure)
-- 
2.43.0


From 8c818444dc1177444da6b5af831651d87e8bd91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:57 +0000
Subject: [PATCH 54/58] fix: smoothing answers on the structure's device,
 models on another one break

---
 dhg/structure/graphs/bipartite_graph.py | 2 +-
 dhg/structure/hypergraphs/hypergraph.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/dhg/structure/graphs/bipartite_graph.py b/dhg/structure/graphs/bipartite_graph.py
index 4973ceb..8c1d291 100644
--- a/dhg/structure/graphs/bipartite_graph.py
+++ b/dhg/structure/graphs/bipartite_graph.py
@@ -636,7 +636,7 @@ class BiGraph(BaseGraph):
             ``drop_rate`` (``float``): Dropout rate. Randomly dropout the connections in adjacency matrix with probability ``drop_rate``. Default: ``0.0``.
         """
         if self.device != X.device:
-            X = X.to(self.device)
+            self.to(X.device)
         if drop_rate > 0.0:
             L_GCN = sparse_dropout(self.L_GCN, drop_rate)
         else:
diff --git a/dhg/structure/hypergraphs/hypergraph.py b/dhg/structure/hypergraphs/hypergraph.py
index 6fba979..f121edf 100644
--- a/dhg/structure/hypergraphs/hypergraph.py
+++ b/dhg/structure/hypergraphs/hypergraph.py
@@ -1219,7 +1219,7 @@ class Hypergraph(BaseHypergraph):
             ``drop_rate`` (``float``): Dropout rate. Randomly dropout the connections in incidence matrix with probability ``drop_rate``. Default: ``0.0``.
     """
         if self.device != X.device:
-            X = X.to(self.device)
+            self.to(X.device)
         if drop_rate > 0.0:
             L_HGNN = sparse_dropout(self.L_HGNN, drop_rate)
         else:
@@ -1239,7 +1239,7 @@ class Hypergraph(BaseHypergraph):
         """
         assert group_name in self.group_names, f"The specified {group_name} is not in existing hyperedge groups."
         if self.device != X.device:
-            X = X.to(self.device)
+            self.to(X.device)
         if drop_rate > 0.0:
             L_HGNN = sparse_dropout(self.L_HGNN_of_group(group_name), drop_rate)
         else:
-- 
2.43.0


From 284305c3a7b77dc918923c3b015efd786e662b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:47 +0000
Subject: [PATCH 55/58] fix: UniGCNConv returns NaN for vertices whose
 hyperedges all have weight zero

---
 dhg/nn/convs/hypergraphs/unignn_conv.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dhg/nn/convs/hypergraphs/unignn_conv.py b/dhg/nn/convs/hypergraphs/unignn_conv.py
index a01388f..1432e74 100644
--- a/dhg/nn/convs/hypergraphs/unignn_conv.py
+++ b/dhg/nn/convs/hypergraphs/unignn_conv.py
@@ -66,7 +66,8 @@ class UniGCNConv(nn.Module):
         _De = _De.scatter_reduce(0, index=hg.v2e_dst, src=_Dv, reduce="sum") / _De.scatter_reduce(
             0, index=hg.v2e_dst, src=(_Dv != 0).type_as(_De), reduce="sum")
         _De = _De.pow(-0.5)
-        _De[_De.isinf()] = 1
+        # a hyperedge with only zero-degree vertices has no special degree
+        _De[~_De.isfinite()] = 1
         Y = _De.view(-1, 1) * Y
         # ===============================================
         X = hg.e2v(Y, aggr="sum")
-- 
2.43.0


From 6b928e611f8f086a350723f706cb32d682cb8afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:50 +0000
Subject: [PATCH 56/58] fix: ranking metrics rank double-precision scores in
 single precision

---
 dhg/metrics/recommender.py | 2 +-
 dhg/metrics/retrieval.py   | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/dhg/metrics/recommender.py b/dhg/metrics/recommender.py
index 7ba826c..5a5750d 100644
--- a/dhg/metrics/recommender.py
+++ b/dhg/metrics/recommender.py
@@ -42,7 +42,7 @@ def _format_inputs(
         y_true = y_true.unsqueeze(0)
     if y_pred.dim() == 1:
         y_pred = y_pred.unsqueeze(0)
-    y_true, y_pred = y_true.detach().float(), y_pred.detach().float()
+    y_true, y_pred = y_true.detach().float(), y_pred.detach().double()
     max_k = y_true.shape[1]
     if ratio is not None:
         k = int(np.ceil(max_k * ratio))
diff --git a/dhg/metrics/retrieval.py b/dhg/metrics/retrieval.py
index 782088f..006590c 100644
--- a/dhg/metrics/retrieval.py
+++ b/dhg/metrics/retrieval.py
@@ -33,7 +33,7 @@ def _format_inputs(
         y_true = y_true.unsqueeze(0)
     if y_pred.dim() == 1:
         y_pred = y_pred.unsqueeze(0)
-    y_true, y_pred = y_true.detach().float(), y_pred.detach().float()
+    y_true, y_pred = y_true.detach().float(), y_pred.detach().double()
     max_k = y_true.shape[1]
     if ratio is not None:
         k = int(np.ceil(max_k * ratio))
@@ -142,7 +142,7 @@ def ap(
     assert y_true.shape == y_pred.shape, "The shape of y_true and y_pred must be the same."
     assert y_true.dim() == 1, "The input y_true must be 1-D."
     assert y_pred.dim() == 1, "The input y_pred must be 1-D."
-    y_true, y_pred = y_true.detach().float(), y_pred.detach().float()
+    y_true, y_pred = y_true.detach().float(), y_pred.detach().double()
     max_k = y_true.shape[0]
     if ratio is not None:
         k = int(np.ceil(max_k * ratio))
@@ -285,7 +285,7 @@ def rr(y_true: torch.Tensor, y_pred: torch.Tensor, k: Optional[int] = None, rati
     assert y_true.shape == y_pred.shape
     assert y_true.dim() == 1, "The input y_true must be a 1-D tensor."
     assert y_pred.dim() == 1, "The input y_pred must be a 1-D tensor."
-    y_true, y_pred = y_true.detach().float(), y_pred.detach().float()
+    y_true, y_pred = y_true.detach().float(), y_pred.detach().double()
     max_k = y_true.shape[0]
     if ratio is not None:
         k = int(np.ceil(max_k * ratio))
@@ -367,7 +367,7 @@ def _pr_curve(
     assert y_true.shape == y_pred.shape, "The shape of y_true and y_pred must be the same."
     assert y_true.dim() == 1, "The input y_true must be 1-D."
     assert y_pred.dim() == 1, "The input y_pred must be 1-D."
-    y_true, y_pred = y_true.detach().float(), y_pred.detach().float()
+    y_true, y_pred = y_true.detach().float(), y_pred.detach().double()
     max_k = y_true.shape[0]
     if ratio is not None:
         k = int(np.ceil(max_k * ratio))
-- 
2.43.0


From 77901cdcb28113a890465604bf61315909501f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:11 +0000
Subject: [PATCH 57/58] fix: metrics whose parameters agree to four decimals
 are merged into one result

---
 dhg/metrics/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dhg/metrics/base.py b/dhg/metrics/base.py
index 64cc2d5..dbb86ce 100644
--- a/dhg/metrics/base.py
+++ b/dhg/metrics/base.py
@@ -63,6 +63,9 @@ def format_metric_configs(task: str, metric_configs: List[Union[str, Dict[str, d
                     _m += str(v)
                 markder_list.append(_m)
             marker = f"{func_name} -> {' | '.join(markder_list)}"
+            # rounded parameters must not merge the results of two metrics
+            if any(m["marker"] == marker and m["func"].keywords != params for m in metric_list):
+                marker = f"{func_name} -> {' | '.join(f'{k}@{v}' for k, v in params.items())}"
         else:
             raise ValueError
         metric_list.append({"marker": marker, "func": func, "func_name": func_name})
-- 
2.43.0


From 43b0c7c276300d253f7c14a01985cff9960cb8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:42 +0000
Subject: [PATCH 58/58] fix: remapping bipartite adjacency lists fails on empty
 lines

---
 dhg/utils/structure.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dhg/utils/structure.py b/dhg/utils/structure.py
index bb250ad..87b6e53 100644
--- a/dhg/utils/structure.py
+++ b/dhg/utils/structure.py
@@ -168,7 +168,8 @@ def remap_adj_list(
             {raw_v: new_v for new_v, raw_v in enumerate(v_list)},
         )
         adj_list = [
-            [u_map[line[0]]] + [v_map[v] for v in line[1:]] for line in adj_list
+            ([u_map[line[0]]] + [v_map[v] for v in line[1:]]) if len(line) > 0 else []
+            for line in adj_list
         ]
         if ret_map:
             return adj_list, u_map, v_map
@@ -221,7 +222,10 @@ def remap_adj_lists(
             {raw_v: new_v for new_v, raw_v in enumerate(v_list)},
         )
         adj_lists = [
-            [[u_map[line[0]]] + [v_map[v] for v in line[1:]] for line in adj_list]
+            [
+                ([u_map[line[0]]] + [v_map[v] for v in line[1:]]) if len(line) > 0 else []
+                for line in adj_list
+            ]
             for adj_list in adj_lists
         ]
         if ret_map:
-- 
2.43.0

