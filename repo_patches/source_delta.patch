From a0942c7662f5e4adff6c2b0a5d4b0490714cb9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:10 +0000
Subject: [PATCH 01/53] Hook: coarsening thresholds can be lowered in
 verification builds (VIECUT_VERIFY_SMALL_LIMITS)

---
 lib/algorithms/global_mincut/ks_minimum_cut.h | 8 +++++++-
 lib/algorithms/global_mincut/viecut.h         | 8 +++++++-
 lib/parallel/coarsening/contract_graph.h      | 8 +++++++-
 3 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/lib/algorithms/global_mincut/ks_minimum_cut.h b/lib/algorithms/global_mincut/ks_minimum_cut.h
index c34eb35..3ddfa8e 100644
--- a/lib/algorithms/global_mincut/ks_minimum_cut.h
+++ b/lib/algorithms/global_mincut/ks_minimum_cut.h
@@ -42,6 +42,12 @@ class ks_minimum_cut : public minimum_cut {
     typedef graphAccessPtr GraphPtrType;
     static const bool debug = false;
     static const bool timing = true;
+#ifdef VIECUT_VERIFY_SMALL_LIMITS
+    // verification builds let small graphs reach the recursion
+    static constexpr NodeID recursion_limit = VIECUT_VERIFY_SMALL_LIMITS;
+#else
+    static constexpr NodeID recursion_limit = 50;
+#endif
 
     ks_minimum_cut() { }
 
@@ -196,7 +202,7 @@ class ks_minimum_cut : public minimum_cut {
         size_t current_position = graphs.size() - 1;
         EdgeWeight mincut_to_return = 0;
 
-        if (graphs.back()->number_of_nodes() > 50) {
+        if (graphs.back()->number_of_nodes() > recursion_limit) {
             auto w1 = recurse(current_position, iteration);
             /* pseudo-random seed */
             auto w2 = recurse(current_position, iteration + 9273);
diff --git a/lib/algorithms/global_mincut/viecut.h b/lib/algorithms/global_mincut/viecut.h
index 0a7e601..c5b7a25 100644
--- a/lib/algorithms/global_mincut/viecut.h
+++ b/lib/algorithms/global_mincut/viecut.h
@@ -46,6 +46,12 @@ class viecut : public minimum_cut {
  public:
     typedef GraphPtr GraphPtrType;
     static constexpr bool debug = false;
+#ifdef VIECUT_VERIFY_SMALL_LIMITS
+    // verification builds let small graphs reach the coarsening loop
+    static constexpr NodeID coarsening_limit = VIECUT_VERIFY_SMALL_LIMITS;
+#else
+    static constexpr NodeID coarsening_limit = 10000;
+#endif
     bool timing = configuration::getConfig()->verbose;
     viecut() { }
 
@@ -67,7 +73,7 @@ class viecut : public minimum_cut {
 
         minimum_cut_helpers<GraphPtr>::setInitialCutValues(graphs);
 
-        while (graphs.back()->number_of_nodes() > 10000 &&
+        while (graphs.back()->number_of_nodes() > coarsening_limit &&
                (graphs.size() == 1 ||
                 (graphs.back()->number_of_nodes() <
                  graphs[graphs.size() - 2]->number_of_nodes()))) {
diff --git a/lib/parallel/coarsening/contract_graph.h b/lib/parallel/coarsening/contract_graph.h
index 281f40c..97a0148 100644
--- a/lib/parallel/coarsening/contract_graph.h
+++ b/lib/parallel/coarsening/contract_graph.h
@@ -31,6 +31,12 @@
 class contraction {
  public:
     static constexpr bool debug = false;
+#ifdef VIECUT_VERIFY_SMALL_LIMITS
+    // verification builds let small graphs have a contested edge
+    static constexpr NodeID dense_limit = VIECUT_VERIFY_SMALL_LIMITS;
+#else
+    static constexpr NodeID dense_limit = 100;
+#endif
 
     static graphAccessPtr deleteEdge(
         graphAccessPtr, EdgeID) {
@@ -302,7 +308,7 @@ class contraction {
         NodeID block0 = 0;
         NodeID block1 = 0;
 
-        if (G->m() * 0.02 < G->n() * G->n() && G->n() > 100) {
+        if (G->m() * 0.02 < G->n() * G->n() && G->n() > dense_limit) {
             std::vector<uint32_t> el(num_nodes);
             for (size_t i = 0; i < mapping.size(); ++i) {
                 ++el[mapping[i]];
-- 
2.43.0


From 1b964ccb988a78460dfce079edf3830d2021cc3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:03 +0000
Subject: [PATCH 02/53] fix: Matula approximation rounds its bound up, so that
 odd degrees keep the factor

---
 lib/algorithms/global_mincut/matula_approx.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/algorithms/global_mincut/matula_approx.h b/lib/algorithms/global_mincut/matula_approx.h
index 3f36082..a2bf41a 100644
--- a/lib/algorithms/global_mincut/matula_approx.h
+++ b/lib/algorithms/global_mincut/matula_approx.h
@@ -56,7 +56,8 @@ class matula_approx : public minimum_cut {
             noi_minimum_cut<GraphPtr> noi;
             auto uf = noi.modified_capforest(
                 graphs.back(),
-                std::max(mincut / 2, static_cast<EdgeWeight>(1)));
+                std::max((mincut + 1) / 2,
+                         static_cast<EdgeWeight>(1)));
             graphs.emplace_back(contraction::fromUnionFind(graphs.back(), &uf));
             mincut = minimum_cut_helpers<GraphPtr>::updateCut(graphs, mincut);
         }
-- 
2.43.0


From 2cf424c9f78ebc5f11c1aba18158d011e817f8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:03 +0000
Subject: [PATCH 03/53] fix: Padberg-Rinaldi and Matula keep the input graph
 when contracting a mutable graph, so that the saved cut is right

---
 lib/algorithms/global_mincut/matula_approx.h   | 3 ++-
 lib/algorithms/global_mincut/padberg_rinaldi.h | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/algorithms/global_mincut/matula_approx.h b/lib/algorithms/global_mincut/matula_approx.h
index a2bf41a..47b9ee0 100644
--- a/lib/algorithms/global_mincut/matula_approx.h
+++ b/lib/algorithms/global_mincut/matula_approx.h
@@ -58,7 +58,8 @@ class matula_approx : public minimum_cut {
                 graphs.back(),
                 std::max((mincut + 1) / 2,
                          static_cast<EdgeWeight>(1)));
-            graphs.emplace_back(contraction::fromUnionFind(graphs.back(), &uf));
+            graphs.emplace_back(
+                contraction::fromUnionFind(graphs.back(), &uf, true));
             mincut = minimum_cut_helpers<GraphPtr>::updateCut(graphs, mincut);
         }
 
diff --git a/lib/algorithms/global_mincut/padberg_rinaldi.h b/lib/algorithms/global_mincut/padberg_rinaldi.h
index 09a4b04..0c1a0ec 100644
--- a/lib/algorithms/global_mincut/padberg_rinaldi.h
+++ b/lib/algorithms/global_mincut/padberg_rinaldi.h
@@ -54,12 +54,14 @@ class padberg_rinaldi : public minimum_cut {
                && graphs.back()->number_of_nodes() < last_nodes) {
             last_nodes = graphs.back()->number_of_nodes();
             union_find uf_34 = tests::prTests34(graphs.back(), cut);
-            auto G_34 = contraction::fromUnionFind(graphs.back(), &uf_34);
+            auto G_34 = contraction::fromUnionFind(
+                graphs.back(), &uf_34, true);
             graphs.push_back(G_34);
             cut = minimum_cut_helpers<GraphPtr>::updateCut(graphs, cut);
 
             union_find uf_12 = tests::prTests12(graphs.back(), cut);
-            auto G_12 = contraction::fromUnionFind(graphs.back(), &uf_12);
+            auto G_12 = contraction::fromUnionFind(
+                graphs.back(), &uf_12, true);
             graphs.push_back(G_12);
             cut = minimum_cut_helpers<GraphPtr>::updateCut(graphs, cut);
         }
-- 
2.43.0


From 9f1b4fc2a64834886813610f539c3efff7612585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:03 +0000
Subject: [PATCH 04/53] fix: priority queue keys are as wide as edge weights

---
 lib/common/definitions.h | 128 +++++++++++++++++++--------------------
 1 file changed, 64 insertions(+), 64 deletions(-)

diff --git a/lib/common/definitions.h b/lib/common/definitions.h
index 6a4b870..6c19d1d 100644
--- a/lib/common/definitions.h
+++ b/lib/common/definitions.h
@@ -1,64 +1,64 @@
-/******************************************************************************
- * definitions.h
- *
- * Source of VieCut.
- *
- * Adapted from KaHIP.
- *
- ******************************************************************************
- * Copyright (C) 2013-2015 Christian Schulz <christian.schulz@univie.ac.at>
- * Copyright (C) 2017-2019 Alexander Noe <alexander.noe@univie.ac.at>
- *
- *****************************************************************************/
-
-#pragma once
-
-#include <limits>
-#include <memory>
-#include <queue>
-#include <vector>
-
-#include "tools/macros_assertions.h"
-
-/**********************************************
- * Constants
- * ********************************************/
-// Types needed for the graph ds
-
-typedef uint32_t NodeID;
-typedef double EdgeRatingType;
-typedef uint64_t EdgeID;
-typedef uint64_t PathID;
-typedef uint32_t PartitionID;
-typedef uint32_t NodeWeight;
-typedef uint64_t EdgeWeight;
-typedef NodeWeight Gain;
-typedef int32_t Color;
-typedef uint64_t Count;
-typedef int64_t FlowType;
-
-const EdgeID UNDEFINED_EDGE = std::numeric_limits<EdgeID>::max();
-const EdgeID NOTMAPPED = std::numeric_limits<EdgeID>::max();
-const NodeID UNDEFINED_NODE = std::numeric_limits<NodeID>::max();
-const NodeID UNASSIGNED = std::numeric_limits<NodeID>::max();
-const NodeID ASSIGNED = std::numeric_limits<NodeID>::max() - 1;
-const Count UNDEFINED_COUNT = std::numeric_limits<Count>::max();
-const FlowType UNDEFINED_FLOW = std::numeric_limits<FlowType>::max();
-const int NOTINQUEUE = std::numeric_limits<int>::max();
-const int ROOT = 0;
-
-typedef enum {
-    UNDISCOVERED,
-    ACTIVE,
-    CYCLE,
-    FINISHED
-} DFSVertexStatus;
-
-enum MessageStatus { needProblem, haveProblem, emptyAsWell, allEmpty };
-
-struct multicut_problem;
-typedef std::shared_ptr<multicut_problem> problemPointer;
-class mutable_graph;
-typedef std::shared_ptr<mutable_graph> mutableGraphPtr;
-class graph_access;
-typedef std::shared_ptr<graph_access> graphAccessPtr;
+/******************************************************************************
+ * definitions.h
+ *
+ * Source of VieCut.
+ *
+ * Adapted from KaHIP.
+ *
+ ******************************************************************************
+ * Copyright (C) 2013-2015 Christian Schulz <christian.schulz@univie.ac.at>
+ * Copyright (C) 2017-2019 Alexander Noe <alexander.noe@univie.ac.at>
+ *
+ *****************************************************************************/
+
+#pragma once
+
+#include <limits>
+#include <memory>
+#include <queue>
+#include <vector>
+
+#include "tools/macros_assertions.h"
+
+/**********************************************
+ * Constants
+ * ********************************************/
+// Types needed for the graph ds
+
+typedef uint32_t NodeID;
+typedef double EdgeRatingType;
+typedef uint64_t EdgeID;
+typedef uint64_t PathID;
+typedef uint32_t PartitionID;
+typedef uint32_t NodeWeight;
+typedef uint64_t EdgeWeight;
+typedef EdgeWeight Gain;
+typedef int32_t Color;
+typedef uint64_t Count;
+typedef int64_t FlowType;
+
+const EdgeID UNDEFINED_EDGE = std::numeric_limits<EdgeID>::max();
+const EdgeID NOTMAPPED = std::numeric_limits<EdgeID>::max();
+const NodeID UNDEFINED_NODE = std::numeric_limits<NodeID>::max();
+const NodeID UNASSIGNED = std::numeric_limits<NodeID>::max();
+const NodeID ASSIGNED = std::numeric_limits<NodeID>::max() - 1;
+const Count UNDEFINED_COUNT = std::numeric_limits<Count>::max();
+const FlowType UNDEFINED_FLOW = std::numeric_limits<FlowType>::max();
+const int NOTINQUEUE = std::numeric_limits<int>::max();
+const int ROOT = 0;
+
+typedef enum {
+    UNDISCOVERED,
+    ACTIVE,
+    CYCLE,
+    FINISHED
+} DFSVertexStatus;
+
+enum MessageStatus { needProblem, haveProblem, emptyAsWell, allEmpty };
+
+struct multicut_problem;
+typedef std::shared_ptr<multicut_problem> problemPointer;
+class mutable_graph;
+typedef std::shared_ptr<mutable_graph> mutableGraphPtr;
+class graph_access;
+typedef std::shared_ptr<graph_access> graphAccessPtr;
-- 
2.43.0


From b5934799eb8606da3630ba604153fb14ad2f4c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:03 +0000
Subject: [PATCH 05/53] fix: Padberg-Rinaldi tests keep weighted degrees in 64
 bits

---
 lib/coarsening/contraction_tests.h          | 4 ++--
 lib/parallel/coarsening/contraction_tests.h | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/coarsening/contraction_tests.h b/lib/coarsening/contraction_tests.h
index b944909..2ee43fb 100644
--- a/lib/coarsening/contraction_tests.h
+++ b/lib/coarsening/contraction_tests.h
@@ -61,11 +61,11 @@ class tests {
         G->computeDegrees();
         std::vector<bool> contracted(G->number_of_nodes(), false);
         for (NodeID n : G->nodes()) {
-            NodeWeight n_wgt = G->getWeightedNodeDegree(n);
+            EdgeWeight n_wgt = G->getWeightedNodeDegree(n);
             for (EdgeID e : G->edges_of(n)) {
                 auto [t, wgt] = G->getEdge(n, e);
                 NodeID target = uf.Find(t);
-                NodeID t_wgt = G->getWeightedNodeDegree(t);
+                EdgeWeight t_wgt = G->getWeightedNodeDegree(t);
                 NodeID source = uf.Find(n);
 
                 if (wgt >= limit) {
diff --git a/lib/parallel/coarsening/contraction_tests.h b/lib/parallel/coarsening/contraction_tests.h
index 9266e8f..be1ac6a 100644
--- a/lib/parallel/coarsening/contraction_tests.h
+++ b/lib/parallel/coarsening/contraction_tests.h
@@ -69,11 +69,11 @@ class tests {
         NodeID end = G->number_of_nodes();
 #pragma omp parallel for schedule(dynamic, 100)
         for (NodeID n = 0; n < end; ++n) {
-            NodeWeight n_wgt = G->getWeightedNodeDegree(n);
+            EdgeWeight n_wgt = G->getWeightedNodeDegree(n);
 
             for (EdgeID e : G->edges_of(n)) {
                 auto [tgt, wgt] = G->getEdge(n, e);
-                NodeWeight tgt_wgt = G->getWeightedNodeDegree(tgt);
+                EdgeWeight tgt_wgt = G->getWeightedNodeDegree(tgt);
                 if (wgt >= weight_limit) {
                     contracted[n] = true;
                     contracted[tgt] = true;
@@ -137,10 +137,10 @@ class tests {
                     }
                 }
 
-                NodeID deg_n = G->getWeightedNodeDegree(n);
+                EdgeWeight deg_n = G->getWeightedNodeDegree(n);
                 for (EdgeID e1 : G->edges_of(n)) {
                     auto [tgt, w1] = G->getEdge(n, e1);
-                    NodeID deg_tgt = G->getWeightedNodeDegree(tgt);
+                    EdgeWeight deg_tgt = G->getWeightedNodeDegree(tgt);
                     finished[tgt] = true;
                     EdgeWeight wgt_sum = w1;
                     if (tgt > n) {
-- 
2.43.0


From 42a355ece2f523c137d02a83e9d503a71cad5343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:03 +0000
Subject: [PATCH 06/53] fix: heavy triangle test compares the two lightest
 edges

---
 lib/coarsening/contraction_tests.h          | 4 ++--
 lib/parallel/coarsening/contraction_tests.h | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/coarsening/contraction_tests.h b/lib/coarsening/contraction_tests.h
index 2ee43fb..7a746f1 100644
--- a/lib/coarsening/contraction_tests.h
+++ b/lib/coarsening/contraction_tests.h
@@ -25,8 +25,8 @@
 
 class tests {
  private:
-    static void sort3(EdgeWeight w1, EdgeWeight w2, EdgeWeight
-                      w3) {
+    static void sort3(EdgeWeight& w1, EdgeWeight& w2,  // NOLINT
+                      EdgeWeight& w3) {                // NOLINT
         if (w1 < w2) {
             if (w2 < w3) {
                 return;
diff --git a/lib/parallel/coarsening/contraction_tests.h b/lib/parallel/coarsening/contraction_tests.h
index be1ac6a..2ba511b 100644
--- a/lib/parallel/coarsening/contraction_tests.h
+++ b/lib/parallel/coarsening/contraction_tests.h
@@ -29,7 +29,8 @@
 
 class tests {
  private:
-    static void sort3(EdgeWeight w1, EdgeWeight w2, EdgeWeight w3) {
+    static void sort3(EdgeWeight& w1, EdgeWeight& w2,  // NOLINT
+                      EdgeWeight& w3) {                // NOLINT
         if (w1 < w2) {
             if (w2 < w3) {
                 return;
-- 
2.43.0


From aee8cb0e8bc8716de574df2ad210bdc3ac62e6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:03 +0000
Subject: [PATCH 07/53] fix: random contraction terminates on disconnected
 graphs

---
 lib/algorithms/global_mincut/ks_minimum_cut.h | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/lib/algorithms/global_mincut/ks_minimum_cut.h b/lib/algorithms/global_mincut/ks_minimum_cut.h
index 3ddfa8e..2c6350e 100644
--- a/lib/algorithms/global_mincut/ks_minimum_cut.h
+++ b/lib/algorithms/global_mincut/ks_minimum_cut.h
@@ -88,6 +88,17 @@ class ks_minimum_cut : public minimum_cut {
         return mincut;
     }
 
+    // number of contractions until only the connected components are left
+    static NodeID possible_contractions(graphAccessPtr G, union_find* uf) {
+        union_find components(G->number_of_nodes());
+        for (NodeID n : G->nodes()) {
+            for (EdgeID e : G->edges_of(n)) {
+                components.Union(n, G->getEdgeTarget(e));
+            }
+        }
+        return uf->n() - components.n();
+    }
+
     NodeID sample_contractible(graphAccessPtr G,
                                NodeID currentN,
                                union_find* uf,
@@ -101,6 +112,8 @@ class ks_minimum_cut : public minimum_cut {
 
         std::mt19937_64 m_mt(iteration);
 
+        n_reduce = std::min(n_reduce, possible_contractions(G, uf));
+
         size_t reduced = 0;
 
         while (reduced < n_reduce) {
@@ -137,6 +150,8 @@ class ks_minimum_cut : public minimum_cut {
 
         EdgeWeight num_edges = wgt;
 
+        n_reduce = std::min(n_reduce, possible_contractions(G, uf));
+
         size_t contracted = 0;
         std::mt19937_64 m_mt(iteration);
 
-- 
2.43.0


From 0a0ac4b1de3ee7c4601030228c594275f9ad2c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:15 +0000
Subject: [PATCH 08/53] fix: recursive random contraction reads the cut through
 the right mapping

---
 lib/algorithms/global_mincut/ks_minimum_cut.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/lib/algorithms/global_mincut/ks_minimum_cut.h b/lib/algorithms/global_mincut/ks_minimum_cut.h
index 2c6350e..d112d01 100644
--- a/lib/algorithms/global_mincut/ks_minimum_cut.h
+++ b/lib/algorithms/global_mincut/ks_minimum_cut.h
@@ -219,13 +219,22 @@ class ks_minimum_cut : public minimum_cut {
 
         if (graphs.back()->number_of_nodes() > recursion_limit) {
             auto w1 = recurse(current_position, iteration);
+            // the second recursion overwrites the partition index
+            std::vector<NodeID> w1_index;
+            if (configuration::getConfig()->save_cut) {
+                for (NodeID n : G2->nodes()) {
+                    w1_index.emplace_back(G2->getPartitionIndex(n));
+                }
+            }
             /* pseudo-random seed */
             auto w2 = recurse(current_position, iteration + 9273);
 
             if (configuration::getConfig()->save_cut) {
-                size_t u_from = w1.first < w2.first ? w1.second : w2.second;
+                bool first = w1.first < w2.first;
+                size_t u_from = first ? w1.second : w2.second;
                 for (NodeID n : G2->nodes()) {
-                    NodeID ctr = G2->getPartitionIndex(n);
+                    NodeID ctr = first ? w1_index[n]
+                                 : G2->getPartitionIndex(n);
                     PartitionID pid = graphs[u_from]->getNodeInCut(ctr);
                     G2->setNodeInCut(n, pid);
                 }
-- 
2.43.0


From 6b737dfedbd8c87f8760aba9b8e8aa2ae6a5b08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:43 +0000
Subject: [PATCH 09/53] fix: random contraction stops recursing when a
 disconnected graph cannot shrink

---
 lib/algorithms/global_mincut/ks_minimum_cut.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/algorithms/global_mincut/ks_minimum_cut.h b/lib/algorithms/global_mincut/ks_minimum_cut.h
index d112d01..10a0010 100644
--- a/lib/algorithms/global_mincut/ks_minimum_cut.h
+++ b/lib/algorithms/global_mincut/ks_minimum_cut.h
@@ -217,7 +217,8 @@ class ks_minimum_cut : public minimum_cut {
         size_t current_position = graphs.size() - 1;
         EdgeWeight mincut_to_return = 0;
 
-        if (graphs.back()->number_of_nodes() > recursion_limit) {
+        if (graphs.back()->number_of_nodes() > recursion_limit
+            && G2->number_of_nodes() < G->number_of_nodes()) {
             auto w1 = recurse(current_position, iteration);
             // the second recursion overwrites the partition index
             std::vector<NodeID> w1_index;
-- 
2.43.0


From 3ae7887f55debaec576e4d4f9f0c45893fd822ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:54 +0000
Subject: [PATCH 10/53] fix: concurrent union-find links roots with parent and
 rank in one word, so that no cycle can form

---
 lib/parallel/data_structure/union_find.h | 62 +++++++++++++-----------
 1 file changed, 33 insertions(+), 29 deletions(-)

diff --git a/lib/parallel/data_structure/union_find.h b/lib/parallel/data_structure/union_find.h
index 71080ae..8f1d1e4 100644
--- a/lib/parallel/data_structure/union_find.h
+++ b/lib/parallel/data_structure/union_find.h
@@ -13,6 +13,7 @@
 
 #include <algorithm>
 #include <cassert>
+#include <cstdint>
 #include <utility>
 #include <vector>
 
@@ -22,10 +23,9 @@
 // This is sometimes also caled "disjoint sets datastructure.
 class union_find {
  public:
-    explicit union_find(unsigned n) : m_parent(n), m_rank(n) {
-        for (unsigned i = 0; i < m_parent.size(); i++) {
-            m_parent[i] = i;
-            m_rank[i] = 0;
+    explicit union_find(unsigned n) : m_nodes(n) {
+        for (unsigned i = 0; i < m_nodes.size(); i++) {
+            m_nodes[i] = pack(i, 0);
         }
     }
 
@@ -42,15 +42,15 @@ class union_find {
                 return false;
             }
 
-            r_lhs = m_rank[lhs];
-            r_rhs = m_rank[rhs];
+            r_lhs = rank(lhs);
+            r_rhs = rank(rhs);
 
             if (r_lhs > r_rhs || (r_lhs == r_rhs && lhs > rhs)) {
                 std::swap(lhs, rhs);
                 std::swap(r_lhs, r_rhs);
             }
 
-            if (UpdateRoot(lhs, r_lhs, rhs, r_rhs))
+            if (UpdateRoot(lhs, r_lhs, rhs, r_lhs))
                 break;
         }
 
@@ -67,27 +67,28 @@ class union_find {
             y = Find(y);
             if (x == y)
                 return true;
-            if (m_parent[x] == x) {
+            if (parent(x) == x) {
                 return false;
             }
         }
     }
 
     inline unsigned Find(unsigned element) {
-        while (m_parent[element] != element) {
-            unsigned next = m_parent[element];
+        while (parent(element) != element) {
+            uint64_t old = m_nodes[element];
+            unsigned next = static_cast<unsigned>(old);
             // CAS path halving
-            __sync_bool_compare_and_swap(&m_parent[element], next,
-                                         m_parent[next]);
-            element = m_parent[next];
+            __sync_bool_compare_and_swap(&m_nodes[element], old,
+                                         pack(parent(next), old >> 32));
+            element = parent(next);
         }
         return element;
     }
 
     inline unsigned n() {
-        std::vector<bool> found(m_parent.size(), false);
+        std::vector<bool> found(m_nodes.size(), false);
         unsigned n = 0;
-        for (auto& e : m_parent) {
+        for (unsigned e = 0; e < m_nodes.size(); ++e) {
             if (!found[Find(e)]) {
                 ++n;
                 found[Find(e)] = true;
@@ -97,22 +98,25 @@ class union_find {
     }
 
  private:
-    inline bool UpdateRoot(unsigned x, unsigned xr, unsigned y, unsigned yr) {
-        unsigned old = x;
-        if (m_parent[old] != x || m_rank[old] != xr) {
-            return false;
-        }
+    static inline uint64_t pack(unsigned parent, uint64_t rank) {
+        return (rank << 32) | parent;
+    }
 
-        if (__sync_bool_compare_and_swap(&m_parent[x], old, y)) {
-            if (__sync_bool_compare_and_swap(&m_rank[x], m_rank[old], yr)) {
-                return true;
-            }
+    inline unsigned parent(unsigned x) const {
+        return static_cast<unsigned>(m_nodes[x]);
+    }
 
-            __sync_bool_compare_and_swap(&m_parent[x], y, old);
-        }
-        return false;
+    inline unsigned rank(unsigned x) const {
+        return static_cast<unsigned>(m_nodes[x] >> 32);
+    }
+
+    // x is a root of rank xr: set its parent and rank in one step
+    inline bool UpdateRoot(unsigned x, unsigned xr, unsigned y, unsigned yr) {
+        return __sync_bool_compare_and_swap(&m_nodes[x],
+                                            pack(x, xr), pack(y, yr));
     }
 
-    std::vector<unsigned> m_parent;
-    std::vector<unsigned> m_rank;
+    // rank in the upper half, parent in the lower half of each element, so
+    // that a root can not change its rank while it is linked
+    std::vector<uint64_t> m_nodes;
 };
-- 
2.43.0


From 5a5d0ab818727dd1446f9c9e5e71a556cdc8f58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:35 +0000
Subject: [PATCH 11/53] fix: edge contraction does not read past the end when
 the last vertex is merged

---
 lib/data_structure/mutable_graph.h | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/lib/data_structure/mutable_graph.h b/lib/data_structure/mutable_graph.h
index a4447fb..291e428 100644
--- a/lib/data_structure/mutable_graph.h
+++ b/lib/data_structure/mutable_graph.h
@@ -505,9 +505,12 @@ class mutable_graph {
         contained_in_this.pop_back();
 
         // remap all reverse edges of vertex that was now moved to 'target'
-        for (EdgeID ed : edges_of(target)) {
-            RevEdge e = vertices[target][ed];
-            vertices[e.target][e.reverse_edge].target = target;
+        // (if 'target' was the last vertex, there is none)
+        if (target < vertices.size()) {
+            for (EdgeID ed : edges_of(target)) {
+                RevEdge e = vertices[target][ed];
+                vertices[e.target][e.reverse_edge].target = target;
+            }
         }
 
         return target;
@@ -555,9 +558,12 @@ class mutable_graph {
         contained_in_this.pop_back();
 
         // remap all reverse edges of vertex that was now moved to 'target'
-        for (EdgeID ed : edges_of(target)) {
-            RevEdge e = vertices[target][ed];
-            vertices[e.target][e.reverse_edge].target = target;
+        // (if 'target' was the last vertex, there is none)
+        if (target < vertices.size()) {
+            for (EdgeID ed : edges_of(target)) {
+                RevEdge e = vertices[target][ed];
+                vertices[e.target][e.reverse_edge].target = target;
+            }
         }
 
         return target;
@@ -644,9 +650,12 @@ class mutable_graph {
         contained_in_this.pop_back();
 
         // remap all reverse edges of vertex that was now moved to 'target'
-        for (EdgeID ed : edges_of(target)) {
-            RevEdge e = vertices[target][ed];
-            vertices[e.target][e.reverse_edge].target = target;
+        // (if 'target' was the last vertex, there is none)
+        if (target < vertices.size()) {
+            for (EdgeID ed : edges_of(target)) {
+                RevEdge e = vertices[target][ed];
+                vertices[e.target][e.reverse_edge].target = target;
+            }
         }
 
         // delete edge of 'node' to 'target', remap reverse
-- 
2.43.0


From 2dedeeb2139d1dfaca2d400bab60031b145d88c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:35 +0000
Subject: [PATCH 12/53] fix: deleting a vertex also removes its list of
 contained vertices

---
 lib/data_structure/mutable_graph.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/data_structure/mutable_graph.h b/lib/data_structure/mutable_graph.h
index 291e428..4df70e7 100644
--- a/lib/data_structure/mutable_graph.h
+++ b/lib/data_structure/mutable_graph.h
@@ -406,6 +406,7 @@ class mutable_graph {
         weighted_degree.pop_back();
         partition_index.pop_back();
         node_in_cut.pop_back();
+        contained_in_this.pop_back();
     }
 
     // Contraction methods
-- 
2.43.0


From fdd7a37360ef4ecaad02ab79938c8a4f836127a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:41 +0000
Subject: [PATCH 13/53] fix: parallel contraction to a single vertex does not
 look for a second largest block

---
 lib/parallel/coarsening/contract_graph.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/parallel/coarsening/contract_graph.h b/lib/parallel/coarsening/contract_graph.h
index 97a0148..77f3d59 100644
--- a/lib/parallel/coarsening/contract_graph.h
+++ b/lib/parallel/coarsening/contract_graph.h
@@ -308,7 +308,8 @@ class contraction {
         NodeID block0 = 0;
         NodeID block1 = 0;
 
-        if (G->m() * 0.02 < G->n() * G->n() && G->n() > dense_limit) {
+        if (num_nodes > 1
+            && G->m() * 0.02 < G->n() * G->n() && G->n() > dense_limit) {
             std::vector<uint32_t> el(num_nodes);
             for (size_t i = 0; i < mapping.size(); ++i) {
                 ++el[mapping[i]];
-- 
2.43.0


From 968ecc518fee9b2279f8458f801d0bafdb93e7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:18 +0000
Subject: [PATCH 14/53] fix: graph serialisation works for graphs with fewer
 edges than vertices

---
 lib/data_structure/mutable_graph.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/data_structure/mutable_graph.h b/lib/data_structure/mutable_graph.h
index 4df70e7..71cf647 100644
--- a/lib/data_structure/mutable_graph.h
+++ b/lib/data_structure/mutable_graph.h
@@ -852,7 +852,6 @@ class mutable_graph {
     static mutableGraphPtr deserialize(std::vector<uint64_t> v) {
         mutableGraphPtr G = std::make_shared<mutable_graph>();
         uint64_t num_nodes = v[0];
-        size_t num_edges = v[1];
         uint64_t original_nodes = v[3];
         G->start_construction(num_nodes);
         G->set_partition_count(v[2]);
@@ -861,11 +860,11 @@ class mutable_graph {
         size_t deserial = 4;
         while (n < num_nodes) {
             uint64_t next = v[deserial++];
-            if (next >= num_edges) {
+            if (next >= num_nodes) {
                 if (next == UNDEFINED_EDGE) {
                     break;
                 }
-                n = next - num_edges;
+                n = next - num_nodes;
                 continue;
             }
             uint64_t wgt = v[deserial++];
@@ -897,7 +896,8 @@ class mutable_graph {
         size_t next = 4;
 
         for (NodeID n : nodes()) {
-            serial[next++] = static_cast<uint64_t>(num_edges + n);
+            // vertex markers are told from edge targets by being >= n()
+            serial[next++] = static_cast<uint64_t>(vertices.size()) + n;
             for (const auto& [t, w, r, f, l] : vertices[n]) {
                 // I am deeply sorry for this ugly code, but structured bindings
                 // seem to not work in combination with maybe_unused to suppress
-- 
2.43.0


From 99837b2e6e02d309b0d15183d91a95e853b4415b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:18 +0000
Subject: [PATCH 15/53] fix: parallel edges are counted once when converting to
 a mutable graph

---
 lib/data_structure/mutable_graph.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/data_structure/mutable_graph.h b/lib/data_structure/mutable_graph.h
index 71cf647..32c4c2f 100644
--- a/lib/data_structure/mutable_graph.h
+++ b/lib/data_structure/mutable_graph.h
@@ -814,8 +814,9 @@ class mutable_graph {
             for (EdgeID e : G->edges_of(n)) {
                 NodeID t = G->getEdgeTarget(e);
                 if (last_incident[t] == n) {
-                    // double edge
-                    // LOG1 << "double edge";
+                    // double edge, its other direction is set with it
+                    if (n > t)
+                        continue;
 
                     for (EdgeID e2 : m_G->edges_of(n)) {
                         if (m_G->getEdgeTarget(n, e2) == t) {
-- 
2.43.0


From 825d647782248d902e7b702ba848fae5b4cdfb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:18 +0000
Subject: [PATCH 16/53] fix: the 100th degree percentile is the largest degree

---
 lib/data_structure/graph_access.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/data_structure/graph_access.h b/lib/data_structure/graph_access.h
index 26f0875..12e20ff 100644
--- a/lib/data_structure/graph_access.h
+++ b/lib/data_structure/graph_access.h
@@ -529,7 +529,8 @@ class graph_access {
 
         std::vector<EdgeWeight> deg = m_degree;
 
-        size_t el = static_cast<double>(deg.size()) * perc;
+        size_t el = std::min(static_cast<size_t>(deg.size() * perc),
+                             deg.size() - 1);
 
         std::nth_element(deg.begin(), deg.begin() + el, deg.end());
 
-- 
2.43.0


From a7ea7995b4bbfbf1fd561a8c97af9ac742200c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:06 +0000
Subject: [PATCH 17/53] fix: partial relabelling depth beyond the graph size
 does not write past the layer counts

---
 lib/algorithms/flow/push_relabel.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/algorithms/flow/push_relabel.h b/lib/algorithms/flow/push_relabel.h
index eb6a41a..120d0c0 100644
--- a/lib/algorithms/flow/push_relabel.h
+++ b/lib/algorithms/flow/push_relabel.h
@@ -84,7 +84,7 @@ class push_relabel {
         size_t depthPR = configuration::getConfig()->depthOfPartialRelabeling;
 
         if constexpr (limited && initial) {
-            size_t fillValue = depthPR + 1;
+            size_t fillValue = std::min<size_t>(depthPR + 1, m_G->n());
             std::fill(m_distance.begin(), m_distance.end(), fillValue);
             m_count[0] = 0;
             m_count[fillValue] = m_G->n() - 1;
-- 
2.43.0


From 52f74472de67fc1786760a61c325fcacd270edb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:06 +0000
Subject: [PATCH 18/53] fix: unit flow works on the given flow graph, not on a
 destroyed copy

---
 lib/algorithms/flow/unit_flow.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/algorithms/flow/unit_flow.h b/lib/algorithms/flow/unit_flow.h
index 36e55ab..b1727c7 100644
--- a/lib/algorithms/flow/unit_flow.h
+++ b/lib/algorithms/flow/unit_flow.h
@@ -29,7 +29,7 @@ class unit_flow {
     unit_flow() { }
     virtual ~unit_flow() { }
 
-    void init(flow_graph fg, const std::vector<EdgeWeight>& delta_src,
+    void init(flow_graph& fg, const std::vector<EdgeWeight>& delta_src,
               EdgeWeight unit_cap, NodeID max_height, FlowType w) {
         m_f.resize(fg.number_of_nodes());
         m_fg = &fg;
-- 
2.43.0


From 85025b30b3c5795a27a697c691fc86d10f7f66a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:30 +0000
Subject: [PATCH 19/53] fix: unit flow lifts isolated vertices instead of
 popping an empty queue

---
 lib/algorithms/flow/unit_flow.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/algorithms/flow/unit_flow.h b/lib/algorithms/flow/unit_flow.h
index b1727c7..8af4b76 100644
--- a/lib/algorithms/flow/unit_flow.h
+++ b/lib/algorithms/flow/unit_flow.h
@@ -185,7 +185,8 @@ class unit_flow {
                 }
             }
         } else {
-            Q.pop();
+            // no edges to push along
+            relabel(v);
         }
     }
 
-- 
2.43.0


From fd77bb5d9121aad77934a6817d6360ae42d64a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:06 +0000
Subject: [PATCH 20/53] fix: cactus edges guaranteed for a heavier cut are
 dropped when the last step finds a lighter one

---
 lib/algorithms/global_mincut/cactus/cactus_mincut.h | 10 ++++++++--
 lib/parallel/algorithm/parallel_cactus.h            |  8 ++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/lib/algorithms/global_mincut/cactus/cactus_mincut.h b/lib/algorithms/global_mincut/cactus/cactus_mincut.h
index 9a97994..281d294 100644
--- a/lib/algorithms/global_mincut/cactus/cactus_mincut.h
+++ b/lib/algorithms/global_mincut/cactus/cactus_mincut.h
@@ -164,8 +164,14 @@ class cactus_mincut : public minimum_cut {
             }
         }
 
-        if (graphs.back()->number_of_nodes() > 1)
-            mincut = noi.perform_minimum_cut(graphs.back());
+        if (graphs.back()->number_of_nodes() > 1) {
+            EdgeWeight inner = noi.perform_minimum_cut(graphs.back());
+            if (inner < mincut) {
+                mincut = inner;
+                guaranteed_edges.clear();
+                ge_ids.clear();
+            }
+        }
 
         rc.setMincut(mincut);
         auto out_graph = rc.flowMincut(graphs);  // This is the cactus graph!
diff --git a/lib/parallel/algorithm/parallel_cactus.h b/lib/parallel/algorithm/parallel_cactus.h
index 3417342..ece6a72 100644
--- a/lib/parallel/algorithm/parallel_cactus.h
+++ b/lib/parallel/algorithm/parallel_cactus.h
@@ -191,8 +191,12 @@ class parallel_cactus : public minimum_cut {
 
         // check whether there is a small cut hidden in graphs.back()
         if (graphs.back()->number_of_nodes() > 1) {
-            mincut = std::min(mincut,
-                              mc.perform_minimum_cut(graphs.back(), true));
+            EdgeWeight inner = mc.perform_minimum_cut(graphs.back(), true);
+            if (inner < mincut) {
+                mincut = inner;
+                guaranteed_edges.clear();
+                ge_ids.clear();
+            }
         }
 
         rc.setMincut(mincut);
-- 
2.43.0


From a3ed1bd38cc3fba16ebd321859890c3a2f837089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:34 +0000
Subject: [PATCH 21/53] fix: dynamic minimum cut keeps repeated edges as one
 edge, as the contractions need graphs without parallel edges

---
 .../global_mincut/dynamic/dynamic_mincut.h    | 51 +++++++++++++++----
 1 file changed, 42 insertions(+), 9 deletions(-)

diff --git a/lib/algorithms/global_mincut/dynamic/dynamic_mincut.h b/lib/algorithms/global_mincut/dynamic/dynamic_mincut.h
index c4b1a0c..591bbd7 100644
--- a/lib/algorithms/global_mincut/dynamic/dynamic_mincut.h
+++ b/lib/algorithms/global_mincut/dynamic/dynamic_mincut.h
@@ -11,8 +11,11 @@
 
 #pragma once
 
+#include <algorithm>
+#include <map>
 #include <tuple>
 #include <unordered_set>
+#include <utility>
 #include <vector>
 
 #ifdef PARALLEL
@@ -44,6 +47,11 @@ class dynamic_mincut {
     cachedInserts;
     std::vector<bool> currentlyCaching;
     push_relabel<true, false> pr;
+    // weights of all but the first of the edges between the same two vertices.
+    // The contraction routines need graphs without parallel edges, so these are
+    // added to the weight of the first one
+    std::map<std::pair<NodeID, NodeID>, std::vector<EdgeWeight> >
+    parallel_edges;
 
 #ifdef PARALLEL
     parallel_cactus<mutableGraphPtr> cactus;
@@ -65,6 +73,7 @@ class dynamic_mincut {
         callsOfStaticAlgorithm = 1;
         lowestCachedMincut = UNDEFINED_EDGE;
         original_graph = graph;
+        parallel_edges.clear();
         out_cactus = outgraph;
         current_cut = cut;
         flow_problem_id = random_functions::next();
@@ -96,7 +105,7 @@ class dynamic_mincut {
         timer timer;
         NodeID sCactusPos = out_cactus->getCurrentPosition(s);
         NodeID tCactusPos = out_cactus->getCurrentPosition(t);
-        original_graph->new_edge_order(s, t, w);
+        insertEdge(s, t, w);
         cacheEdge(s, t, w);
         if (sCactusPos != tCactusPos) {
             if (current_cut == 0) {
@@ -245,13 +254,7 @@ class dynamic_mincut {
 
     EdgeWeight removeEdge(NodeID s, NodeID t) {
         timer timer;
-        EdgeID eToT = UNDEFINED_EDGE;
-        for (EdgeID e : original_graph->edges_of(s)) {
-            if (original_graph->getEdgeTarget(s, e) == t) {
-                eToT = e;
-                break;
-            }
-        }
+        EdgeID eToT = findEdge(s, t);
 
         if (eToT == UNDEFINED_EDGE) {
             LOG1 << "Warning: Deleting edge between " << s << " and " << t
@@ -260,7 +263,17 @@ class dynamic_mincut {
         }
 
         EdgeWeight wgt = original_graph->getEdgeWeight(s, eToT);
-        original_graph->deleteEdge(s, eToT);
+        auto parallel = parallel_edges.find(std::minmax(s, t));
+        if (parallel == parallel_edges.end()) {
+            original_graph->deleteEdge(s, eToT);
+        } else {
+            EdgeWeight all = wgt;
+            wgt = parallel->second.back();
+            original_graph->setEdgeWeight(s, eToT, all - wgt);
+            parallel->second.pop_back();
+            if (parallel->second.empty())
+                parallel_edges.erase(parallel);
+        }
         NodeID sCactusPos = out_cactus->getCurrentPosition(s);
         NodeID tCactusPos = out_cactus->getCurrentPosition(t);
 
@@ -313,6 +326,26 @@ class dynamic_mincut {
         return current_cut;
     }
 
+    EdgeID findEdge(NodeID s, NodeID t) {
+        for (EdgeID e : original_graph->edges_of(s)) {
+            if (original_graph->getEdgeTarget(s, e) == t) {
+                return e;
+            }
+        }
+        return UNDEFINED_EDGE;
+    }
+
+    void insertEdge(NodeID s, NodeID t, EdgeWeight w) {
+        EdgeID e = findEdge(s, t);
+        if (e == UNDEFINED_EDGE) {
+            original_graph->new_edge_order(s, t, w);
+        } else {
+            EdgeWeight wgt = original_graph->getEdgeWeight(s, e) + w;
+            original_graph->setEdgeWeight(s, e, wgt);
+            parallel_edges[std::minmax(s, t)].emplace_back(w);
+        }
+    }
+
     mutableGraphPtr getOriginalGraph() {
         return original_graph;
     }
-- 
2.43.0


From ee1a6e7f4e9927b9e0a3cd52ba228aa38a2b30ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:34 +0000
Subject: [PATCH 22/53] fix: cached cactus is contracted along paths of its own
 cut value

---
 lib/algorithms/global_mincut/dynamic/dynamic_mincut.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/algorithms/global_mincut/dynamic/dynamic_mincut.h b/lib/algorithms/global_mincut/dynamic/dynamic_mincut.h
index 591bbd7..acfff9c 100644
--- a/lib/algorithms/global_mincut/dynamic/dynamic_mincut.h
+++ b/lib/algorithms/global_mincut/dynamic/dynamic_mincut.h
@@ -172,7 +172,7 @@ class dynamic_mincut {
             NodeID tCactusPos = cachedCactus[mincut]->getCurrentPosition(t);
             if (sCactusPos != tCactusPos) {
                 auto vtxset = cactus_path::findPath(
-                    cachedCactus[mincut], sCactusPos, tCactusPos, current_cut);
+                    cachedCactus[mincut], sCactusPos, tCactusPos, mincut);
                 if (vtxset.size() == cachedCactus[mincut]->n()) {
                     auto [cut, outg, b] = cactus.findAllMincuts(original_graph);
                     callsOfStaticAlgorithm++;
-- 
2.43.0


From d90c150c169342d0d9c5b326b53f51ec4e8c615e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:53 +0000
Subject: [PATCH 23/53] fix: replacing the cached cactus of a cut value does
 not count as another cached value

---
 lib/algorithms/global_mincut/dynamic/dynamic_mincut.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/algorithms/global_mincut/dynamic/dynamic_mincut.h b/lib/algorithms/global_mincut/dynamic/dynamic_mincut.h
index acfff9c..b940782 100644
--- a/lib/algorithms/global_mincut/dynamic/dynamic_mincut.h
+++ b/lib/algorithms/global_mincut/dynamic/dynamic_mincut.h
@@ -363,7 +363,6 @@ class dynamic_mincut {
     }
 
     void putIntoCache(mutableGraphPtr cactusToCache, EdgeWeight cactusCut) {
-        numCachedMincuts++;
         if (cactusCut < lowestCachedMincut) {
             lowestCachedMincut = cactusCut;
         }
@@ -374,6 +373,9 @@ class dynamic_mincut {
             currentlyCaching.resize(cactusCut + 1, false);
         }
 
+        if (!currentlyCaching[cactusCut])
+            numCachedMincuts++;
+
         cachedCactus[cactusCut] = cactusToCache;
         cachedInserts[cactusCut].clear();
         currentlyCaching[cactusCut] = true;
-- 
2.43.0


From 3312d41cdb4450831eb8d6f31dba3b13943e21bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:45 +0000
Subject: [PATCH 24/53] fix: the solution of a component is looked up by its
 problem, not by its component number

---
 lib/algorithms/multicut/multiterminal_cut.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/algorithms/multicut/multiterminal_cut.h b/lib/algorithms/multicut/multiterminal_cut.h
index 801884b..8853ff7 100644
--- a/lib/algorithms/multicut/multiterminal_cut.h
+++ b/lib/algorithms/multicut/multiterminal_cut.h
@@ -265,7 +265,7 @@ class multiterminal_cut {
 
                 for (size_t i = 0; i < mapping.size(); ++i) {
                     NodeID n = mapping[i];
-                    nodeProblemMapping[n] = problem;
+                    nodeProblemMapping[n] = problems.size();
                     if (positionInProblem[n] != UNDEFINED_NODE) {
                         LOG1 << "ERROR: NODE IN MULTIPLE CCs";
                         exit(1);
-- 
2.43.0


From 2bcd972c8e977563a7960c5f1a82f22155422d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:45 +0000
Subject: [PATCH 25/53] fix: a solution assigns every terminal to its own block
 even if contractions moved the block markings

---
 lib/algorithms/multicut/measurements.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/algorithms/multicut/measurements.h b/lib/algorithms/multicut/measurements.h
index 55b462e..6581670 100644
--- a/lib/algorithms/multicut/measurements.h
+++ b/lib/algorithms/multicut/measurements.h
@@ -35,6 +35,14 @@ class measurements {
     std::vector<NodeID> getSolution(problemPointer problem) {
         std::vector<NodeID> current_solution(original_graph.n(), 0);
         std::vector<size_t> blocksize(original_terminals.size(), 0);
+
+        // contraction might have given a terminal the block of another vertex
+        for (size_t i = 0; i < original_terminals.size(); ++i) {
+            NodeID t_coarse = problem->mapped(original_terminals[i]);
+            auto t = problem->graph->getCurrentPosition(t_coarse);
+            problem->graph->setPartitionIndex(t, i);
+        }
+
         for (NodeID n = 0; n < current_solution.size(); ++n) {
             NodeID n_coarse = problem->mapped(n);
             auto t = problem->graph->getCurrentPosition(n_coarse);
-- 
2.43.0


From 5a0c3d15f2c8527b25f39387adf8fe7c7ec511b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:33 +0000
Subject: [PATCH 26/53] fix: a subproblem whose terminals are too strongly
 connected to improve is dropped instead of merging its terminals

---
 lib/algorithms/multicut/branch_multicut.h        |  4 ++++
 lib/algorithms/multicut/kernelization_criteria.h | 15 +++++++++++++++
 2 files changed, 19 insertions(+)

diff --git a/lib/algorithms/multicut/branch_multicut.h b/lib/algorithms/multicut/branch_multicut.h
index 10f18fd..628639c 100644
--- a/lib/algorithms/multicut/branch_multicut.h
+++ b/lib/algorithms/multicut/branch_multicut.h
@@ -362,6 +362,10 @@ class branch_multicut {
         if (outOfMemory())
             return;
 
+        if (!pm.checkProblem(problem)) {
+            return;
+        }
+
         if (problem->deleted_weight > static_cast<EdgeWeight>(pm.bestCut())) {
             return;
         }
diff --git a/lib/algorithms/multicut/kernelization_criteria.h b/lib/algorithms/multicut/kernelization_criteria.h
index 50c16a1..d4e59f0 100644
--- a/lib/algorithms/multicut/kernelization_criteria.h
+++ b/lib/algorithms/multicut/kernelization_criteria.h
@@ -84,6 +84,12 @@ class kernelization_criteria {
                                    - problem->deleted_weight
                                    - tlx::div_ceil(contr_flow, 4);
             auto uf_noi = noi.modified_capforest(problem->graph, noi_limit);
+            if (connectsTerminals(&uf_noi, problem)) {
+                // separating these terminals costs at least the upper bound,
+                // so this problem can not improve the solution
+                problem->lower_bound = global_upper_bound;
+                return std::nullopt;
+            }
             contractIfImproved(&uf_noi, problem, "noi", &active_n);
 
             find_articulation_points find_aps(problem->graph);
@@ -109,6 +115,15 @@ class kernelization_criteria {
     }
 
  private:
+    bool connectsTerminals(union_find* uf, problemPointer problem) {
+        std::unordered_set<NodeID> blocks;
+        for (const auto& t : problem->terminals) {
+            if (!blocks.insert(uf->Find(t.position)).second)
+                return true;
+        }
+        return false;
+    }
+
     void contractIfImproved(union_find* uf,
                             problemPointer problem,
                             const std::string& str,
-- 
2.43.0


From 0e3252087088489779487cea72c1224a9883873c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:18 +0000
Subject: [PATCH 27/53] fix: vieCut saves the cut that the exact algorithm
 finds on the coarsest graph

---
 lib/algorithms/global_mincut/minimum_cut_helpers.h | 12 ++++++++++++
 lib/algorithms/global_mincut/viecut.h              |  6 +++++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/lib/algorithms/global_mincut/minimum_cut_helpers.h b/lib/algorithms/global_mincut/minimum_cut_helpers.h
index f1e8615..2b20478 100644
--- a/lib/algorithms/global_mincut/minimum_cut_helpers.h
+++ b/lib/algorithms/global_mincut/minimum_cut_helpers.h
@@ -85,6 +85,18 @@ class minimum_cut_helpers {
         }
     }
 
+    // map the cut that is stored on the coarsest graph to the input graph
+    static void saveCoarsestCut(const std::vector<GraphPtr>& graphs) {
+        for (NodeID idx : graphs[0]->nodes()) {
+            NodeID coarseID = idx;
+            for (size_t lv = 0; lv < graphs.size() - 1; ++lv) {
+                coarseID = graphs[lv]->getPartitionIndex(coarseID);
+            }
+            graphs[0]->setNodeInCut(idx,
+                                    graphs.back()->getNodeInCut(coarseID));
+        }
+    }
+
     static void retrieveMinimumCut(
         std::vector<GraphPtr> graphs) {
         GraphPtr G = graphs[0];
diff --git a/lib/algorithms/global_mincut/viecut.h b/lib/algorithms/global_mincut/viecut.h
index c5b7a25..606fdfe 100644
--- a/lib/algorithms/global_mincut/viecut.h
+++ b/lib/algorithms/global_mincut/viecut.h
@@ -112,7 +112,11 @@ class viecut : public minimum_cut {
         if (graphs.back()->number_of_nodes() > 1) {
             timer t;
             noi_minimum_cut<GraphPtr> noi;
-            cut = std::min(cut, noi.perform_minimum_cut(graphs.back(), true));
+            EdgeWeight exact = noi.perform_minimum_cut(graphs.back(), true);
+            if (exact < cut && configuration::getConfig()->save_cut) {
+                minimum_cut_helpers<GraphPtr>::saveCoarsestCut(graphs);
+            }
+            cut = std::min(cut, exact);
 
             LOGC(timing) << "Exact Algorithm:"
                          << t.elapsedToZero() << " deg: "
-- 
2.43.0


From 374368b6a60ef94bb46226de968dbbcac9d270e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:04 +0000
Subject: [PATCH 28/53] fix: saved cut follows the vertices that the trivial
 cut search moves to blocks of their own

---
 lib/algorithms/global_mincut/viecut.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/algorithms/global_mincut/viecut.h b/lib/algorithms/global_mincut/viecut.h
index 606fdfe..c34094a 100644
--- a/lib/algorithms/global_mincut/viecut.h
+++ b/lib/algorithms/global_mincut/viecut.h
@@ -87,6 +87,12 @@ class viecut : public minimum_cut {
             LOGC(timing) << "LP (total): " << t.elapsedToZero();
 
             contraction::findTrivialCuts(G, &mapping, &reverse_mapping, cut);
+            if (configuration::getConfig()->save_cut) {
+                // vertices might have been moved to new blocks
+                for (NodeID n : G->nodes()) {
+                    G->setPartitionIndex(n, mapping[n]);
+                }
+            }
             LOGC(timing) << "Trivial Cut Local Search: " << t.elapsedToZero();
 
             auto H = contraction::contractGraph(G, mapping, reverse_mapping);
-- 
2.43.0


From 702b57fa5d8976d4166f14c91b9ec7ee4f80e320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:45 +0000
Subject: [PATCH 29/53] fix: a terminal with a leaf neighbour is not merged
 with its heavier neighbour

---
 lib/algorithms/multicut/kernelization_criteria.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/algorithms/multicut/kernelization_criteria.h b/lib/algorithms/multicut/kernelization_criteria.h
index d4e59f0..659a61b 100644
--- a/lib/algorithms/multicut/kernelization_criteria.h
+++ b/lib/algorithms/multicut/kernelization_criteria.h
@@ -201,7 +201,8 @@ class kernelization_criteria {
             if (graph->getUnweightedNodeDegree(n) == 1) {
                 NodeID tgt = graph->getEdgeTarget(n, 0);
                 uf.Union(n, tgt);
-                if (graph->getUnweightedNodeDegree(tgt) == 3) {
+                if (!terminals[tgt]
+                    && graph->getUnweightedNodeDegree(tgt) == 3) {
                     // this will become a degree 2 vertex
                     // so we run the degree 2 contraction
                     EdgeID reverse = graph->getReverseEdge(n, 0);
-- 
2.43.0


From 4273f64427155c36aa032bd956e335614602e7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:45 +0000
Subject: [PATCH 30/53] fix: heavy triangles are contracted only if that is
 safe when all three vertices are in different blocks

---
 .../multicut/kernelization_criteria.h         | 48 +++++++++++++++----
 1 file changed, 39 insertions(+), 9 deletions(-)

diff --git a/lib/algorithms/multicut/kernelization_criteria.h b/lib/algorithms/multicut/kernelization_criteria.h
index 659a61b..4c69e94 100644
--- a/lib/algorithms/multicut/kernelization_criteria.h
+++ b/lib/algorithms/multicut/kernelization_criteria.h
@@ -308,6 +308,18 @@ class kernelization_criteria {
 
         std::vector<EdgeID> marked(problem->graph->n(), UNDEFINED_EDGE);
         std::vector<bool> done(problem->graph->n(), false);
+        std::vector<bool> contracted(problem->graph->n(), false);
+
+        // If u, v and the third vertex of the triangle lie in three different
+        // blocks, joining u and v in one of these blocks must not cost more
+        auto joinSeparated = [](EdgeWeight deg_u, EdgeWeight deg_v,
+                                EdgeWeight w_uv, EdgeWeight w_u3,
+                                EdgeWeight w_v3) {
+                                 return deg_u <= 2 * w_uv + w_u3
+                                        || deg_v <= 2 * w_uv + w_v3
+                                        || deg_u + deg_v <=
+                                        3 * w_uv + 2 * w_u3 + 2 * w_v3;
+                             };
 
         for (NodeID v1 : graph->nodes()) {
             NodeID in = graph->containedVertices(v1)[0];
@@ -364,24 +376,42 @@ class kernelization_criteria {
                                     bool heavy_v1 =
                                         ((weight_v1 <=
                                           (weight_e1 + weight_e3) * 2)
-                                         && (uf.Find(v1) == v1));
+                                         && !contracted[v1]);
                                     bool heavy_v2 =
                                         ((weight_v2 <=
                                           (weight_e1 + weight_e2) * 2)
-                                         && (uf.Find(v2) == v2));
+                                         && !contracted[v2]);
                                     bool heavy_v3 =
                                         ((weight_v3 <=
                                           (weight_e2 + weight_e3) * 2)
-                                         && (uf.Find(v3) == v3));
-
-                                    if (heavy_v1 && heavy_v2)
+                                         && !contracted[v3]);
+
+                                    if (heavy_v1 && heavy_v2
+                                        && joinSeparated(
+                                            weight_v1, weight_v2, weight_e1,
+                                            weight_e3, weight_e2)) {
+                                        contracted[v1] = true;
+                                        contracted[v2] = true;
                                         uf.Union(v1, v2);
-
-                                    if (heavy_v1 && heavy_v3)
+                                    }
+
+                                    if (heavy_v1 && heavy_v3
+                                        && joinSeparated(
+                                            weight_v1, weight_v3, weight_e3,
+                                            weight_e1, weight_e2)) {
+                                        contracted[v1] = true;
+                                        contracted[v3] = true;
                                         uf.Union(v1, v3);
-
-                                    if (heavy_v2 && heavy_v3)
+                                    }
+
+                                    if (heavy_v2 && heavy_v3
+                                        && joinSeparated(
+                                            weight_v2, weight_v3, weight_e2,
+                                            weight_e1, weight_e3)) {
+                                        contracted[v2] = true;
+                                        contracted[v3] = true;
                                         uf.Union(v2, v3);
+                                    }
                                 } else {
                                     LOG1 << "Graph corrupted!";
                                     exit(1);
-- 
2.43.0


From b0c74c6b6e1c7200039af116ecf3476c6e943438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:45 +0000
Subject: [PATCH 31/53] fix: reduction by flows starts at non-terminals and
 contracts disjoint source sets only

---
 lib/algorithms/multicut/maximum_flow.h | 33 +++++++++++++++++---------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/lib/algorithms/multicut/maximum_flow.h b/lib/algorithms/multicut/maximum_flow.h
index 17d418c..7e2e383 100644
--- a/lib/algorithms/multicut/maximum_flow.h
+++ b/lib/algorithms/multicut/maximum_flow.h
@@ -114,6 +114,20 @@ class maximum_flow {
             previous.insert(t.position);
         }
 
+        // the source sets of different flows can overlap. Each of them can be
+        // contracted, but not necessarily their union
+        std::vector<bool> contracted(problem->graph->n(), false);
+        auto contractSet = [&](const std::vector<NodeID>& set) {
+                               for (const auto& v : set) {
+                                   if (contracted[v])
+                                       return;
+                               }
+                               for (const auto& v : set) {
+                                   contracted[v] = true;
+                                   uf.Union(v, set[0]);
+                               }
+                           };
+
         for (size_t i = 0; i < configuration::getConfig()->random_flows; ++i) {
             NodeID r = random_functions::nextInt(0, problem->graph->n() - 1);
             EdgeWeight max = problem->graph->getMaxDegree();
@@ -127,6 +141,10 @@ class maximum_flow {
                 r = random_functions::nextInt(0, problem->graph->n() - 1);
             }
 
+            if (previous.count(r) > 0) {
+                continue;
+            }
+
             previous.insert(r);
             std::vector<NodeID> terms;
             for (const auto& t : problem->terminals) {
@@ -145,9 +163,7 @@ class maximum_flow {
                 auto sourceSet = pr.solve_max_flow_min_cut(
                     problem->graph, terms, num_t, true).second;
 
-                for (const auto& s : sourceSet) {
-                    uf.Union(s, r);
-                }
+                contractSet(sourceSet);
             }
         }
 
@@ -158,7 +174,7 @@ class maximum_flow {
             NodeID last = hdv.size() - 1;
             NodeID idx = random_functions::nextInt(last * hd_factor, last);
             NodeID r = hdv[idx];
-            if (uf.Find(r) != r) {
+            if (uf.Find(r) != r || previous.count(r) > 0) {
                 continue;
             }
 
@@ -181,19 +197,14 @@ class maximum_flow {
                 auto sourceSet = pr.solve_max_flow_min_cut(
                     problem->graph, terms, num_t, true).second;
 
-                for (const auto& s : sourceSet) {
-                    uf.Union(s, r);
-                }
+                contractSet(sourceSet);
             }
         }
 
         for (size_t i = 0; i < futures.size(); ++i) {
             auto& t = futures[i];
             const auto& vec = t.get();
-            NodeID head = vec[0];
-            for (const auto& n : vec) {
-                uf.Union(n, head);
-            }
+            contractSet(vec);
         }
 
         return uf;
-- 
2.43.0


From 02718c8d37fea6a5381df4964537081f35d6bf6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:32 +0000
Subject: [PATCH 32/53] fix: the degree check of an extracted core counts edges
 instead of their weights

---
 lib/algorithms/misc/core_decomposition.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/lib/algorithms/misc/core_decomposition.h b/lib/algorithms/misc/core_decomposition.h
index 2bb0e7f..96088bc 100644
--- a/lib/algorithms/misc/core_decomposition.h
+++ b/lib/algorithms/misc/core_decomposition.h
@@ -134,8 +134,15 @@ class core_decomposition {
 
         core_graph->finish_construction();
 
-        if (core_graph->getMinDegree() != min_degree) {
-            LOG1 << "ERROR: Wrong min degree " << core_graph->getMinDegree()
+        // core numbers count edges, no matter how heavy they are
+        size_t core_degree = core_graph->number_of_nodes();
+        for (NodeID n : core_graph->nodes()) {
+            core_degree = std::min<size_t>(
+                core_degree, core_graph->getUnweightedNodeDegree(n));
+        }
+
+        if (core_degree != min_degree) {
+            LOG1 << "ERROR: Wrong min degree " << core_degree
                  << " instead of " << min_degree;
             exit(1);
         }
-- 
2.43.0


From 427154eec6bab5e833c3a38eef0028c7cc16da4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:32 +0000
Subject: [PATCH 33/53] fix: component sizes of an earlier call are not
 reported again

---
 lib/algorithms/misc/strongly_connected_components.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/algorithms/misc/strongly_connected_components.h b/lib/algorithms/misc/strongly_connected_components.h
index 39d7096..ba3b3b1 100644
--- a/lib/algorithms/misc/strongly_connected_components.h
+++ b/lib/algorithms/misc/strongly_connected_components.h
@@ -37,6 +37,7 @@ class strongly_connected_components {
         m_dfscount = 0;
         m_comp_count = 0;
         m_fpid = fpid;
+        m_blocksizes.clear();
 
         for (NodeID node : G->nodes()) {
             m_comp_num[node] = -1;
-- 
2.43.0


From 44d2122db6c5858b4f649901d2632758bc67e2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:32 +0000
Subject: [PATCH 34/53] fix: a terminal at the kept end of a bridge passes the
 sanity check on either side

---
 lib/algorithms/misc/find_bridges.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/algorithms/misc/find_bridges.h b/lib/algorithms/misc/find_bridges.h
index 7fed5e9..8b3154d 100644
--- a/lib/algorithms/misc/find_bridges.h
+++ b/lib/algorithms/misc/find_bridges.h
@@ -97,7 +97,7 @@ class find_bridges {
                 }
 
                 for (auto term : terminals) {
-                    if (contracted[term.position] && term.position != n) {
+                    if (contracted[term.position] && term.position != ctr_n) {
                         // this can only happen if bridge detection detects
                         // a bridge that is not actually one.
                         for (auto term : terminals) {
-- 
2.43.0


From 70fbd7fd76ba5dcc3f68899ef455ce930c19f274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:32 +0000
Subject: [PATCH 35/53] fix: two threads that add a problem at the same time do
 not overwrite each other in the send slot

---
 .../problem_queues/per_thread_problem_queue.h | 29 +++++--------------
 1 file changed, 7 insertions(+), 22 deletions(-)

diff --git a/lib/algorithms/multicut/problem_queues/per_thread_problem_queue.h b/lib/algorithms/multicut/problem_queues/per_thread_problem_queue.h
index 617657e..6a805cf 100644
--- a/lib/algorithms/multicut/problem_queues/per_thread_problem_queue.h
+++ b/lib/algorithms/multicut/problem_queues/per_thread_problem_queue.h
@@ -159,39 +159,24 @@ class per_thread_problem_queue {
             min_index = local_id;
         }
 
-        pop_mutex[min_index].lock();
+        std::lock_guard<std::mutex> pop_lock(pop_mutex[min_index]);
+        // another thread might fill or empty the send slot at the same time
+        std::lock_guard<std::mutex> send_lock(send_problem_mutex);
 
         if (!haveSendProblem) {
-            send_problem_mutex.lock();
-
             sendProblem = p;
             sendProblemWeight = sendProblem->lower_bound;
             haveSendProblem = true;
-            pop_mutex[min_index].unlock();
-            send_problem_mutex.unlock();
             return local_id;
         }
 
-        sizes[min_index].first += 1;
-
-        bool movedProblem = false;
         if (sendProblemWeight > p->lower_bound) {
-            send_problem_mutex.lock();
-            if (haveSendProblem) {
-                problemPointer mcp = sendProblem;
-                pq[min_index].push(mcp);
-                sendProblem = p;
-                sendProblemWeight = sendProblem->lower_bound;
-                movedProblem = true;
-                send_problem_mutex.unlock();
-            }
-            send_problem_mutex.unlock();
+            std::swap(sendProblem, p);
+            sendProblemWeight = sendProblem->lower_bound;
         }
 
-        if (!movedProblem) {
-            pq[min_index].push(p);
-        }
-        pop_mutex[min_index].unlock();
+        pq[min_index].push(p);
+        sizes[min_index].first += 1;
         return min_index;
     }
 
-- 
2.43.0


From a64a122ae2633c32f3b39236ffab5bff5002f437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:29 +0000
Subject: [PATCH 36/53] fix: the weight of a discarded self-loop is not read as
 a neighbor

---
 lib/io/graph_io.h | 767 +++++++++++++++++++++++-----------------------
 1 file changed, 384 insertions(+), 383 deletions(-)

diff --git a/lib/io/graph_io.h b/lib/io/graph_io.h
index a156fee..81a7c40 100644
--- a/lib/io/graph_io.h
+++ b/lib/io/graph_io.h
@@ -1,383 +1,384 @@
-/******************************************************************************
- * graph_io.h
- *
- * Source of VieCut.
- *
- * Adapted from KaHIP.
- *
- ******************************************************************************
- * Copyright (C) 2013-2015 Christian Schulz <christian.schulz@univie.ac.at>
- * Copyright (C) 2017-2020 Alexander Noe <alexander.noe@univie.ac.at>
- *
- * Published under the MIT license in the LICENSE file.
- *****************************************************************************/
-
-#pragma once
-
-#include <stdio.h>
-#include <stdlib.h>
-
-#include <algorithm>
-#include <fstream>
-#include <iostream>
-#include <limits>
-#include <memory>
-#include <ostream>
-#include <string>
-#include <tuple>
-#include <utility>
-#include <vector>
-
-#include "common/definitions.h"
-#include "data_structure/flow_graph.h"
-#include "data_structure/graph_access.h"
-#include "tools/string.h"
-
-class graph_io {
- public:
-    graph_io() { }
-
-    virtual ~graph_io() { }
-
-    static std::pair<
-        NodeID, std::vector<std::tuple<NodeID, NodeID, int64_t, uint64_t> > >
-    readDimacs(std::string file) {
-        std::vector<std::tuple<NodeID, NodeID, int64_t, uint64_t> > edges;
-        std::string line;
-        std::ifstream instream(file.c_str());
-        std::getline(instream, line);
-        size_t line_ptr = 2;
-        NodeID numV = fast_atoi(line, &line_ptr);
-
-        uint64_t counter = 1;
-        while (std::getline(instream, line)) {
-            line_ptr = 2;
-            NodeID source = fast_atoi(line, &line_ptr) - 1;
-            NodeID target = fast_atoi(line, &line_ptr) - 1;
-            if (target > source) {
-                edges.emplace_back(source, target, 1, counter++);
-            }
-
-            if (instream.eof()) {
-                break;
-            }
-        }
-        return std::make_pair(numV, edges);
-    }
-
-    static std::pair<
-        NodeID, std::vector<std::tuple<NodeID, NodeID, int64_t, uint64_t> > >
-    readTemporalGraph(std::string file) {
-        std::vector<std::tuple<NodeID, NodeID, int64_t, uint64_t> > edges;
-        std::string line;
-        std::ifstream instream(file.c_str());
-        NodeID numVtxs = 0;
-
-        while (std::getline(instream, line)) {
-            if (line[0] == 'p') {
-                return readDimacs(file);
-            }
-            if (line[0] == '%') {     // a comment in the file
-                continue;
-            }
-
-            size_t line_ptr = 0;
-
-            // remove leading whitespaces
-            while (line[line_ptr] == ' ')
-                ++line_ptr;
-
-            NodeID source = fast_atoi(line, &line_ptr) - 1;
-            NodeID target = fast_atoi(line, &line_ptr) - 1;
-            int64_t wgt;
-            uint64_t timestamp;
-
-            // remove additional whitespaces inbetween
-            while (line[line_ptr] == ' ' || line[line_ptr] == '\t')
-                ++line_ptr;
-
-            if (line[line_ptr] == '+' || line[line_ptr] == '-') {
-                bool isNegative = line[line_ptr] == '-';
-                line_ptr++;
-                wgt = fast_atoi(line, &line_ptr);
-                if (isNegative) {
-                    wgt = (-1) * wgt;
-                }
-                timestamp = fast_atoi(line, &line_ptr);
-            } else {
-                wgt = 1;
-                timestamp = fast_atoi(line, &line_ptr);
-                if (line_ptr < line.size()) {
-                    wgt = timestamp;
-                    timestamp = fast_atoi(line, &line_ptr);
-                }
-            }
-
-            edges.emplace_back(source, target, wgt, timestamp);
-
-            NodeID largerVtx = std::max(source, target);
-            if (largerVtx >= numVtxs) {
-                numVtxs = largerVtx + 1;
-            }
-
-            if (instream.eof()) {
-                break;
-            }
-        }
-
-        std::sort(edges.begin(), edges.end(),
-                  [](const auto& e1, const auto& e2) {
-                      return std::get<3>(e1) < std::get<3>(e2);
-                  });
-
-        return std::pair(numVtxs, edges);
-    }
-
-    template <class Graph = graph_access>
-    static std::shared_ptr<Graph> readGraphWeighted(std::string file) {
-        std::shared_ptr<Graph> G = std::make_shared<Graph>();
-        std::string line;
-        // open file for reading
-        std::ifstream instream(file.c_str());
-        if (!instream) {
-            std::cerr << "Error opening " << file << std::endl;
-            exit(2);
-        }
-
-        uint64_t nmbNodes;
-        uint64_t nmbEdges;
-
-        std::getline(instream, line);
-        // skip comments
-        while (line[0] == '%') {
-            std::getline(instream, line);
-        }
-
-        int ew = 0;
-        std::stringstream ss(line);
-        ss >> nmbNodes;
-        ss >> nmbEdges;
-        ss >> ew;
-
-        bool read_ew = false;
-
-        if (ew == 1) {
-            read_ew = true;
-        } else if (ew == 11) {
-            read_ew = true;
-        }
-        nmbEdges *= 2;  // since we have forward and backward edges
-
-        NodeID node_counter = 0;
-        EdgeID edge_counter = 0;
-
-        G->start_construction(nmbNodes, nmbEdges);
-
-        while (std::getline(instream, line)) {
-            if (line[0] == '%') {     // a comment in the file
-                continue;
-            }
-
-            NodeID node = G->new_node();
-            node_counter++;
-            G->setPartitionIndex(node, 0);
-
-            size_t line_ptr = 0;
-
-            // remove leading whitespaces
-            while (line[line_ptr] == ' ')
-                ++line_ptr;
-
-            while (line_ptr < line.size()) {
-                NodeID target = fast_atoi(line, &line_ptr);
-                if (!target) break;
-                // check for self-loops
-                if (target - 1 == node) {
-                    LOG0 << "The graph file contains self-loops. "
-                         << "This is not supported. "
-                         << "Please remove them from the file.";
-                    continue;
-                }
-
-                EdgeWeight edge_weight = 1;
-                if (read_ew) {
-                    edge_weight = fast_atoi(line, &line_ptr);
-                }
-                edge_counter++;
-                G->new_edge(node, target - 1, edge_weight);
-            }
-
-            if (instream.eof()) {
-                break;
-            }
-        }
-
-        if (edge_counter != (EdgeID)nmbEdges) {
-            std::cerr << "number of specified edges mismatch" << std::endl;
-            std::cerr << edge_counter << " " << nmbEdges << std::endl;
-            // As we discard self-loops, this might happen. Thus, no exiting!
-            // Node counter not matching is however probably a problem with G.
-        }
-
-        if (node_counter != (NodeID)nmbNodes) {
-            std::cerr << "number of specified nodes mismatch" << std::endl;
-            std::cerr << node_counter << " " << nmbNodes << std::endl;
-            exit(4);
-        }
-
-        G->finish_construction();
-        G->computeDegrees();
-        return G;
-    }
-
-    static int writeGraphWeighted(mutableGraphPtr G, std::string filename) {
-        return writeGraphWeighted(G->to_graph_access(), filename);
-    }
-
-    static int writeGraphWeighted(graphAccessPtr G, std::string filename) {
-        std::ofstream f(filename.c_str());
-        f << G->number_of_nodes() << " "
-          << G->number_of_edges() / 2 << " 1" << std::endl;
-
-        for (NodeID node : G->nodes()) {
-            for (EdgeID e : G->edges_of(node)) {
-                f << (G->getEdgeTarget(e) + 1) << " "
-                  << G->getEdgeWeight(e) << " ";
-            }
-            f << std::endl;
-        }
-
-        f.close();
-        return 0;
-    }
-
-    static
-    int writeGraph(graphAccessPtr G, std::string filename) {
-        std::ofstream f(filename.c_str());
-        f << G->number_of_nodes() << " "
-          << G->number_of_edges() / 2 << " 0" << std::endl;
-
-        for (NodeID node : G->nodes()) {
-            for (EdgeID e : G->edges_of(node)) {
-                f << (G->getEdgeTarget(e) + 1) << " ";
-            }
-            f << std::endl;
-        }
-
-        f.close();
-        return 0;
-    }
-
-    static
-    int writeGraphDimacsKS(graphAccessPtr G,
-                           std::string filename,
-                           std::string format = "FORMAT") {
-        std::ofstream f(filename.c_str());
-        f << "p " << format << " " << G->number_of_nodes() << " "
-          << G->number_of_edges() / 2 << std::endl;
-
-        for (NodeID node : G->nodes()) {
-            for (EdgeID e : G->edges_of(node)) {
-                if (G->getEdgeTarget(e) > node) {
-                    f << "a " << node + 1 << " " << G->getEdgeTarget(e) + 1
-                      << " " << G->getEdgeWeight(e) << std::endl;
-                }
-            }
-        }
-
-        f.close();
-        return 0;
-    }
-
-    static void writeCut(graphAccessPtr G,
-                         std::string filename) {
-        std::ofstream f(filename.c_str());
-        LOG1 << "writing partition to " << filename << " ... ";
-
-        for (NodeID node : G->nodes()) {
-            f << G->getNodeInCut(node) << std::endl;
-        }
-
-        f.close();
-    }
-
-    static void writeCut(mutableGraphPtr G,
-                         std::string filename) {
-        std::ofstream f(filename.c_str());
-        LOG1 << "writing partition to " << filename << " ... ";
-
-        for (NodeID node : G->nodes()) {
-            f << G->getNodeInCut(node) << std::endl;
-        }
-
-        f.close();
-    }
-
-    static std::shared_ptr<flow_graph> createFlowGraph(
-        graphAccessPtr G) {
-        std::shared_ptr<flow_graph> fg = std::make_shared<flow_graph>();
-        fg->start_construction(G->number_of_nodes());
-
-        for (NodeID n : G->nodes()) {
-            for (EdgeID e : G->edges_of(n)) {
-                NodeID tgt = G->getEdgeTarget(e);
-                fg->new_edge(n, tgt, G->getEdgeWeight(e));
-            }
-        }
-
-        fg->finish_construction();
-
-        VIECUT_ASSERT_EQ(fg->number_of_nodes(), G->number_of_nodes());
-        VIECUT_ASSERT_EQ(fg->number_of_edges(), 2 * G->number_of_edges());
-
-        return fg;
-    }
-
-    template <typename vectortype>
-    static std::vector<vectortype> readVector(std::string filename) {
-        std::vector<vectortype> vec;
-        std::string line;
-        // open file for reading
-        std::ifstream instream(filename.c_str());
-        if (!instream) {
-            std::cerr << "Error opening vectorfile" << filename << std::endl;
-            exit(5);
-        }
-
-        std::getline(instream, line);
-        while (!instream.eof()) {
-            if (line[0] == '%') {         // Comment
-                continue;
-            }
-
-            vectortype value = (vectortype)atof(line.c_str());
-            vec.emplace_back(value);
-            std::getline(instream, line);
-        }
-
-        instream.close();
-        return vec;
-    }
-
-    template <typename vectortype>
-    void writeVector(const std::vector<vectortype>& vec, std::string filename) {
-        std::ofstream f(filename.c_str());
-        for (unsigned i = 0; i < vec.size(); ++i) {
-            f << vec[i] << std::endl;
-        }
-        f.close();
-    }
-
- private:
-// orig. from http://tinodidriksen.com/uploads/code/cpp/speed-string-to-int.cpp
-    static uint64_t fast_atoi(const std::string& str, size_t* line_ptr) {
-        uint64_t x = 0;
-
-        while (str[*line_ptr] >= '0' && str[*line_ptr] <= '9') {
-            x = (x * 10) + (str[*line_ptr] - '0');
-            ++(*line_ptr);
-        }
-        ++(*line_ptr);
-        return x;
-    }
-};
+/******************************************************************************
+ * graph_io.h
+ *
+ * Source of VieCut.
+ *
+ * Adapted from KaHIP.
+ *
+ ******************************************************************************
+ * Copyright (C) 2013-2015 Christian Schulz <christian.schulz@univie.ac.at>
+ * Copyright (C) 2017-2020 Alexander Noe <alexander.noe@univie.ac.at>
+ *
+ * Published under the MIT license in the LICENSE file.
+ *****************************************************************************/
+
+#pragma once
+
+#include <stdio.h>
+#include <stdlib.h>
+
+#include <algorithm>
+#include <fstream>
+#include <iostream>
+#include <limits>
+#include <memory>
+#include <ostream>
+#include <string>
+#include <tuple>
+#include <utility>
+#include <vector>
+
+#include "common/definitions.h"
+#include "data_structure/flow_graph.h"
+#include "data_structure/graph_access.h"
+#include "tools/string.h"
+
+class graph_io {
+ public:
+    graph_io() { }
+
+    virtual ~graph_io() { }
+
+    static std::pair<
+        NodeID, std::vector<std::tuple<NodeID, NodeID, int64_t, uint64_t> > >
+    readDimacs(std::string file) {
+        std::vector<std::tuple<NodeID, NodeID, int64_t, uint64_t> > edges;
+        std::string line;
+        std::ifstream instream(file.c_str());
+        std::getline(instream, line);
+        size_t line_ptr = 2;
+        NodeID numV = fast_atoi(line, &line_ptr);
+
+        uint64_t counter = 1;
+        while (std::getline(instream, line)) {
+            line_ptr = 2;
+            NodeID source = fast_atoi(line, &line_ptr) - 1;
+            NodeID target = fast_atoi(line, &line_ptr) - 1;
+            if (target > source) {
+                edges.emplace_back(source, target, 1, counter++);
+            }
+
+            if (instream.eof()) {
+                break;
+            }
+        }
+        return std::make_pair(numV, edges);
+    }
+
+    static std::pair<
+        NodeID, std::vector<std::tuple<NodeID, NodeID, int64_t, uint64_t> > >
+    readTemporalGraph(std::string file) {
+        std::vector<std::tuple<NodeID, NodeID, int64_t, uint64_t> > edges;
+        std::string line;
+        std::ifstream instream(file.c_str());
+        NodeID numVtxs = 0;
+
+        while (std::getline(instream, line)) {
+            if (line[0] == 'p') {
+                return readDimacs(file);
+            }
+            if (line[0] == '%') {     // a comment in the file
+                continue;
+            }
+
+            size_t line_ptr = 0;
+
+            // remove leading whitespaces
+            while (line[line_ptr] == ' ')
+                ++line_ptr;
+
+            NodeID source = fast_atoi(line, &line_ptr) - 1;
+            NodeID target = fast_atoi(line, &line_ptr) - 1;
+            int64_t wgt;
+            uint64_t timestamp;
+
+            // remove additional whitespaces inbetween
+            while (line[line_ptr] == ' ' || line[line_ptr] == '\t')
+                ++line_ptr;
+
+            if (line[line_ptr] == '+' || line[line_ptr] == '-') {
+                bool isNegative = line[line_ptr] == '-';
+                line_ptr++;
+                wgt = fast_atoi(line, &line_ptr);
+                if (isNegative) {
+                    wgt = (-1) * wgt;
+                }
+                timestamp = fast_atoi(line, &line_ptr);
+            } else {
+                wgt = 1;
+                timestamp = fast_atoi(line, &line_ptr);
+                if (line_ptr < line.size()) {
+                    wgt = timestamp;
+                    timestamp = fast_atoi(line, &line_ptr);
+                }
+            }
+
+            edges.emplace_back(source, target, wgt, timestamp);
+
+            NodeID largerVtx = std::max(source, target);
+            if (largerVtx >= numVtxs) {
+                numVtxs = largerVtx + 1;
+            }
+
+            if (instream.eof()) {
+                break;
+            }
+        }
+
+        std::sort(edges.begin(), edges.end(),
+                  [](const auto& e1, const auto& e2) {
+                      return std::get<3>(e1) < std::get<3>(e2);
+                  });
+
+        return std::pair(numVtxs, edges);
+    }
+
+    template <class Graph = graph_access>
+    static std::shared_ptr<Graph> readGraphWeighted(std::string file) {
+        std::shared_ptr<Graph> G = std::make_shared<Graph>();
+        std::string line;
+        // open file for reading
+        std::ifstream instream(file.c_str());
+        if (!instream) {
+            std::cerr << "Error opening " << file << std::endl;
+            exit(2);
+        }
+
+        uint64_t nmbNodes;
+        uint64_t nmbEdges;
+
+        std::getline(instream, line);
+        // skip comments
+        while (line[0] == '%') {
+            std::getline(instream, line);
+        }
+
+        int ew = 0;
+        std::stringstream ss(line);
+        ss >> nmbNodes;
+        ss >> nmbEdges;
+        ss >> ew;
+
+        bool read_ew = false;
+
+        if (ew == 1) {
+            read_ew = true;
+        } else if (ew == 11) {
+            read_ew = true;
+        }
+        nmbEdges *= 2;  // since we have forward and backward edges
+
+        NodeID node_counter = 0;
+        EdgeID edge_counter = 0;
+
+        G->start_construction(nmbNodes, nmbEdges);
+
+        while (std::getline(instream, line)) {
+            if (line[0] == '%') {     // a comment in the file
+                continue;
+            }
+
+            NodeID node = G->new_node();
+            node_counter++;
+            G->setPartitionIndex(node, 0);
+
+            size_t line_ptr = 0;
+
+            // remove leading whitespaces
+            while (line[line_ptr] == ' ')
+                ++line_ptr;
+
+            while (line_ptr < line.size()) {
+                NodeID target = fast_atoi(line, &line_ptr);
+                if (!target) break;
+
+                EdgeWeight edge_weight = 1;
+                if (read_ew) {
+                    edge_weight = fast_atoi(line, &line_ptr);
+                }
+
+                // check for self-loops
+                if (target - 1 == node) {
+                    LOG0 << "The graph file contains self-loops. "
+                         << "This is not supported. "
+                         << "Please remove them from the file.";
+                    continue;
+                }
+                edge_counter++;
+                G->new_edge(node, target - 1, edge_weight);
+            }
+
+            if (instream.eof()) {
+                break;
+            }
+        }
+
+        if (edge_counter != (EdgeID)nmbEdges) {
+            std::cerr << "number of specified edges mismatch" << std::endl;
+            std::cerr << edge_counter << " " << nmbEdges << std::endl;
+            // As we discard self-loops, this might happen. Thus, no exiting!
+            // Node counter not matching is however probably a problem with G.
+        }
+
+        if (node_counter != (NodeID)nmbNodes) {
+            std::cerr << "number of specified nodes mismatch" << std::endl;
+            std::cerr << node_counter << " " << nmbNodes << std::endl;
+            exit(4);
+        }
+
+        G->finish_construction();
+        G->computeDegrees();
+        return G;
+    }
+
+    static int writeGraphWeighted(mutableGraphPtr G, std::string filename) {
+        return writeGraphWeighted(G->to_graph_access(), filename);
+    }
+
+    static int writeGraphWeighted(graphAccessPtr G, std::string filename) {
+        std::ofstream f(filename.c_str());
+        f << G->number_of_nodes() << " "
+          << G->number_of_edges() / 2 << " 1" << std::endl;
+
+        for (NodeID node : G->nodes()) {
+            for (EdgeID e : G->edges_of(node)) {
+                f << (G->getEdgeTarget(e) + 1) << " "
+                  << G->getEdgeWeight(e) << " ";
+            }
+            f << std::endl;
+        }
+
+        f.close();
+        return 0;
+    }
+
+    static
+    int writeGraph(graphAccessPtr G, std::string filename) {
+        std::ofstream f(filename.c_str());
+        f << G->number_of_nodes() << " "
+          << G->number_of_edges() / 2 << " 0" << std::endl;
+
+        for (NodeID node : G->nodes()) {
+            for (EdgeID e : G->edges_of(node)) {
+                f << (G->getEdgeTarget(e) + 1) << " ";
+            }
+            f << std::endl;
+        }
+
+        f.close();
+        return 0;
+    }
+
+    static
+    int writeGraphDimacsKS(graphAccessPtr G,
+                           std::string filename,
+                           std::string format = "FORMAT") {
+        std::ofstream f(filename.c_str());
+        f << "p " << format << " " << G->number_of_nodes() << " "
+          << G->number_of_edges() / 2 << std::endl;
+
+        for (NodeID node : G->nodes()) {
+            for (EdgeID e : G->edges_of(node)) {
+                if (G->getEdgeTarget(e) > node) {
+                    f << "a " << node + 1 << " " << G->getEdgeTarget(e) + 1
+                      << " " << G->getEdgeWeight(e) << std::endl;
+                }
+            }
+        }
+
+        f.close();
+        return 0;
+    }
+
+    static void writeCut(graphAccessPtr G,
+                         std::string filename) {
+        std::ofstream f(filename.c_str());
+        LOG1 << "writing partition to " << filename << " ... ";
+
+        for (NodeID node : G->nodes()) {
+            f << G->getNodeInCut(node) << std::endl;
+        }
+
+        f.close();
+    }
+
+    static void writeCut(mutableGraphPtr G,
+                         std::string filename) {
+        std::ofstream f(filename.c_str());
+        LOG1 << "writing partition to " << filename << " ... ";
+
+        for (NodeID node : G->nodes()) {
+            f << G->getNodeInCut(node) << std::endl;
+        }
+
+        f.close();
+    }
+
+    static std::shared_ptr<flow_graph> createFlowGraph(
+        graphAccessPtr G) {
+        std::shared_ptr<flow_graph> fg = std::make_shared<flow_graph>();
+        fg->start_construction(G->number_of_nodes());
+
+        for (NodeID n : G->nodes()) {
+            for (EdgeID e : G->edges_of(n)) {
+                NodeID tgt = G->getEdgeTarget(e);
+                fg->new_edge(n, tgt, G->getEdgeWeight(e));
+            }
+        }
+
+        fg->finish_construction();
+
+        VIECUT_ASSERT_EQ(fg->number_of_nodes(), G->number_of_nodes());
+        VIECUT_ASSERT_EQ(fg->number_of_edges(), 2 * G->number_of_edges());
+
+        return fg;
+    }
+
+    template <typename vectortype>
+    static std::vector<vectortype> readVector(std::string filename) {
+        std::vector<vectortype> vec;
+        std::string line;
+        // open file for reading
+        std::ifstream instream(filename.c_str());
+        if (!instream) {
+            std::cerr << "Error opening vectorfile" << filename << std::endl;
+            exit(5);
+        }
+
+        std::getline(instream, line);
+        while (!instream.eof()) {
+            if (line[0] == '%') {         // Comment
+                continue;
+            }
+
+            vectortype value = (vectortype)atof(line.c_str());
+            vec.emplace_back(value);
+            std::getline(instream, line);
+        }
+
+        instream.close();
+        return vec;
+    }
+
+    template <typename vectortype>
+    void writeVector(const std::vector<vectortype>& vec, std::string filename) {
+        std::ofstream f(filename.c_str());
+        for (unsigned i = 0; i < vec.size(); ++i) {
+            f << vec[i] << std::endl;
+        }
+        f.close();
+    }
+
+ private:
+// orig. from http://tinodidriksen.com/uploads/code/cpp/speed-string-to-int.cpp
+    static uint64_t fast_atoi(const std::string& str, size_t* line_ptr) {
+        uint64_t x = 0;
+
+        while (str[*line_ptr] >= '0' && str[*line_ptr] <= '9') {
+            x = (x * 10) + (str[*line_ptr] - '0');
+            ++(*line_ptr);
+        }
+        ++(*line_ptr);
+        return x;
+    }
+};
-- 
2.43.0


From b564c0d4fb2ad02540cebe6f109b33a5c3fb3dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:29 +0000
Subject: [PATCH 37/53] fix: vertex weights in a graph file are not read as
 neighbors

---
 lib/io/graph_io.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lib/io/graph_io.h b/lib/io/graph_io.h
index 81a7c40..64ba186 100644
--- a/lib/io/graph_io.h
+++ b/lib/io/graph_io.h
@@ -160,11 +160,15 @@ class graph_io {
         ss >> ew;
 
         bool read_ew = false;
+        bool skip_nw = false;
 
         if (ew == 1) {
             read_ew = true;
         } else if (ew == 11) {
             read_ew = true;
+            skip_nw = true;
+        } else if (ew == 10) {
+            skip_nw = true;
         }
         nmbEdges *= 2;  // since we have forward and backward edges
 
@@ -188,6 +192,11 @@ class graph_io {
             while (line[line_ptr] == ' ')
                 ++line_ptr;
 
+            // vertex weights are not used
+            if (skip_nw) {
+                fast_atoi(line, &line_ptr);
+            }
+
             while (line_ptr < line.size()) {
                 NodeID target = fast_atoi(line, &line_ptr);
                 if (!target) break;
-- 
2.43.0


From 462ff03f6200b8921f973ec5609b1536522e85af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:29 +0000
Subject: [PATCH 38/53] fix: numbers in graph files may be separated by several
 blanks

---
 lib/io/graph_io.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/io/graph_io.h b/lib/io/graph_io.h
index 64ba186..3126f76 100644
--- a/lib/io/graph_io.h
+++ b/lib/io/graph_io.h
@@ -107,6 +107,9 @@ class graph_io {
             } else {
                 wgt = 1;
                 timestamp = fast_atoi(line, &line_ptr);
+                while (line_ptr < line.size() &&
+                       (line[line_ptr] == ' ' || line[line_ptr] == '\t'))
+                    ++line_ptr;
                 if (line_ptr < line.size()) {
                     wgt = timestamp;
                     timestamp = fast_atoi(line, &line_ptr);
@@ -383,6 +386,10 @@ class graph_io {
     static uint64_t fast_atoi(const std::string& str, size_t* line_ptr) {
         uint64_t x = 0;
 
+        // numbers might be separated by more than one blank
+        while (str[*line_ptr] == ' ' || str[*line_ptr] == '\t')
+            ++(*line_ptr);
+
         while (str[*line_ptr] >= '0' && str[*line_ptr] <= '9') {
             x = (x * 10) + (str[*line_ptr] - '0');
             ++(*line_ptr);
-- 
2.43.0


From 8fb07fd9b528e4e420db2651875b66898f21f4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:29 +0000
Subject: [PATCH 39/53] fix: vector files may contain comments and end without
 a newline

---
 lib/io/graph_io.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lib/io/graph_io.h b/lib/io/graph_io.h
index 3126f76..63b817a 100644
--- a/lib/io/graph_io.h
+++ b/lib/io/graph_io.h
@@ -357,15 +357,13 @@ class graph_io {
             exit(5);
         }
 
-        std::getline(instream, line);
-        while (!instream.eof()) {
+        while (std::getline(instream, line)) {
             if (line[0] == '%') {         // Comment
                 continue;
             }
 
             vectortype value = (vectortype)atof(line.c_str());
             vec.emplace_back(value);
-            std::getline(instream, line);
         }
 
         instream.close();
-- 
2.43.0


From c2ea3a373a19ded8801cbb9dc9b6ed496d5d50d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:29 +0000
Subject: [PATCH 40/53] fix: updates of the same time keep the order of the
 temporal graph file

---
 lib/io/graph_io.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lib/io/graph_io.h b/lib/io/graph_io.h
index 63b817a..1cc0d5f 100644
--- a/lib/io/graph_io.h
+++ b/lib/io/graph_io.h
@@ -128,10 +128,11 @@ class graph_io {
             }
         }
 
-        std::sort(edges.begin(), edges.end(),
-                  [](const auto& e1, const auto& e2) {
-                      return std::get<3>(e1) < std::get<3>(e2);
-                  });
+        // updates of the same time are applied in the order of the file
+        std::stable_sort(edges.begin(), edges.end(),
+                         [](const auto& e1, const auto& e2) {
+                             return std::get<3>(e1) < std::get<3>(e2);
+                         });
 
         return std::pair(numVtxs, edges);
     }
-- 
2.43.0


From 000659f7900fe4cfd822a1083a67b9cdca8dc77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:15 +0000
Subject: [PATCH 41/53] fix: random matching handles isolated vertices and
 keeps unmatched vertices single

---
 lib/coarsening/sparsify.h          | 16 ++++++++--------
 lib/parallel/coarsening/sparsify.h | 16 ++++++++--------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/lib/coarsening/sparsify.h b/lib/coarsening/sparsify.h
index ca6af7f..23d6612 100644
--- a/lib/coarsening/sparsify.h
+++ b/lib/coarsening/sparsify.h
@@ -54,17 +54,17 @@ class sparsify {
 
         const size_t MAX_TRIES = 50;
         size_t no_of_coarse_vertices = 0;
-        std::vector<NodeID> edge_matching(G_in->number_of_nodes());
-
-        for (NodeID n : G_in->nodes()) {
-            edge_matching[n] = n;
-        }
+        // UNDEFINED_NODE: not yet processed, own id: remains single
+        std::vector<NodeID> edge_matching(
+            G_in->number_of_nodes(), UNDEFINED_NODE);
 
         std::vector<NodeID> coarse_mapping(G_in->number_of_nodes());
 
         for (NodeID n : G_in->nodes()) {
-            if (edge_matching[n] == n) {
-                size_t no_try = 0;
+            if (edge_matching[n] == UNDEFINED_NODE) {
+                // vertices without neighbors remain single
+                size_t no_try =
+                    G_in->getUnweightedNodeDegree(n) ? 0 : MAX_TRIES;
                 NodeID matchingPartner = n;
                 while (no_try < MAX_TRIES) {
                     // match with a random neighbor
@@ -72,7 +72,7 @@ class sparsify {
                     EdgeID modulo = G_in->getUnweightedNodeDegree(n);
                     EdgeID r = s + (random_functions::next() % modulo);
                     NodeID tgt = G_in->getEdgeTarget(r);
-                    if (edge_matching[tgt] == tgt) {
+                    if (edge_matching[tgt] == UNDEFINED_NODE) {
                         matchingPartner = tgt;
                         break;
                     }
diff --git a/lib/parallel/coarsening/sparsify.h b/lib/parallel/coarsening/sparsify.h
index 124226c..e226be4 100644
--- a/lib/parallel/coarsening/sparsify.h
+++ b/lib/parallel/coarsening/sparsify.h
@@ -285,17 +285,17 @@ class sparsify {
         graphAccessPtr G_out = std::make_shared<graph_access>();
         const size_t MAX_TRIES = 50;
         size_t no_of_coarse_vertices = 0;
-        std::vector<NodeID> edge_matching(G_in->number_of_nodes());
-
-        for (NodeID n : G_in->nodes()) {
-            edge_matching[n] = n;
-        }
+        // UNDEFINED_NODE: not yet processed, own id: remains single
+        std::vector<NodeID> edge_matching(
+            G_in->number_of_nodes(), UNDEFINED_NODE);
 
         std::vector<NodeID> coarse_mapping(G_in->number_of_nodes());
 
         for (NodeID n : G_in->nodes()) {
-            if (edge_matching[n] == n) {
-                size_t no_try = 0;
+            if (edge_matching[n] == UNDEFINED_NODE) {
+                // vertices without neighbors remain single
+                size_t no_try =
+                    G_in->getUnweightedNodeDegree(n) ? 0 : MAX_TRIES;
                 NodeID matchingPartner = n;
                 while (no_try < MAX_TRIES) {
                     // match with a random neighbor
@@ -305,7 +305,7 @@ class sparsify {
 
                     NodeID tgt = G_in->getEdgeTarget(r);
 
-                    if (edge_matching[tgt] == tgt) {
+                    if (edge_matching[tgt] == UNDEFINED_NODE) {
                         matchingPartner = tgt;
                         break;
                     }
-- 
2.43.0


From 12dc37bc7061ed1766046f39562af2870f1fbb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:15 +0000
Subject: [PATCH 42/53] fix: edges keep their weight when heavy vertices are
 removed

---
 lib/coarsening/sparsify.h          | 2 +-
 lib/parallel/coarsening/sparsify.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/coarsening/sparsify.h b/lib/coarsening/sparsify.h
index 23d6612..92a6070 100644
--- a/lib/coarsening/sparsify.h
+++ b/lib/coarsening/sparsify.h
@@ -204,7 +204,7 @@ class sparsify {
                     NodeID target = G_in->getEdgeTarget(e);
                     size_t pretgt = prefixsum[target];
                     if (prefixsum[target] < G_in->number_of_nodes()) {
-                        G_out->new_edge(pre, pretgt);
+                        G_out->new_edge(pre, pretgt, G_in->getEdgeWeight(e));
                         actually_edges++;
                     }
                 }
diff --git a/lib/parallel/coarsening/sparsify.h b/lib/parallel/coarsening/sparsify.h
index e226be4..c92cfa9 100644
--- a/lib/parallel/coarsening/sparsify.h
+++ b/lib/parallel/coarsening/sparsify.h
@@ -446,7 +446,7 @@ class sparsify {
                     NodeID target = G_in->getEdgeTarget(e);
                     size_t pretgt = prefixsum[target];
                     if (prefixsum[target] < G_in->number_of_nodes()) {
-                        G_out->new_edge(pre, pretgt);
+                        G_out->new_edge(pre, pretgt, G_in->getEdgeWeight(e));
                         actually_edges++;
                     }
                 }
-- 
2.43.0


From 79c79a73a3d9be1c589dea5f4a8cc902f48dc9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:15 +0000
Subject: [PATCH 43/53] fix: separate sampling reports how many vertices remain

---
 lib/parallel/coarsening/sparsify.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/parallel/coarsening/sparsify.h b/lib/parallel/coarsening/sparsify.h
index c92cfa9..a5654db 100644
--- a/lib/parallel/coarsening/sparsify.h
+++ b/lib/parallel/coarsening/sparsify.h
@@ -162,6 +162,7 @@ class sparsify {
                     ++my_reduced;
                 }
             }
+            reduced += my_reduced;
 
             LOG1 << tries << " tries in " << t.elapsed()
                  << "s (success in " << my_reduced << ")";
-- 
2.43.0


From 7e16a3746ec4d5c7426793abbb33b9cb0944fd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:15 +0000
Subject: [PATCH 44/53] fix: weighted sampling divides its work among the
 threads that run it and always ends

---
 lib/parallel/coarsening/sparsify.h | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/lib/parallel/coarsening/sparsify.h b/lib/parallel/coarsening/sparsify.h
index a5654db..49c9801 100644
--- a/lib/parallel/coarsening/sparsify.h
+++ b/lib/parallel/coarsening/sparsify.h
@@ -53,9 +53,9 @@ class sparsify {
  public:
     NodeID sample_contractible_weighted(graphAccessPtr G,
                                         union_find* uf) {
-        NodeID n_reduce;
+        NodeID n_reduce = 0;
         timer t;
-        size_t num_threads = omp_get_num_threads();
+        size_t num_threads = 1;
         std::vector<std::vector<EdgeWeight> > prefixsum;
 
         std::vector<EdgeWeight> processor_prefixes;
@@ -63,8 +63,16 @@ class sparsify {
 #pragma omp parallel
         {
             if (!omp_get_thread_num()) {
+                double factor =
+                    configuration::getConfig()->contraction_factor;
+                num_threads = omp_get_num_threads();
                 prefixsum.resize(num_threads);
                 processor_prefixes.resize(num_threads);
+                n_reduce = std::min(static_cast<NodeID>(
+                                        static_cast<double>(
+                                            G->number_of_nodes()) * factor),
+                                    G->number_of_nodes() - 2);
+                n_reduce /= num_threads;
             }
 #pragma omp barrier
 
@@ -98,17 +106,14 @@ class sparsify {
                 prefixsum[m / per_thread][m % per_thread] += my_prefix;
             }
 
-            double factor = configuration::getConfig()->contraction_factor;
-            n_reduce = std::min(static_cast<NodeID>(
-                                    static_cast<double>(G->number_of_nodes())
-                                    * factor),
-                                G->number_of_nodes() - 2);
             size_t contracted = 0;
+            // the edges of this thread might not allow n_reduce contractions
+            size_t tries = my_start < my_end ? 0 : 50 * n_reduce;
             std::mt19937_64 m_mt(configuration::getConfig()->seed);
-            n_reduce /= num_threads;
 
 #pragma omp barrier
-            while (contracted < n_reduce) {
+            while (contracted < n_reduce && tries < 50 * n_reduce) {
+                tries++;
                 auto random = m_mt();
                 EdgeWeight e_rand = (random % processor_prefixes[id])
                                     + my_prefix;
@@ -132,7 +137,7 @@ class sparsify {
             }
         }
 
-        return G->number_of_nodes() - n_reduce * num_threads;
+        return uf->n();
     }
 
     NodeID sample_contractible_separate(graphAccessPtr G,
-- 
2.43.0


From 4af20ff1eabfc2941759c57f3f4744a1f1d95656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:15 +0000
Subject: [PATCH 45/53] fix: a received problem has no arbitrary edge to branch
 on

---
 lib/algorithms/multicut/mpi_communication.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/lib/algorithms/multicut/mpi_communication.h b/lib/algorithms/multicut/mpi_communication.h
index 9af06b0..50329aa 100644
--- a/lib/algorithms/multicut/mpi_communication.h
+++ b/lib/algorithms/multicut/mpi_communication.h
@@ -111,6 +111,7 @@ class mpi_communication {
         problem->lower_bound = data[0];
         problem->upper_bound = data[1];
         problem->deleted_weight = data[2];
+        problem->priority_edge = { UNDEFINED_NODE, UNDEFINED_EDGE };
         size_t num_terminals = data[3];
         size_t next_index = 4;
         for (size_t i = 0; i < num_terminals; ++i) {
@@ -124,16 +125,16 @@ class mpi_communication {
             size_t map_size_i = data[next_index++];
             problem->mappings.emplace_back(
                 std::make_shared<std::vector<NodeID> >());
-            problem->mappings[i]->insert(problem->mappings[i]->end(),
-                                         &data[next_index],
-                                         &data[next_index + map_size_i]);
+            problem->mappings[i]->insert(
+                problem->mappings[i]->end(), data.begin() + next_index,
+                data.begin() + next_index + map_size_i);
             next_index += map_size_i;
         }
 
         size_t serialsize = data[next_index++];
         std::vector<uint64_t> serial;
-        serial.insert(serial.end(), &data[next_index],
-                      &data[next_index + serialsize]);
+        serial.insert(serial.end(), data.begin() + next_index,
+                      data.begin() + next_index + serialsize);
 
         problem->graph = mutable_graph::deserialize(serial);
         LOG << mpi_rank << " returns new problem";
-- 
2.43.0


From 78f36bbaa8304f218065536f4824da79b506ab8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:56 +0000
Subject: [PATCH 46/53] fix: multiterminal cuts of weight 2^32 - 1 and above
 are solutions, too

---
 lib/algorithms/multicut/mpi_communication.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/algorithms/multicut/mpi_communication.h b/lib/algorithms/multicut/mpi_communication.h
index 50329aa..a1f6049 100644
--- a/lib/algorithms/multicut/mpi_communication.h
+++ b/lib/algorithms/multicut/mpi_communication.h
@@ -25,7 +25,7 @@ class mpi_communication {
     static const bool debug = false;
 
     mpi_communication() : bestSolutionLocal(false),
-                          best_solution(UNDEFINED_NODE) {
+                          best_solution(UNDEFINED_FLOW) {
         MPI_Comm_size(MPI_COMM_WORLD, &mpi_size);
         MPI_Comm_rank(MPI_COMM_WORLD, &mpi_rank);
         req.resize(mpi_size);
-- 
2.43.0


From aefe6b46eabfdb11c1179b7db871fd15a92b30dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:57 +0000
Subject: [PATCH 47/53] fix: a worse solution found by another thread does not
 replace a better one

---
 lib/algorithms/multicut/problem_management.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lib/algorithms/multicut/problem_management.h b/lib/algorithms/multicut/problem_management.h
index c856bce..9c2b56e 100644
--- a/lib/algorithms/multicut/problem_management.h
+++ b/lib/algorithms/multicut/problem_management.h
@@ -267,20 +267,22 @@ class problem_management {
         if (prev_gub > beforeLSGUB[numTerminals])
             return std::nullopt;
 
+        bestsol_mutex.lock();
         if (prev_gub < global_upper_bound) {
             global_upper_bound = prev_gub;
             LOG1 << "Improvement after " << t.elapsed()
                  << " to " << prev_gub << " (beforehand)";
-            bestsol_mutex.lock();
             for (size_t i = 0; i < current_solution->size(); ++i) {
                 best_solution[i] = (*current_solution)[i];
             }
             initalizeBestSolution();
-            bestsol_mutex.unlock();
         }
+        bestsol_mutex.unlock();
         FlowType total_improvement = ls.improveSolution(t);
         FlowType ls_bound = prev_gub - total_improvement;
 
+        // the bound and the solution that goes with it change together
+        std::lock_guard<std::mutex> bestsol_lock(bestsol_mutex);
         if (ls_bound <= terminalGUB[numTerminals]) {
             terminalGUB[numTerminals] = ls_bound;
             beforeLSGUB[numTerminals] = prev_gub;
@@ -290,12 +292,10 @@ class problem_management {
             global_upper_bound = ls_bound;
             LOG1 << "Improvement after " << t.elapsed() << " to " << ls_bound;
 
-            bestsol_mutex.lock();
             for (size_t i = 0; i < current_solution->size(); ++i) {
                 best_solution[i] = (*current_solution)[i];
             }
             initalizeBestSolution();
-            bestsol_mutex.unlock();
             return ls_bound;
         }
         return std::nullopt;
@@ -386,6 +386,7 @@ class problem_management {
     }
 
     void updateBound(FlowType newSolution) {
+        std::lock_guard<std::mutex> bestsol_lock(bestsol_mutex);
         global_upper_bound = std::min(newSolution, global_upper_bound);
     }
 
-- 
2.43.0


From cef43d647f866aed14363489e099ee86b127a5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:57 +0000
Subject: [PATCH 48/53] fix: workers do not stop while another one has just
 taken the last problem

---
 lib/algorithms/multicut/branch_multicut.h    | 2 +-
 lib/algorithms/multicut/problem_management.h | 8 ++++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/algorithms/multicut/branch_multicut.h b/lib/algorithms/multicut/branch_multicut.h
index 628639c..43c2d88 100644
--- a/lib/algorithms/multicut/branch_multicut.h
+++ b/lib/algorithms/multicut/branch_multicut.h
@@ -218,7 +218,7 @@ class branch_multicut {
                     im_idle = true;
                 }
 
-                if (pm.allThreadsIdle() && pm.allEmpty()) {
+                if (pm.allThreadsIdleAndEmpty()) {
                     if (mpi_mutex.try_lock()) {
                         auto src = mpic.waitForProblem();
                         if (std::holds_alternative<int>(src)) {
diff --git a/lib/algorithms/multicut/problem_management.h b/lib/algorithms/multicut/problem_management.h
index 9c2b56e..6222ee3 100644
--- a/lib/algorithms/multicut/problem_management.h
+++ b/lib/algorithms/multicut/problem_management.h
@@ -41,6 +41,7 @@ class problem_management {
     per_thread_problem_queue problems;
     maximum_flow mf;
     std::mutex bestsol_mutex;
+    std::mutex idle_mutex;
     size_t num_threads;
     std::vector<std::mutex> q_mutex;
     std::vector<std::condition_variable> q_cv;
@@ -425,6 +426,12 @@ class problem_management {
             });
     }
 
+    // no thread may leave its idle state between the two tests
+    bool allThreadsIdleAndEmpty() {
+        std::lock_guard<std::mutex> idle_lock(idle_mutex);
+        return allThreadsIdle() && allEmpty();
+    }
+
     bool allThreadsIdle() {
         return idle_threads == num_threads;
     }
@@ -434,6 +441,7 @@ class problem_management {
     }
 
     void decrementIdleThreads() {
+        std::lock_guard<std::mutex> idle_lock(idle_mutex);
         --idle_threads;
     }
 
-- 
2.43.0


From 8cfe510d35f064b63a944b65537e1dc686386992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:45 +0000
Subject: [PATCH 49/53] fix: random terminals are distinct

---
 lib/algorithms/multicut/multiterminal_cut.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/lib/algorithms/multicut/multiterminal_cut.h b/lib/algorithms/multicut/multiterminal_cut.h
index 8853ff7..d5979c8 100644
--- a/lib/algorithms/multicut/multiterminal_cut.h
+++ b/lib/algorithms/multicut/multiterminal_cut.h
@@ -314,8 +314,15 @@ class multiterminal_cut {
 
     std::vector<NodeID> randomTerminals(mutableGraphPtr G) {
         std::vector<NodeID> terminals;
-        for (int i = 0; i < configuration::getConfig()->random_k; ++i) {
-            terminals.emplace_back(random_functions::nextInt(0, G->n() - 1));
+        std::vector<bool> chosen(G->n(), false);
+        size_t num = configuration::getConfig()->random_k;
+        num = std::min(num, static_cast<size_t>(G->n()));
+        while (terminals.size() < num) {
+            NodeID t = random_functions::nextInt(0, G->n() - 1);
+            if (chosen[t])
+                continue;
+            chosen[t] = true;
+            terminals.emplace_back(t);
             LOG << "Set random terminal " << terminals.back();
         }
         return terminals;
-- 
2.43.0


From 0d681fbdc3cec93e485e1d84bce1a160d48caee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:45 +0000
Subject: [PATCH 50/53] fix: distant terminals are distinct

---
 lib/algorithms/multicut/multiterminal_cut.h | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/lib/algorithms/multicut/multiterminal_cut.h b/lib/algorithms/multicut/multiterminal_cut.h
index d5979c8..6fb4702 100644
--- a/lib/algorithms/multicut/multiterminal_cut.h
+++ b/lib/algorithms/multicut/multiterminal_cut.h
@@ -332,6 +332,7 @@ class multiterminal_cut {
         std::vector<NodeID> terminals;
         size_t r = random_functions::nextInt(0, G->n() - 1);
         int dt = configuration::getConfig()->distant_terminals;
+        std::vector<bool> chosen(G->n(), false);
         for (int i = 0; i < dt; ++i) {
             std::queue<NodeID> Q;
             std::vector<bool> found(G->n(), false);
@@ -343,9 +344,12 @@ class multiterminal_cut {
                 found[t] = true;
             }
 
+            NodeID last = UNDEFINED_NODE;
             while (!Q.empty()) {
                 NodeID t = Q.front();
                 Q.pop();
+                if (!chosen[t])
+                    last = t;
                 for (EdgeID e : G->edges_of(t)) {
                     NodeID n = G->getEdgeTarget(t, e);
                     if (!found[n]) {
@@ -353,12 +357,19 @@ class multiterminal_cut {
                         found[n] = true;
                     }
                 }
+            }
 
-                if (Q.empty()) {
-                    terminals.emplace_back(t);
-                    break;
-                }
+            // if all vertices in reach are terminals, take one out of reach
+            for (NodeID n = 0; last == UNDEFINED_NODE && n < G->n(); ++n) {
+                if (!chosen[n])
+                    last = n;
             }
+
+            if (last == UNDEFINED_NODE)
+                break;
+
+            chosen[last] = true;
+            terminals.emplace_back(last);
         }
         return terminals;
     }
-- 
2.43.0


From c1d36135f739226116ec89b3145cc770b1db3d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:45 +0000
Subject: [PATCH 51/53] fix: mincut uses the priority queue given with -q

---
 app/mincut.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/mincut.cpp b/app/mincut.cpp
index b8b3034..1051941 100644
--- a/app/mincut.cpp
+++ b/app/mincut.cpp
@@ -50,7 +50,7 @@ int main(int argn, char** argv) {
     cmdl.add_stringlist('p', "proc", procs, "number of processes");
 #endif
     cmdl.add_param_string("algo", cfg->algorithm, "algorithm name");
-    cmdl.add_string('q', "pq", cfg->queue_type,
+    cmdl.add_string('q', "pq", cfg->pq,
                     "name of priority queue implementation");
     cmdl.add_size_t('i', "iter", num_iterations, "number of iterations");
     cmdl.add_bool('l', "disable_limiting", cfg->disable_limiting,
-- 
2.43.0


From 01a3b99138e6a91e397b2fb8256fcf9ffa7a4a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:45 +0000
Subject: [PATCH 52/53] fix: the algorithm ks works with mutable graphs, which
 mincut uses

---
 lib/algorithms/global_mincut/ks_minimum_cut.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lib/algorithms/global_mincut/ks_minimum_cut.h b/lib/algorithms/global_mincut/ks_minimum_cut.h
index 10a0010..ee0ad40 100644
--- a/lib/algorithms/global_mincut/ks_minimum_cut.h
+++ b/lib/algorithms/global_mincut/ks_minimum_cut.h
@@ -53,6 +53,18 @@ class ks_minimum_cut : public minimum_cut {
 
     ~ks_minimum_cut() { }
 
+    EdgeWeight perform_minimum_cut(mutableGraphPtr G) {
+        if (!G) {
+            return -1;
+        }
+        graphAccessPtr GA = G->to_graph_access();
+        EdgeWeight mincut = perform_minimum_cut(GA);
+        for (NodeID n : G->nodes()) {
+            G->setNodeInCut(n, GA->getNodeInCut(n));
+        }
+        return mincut;
+    }
+
     EdgeWeight perform_minimum_cut(graphAccessPtr G) {
         if (!G) {
             return -1;
-- 
2.43.0


From 975f854c7d94bddb7f71ee326ac8c735f834b364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:45 +0000
Subject: [PATCH 53/53] fix: the cactus algorithms save a minimum cut when
 asked to

---
 .../global_mincut/cactus/cactus_mincut.h      |  7 ++++++-
 .../global_mincut/minimum_cut_helpers.h       | 20 +++++++++++++++++++
 lib/parallel/algorithm/parallel_cactus.h      |  7 ++++++-
 3 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/lib/algorithms/global_mincut/cactus/cactus_mincut.h b/lib/algorithms/global_mincut/cactus/cactus_mincut.h
index 281d294..43adbc0 100644
--- a/lib/algorithms/global_mincut/cactus/cactus_mincut.h
+++ b/lib/algorithms/global_mincut/cactus/cactus_mincut.h
@@ -54,7 +54,12 @@ class cactus_mincut : public minimum_cut {
 
     EdgeWeight perform_minimum_cut(GraphPtr G) {
         // compatibility with min cut interface
-        return std::get<0>(findAllMincuts(G));
+        auto [mincut, cactus, mb_edges] = findAllMincuts(G);
+        auto cfg = configuration::getConfig();
+        if (cactus && cfg->save_cut && !cfg->find_most_balanced_cut) {
+            minimum_cut_helpers<GraphPtr>::saveCactusCut(G, cactus, mincut);
+        }
+        return mincut;
     }
 
     std::tuple<EdgeWeight, mutableGraphPtr,
diff --git a/lib/algorithms/global_mincut/minimum_cut_helpers.h b/lib/algorithms/global_mincut/minimum_cut_helpers.h
index 2b20478..0d99494 100644
--- a/lib/algorithms/global_mincut/minimum_cut_helpers.h
+++ b/lib/algorithms/global_mincut/minimum_cut_helpers.h
@@ -97,6 +97,26 @@ class minimum_cut_helpers {
         }
     }
 
+    // set the cut to a minimum cut of the cactus: a vertex of the cactus whose
+    // degree is equal to the minimum cut (each cactus has at least two)
+    static void saveCactusCut(const GraphPtr& G,
+                              const mutableGraphPtr& cactus,
+                              EdgeWeight mincut) {
+        for (NodeID c : cactus->nodes()) {
+            const auto& contained = cactus->containedVertices(c);
+            if (cactus->getWeightedNodeDegree(c) != mincut
+                || contained.empty() || contained.size() >= G->n())
+                continue;
+            for (NodeID n : G->nodes()) {
+                G->setNodeInCut(n, false);
+            }
+            for (NodeID n : contained) {
+                G->setNodeInCut(n, true);
+            }
+            return;
+        }
+    }
+
     static void retrieveMinimumCut(
         std::vector<GraphPtr> graphs) {
         GraphPtr G = graphs[0];
diff --git a/lib/parallel/algorithm/parallel_cactus.h b/lib/parallel/algorithm/parallel_cactus.h
index ece6a72..8ecec4b 100644
--- a/lib/parallel/algorithm/parallel_cactus.h
+++ b/lib/parallel/algorithm/parallel_cactus.h
@@ -62,7 +62,12 @@ class parallel_cactus : public minimum_cut {
 
     EdgeWeight perform_minimum_cut(GraphPtr G) {
         // compatibility with min cut interface
-        return std::get<0>(findAllMincuts(G));
+        auto [mincut, cactus, mb_edges] = findAllMincuts(G);
+        auto cfg = configuration::getConfig();
+        if (cactus && cfg->save_cut && !cfg->find_most_balanced_cut) {
+            minimum_cut_helpers<GraphPtr>::saveCactusCut(G, cactus, mincut);
+        }
+        return mincut;
     }
 
     std::tuple<EdgeWeight, mutableGraphPtr,
-- 
2.43.0

