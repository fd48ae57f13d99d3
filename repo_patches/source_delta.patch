From 90731d5e6a7714c5a7d4f0055bc1251111650934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:23 +0000
Subject: [PATCH 01/15] fix: keep the wrapped radius of a detector node in 64
 bits

compute_wrapped_radius and wrapped_radius_cached were int32_t although
region radii are 64-bit. With weights discretised to 2*(2^24-1), a region
spanning more than ~64 edges overflowed and decoding never terminated.
---
 src/pymatching/sparse_blossom/flooder/detector_node.cc | 4 ++--
 src/pymatching/sparse_blossom/flooder/detector_node.h  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pymatching/sparse_blossom/flooder/detector_node.cc b/src/pymatching/sparse_blossom/flooder/detector_node.cc
index 3e90c71..733a7b3 100644
--- a/src/pymatching/sparse_blossom/flooder/detector_node.cc
+++ b/src/pymatching/sparse_blossom/flooder/detector_node.cc
@@ -20,11 +20,11 @@
 
 namespace pm {
 
-int32_t DetectorNode::compute_wrapped_radius() const {
+cumulative_time_int DetectorNode::compute_wrapped_radius() const {
     if (reached_from_source == nullptr) {
         return 0;
     }
-    int32_t total = 0;
+    cumulative_time_int total = 0;
     auto r = region_that_arrived;
     while (r != region_that_arrived_top) {
         total += r->radius.y_intercept();
diff --git a/src/pymatching/sparse_blossom/flooder/detector_node.h b/src/pymatching/sparse_blossom/flooder/detector_node.h
index 446de58..deb4bb3 100644
--- a/src/pymatching/sparse_blossom/flooder/detector_node.h
+++ b/src/pymatching/sparse_blossom/flooder/detector_node.h
@@ -51,7 +51,7 @@ class DetectorNode {
     GraphFillRegion* region_that_arrived_top;
     /// Stores the latest value of `compute_wrapped_radius` so it doesn't need to be recomputed
     /// as much. Updated whenever region_that_arrived_top changes.
-    int32_t wrapped_radius_cached;
+    cumulative_time_int wrapped_radius_cached;
     /// Of the detection events within the owning region, which one is this node linked to.
     DetectorNode* reached_from_source;
     /// Which observables are crossed, travelling from this node to the source
@@ -95,7 +95,7 @@ class DetectorNode {
     /// sum of the radius of (always frozen) not-top-level regions containing this node. It is a
     /// useful intermediate value for quickly computing the local radius of the node, because it
     /// accounts for everything except the (potentially varying) top level region.
-    int32_t compute_wrapped_radius() const;
+    cumulative_time_int compute_wrapped_radius() const;
 
     /// It works out the local radius of the node, but bounds it to not go beyond the given bounding
     /// region. This is useful for understanding the internal structure of the blossoms.
-- 
2.43.0


From 774ac885e6389c6bff4718669168dde7493e9ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:00 +0000
Subject: [PATCH 02/15] fix: leave the decoder usable after an out-of-range
 detection event

---
 src/pymatching/sparse_blossom/driver/mwpm_decoding.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/pymatching/sparse_blossom/driver/mwpm_decoding.cc b/src/pymatching/sparse_blossom/driver/mwpm_decoding.cc
index 3f08c37..8672ff1 100644
--- a/src/pymatching/sparse_blossom/driver/mwpm_decoding.cc
+++ b/src/pymatching/sparse_blossom/driver/mwpm_decoding.cc
@@ -88,11 +88,14 @@ void process_timeline_until_completion(pm::Mwpm& mwpm, const std::vector<uint64_
     if (mwpm.flooder.negative_weight_detection_events.empty()) {
         // Just add detection events if graph has no negative weights
         for (auto& detection : detection_events) {
-            if (detection >= mwpm.flooder.graph.nodes.size())
+            if (detection >= mwpm.flooder.graph.nodes.size()) {
+                // Discard the detection events already created, so that the decoder can be reused
+                mwpm.reset();
                 throw std::invalid_argument(
                     "The detection event with index " + std::to_string(detection) +
                     " does not correspond to a node in the graph, which only has " +
                     std::to_string(mwpm.flooder.graph.nodes.size()) + " nodes.");
+            }
             if (detection + 1 > mwpm.flooder.graph.is_user_graph_boundary_node.size() ||
                 !mwpm.flooder.graph.is_user_graph_boundary_node[detection])
                 mwpm.create_detection_event(&mwpm.flooder.graph.nodes[detection]);
@@ -106,10 +109,13 @@ void process_timeline_until_completion(pm::Mwpm& mwpm, const std::vector<uint64_
 
         // Now add detection events for unmarked nodes
         for (auto& detection : detection_events) {
-            if (detection >= mwpm.flooder.graph.nodes.size())
+            if (detection >= mwpm.flooder.graph.nodes.size()) {
+                // Discard the marks and the detection events already created, so that the decoder can be reused
+                mwpm.reset();
                 throw std::invalid_argument(
                     "Detection event index `" + std::to_string(detection) +
                     "` is larger than any detector node index in the graph.");
+            }
             if (!mwpm.flooder.graph.nodes[detection].radius_of_arrival) {
                 if (detection + 1 > mwpm.flooder.graph.is_user_graph_boundary_node.size() ||
                     !mwpm.flooder.graph.is_user_graph_boundary_node[detection])
-- 
2.43.0


From bc653ecb3e4e748dca0708506fc19bd8b83e2f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:00 +0000
Subject: [PATCH 03/15] fix: count the observables an edge adopts when it is
 replaced

---
 src/pymatching/sparse_blossom/driver/user_graph.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pymatching/sparse_blossom/driver/user_graph.cc b/src/pymatching/sparse_blossom/driver/user_graph.cc
index 3133439..36328db 100644
--- a/src/pymatching/sparse_blossom/driver/user_graph.cc
+++ b/src/pymatching/sparse_blossom/driver/user_graph.cc
@@ -99,8 +99,13 @@ void pm::UserGraph::merge_edge_or_boundary_edge(
         // Update the existing edge weight and probability in the adjacency list of `node`
         neighbor.edge_it->weight = new_weight;
         neighbor.edge_it->error_probability = new_error_probability;
-        if (use_new_observables)
+        if (use_new_observables) {
             neighbor.edge_it->observable_indices = parallel_observables;
+            for (auto& obs : parallel_observables) {
+                if (obs + 1 > _num_observables)
+                    _num_observables = obs + 1;
+            }
+        }
 
         _mwpm_needs_updating = true;
         if (new_error_probability < 0 || new_error_probability > 1)
-- 
2.43.0


From 943671eac2db866b45e29ed29edc95539160b259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:00 +0000
Subject: [PATCH 04/15] fix: shift observable bits in 64-bit arithmetic when
 packing a mask

---
 src/pymatching/sparse_blossom/driver/mwpm_decoding.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymatching/sparse_blossom/driver/mwpm_decoding.cc b/src/pymatching/sparse_blossom/driver/mwpm_decoding.cc
index 8672ff1..9ccd4a3 100644
--- a/src/pymatching/sparse_blossom/driver/mwpm_decoding.cc
+++ b/src/pymatching/sparse_blossom/driver/mwpm_decoding.cc
@@ -65,7 +65,7 @@ pm::obs_int pm::bit_vector_to_obs_mask(const std::vector<uint8_t>& bit_vector) {
         throw std::invalid_argument("Too many observables");
     pm::obs_int obs_mask = 0;
     for (size_t i = 0; i < num_observables; i++)
-        obs_mask ^= bit_vector[i] << i;
+        obs_mask ^= (pm::obs_int)bit_vector[i] << i;
     return obs_mask;
 }
 
-- 
2.43.0


From 17d5e09d46b1ce125eaf232e9b9438be342da909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:39 +0000
Subject: [PATCH 05/15] fix: report a missing path instead of dereferencing
 null in shortest-path queries

---
 src/pymatching/sparse_blossom/driver/user_graph.cc    |  4 ++--
 src/pymatching/sparse_blossom/search/search_flooder.h | 11 +++++++++++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/pymatching/sparse_blossom/driver/user_graph.cc b/src/pymatching/sparse_blossom/driver/user_graph.cc
index 36328db..edf2539 100644
--- a/src/pymatching/sparse_blossom/driver/user_graph.cc
+++ b/src/pymatching/sparse_blossom/driver/user_graph.cc
@@ -371,12 +371,12 @@ void pm::UserGraph::handle_dem_instruction_include_correlations(
 
 void pm::UserGraph::get_nodes_on_shortest_path_from_source(size_t src, size_t dst, std::vector<size_t>& out_nodes) {
     auto& mwpm = get_mwpm_with_search_graph();
-    bool src_is_boundary = is_boundary_node(src);
-    bool dst_is_boundary = is_boundary_node(dst);
     if (src != SIZE_MAX && src >= nodes.size())
         throw std::invalid_argument("node " + std::to_string(src) + " is not in the graph");
     if (dst != SIZE_MAX && dst >= nodes.size())
         throw std::invalid_argument("node " + std::to_string(dst) + " is not in the graph");
+    bool src_is_boundary = is_boundary_node(src);
+    bool dst_is_boundary = is_boundary_node(dst);
     if (!src_is_boundary) {
         size_t dst_tmp = dst_is_boundary ? SIZE_MAX : dst;
         mwpm.search_flooder.iter_edges_on_shortest_path_from_source(src, dst_tmp, [&](const pm::SearchGraphEdge edge) {
diff --git a/src/pymatching/sparse_blossom/search/search_flooder.h b/src/pymatching/sparse_blossom/search/search_flooder.h
index 6f3f60b..430d8c1 100644
--- a/src/pymatching/sparse_blossom/search/search_flooder.h
+++ b/src/pymatching/sparse_blossom/search/search_flooder.h
@@ -15,6 +15,9 @@
 #ifndef PYMATCHING2_SEARCH_FLOODER_H
 #define PYMATCHING2_SEARCH_FLOODER_H
 
+#include <stdexcept>
+#include <string>
+
 #include "pymatching/sparse_blossom/search/search_graph.h"
 #include "pymatching/sparse_blossom/tracker/radix_heap_queue.h"
 
@@ -102,9 +105,17 @@ void SearchFlooder::reverse_path_and_handle_edges(const std::vector<SearchGraphE
 
 template <typename Callable>
 void SearchFlooder::iter_edges_on_shortest_path_from_source(size_t src, size_t dst, Callable handle_edge) {
+    if (src == dst)
+        return;
     SearchDetectorNode* loc_from_ptr = &graph.nodes[src];
     SearchDetectorNode* loc_to_ptr = dst == SIZE_MAX ? nullptr : &graph.nodes[dst];
     auto collision_edge = run_until_collision(loc_from_ptr, loc_to_ptr);
+    if (!collision_edge.detector_node) {
+        reset();
+        throw std::invalid_argument(
+            "There is no path from node " + std::to_string(src) + " to " +
+            (dst == SIZE_MAX ? "the boundary" : "node " + std::to_string(dst)) + ".");
+    }
 
     std::vector<SearchGraphEdge> path_edges_1;
     iter_edges_on_path_traced_back_from_node(
-- 
2.43.0


From e475fc56bc034823135baba053d58813ddfeb746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:17 +0000
Subject: [PATCH 06/15] fix: notice when every edge has an error probability
 again after a replacement

---
 .../sparse_blossom/driver/user_graph.cc       | 20 ++++++++-----------
 .../sparse_blossom/driver/user_graph.h        |  4 ++--
 2 files changed, 10 insertions(+), 14 deletions(-)

diff --git a/src/pymatching/sparse_blossom/driver/user_graph.cc b/src/pymatching/sparse_blossom/driver/user_graph.cc
index edf2539..f36eaeb 100644
--- a/src/pymatching/sparse_blossom/driver/user_graph.cc
+++ b/src/pymatching/sparse_blossom/driver/user_graph.cc
@@ -108,8 +108,6 @@ void pm::UserGraph::merge_edge_or_boundary_edge(
         }
 
         _mwpm_needs_updating = true;
-        if (new_error_probability < 0 || new_error_probability > 1)
-            _all_edges_have_error_probabilities = false;
     }
 }
 
@@ -138,8 +136,6 @@ void pm::UserGraph::add_or_merge_edge(
                 _num_observables = obs + 1;
         }
         _mwpm_needs_updating = true;
-        if (error_probability < 0 || error_probability > 1)
-            _all_edges_have_error_probabilities = false;
     } else {
         merge_edge_or_boundary_edge(node1, idx, observables, weight, error_probability, merge_strategy);
     }
@@ -166,24 +162,22 @@ void pm::UserGraph::add_or_merge_boundary_edge(
                 _num_observables = obs + 1;
         }
         _mwpm_needs_updating = true;
-        if (error_probability < 0 || error_probability > 1)
-            _all_edges_have_error_probabilities = false;
     } else {
         merge_edge_or_boundary_edge(node, idx, observables, weight, error_probability, merge_strategy);
     }
 }
 
 pm::UserGraph::UserGraph()
-    : _num_observables(0), _mwpm_needs_updating(true), _all_edges_have_error_probabilities(true) {
+    : _num_observables(0), _mwpm_needs_updating(true) {
 }
 
 pm::UserGraph::UserGraph(size_t num_nodes)
-    : _num_observables(0), _mwpm_needs_updating(true), _all_edges_have_error_probabilities(true) {
+    : _num_observables(0), _mwpm_needs_updating(true) {
     nodes.resize(num_nodes);
 }
 
 pm::UserGraph::UserGraph(size_t num_nodes, size_t num_observables)
-    : _num_observables(num_observables), _mwpm_needs_updating(true), _all_edges_have_error_probabilities(true) {
+    : _num_observables(num_observables), _mwpm_needs_updating(true) {
     nodes.resize(num_nodes);
 }
 
@@ -231,7 +225,7 @@ pm::Mwpm& pm::UserGraph::get_mwpm() {
 }
 
 void pm::UserGraph::add_noise(uint8_t* error_arr, uint8_t* syndrome_arr) const {
-    if (!_all_edges_have_error_probabilities)
+    if (!all_edges_have_error_probabilities())
         return;
 
     for (auto& e : edges) {
@@ -256,8 +250,10 @@ size_t pm::UserGraph::get_num_edges() {
     return edges.size();
 }
 
-bool pm::UserGraph::all_edges_have_error_probabilities() {
-    return _all_edges_have_error_probabilities;
+bool pm::UserGraph::all_edges_have_error_probabilities() const {
+    return std::all_of(edges.begin(), edges.end(), [](const UserEdge& e) {
+        return !(e.error_probability < 0 || e.error_probability > 1);
+    });
 }
 
 double pm::UserGraph::max_abs_weight() {
diff --git a/src/pymatching/sparse_blossom/driver/user_graph.h b/src/pymatching/sparse_blossom/driver/user_graph.h
index 4fedb99..4311809 100644
--- a/src/pymatching/sparse_blossom/driver/user_graph.h
+++ b/src/pymatching/sparse_blossom/driver/user_graph.h
@@ -15,6 +15,7 @@
 #ifndef PYMATCHING2_USER_GRAPH_H
 #define PYMATCHING2_USER_GRAPH_H
 
+#include <algorithm>
 #include <cmath>
 #include <list>
 #include <set>
@@ -100,7 +101,7 @@ class UserGraph {
     size_t get_num_edges();
     bool is_boundary_node(size_t node_id);
     void add_noise(uint8_t* error_arr, uint8_t* syndrome_arr) const;
-    bool all_edges_have_error_probabilities();
+    bool all_edges_have_error_probabilities() const;
     double max_abs_weight();
     double get_edge_weight_normalising_constant(size_t max_num_distinct_weights);
     template <typename EdgeCallable, typename BoundaryEdgeCallable>
@@ -130,7 +131,6 @@ class UserGraph {
     pm::Mwpm _mwpm;
     size_t _num_observables;
     bool _mwpm_needs_updating;
-    bool _all_edges_have_error_probabilities;
 };
 
 double to_weight_for_correlations(double probability);
-- 
2.43.0


From be7ec41506debc773048fa734255310353e38490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:51 +0000
Subject: [PATCH 07/15] fix: count_mistakes: refuse to run without recorded
 observables

--obs_in defaults to stdin, so the test for a null file never fired and every
shot was compared with all-zero observables.
---
 src/pymatching/sparse_blossom/driver/namespaced_main.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymatching/sparse_blossom/driver/namespaced_main.cc b/src/pymatching/sparse_blossom/driver/namespaced_main.cc
index 760e621..a59cd09 100644
--- a/src/pymatching/sparse_blossom/driver/namespaced_main.cc
+++ b/src/pymatching/sparse_blossom/driver/namespaced_main.cc
@@ -118,7 +118,7 @@ int main_count_mistakes(int argc, const char **argv) {
     bool enable_correlations = stim::find_bool_argument("--enable_correlations", argc, argv);
 
     bool time = stim::find_bool_argument("--time", argc, argv);
-    if (!append_obs && obs_in == nullptr) {
+    if (!append_obs && obs_in == stdin) {
         throw std::invalid_argument("Must specify --in_includes_appended_observables or --obs_in.");
     }
 
-- 
2.43.0


From 45d3334b28384eeff0a2155edf20b14e3bb4f6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:11 +0000
Subject: [PATCH 08/15] fix: count_mistakes: close the observables file

Each run left the --obs_in file open, so a process calling the tool repeatedly
(pymatching.cli) ran out of file descriptors.
---
 src/pymatching/sparse_blossom/driver/namespaced_main.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pymatching/sparse_blossom/driver/namespaced_main.cc b/src/pymatching/sparse_blossom/driver/namespaced_main.cc
index a59cd09..85f3761 100644
--- a/src/pymatching/sparse_blossom/driver/namespaced_main.cc
+++ b/src/pymatching/sparse_blossom/driver/namespaced_main.cc
@@ -168,6 +168,9 @@ int main_count_mistakes(int argc, const char **argv) {
     if (shots_in != stdin) {
         fclose(shots_in);
     }
+    if (obs_in != stdin) {
+        fclose(obs_in);
+    }
 
     auto end = std::chrono::steady_clock::now();
     auto microseconds = (double)std::chrono::duration_cast<std::chrono::microseconds>(end - start).count();
-- 
2.43.0


From 048f0446414e000bdc60f2c215ab14484afc8c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:11 +0000
Subject: [PATCH 09/15] fix: Python decode: release the result vector when
 decoding is refused

decode and decode_to_edges_array allocated their result before decoding and lost
it when the decoder threw, for example for a syndrome that cannot be matched.
---
 .../sparse_blossom/driver/user_graph.pybind.cc        | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/pymatching/sparse_blossom/driver/user_graph.pybind.cc b/src/pymatching/sparse_blossom/driver/user_graph.pybind.cc
index 7b227e5..2f0f308 100644
--- a/src/pymatching/sparse_blossom/driver/user_graph.pybind.cc
+++ b/src/pymatching/sparse_blossom/driver/user_graph.pybind.cc
@@ -183,13 +183,14 @@ void pm_pybind::pybind_user_graph_methods(py::module &m, py::class_<pm::UserGrap
                 detection_events.data(), detection_events.data() + detection_events.size());
             auto &mwpm = enable_correlations ? self.get_mwpm_with_search_graph() : self.get_mwpm();
             auto obs_crossed = new std::vector<uint8_t>(self.get_num_observables(), 0);
+            // The capsule owns the vector from here on, also if decoding throws.
+            auto err_capsule = py::capsule(obs_crossed, [](void *x) {
+                delete reinterpret_cast<std::vector<uint8_t> *>(x);
+            });
             pm::total_weight_int weight = 0;
             pm::decode_detection_events(mwpm, detection_events_vec, obs_crossed->data(), weight, enable_correlations);
             double rescaled_weight = (double)weight / mwpm.flooder.graph.normalising_constant;
 
-            auto err_capsule = py::capsule(obs_crossed, [](void *x) {
-                delete reinterpret_cast<std::vector<uint8_t> *>(x);
-            });
             py::array_t<uint8_t> obs_crossed_arr =
                 py::array_t<uint8_t>(obs_crossed->size(), obs_crossed->data(), err_capsule);
             std::pair<py::array_t<std::uint8_t>, double> res = {obs_crossed_arr, rescaled_weight};
@@ -203,7 +204,7 @@ void pm_pybind::pybind_user_graph_methods(py::module &m, py::class_<pm::UserGrap
             auto &mwpm = self.get_mwpm_with_search_graph();
             std::vector<uint64_t> detection_events_vec(
                 detection_events.data(), detection_events.data() + detection_events.size());
-            auto edges = new std::vector<int64_t>();
+            auto edges = std::make_unique<std::vector<int64_t>>();
             edges->reserve(detection_events_vec.size() / 2);
             if (enable_correlations) {
                 pm::decode_detection_events_to_edges_with_edge_correlations(mwpm, detection_events_vec, *edges);
@@ -211,7 +212,7 @@ void pm_pybind::pybind_user_graph_methods(py::module &m, py::class_<pm::UserGrap
                 pm::decode_detection_events_to_edges(mwpm, detection_events_vec, *edges);
             }
             auto num_edges = edges->size() / 2;
-            auto edges_arr = pm_pybind::vec_to_array<int64_t>(edges);
+            auto edges_arr = pm_pybind::vec_to_array<int64_t>(edges.release());
             edges_arr.resize({(py::ssize_t)num_edges, (py::ssize_t)2});
             return edges_arr;
         },
-- 
2.43.0


From 18c9413df78a8714b0b6fc12f1b5373794e322af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:38 +0000
Subject: [PATCH 10/15] fix: count_mistakes: compare all observables, not only
 the first 64

With more than 64 observables the 64-bit mask of the prediction is always
0, so the reported number of mistakes was wrong without any message.
---
 .../sparse_blossom/driver/namespaced_main.cc           | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/pymatching/sparse_blossom/driver/namespaced_main.cc b/src/pymatching/sparse_blossom/driver/namespaced_main.cc
index 85f3761..d7ec222 100644
--- a/src/pymatching/sparse_blossom/driver/namespaced_main.cc
+++ b/src/pymatching/sparse_blossom/driver/namespaced_main.cc
@@ -142,6 +142,7 @@ int main_count_mistakes(int argc, const char **argv) {
 
     stim::SparseShot sparse_shot;
     stim::SparseShot obs_shot;
+    pm::ExtendedMatchingResult res(mwpm.flooder.graph.num_observables);
     size_t num_mistakes = 0;
     size_t num_shots = 0;
     auto start = std::chrono::steady_clock::now();
@@ -153,10 +154,15 @@ int main_count_mistakes(int argc, const char **argv) {
                 throw std::invalid_argument("Obs data ended before shot data ended.");
             }
         }
-        auto res = pm::decode_detection_events_for_up_to_64_observables(mwpm, sparse_shot.hits, enable_correlations);
-        if (obs_shot.obs_mask_as_u64() != res.obs_mask) {
+        pm::decode_detection_events(mwpm, sparse_shot.hits, res.obs_crossed.data(), res.weight, enable_correlations);
+        bool is_mistake = false;
+        for (size_t k = 0; k < num_obs; k++) {
+            is_mistake |= (bool)obs_shot.obs_mask[k] != (bool)res.obs_crossed[k];
+        }
+        if (is_mistake) {
             num_mistakes++;
         }
+        res.reset();
         sparse_shot.clear();
         obs_shot.clear();
         num_shots++;
-- 
2.43.0


From fed9ba896f53b7e50141b2cc37bd65ebce67f1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:11 +0000
Subject: [PATCH 11/15] fix: no recursion along alternating trees

Re-rooting and shattering an alternating tree recursed once per level. A
tree of about 80 000 levels (a long chain of matched pairs swallowed by one
tree) exhausted the stack, and the process crashed.
---
 .../matcher/alternating_tree.cc               |  7 +++-
 src/pymatching/sparse_blossom/matcher/mwpm.cc | 39 ++++++++++++-------
 2 files changed, 32 insertions(+), 14 deletions(-)

diff --git a/src/pymatching/sparse_blossom/matcher/alternating_tree.cc b/src/pymatching/sparse_blossom/matcher/alternating_tree.cc
index 24b509b..87a8b7a 100644
--- a/src/pymatching/sparse_blossom/matcher/alternating_tree.cc
+++ b/src/pymatching/sparse_blossom/matcher/alternating_tree.cc
@@ -86,7 +86,12 @@ void AltTreeNode::become_root() {
     if (!parent.alt_tree_node)
         return;
     auto old_parent = parent.alt_tree_node;
-    old_parent->become_root();
+    // Rotate the ancestors first, starting below the root. A loop rather than recursion, as the path may be very long.
+    std::vector<AltTreeNode *> ancestors;
+    for (auto node = old_parent; node->parent.alt_tree_node; node = node->parent.alt_tree_node)
+        ancestors.push_back(node);
+    for (; !ancestors.empty(); ancestors.pop_back())
+        ancestors.back()->become_root();
     parent.alt_tree_node->inner_region = inner_region;
     parent.alt_tree_node->inner_to_outer_edge = parent.edge;
     inner_region = nullptr;
diff --git a/src/pymatching/sparse_blossom/matcher/mwpm.cc b/src/pymatching/sparse_blossom/matcher/mwpm.cc
index 2dd7314..562e7c8 100644
--- a/src/pymatching/sparse_blossom/matcher/mwpm.cc
+++ b/src/pymatching/sparse_blossom/matcher/mwpm.cc
@@ -43,21 +43,34 @@ Mwpm::Mwpm(Mwpm &&other) noexcept
 }
 
 void Mwpm::shatter_descendants_into_matches_and_freeze(AltTreeNode &alt_tree_node) {
-    for (auto &child_edge : alt_tree_node.children) {
-        shatter_descendants_into_matches_and_freeze(*child_edge.alt_tree_node);
-    }
-    if (alt_tree_node.inner_region) {
-        alt_tree_node.parent = AltTreeEdge();
-        alt_tree_node.inner_region->add_match(alt_tree_node.outer_region, alt_tree_node.inner_to_outer_edge);
-        flooder.set_region_frozen(*alt_tree_node.inner_region);
-        flooder.set_region_frozen(*alt_tree_node.outer_region);
-        alt_tree_node.inner_region->alt_tree_node = nullptr;
-        alt_tree_node.outer_region->alt_tree_node = nullptr;
+    // List every node before its descendants, with siblings in reverse order. A loop rather than recursion, as the tree
+    // may be very deep.
+    std::vector<AltTreeNode *> nodes;
+    std::vector<AltTreeNode *> pending{&alt_tree_node};
+    while (!pending.empty()) {
+        auto node = pending.back();
+        pending.pop_back();
+        nodes.push_back(node);
+        for (auto &child_edge : node->children) {
+            pending.push_back(child_edge.alt_tree_node);
+        }
     }
-    if (alt_tree_node.outer_region) {
-        alt_tree_node.outer_region->alt_tree_node = nullptr;
+    // Shatter descendants before their ancestors
+    for (auto it = nodes.rbegin(); it != nodes.rend(); ++it) {
+        auto node = *it;
+        if (node->inner_region) {
+            node->parent = AltTreeEdge();
+            node->inner_region->add_match(node->outer_region, node->inner_to_outer_edge);
+            flooder.set_region_frozen(*node->inner_region);
+            flooder.set_region_frozen(*node->outer_region);
+            node->inner_region->alt_tree_node = nullptr;
+            node->outer_region->alt_tree_node = nullptr;
+        }
+        if (node->outer_region) {
+            node->outer_region->alt_tree_node = nullptr;
+        }
+        node_arena.del(node);
     }
-    node_arena.del(&alt_tree_node);
 }
 
 void Mwpm::handle_tree_hitting_boundary(const RegionHitBoundaryEventData &event) {
-- 
2.43.0


From 045e6f1bacf37c459f103bc09aacfeaa8ab361d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:52 +0000
Subject: [PATCH 12/15] fix: merge two infinite edge weights without producing
 NaN

---
 src/pymatching/sparse_blossom/driver/user_graph.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pymatching/sparse_blossom/driver/user_graph.cc b/src/pymatching/sparse_blossom/driver/user_graph.cc
index f36eaeb..391b921 100644
--- a/src/pymatching/sparse_blossom/driver/user_graph.cc
+++ b/src/pymatching/sparse_blossom/driver/user_graph.cc
@@ -33,6 +33,8 @@ double pm::to_weight_for_correlations(double probability) {
 double pm::merge_weights(double a, double b) {
     auto sgn = std::copysign(1, a) * std::copysign(1, b);
     auto signed_min = sgn * std::min(std::abs(a), std::abs(b));
+    if (std::isinf(a) && std::isinf(b))
+        return signed_min;
     return signed_min + std::log(1 + std::exp(-std::abs(a + b))) - std::log(1 + std::exp(-std::abs(a - b)));
 }
 
-- 
2.43.0


From 817831323b941386bdeb6219e691d0648cbf8495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:52 +0000
Subject: [PATCH 13/15] fix: refuse to decode with NaN edge weights

---
 src/pymatching/sparse_blossom/driver/user_graph.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pymatching/sparse_blossom/driver/user_graph.cc b/src/pymatching/sparse_blossom/driver/user_graph.cc
index 391b921..379668e 100644
--- a/src/pymatching/sparse_blossom/driver/user_graph.cc
+++ b/src/pymatching/sparse_blossom/driver/user_graph.cc
@@ -426,6 +426,9 @@ double pm::UserGraph::get_edge_weight_normalising_constant(size_t max_num_distin
     double max_abs_weight = 0;
     bool all_integral_weight = true;
     for (auto& e : edges) {
+        if (std::isnan(e.weight))
+            throw std::invalid_argument("Edge weights must be numbers, but an edge has weight NaN.");
+
         if (std::abs(e.weight) > max_abs_weight)
             max_abs_weight = std::abs(e.weight);
 
-- 
2.43.0


From 562d8e6b8459df6b9b1ca4e68aa216eae38818b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:05 +0000
Subject: [PATCH 14/15] fix: command line tools: close files when a run is
 refused

---
 .../sparse_blossom/diagram/animation_main.cc  |  5 ++-
 .../sparse_blossom/driver/namespaced_main.cc  | 40 +++++++++++--------
 2 files changed, 26 insertions(+), 19 deletions(-)

diff --git a/src/pymatching/sparse_blossom/diagram/animation_main.cc b/src/pymatching/sparse_blossom/diagram/animation_main.cc
index 31b2fe6..70f71c2 100644
--- a/src/pymatching/sparse_blossom/diagram/animation_main.cc
+++ b/src/pymatching/sparse_blossom/diagram/animation_main.cc
@@ -15,6 +15,7 @@
 #include "pymatching/sparse_blossom/diagram/animation_main.h"
 
 #include <filesystem>
+#include <memory>
 
 #include "pymatching/sparse_blossom/diagram/mwpm_diagram.h"
 #include "pymatching/sparse_blossom/driver/mwpm_decoding.h"
@@ -42,7 +43,9 @@ int pm::main_animation(int argc, const char **argv) {
         argv);
 
     FILE *dets_file = stim::find_open_file_argument("--dets_in", nullptr, "r", argc, argv);
+    std::unique_ptr<FILE, int (*)(FILE *)> dets_file_guard(dets_file, &fclose);
     FILE *dem_file = stim::find_open_file_argument("--dem_in", nullptr, "r", argc, argv);
+    std::unique_ptr<FILE, int (*)(FILE *)> dem_file_guard(dem_file, &fclose);
     stim::FileFormatData dets_in_format =
         stim::find_enum_argument("--dets_in_format", nullptr, stim::format_name_to_enum_map(), argc, argv);
     bool dets_includes_obs = stim::find_bool_argument("--dets_in_includes_appended_observables", argc, argv);
@@ -65,8 +68,6 @@ int pm::main_animation(int argc, const char **argv) {
     if (!dets_reader->start_and_read_entire_record(shot)) {
         throw std::invalid_argument("No shot in file.");
     }
-    fclose(dem_file);
-    fclose(dets_file);
 
     auto coords = pm::pick_coords_for_drawing_from_dem(dem, pixels_per_unit_length);
     auto mwpm = pm::detector_error_model_to_mwpm(dem, 1000);
diff --git a/src/pymatching/sparse_blossom/driver/namespaced_main.cc b/src/pymatching/sparse_blossom/driver/namespaced_main.cc
index d7ec222..106d061 100644
--- a/src/pymatching/sparse_blossom/driver/namespaced_main.cc
+++ b/src/pymatching/sparse_blossom/driver/namespaced_main.cc
@@ -24,6 +24,22 @@
 #include "pymatching/sparse_blossom/driver/user_graph.h"
 #include "stim.h"
 
+namespace {
+/// Closes a file when a command ends, also when it is refused. Standard streams stay open.
+struct FileGuard {
+    FILE *file;
+    explicit FileGuard(FILE *file) : file(file) {
+    }
+    FileGuard(const FileGuard &) = delete;
+    FileGuard &operator=(const FileGuard &) = delete;
+    ~FileGuard() {
+        if (file != nullptr && file != stdin && file != stdout) {
+            fclose(file);
+        }
+    }
+};
+}  // namespace
+
 int main_predict(int argc, const char **argv) {
     stim::check_for_unknown_arguments(
         {
@@ -41,8 +57,11 @@ int main_predict(int argc, const char **argv) {
         argv);
 
     FILE *shots_in = stim::find_open_file_argument("--in", stdin, "rb", argc, argv);
+    FileGuard shots_in_guard(shots_in);
     FILE *predictions_out = stim::find_open_file_argument("--out", stdout, "wb", argc, argv);
+    FileGuard predictions_out_guard(predictions_out);
     FILE *dem_file = stim::find_open_file_argument("--dem", nullptr, "r", argc, argv);
+    FileGuard dem_file_guard(dem_file);
     stim::FileFormatData shots_in_format =
         stim::find_enum_argument("--in_format", "b8", stim::format_name_to_enum_map(), argc, argv);
     stim::FileFormatData predictions_out_format =
@@ -51,7 +70,6 @@ int main_predict(int argc, const char **argv) {
     bool enable_correlations = stim::find_bool_argument("--enable_correlations", argc, argv);
 
     stim::DetectorErrorModel dem = stim::DetectorErrorModel::from_file(dem_file);
-    fclose(dem_file);
 
     size_t num_obs = dem.count_observables();
     auto reader = stim::MeasureRecordReader<stim::MAX_BITWORD_WIDTH>::make(
@@ -78,12 +96,6 @@ int main_predict(int argc, const char **argv) {
         sparse_shot.clear();
         res.reset();
     }
-    if (predictions_out != stdout) {
-        fclose(predictions_out);
-    }
-    if (shots_in != stdin) {
-        fclose(shots_in);
-    }
 
     return EXIT_SUCCESS;
 }
@@ -107,9 +119,13 @@ int main_count_mistakes(int argc, const char **argv) {
         argv);
 
     FILE *shots_in = stim::find_open_file_argument("--in", stdin, "rb", argc, argv);
+    FileGuard shots_in_guard(shots_in);
     FILE *obs_in = stim::find_open_file_argument("--obs_in", stdin, "rb", argc, argv);
+    FileGuard obs_in_guard(obs_in);
     FILE *stats_out = stim::find_open_file_argument("--out", stdout, "wb", argc, argv);
+    FileGuard stats_out_guard(stats_out);
     FILE *dem_file = stim::find_open_file_argument("--dem", nullptr, "r", argc, argv);
+    FileGuard dem_file_guard(dem_file);
     stim::FileFormatData shots_in_format =
         stim::find_enum_argument("--in_format", "01", stim::format_name_to_enum_map(), argc, argv);
     stim::FileFormatData obs_in_format =
@@ -123,7 +139,6 @@ int main_count_mistakes(int argc, const char **argv) {
     }
 
     stim::DetectorErrorModel dem = stim::DetectorErrorModel::from_file(dem_file);
-    fclose(dem_file);
 
     size_t num_obs = dem.count_observables();
     std::unique_ptr<stim::MeasureRecordReader<stim::MAX_BITWORD_WIDTH>> obs_reader;
@@ -168,15 +183,6 @@ int main_count_mistakes(int argc, const char **argv) {
         num_shots++;
     }
     fprintf(stats_out, "%zu / %zu\n", num_mistakes, num_shots);
-    if (stats_out != stdout) {
-        fclose(stats_out);
-    }
-    if (shots_in != stdin) {
-        fclose(shots_in);
-    }
-    if (obs_in != stdin) {
-        fclose(obs_in);
-    }
 
     auto end = std::chrono::steady_clock::now();
     auto microseconds = (double)std::chrono::duration_cast<std::chrono::microseconds>(end - start).count();
-- 
2.43.0


From ff68a16672102dfeb772b3cc648352d00319a143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:14 +0000
Subject: [PATCH 15/15] fix: Python graph loading: close the file when parsing
 fails

---
 src/pymatching/sparse_blossom/driver/user_graph.pybind.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymatching/sparse_blossom/driver/user_graph.pybind.cc b/src/pymatching/sparse_blossom/driver/user_graph.pybind.cc
index 2f0f308..4d08620 100644
--- a/src/pymatching/sparse_blossom/driver/user_graph.pybind.cc
+++ b/src/pymatching/sparse_blossom/driver/user_graph.pybind.cc
@@ -441,8 +441,8 @@ void pm_pybind::pybind_user_graph_methods(py::module &m, py::class_<pm::UserGrap
                 msg << "Failed to open '" << dem_path << "'";
                 throw std::invalid_argument(msg.str());
             }
+            std::unique_ptr<FILE, int (*)(FILE *)> file_guard(file, &fclose);
             auto dem = stim::DetectorErrorModel::from_file(file);
-            fclose(file);
             return pm::detector_error_model_to_user_graph(dem, enable_correlations, pm::NUM_DISTINCT_WEIGHTS);
         },
         "dem_path"_a,
@@ -456,8 +456,8 @@ void pm_pybind::pybind_user_graph_methods(py::module &m, py::class_<pm::UserGrap
                 msg << "Failed to open '" << stim_circuit_path << "'";
                 throw std::invalid_argument(msg.str());
             }
+            std::unique_ptr<FILE, int (*)(FILE *)> file_guard(file, &fclose);
             auto circuit = stim::Circuit::from_file(file);
-            fclose(file);
             auto dem =
                 stim::ErrorAnalyzer::circuit_to_detector_error_model(circuit, true, true, false, 0, false, false);
             return pm::detector_error_model_to_user_graph(dem, enable_correlations, pm::NUM_DISTINCT_WEIGHTS);
-- 
2.43.0

