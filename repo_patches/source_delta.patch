From 358367596dcb2a339ca1536253a3df469dcb21dd Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 12:14:02 +0000
Subject: [PATCH 01/21] sim hooks: seam for the order of simultaneous events
 (guard PYMATCHING_SIM_HOOKS, off by default)

---
 .../sparse_blossom/tracker/radix_heap_queue.h |  6 +++
 .../sparse_blossom/tracker/sim_hooks.h        | 48 +++++++++++++++++++
 2 files changed, 54 insertions(+)
 create mode 100644 src/pymatching/sparse_blossom/tracker/sim_hooks.h

diff --git a/src/pymatching/sparse_blossom/tracker/radix_heap_queue.h b/src/pymatching/sparse_blossom/tracker/radix_heap_queue.h
index 70877eb..4bf5606 100644
--- a/src/pymatching/sparse_blossom/tracker/radix_heap_queue.h
+++ b/src/pymatching/sparse_blossom/tracker/radix_heap_queue.h
@@ -25,6 +25,9 @@
 #include "pymatching/sparse_blossom/ints.h"
 #include "pymatching/sparse_blossom/tracker/cyclic.h"
 #include "pymatching/sparse_blossom/tracker/flood_check_event.h"
+#ifdef PYMATCHING_SIM_HOOKS
+#include "pymatching/sparse_blossom/tracker/sim_hooks.h"
+#endif
 
 namespace pm {
 
@@ -155,6 +158,9 @@ struct radix_heap_queue {
             }
         }
 
+#ifdef PYMATCHING_SIM_HOOKS
+        sim_hooks::choose_next_simultaneous_event(bit_buckets[0]);
+#endif
         _num_enqueued--;
         FloodCheckEvent result = bit_buckets[0].back();
         bit_buckets[0].pop_back();
diff --git a/src/pymatching/sparse_blossom/tracker/sim_hooks.h b/src/pymatching/sparse_blossom/tracker/sim_hooks.h
new file mode 100644
index 0000000..b2b0bdc
--- /dev/null
+++ b/src/pymatching/sparse_blossom/tracker/sim_hooks.h
@@ -0,0 +1,48 @@
+// Copyright 2022 PyMatching Contributors
+//
+// Licensed under the Apache License, Version 2.0 (the "License");
+// you may not use this file except in compliance with the License.
+// You may obtain a copy of the License at
+//
+//      http://www.apache.org/licenses/LICENSE-2.0
+//
+// Unless required by applicable law or agreed to in writing, software
+// distributed under the License is distributed on an "AS IS" BASIS,
+// WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+// See the License for the specific language governing permissions and
+// limitations under the License.
+
+#ifndef PYMATCHING2_SIM_HOOKS_H
+#define PYMATCHING2_SIM_HOOKS_H
+
+/// Seam for deterministic simulation. Only compiled when PYMATCHING_SIM_HOOKS is defined.
+#ifdef PYMATCHING_SIM_HOOKS
+
+#include <cstddef>
+#include <utility>
+
+namespace pm {
+namespace sim_hooks {
+
+/// Picks which of `num_events` (at least 2) events that are due at the same instant happens next.
+/// The event queue makes no promise about the order of simultaneous events. When this is null, the
+/// order is the one that is used when the hooks are compiled out.
+inline thread_local size_t (*pick_simultaneous_event)(size_t num_events) = nullptr;
+
+/// Moves the picked event to the back of a bucket of simultaneous events, where it is taken from.
+template <typename Bucket>
+inline void choose_next_simultaneous_event(Bucket &bucket) {
+    if (pick_simultaneous_event != nullptr && bucket.size() > 1) {
+        size_t k = pick_simultaneous_event(bucket.size());
+        if (k + 1 < bucket.size()) {
+            std::swap(bucket[k], bucket.back());
+        }
+    }
+}
+
+}  // namespace sim_hooks
+}  // namespace pm
+
+#endif
+
+#endif
-- 
2.43.0


From c2fda717497cbc5eda53921358fb83b8ed44e253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:48 +0000
Subject: [PATCH 02/21] fix: keep wrapped radii in 64 bits

A region can grow further than 2^31 discretised units (with fractional weights
the heaviest edge alone is 2^25 units). The 32-bit wrapped radius then wrapped
around and the decode never finished.
---
 src/pymatching/sparse_blossom/flooder/detector_node.cc | 4 ++--
 src/pymatching/sparse_blossom/flooder/detector_node.h  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pymatching/sparse_blossom/flooder/detector_node.cc b/src/pymatching/sparse_blossom/flooder/detector_node.cc
index 3e90c71..733a7b3 100644
--- a/src/pymatching/sparse_blossom/flooder/detector_node.cc
+++ b/src/pymatching/sparse_blossom/flooder/detector_node.cc
@@ -20,11 +20,11 @@
 
 namespace pm {
 
-int32_t DetectorNode::compute_wrapped_radius() const {
+cumulative_time_int DetectorNode::compute_wrapped_radius() const {
     if (reached_from_source == nullptr) {
         return 0;
     }
-    int32_t total = 0;
+    cumulative_time_int total = 0;
     auto r = region_that_arrived;
     while (r != region_that_arrived_top) {
         total += r->radius.y_intercept();
diff --git a/src/pymatching/sparse_blossom/flooder/detector_node.h b/src/pymatching/sparse_blossom/flooder/detector_node.h
index 446de58..deb4bb3 100644
--- a/src/pymatching/sparse_blossom/flooder/detector_node.h
+++ b/src/pymatching/sparse_blossom/flooder/detector_node.h
@@ -51,7 +51,7 @@ class DetectorNode {
     GraphFillRegion* region_that_arrived_top;
     /// Stores the latest value of `compute_wrapped_radius` so it doesn't need to be recomputed
     /// as much. Updated whenever region_that_arrived_top changes.
-    int32_t wrapped_radius_cached;
+    cumulative_time_int wrapped_radius_cached;
     /// Of the detection events within the owning region, which one is this node linked to.
     DetectorNode* reached_from_source;
     /// Which observables are crossed, travelling from this node to the source
@@ -95,7 +95,7 @@ class DetectorNode {
     /// sum of the radius of (always frozen) not-top-level regions containing this node. It is a
     /// useful intermediate value for quickly computing the local radius of the node, because it
     /// accounts for everything except the (potentially varying) top level region.
-    int32_t compute_wrapped_radius() const;
+    cumulative_time_int compute_wrapped_radius() const;
 
     /// It works out the local radius of the node, but bounds it to not go beyond the given bounding
     /// region. This is useful for understanding the internal structure of the blossoms.
-- 
2.43.0


From 0d102fc40906c5a4d2f15920bb35e93da6e527b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:48 +0000
Subject: [PATCH 03/21] fix: check all detection events before adding any

A detection event index outside the graph was reported after earlier detection
events of the same syndrome had been queued (and negative-weight marks set), so
every later decode with that decoder failed or was wrong.
---
 .../sparse_blossom/driver/mwpm_decoding.cc      | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/pymatching/sparse_blossom/driver/mwpm_decoding.cc b/src/pymatching/sparse_blossom/driver/mwpm_decoding.cc
index 3f08c37..df5f15b 100644
--- a/src/pymatching/sparse_blossom/driver/mwpm_decoding.cc
+++ b/src/pymatching/sparse_blossom/driver/mwpm_decoding.cc
@@ -83,16 +83,19 @@ void process_timeline_until_completion(pm::Mwpm& mwpm, const std::vector<uint64_
     if (!mwpm.flooder.queue.empty()) {
         throw std::invalid_argument("!mwpm.flooder.queue.empty()");
     }
+    // Validate all detection events before any of them is added, so that a bad index leaves no trace.
+    for (auto& detection : detection_events) {
+        if (detection >= mwpm.flooder.graph.nodes.size())
+            throw std::invalid_argument(
+                "The detection event with index " + std::to_string(detection) +
+                " does not correspond to a node in the graph, which only has " +
+                std::to_string(mwpm.flooder.graph.nodes.size()) + " nodes.");
+    }
     mwpm.flooder.queue.cur_time = 0;
 
     if (mwpm.flooder.negative_weight_detection_events.empty()) {
         // Just add detection events if graph has no negative weights
         for (auto& detection : detection_events) {
-            if (detection >= mwpm.flooder.graph.nodes.size())
-                throw std::invalid_argument(
-                    "The detection event with index " + std::to_string(detection) +
-                    " does not correspond to a node in the graph, which only has " +
-                    std::to_string(mwpm.flooder.graph.nodes.size()) + " nodes.");
             if (detection + 1 > mwpm.flooder.graph.is_user_graph_boundary_node.size() ||
                 !mwpm.flooder.graph.is_user_graph_boundary_node[detection])
                 mwpm.create_detection_event(&mwpm.flooder.graph.nodes[detection]);
@@ -106,10 +109,6 @@ void process_timeline_until_completion(pm::Mwpm& mwpm, const std::vector<uint64_
 
         // Now add detection events for unmarked nodes
         for (auto& detection : detection_events) {
-            if (detection >= mwpm.flooder.graph.nodes.size())
-                throw std::invalid_argument(
-                    "Detection event index `" + std::to_string(detection) +
-                    "` is larger than any detector node index in the graph.");
             if (!mwpm.flooder.graph.nodes[detection].radius_of_arrival) {
                 if (detection + 1 > mwpm.flooder.graph.is_user_graph_boundary_node.size() ||
                     !mwpm.flooder.graph.is_user_graph_boundary_node[detection])
-- 
2.43.0


From 8d6776ebed51e90a0e77be9e9a9c03f52f7389e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:15 +0000
Subject: [PATCH 04/21] fix: leave the decoder usable when a decode is
 abandoned by an exception

A failed memory allocation (or any other exception) in the middle of a decode
left queued events, half-registered arena objects, flipped edge markers and
reweighted edges behind, so that later decodes failed, crashed or were wrong;
an unchecked malloc in Arena was dereferenced, and moving a MatchingGraph
allocated inside a noexcept constructor.
---
 src/pymatching/sparse_blossom/arena.h         | 12 +++++++++-
 .../sparse_blossom/driver/mwpm_decoding.cc    | 24 ++++++++++++++++++-
 .../sparse_blossom/flooder/graph.cc           |  4 ++--
 src/pymatching/sparse_blossom/matcher/mwpm.cc |  9 ++++++-
 .../sparse_blossom/tracker/radix_heap_queue.h |  8 +++----
 5 files changed, 47 insertions(+), 10 deletions(-)

diff --git a/src/pymatching/sparse_blossom/arena.h b/src/pymatching/sparse_blossom/arena.h
index ed2e2e6..c887582 100644
--- a/src/pymatching/sparse_blossom/arena.h
+++ b/src/pymatching/sparse_blossom/arena.h
@@ -16,7 +16,9 @@
 #define PYMATCHING_FILL_MATCH_ARENA_H
 
 #include <algorithm>
+#include <cstdlib>
 #include <iostream>
+#include <new>
 #include <vector>
 
 namespace pm {
@@ -37,8 +39,16 @@ struct Arena {
 
     T *alloc_unconstructed() {
         if (available.empty()) {
+            // Make room in both lists first, so that a failed allocation changes nothing.
+            available.push_back(nullptr);
+            available.pop_back();
+            allocated.push_back(nullptr);
             T *p = (T *)malloc(sizeof(T));
-            allocated.push_back(p);
+            if (p == nullptr) {
+                allocated.pop_back();
+                throw std::bad_alloc();
+            }
+            allocated.back() = p;
             available.push_back(p);
         }
         T *result = available.back();
diff --git a/src/pymatching/sparse_blossom/driver/mwpm_decoding.cc b/src/pymatching/sparse_blossom/driver/mwpm_decoding.cc
index df5f15b..7d160c2 100644
--- a/src/pymatching/sparse_blossom/driver/mwpm_decoding.cc
+++ b/src/pymatching/sparse_blossom/driver/mwpm_decoding.cc
@@ -14,6 +14,8 @@
 
 #include "pymatching/sparse_blossom/driver/mwpm_decoding.h"
 
+#include <exception>
+
 #include "pymatching/sparse_blossom/driver/user_graph.h"
 
 pm::ExtendedMatchingResult::ExtendedMatchingResult() : obs_crossed(), weight(0) {
@@ -79,6 +81,22 @@ pm::Mwpm pm::detector_error_model_to_mwpm(
     return user_graph.to_mwpm(num_distinct_weights, ensure_search_flooder_included);
 }
 
+namespace {
+
+/// Returns the decoder to its initial state if a decode is abandoned because of an exception.
+struct ResetMwpmOnException {
+    pm::Mwpm& mwpm;
+    int num_exceptions_before;
+    explicit ResetMwpmOnException(pm::Mwpm& mwpm) : mwpm(mwpm), num_exceptions_before(std::uncaught_exceptions()) {
+    }
+    ~ResetMwpmOnException() {
+        if (std::uncaught_exceptions() > num_exceptions_before)
+            mwpm.reset();
+    }
+};
+
+}  // namespace
+
 void process_timeline_until_completion(pm::Mwpm& mwpm, const std::vector<uint64_t>& detection_events) {
     if (!mwpm.flooder.queue.empty()) {
         throw std::invalid_argument("!mwpm.flooder.queue.empty()");
@@ -137,7 +155,6 @@ void process_timeline_until_completion(pm::Mwpm& mwpm, const std::vector<uint64_
 
     // If some alternating tree nodes remain, a perfect matching cannot be found
     if (mwpm.node_arena.allocated.size() != mwpm.node_arena.available.size()) {
-        mwpm.reset();
         throw std::invalid_argument(
             "No perfect matching could be found. This likely means that the syndrome has odd "
             "parity in the support of a connected component without a boundary.");
@@ -165,6 +182,7 @@ void shatter_blossoms_for_all_detection_events_and_extract_match_edges(
 
 pm::MatchingResult pm::decode_detection_events_for_up_to_64_observables(
     pm::Mwpm& mwpm, const std::vector<uint64_t>& detection_events, bool edge_correlations) {
+    ResetMwpmOnException reset_on_exception(mwpm);
     if (edge_correlations) {
         // Edge correlations might also be called 2-pass matching. This is the slowest and
         // highest-accuracy reweighting rule for correlated decoding in which we first decode to edges,
@@ -198,6 +216,7 @@ void pm::decode_detection_events(
     uint8_t* obs_begin_ptr,
     pm::total_weight_int& weight,
     bool edge_correlations) {
+    ResetMwpmOnException reset_on_exception(mwpm);
     if (edge_correlations) {
         // Edge correlations might also be called 2-pass matching. This is the slowest and
         // highest-accuracy reweighting rule for correlated decoding in which we first decode to edges,
@@ -247,6 +266,7 @@ void pm::decode_detection_events(
 }
 
 void pm::decode_detection_events_to_match_edges(pm::Mwpm& mwpm, const std::vector<uint64_t>& detection_events) {
+    ResetMwpmOnException reset_on_exception(mwpm);
     if (mwpm.flooder.negative_weight_sum != 0)
         throw std::invalid_argument(
             "Decoding to matched detection events not supported for graphs containing edges with negative weights.");
@@ -266,6 +286,7 @@ void flip_edge(const pm::SearchGraphEdge& edge) {
 
 void pm::decode_detection_events_to_edges(
     pm::Mwpm& mwpm, const std::vector<uint64_t>& detection_events, std::vector<int64_t>& edges) {
+    ResetMwpmOnException reset_on_exception(mwpm);
     if (mwpm.flooder.graph.nodes.size() != mwpm.search_flooder.graph.nodes.size()) {
         throw std::invalid_argument(
             "Mwpm object does not contain search flooder, which is required to decode to edges.");
@@ -326,6 +347,7 @@ void pm::decode_detection_events_to_edges(
 
 void pm::decode_detection_events_to_edges_with_edge_correlations(
     pm::Mwpm& mwpm, const std::vector<uint64_t>& detection_events, std::vector<int64_t>& edges) {
+    ResetMwpmOnException reset_on_exception(mwpm);
     decode_detection_events_to_edges(mwpm, detection_events, edges);
     mwpm.flooder.graph.reweight_for_edges(edges);
     mwpm.search_flooder.graph.reweight_for_edges(edges);
diff --git a/src/pymatching/sparse_blossom/flooder/graph.cc b/src/pymatching/sparse_blossom/flooder/graph.cc
index 5c1b885..30b3643 100644
--- a/src/pymatching/sparse_blossom/flooder/graph.cc
+++ b/src/pymatching/sparse_blossom/flooder/graph.cc
@@ -133,8 +133,8 @@ MatchingGraph::MatchingGraph(MatchingGraph&& graph) noexcept
       num_nodes(graph.num_nodes),
       num_observables(graph.num_observables),
       normalising_constant(graph.normalising_constant),
-      previous_weights(graph.previous_weights),
-      edges_to_implied_weights_unconverted(graph.edges_to_implied_weights_unconverted),
+      previous_weights(std::move(graph.previous_weights)),
+      edges_to_implied_weights_unconverted(std::move(graph.edges_to_implied_weights_unconverted)),
       loaded_from_dem_without_correlations(graph.loaded_from_dem_without_correlations) {
 }
 
diff --git a/src/pymatching/sparse_blossom/matcher/mwpm.cc b/src/pymatching/sparse_blossom/matcher/mwpm.cc
index 2dd7314..d289e51 100644
--- a/src/pymatching/sparse_blossom/matcher/mwpm.cc
+++ b/src/pymatching/sparse_blossom/matcher/mwpm.cc
@@ -469,11 +469,18 @@ Mwpm::Mwpm() {
 }
 
 void Mwpm::reset() {
+    flooder.graph.undo_reweights();
+    search_flooder.graph.undo_reweights();
     for (auto &n : flooder.graph.nodes)
         n.reset();
-    for (auto &m : search_flooder.graph.nodes)
+    for (auto &m : search_flooder.graph.nodes) {
         m.reset();
+        for (auto &marker : m.neighbor_markers)
+            marker &= ~FLIPPED;
+    }
     flooder.queue.clear();
+    flooder.match_edges.clear();
+    search_flooder.reset();
     node_arena.~Arena();
     flooder.region_arena.~Arena();
 }
diff --git a/src/pymatching/sparse_blossom/tracker/radix_heap_queue.h b/src/pymatching/sparse_blossom/tracker/radix_heap_queue.h
index 4bf5606..5018d82 100644
--- a/src/pymatching/sparse_blossom/tracker/radix_heap_queue.h
+++ b/src/pymatching/sparse_blossom/tracker/radix_heap_queue.h
@@ -221,12 +221,10 @@ std::string radix_heap_queue<use_validation>::str() const {
 
 template <bool use_validation>
 void radix_heap_queue<use_validation>::clear() {
-    size_t b = 0;
-    while (!empty()) {
-        _num_enqueued -= bit_buckets[b].size();
-        bit_buckets[b].clear();
-        b++;
+    for (auto &bucket : bit_buckets) {
+        bucket.clear();
     }
+    _num_enqueued = 0;
 }
 
 template <bool use_validation>
-- 
2.43.0


From 7c2b6d149886dc22a1be1215c9a368bc2f9101ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:15 +0000
Subject: [PATCH 05/21] fix: report path queries that have no path instead of
 crashing

A query between disconnected nodes, to a boundary that does not exist or from a
node to itself dereferenced a null collision edge; an index outside the graph
was read before it was checked. A search abandoned by an exception is now
cleaned up too.
---
 src/pymatching/sparse_blossom/driver/user_graph.cc |  8 +++++---
 .../sparse_blossom/search/search_flooder.cc        |  6 +++---
 .../sparse_blossom/search/search_flooder.h         | 14 +++++++++++---
 3 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/pymatching/sparse_blossom/driver/user_graph.cc b/src/pymatching/sparse_blossom/driver/user_graph.cc
index 3133439..106a0d1 100644
--- a/src/pymatching/sparse_blossom/driver/user_graph.cc
+++ b/src/pymatching/sparse_blossom/driver/user_graph.cc
@@ -366,13 +366,15 @@ void pm::UserGraph::handle_dem_instruction_include_correlations(
 
 void pm::UserGraph::get_nodes_on_shortest_path_from_source(size_t src, size_t dst, std::vector<size_t>& out_nodes) {
     auto& mwpm = get_mwpm_with_search_graph();
-    bool src_is_boundary = is_boundary_node(src);
-    bool dst_is_boundary = is_boundary_node(dst);
     if (src != SIZE_MAX && src >= nodes.size())
         throw std::invalid_argument("node " + std::to_string(src) + " is not in the graph");
     if (dst != SIZE_MAX && dst >= nodes.size())
         throw std::invalid_argument("node " + std::to_string(dst) + " is not in the graph");
-    if (!src_is_boundary) {
+    bool src_is_boundary = is_boundary_node(src);
+    bool dst_is_boundary = is_boundary_node(dst);
+    if (src == dst && !src_is_boundary) {
+        out_nodes.push_back(src);
+    } else if (!src_is_boundary) {
         size_t dst_tmp = dst_is_boundary ? SIZE_MAX : dst;
         mwpm.search_flooder.iter_edges_on_shortest_path_from_source(src, dst_tmp, [&](const pm::SearchGraphEdge edge) {
             out_nodes.push_back(edge.detector_node - &mwpm.search_flooder.graph.nodes[0]);
diff --git a/src/pymatching/sparse_blossom/search/search_flooder.cc b/src/pymatching/sparse_blossom/search/search_flooder.cc
index 78534cd..2117511 100644
--- a/src/pymatching/sparse_blossom/search/search_flooder.cc
+++ b/src/pymatching/sparse_blossom/search/search_flooder.cc
@@ -77,21 +77,21 @@ void pm::SearchFlooder::reschedule_events_at_search_detector_node(pm::SearchDete
 }
 
 void pm::SearchFlooder::do_search_starting_at_empty_search_detector_node(pm::SearchDetectorNode *src) {
+    reached_nodes.push_back(src);
     src->reached_from_source = src;
     src->index_of_predecessor = SIZE_MAX;
     src->distance_from_source = 0;
-    reached_nodes.push_back(src);
     reschedule_events_at_search_detector_node(*src);
 }
 
 void pm::SearchFlooder::do_search_exploring_empty_detector_node(
     pm::SearchDetectorNode &empty_node, size_t empty_to_from_index) {
+    reached_nodes.push_back(&empty_node);
     auto from_node = empty_node.neighbors[empty_to_from_index];
     empty_node.reached_from_source = from_node->reached_from_source;
     empty_node.index_of_predecessor = empty_to_from_index;
     empty_node.distance_from_source =
         empty_node.neighbor_weights[empty_to_from_index] + from_node->distance_from_source;
-    reached_nodes.push_back(&empty_node);
     reschedule_events_at_search_detector_node(empty_node);
 }
 
@@ -146,7 +146,7 @@ pm::SearchGraphEdge pm::SearchFlooder::run_until_collision(pm::SearchDetectorNod
             }
         }
     }
-    return {nullptr, SIZE_MAX};
+    throw std::invalid_argument("There is no path between the two nodes in the graph.");
 }
 
 void pm::SearchFlooder::reset_graph() {
diff --git a/src/pymatching/sparse_blossom/search/search_flooder.h b/src/pymatching/sparse_blossom/search/search_flooder.h
index 6f3f60b..e0ea6d8 100644
--- a/src/pymatching/sparse_blossom/search/search_flooder.h
+++ b/src/pymatching/sparse_blossom/search/search_flooder.h
@@ -58,6 +58,15 @@ class SearchFlooder {
     void iter_edges_on_shortest_path_from_source(size_t src, size_t dst, Callable handle_edge);
     void reset_graph();
     void reset();
+
+   private:
+    /// Ends a search, however it is left.
+    struct ResetOnScopeExit {
+        SearchFlooder& flooder;
+        ~ResetOnScopeExit() {
+            flooder.reset();
+        }
+    };
 };
 
 template <typename Callable>
@@ -84,9 +93,9 @@ void SearchFlooder::iter_edges_tracing_back_from_collision_edge(
 template <typename Callable>
 void SearchFlooder::iter_edges_on_shortest_path_from_middle(size_t src, size_t dst, Callable handle_edge) {
     SearchDetectorNode* loc_to_ptr = dst == SIZE_MAX ? nullptr : &graph.nodes[dst];
+    ResetOnScopeExit reset_on_scope_exit{*this};
     auto collision_edge = run_until_collision(&graph.nodes[src], loc_to_ptr);
     iter_edges_tracing_back_from_collision_edge(collision_edge, handle_edge);
-    reset();
 }
 
 template <typename Callable>
@@ -104,6 +113,7 @@ template <typename Callable>
 void SearchFlooder::iter_edges_on_shortest_path_from_source(size_t src, size_t dst, Callable handle_edge) {
     SearchDetectorNode* loc_from_ptr = &graph.nodes[src];
     SearchDetectorNode* loc_to_ptr = dst == SIZE_MAX ? nullptr : &graph.nodes[dst];
+    ResetOnScopeExit reset_on_scope_exit{*this};
     auto collision_edge = run_until_collision(loc_from_ptr, loc_to_ptr);
 
     std::vector<SearchGraphEdge> path_edges_1;
@@ -133,8 +143,6 @@ void SearchFlooder::iter_edges_on_shortest_path_from_source(size_t src, size_t d
         for (auto& x : path_edges_2)
             handle_edge(x);
     }
-
-    reset();
 }
 
 }  // namespace pm
-- 
2.43.0


From dc7622ec09f91045302ead64292894e235078e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:15 +0000
Subject: [PATCH 06/21] fix: count the observables of an edge that replaces
 another

Replacing an edge (merge strategies replace and smallest-weight) by one with a
larger observable index did not enlarge the number of observables, so decoding
wrote past the end of the caller's array or lost the observable. The
observables are also assigned first: if that allocation fails, the edge is
unchanged.
---
 src/pymatching/sparse_blossom/driver/user_graph.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pymatching/sparse_blossom/driver/user_graph.cc b/src/pymatching/sparse_blossom/driver/user_graph.cc
index 106a0d1..42759d6 100644
--- a/src/pymatching/sparse_blossom/driver/user_graph.cc
+++ b/src/pymatching/sparse_blossom/driver/user_graph.cc
@@ -97,10 +97,15 @@ void pm::UserGraph::merge_edge_or_boundary_edge(
             throw std::invalid_argument("Merge strategy not recognised.");
         }
         // Update the existing edge weight and probability in the adjacency list of `node`
+        if (use_new_observables) {
+            neighbor.edge_it->observable_indices = parallel_observables;
+            for (auto& obs : parallel_observables) {
+                if (obs + 1 > _num_observables)
+                    _num_observables = obs + 1;
+            }
+        }
         neighbor.edge_it->weight = new_weight;
         neighbor.edge_it->error_probability = new_error_probability;
-        if (use_new_observables)
-            neighbor.edge_it->observable_indices = parallel_observables;
 
         _mwpm_needs_updating = true;
         if (new_error_probability < 0 || new_error_probability > 1)
-- 
2.43.0


From 94d8aa79c867f16eac4eec07b3a2a0ba4e07a9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:15 +0000
Subject: [PATCH 07/21] fix: a graph edit that fails for lack of memory leaves
 the graph unchanged

add_or_merge_edge could leave an edge that only one of its nodes knows about,
and set_boundary could lose part of the boundary.
---
 .../sparse_blossom/driver/user_graph.cc       | 47 ++++++++++++++-----
 1 file changed, 34 insertions(+), 13 deletions(-)

diff --git a/src/pymatching/sparse_blossom/driver/user_graph.cc b/src/pymatching/sparse_blossom/driver/user_graph.cc
index 42759d6..b5d24bc 100644
--- a/src/pymatching/sparse_blossom/driver/user_graph.cc
+++ b/src/pymatching/sparse_blossom/driver/user_graph.cc
@@ -121,17 +121,28 @@ void pm::UserGraph::add_or_merge_edge(
     double error_probability,
     MERGE_STRATEGY merge_strategy) {
     auto max_id = std::max(node1, node2);
+    size_t num_nodes_before = nodes.size();
     if (max_id + 1 > nodes.size())
         nodes.resize(max_id + 1);
 
     size_t idx = nodes[node1].index_of_neighbor(node2);
 
     if (idx == SIZE_MAX) {
-        pm::UserEdge edge = {node1, node2, observables, weight, error_probability};
-        edges.push_back(edge);
-        nodes[node1].neighbors.push_back({std::prev(edges.end()), 1});
-        if (node1 != node2)
-            nodes[node2].neighbors.push_back({std::prev(edges.end()), 0});
+        size_t num_edges_before = edges.size();
+        size_t num_neighbors_before = nodes[node1].neighbors.size();
+        try {
+            pm::UserEdge edge = {node1, node2, observables, weight, error_probability};
+            edges.push_back(edge);
+            nodes[node1].neighbors.push_back({std::prev(edges.end()), 1});
+            if (node1 != node2)
+                nodes[node2].neighbors.push_back({std::prev(edges.end()), 0});
+        } catch (...) {
+            // Do not leave a partly added edge behind.
+            nodes[node1].neighbors.resize(num_neighbors_before);
+            edges.resize(num_edges_before);
+            nodes.resize(num_nodes_before);
+            throw;
+        }
 
         for (auto& obs : observables) {
             if (obs + 1 > _num_observables)
@@ -151,15 +162,24 @@ void pm::UserGraph::add_or_merge_boundary_edge(
     double weight,
     double error_probability,
     MERGE_STRATEGY merge_strategy) {
+    size_t num_nodes_before = nodes.size();
     if (node + 1 > nodes.size())
         nodes.resize(node + 1);
 
     size_t idx = nodes[node].index_of_neighbor(SIZE_MAX);
 
     if (idx == SIZE_MAX) {
-        pm::UserEdge edge = {node, SIZE_MAX, observables, weight, error_probability};
-        edges.push_back(edge);
-        nodes[node].neighbors.push_back({std::prev(edges.end()), 1});
+        size_t num_edges_before = edges.size();
+        try {
+            pm::UserEdge edge = {node, SIZE_MAX, observables, weight, error_probability};
+            edges.push_back(edge);
+            nodes[node].neighbors.push_back({std::prev(edges.end()), 1});
+        } catch (...) {
+            // Do not leave a partly added edge behind.
+            edges.resize(num_edges_before);
+            nodes.resize(num_nodes_before);
+            throw;
+        }
 
         for (auto& obs : observables) {
             if (obs + 1 > _num_observables)
@@ -188,14 +208,15 @@ pm::UserGraph::UserGraph(size_t num_nodes, size_t num_observables)
 }
 
 void pm::UserGraph::set_boundary(const std::set<size_t>& boundary) {
+    // Allocate first, so that a failure changes nothing.
+    std::set<size_t> new_boundary_nodes = boundary;
+    if (!boundary.empty() && *boundary.rbegin() >= nodes.size())
+        nodes.resize(*boundary.rbegin() + 1);
     for (auto& n : boundary_nodes)
         nodes[n].is_boundary = false;
-    boundary_nodes = boundary;
-    for (auto& n : boundary_nodes) {
-        if (n >= nodes.size())
-            nodes.resize(n + 1);
+    boundary_nodes = std::move(new_boundary_nodes);
+    for (auto& n : boundary_nodes)
         nodes[n].is_boundary = true;
-    }
     _mwpm_needs_updating = true;
 }
 
-- 
2.43.0


From 57f505ea5c16388bd05aa43cf0422e350c8ff827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:07 +0000
Subject: [PATCH 08/21] fix: report read and write errors of the predict and
 count_mistakes commands

A read error was taken for the end of the data and a full disk went unnoticed,
with exit code 0 and missing or wrong output.
---
 .../sparse_blossom/driver/namespaced_main.cc  | 35 +++++++++++++++----
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/src/pymatching/sparse_blossom/driver/namespaced_main.cc b/src/pymatching/sparse_blossom/driver/namespaced_main.cc
index 760e621..5ba91e6 100644
--- a/src/pymatching/sparse_blossom/driver/namespaced_main.cc
+++ b/src/pymatching/sparse_blossom/driver/namespaced_main.cc
@@ -24,6 +24,28 @@
 #include "pymatching/sparse_blossom/driver/user_graph.h"
 #include "stim.h"
 
+namespace {
+
+/// A failed read looks like the end of the file to the record readers, so it has to be asked for.
+void check_for_read_error(FILE *file, const char *name) {
+    if (ferror(file)) {
+        throw std::invalid_argument(std::string("Failed to read ") + name + ".");
+    }
+}
+
+/// Flushes (and closes, unless it is stdout) an output file, reporting data that could not be written.
+void finish_output(FILE *file, const char *name) {
+    bool failed = fflush(file) != 0 || ferror(file);
+    if (file != stdout) {
+        failed |= fclose(file) != 0;
+    }
+    if (failed) {
+        throw std::invalid_argument(std::string("Failed to write ") + name + ".");
+    }
+}
+
+}  // namespace
+
 int main_predict(int argc, const char **argv) {
     stim::check_for_unknown_arguments(
         {
@@ -51,6 +73,7 @@ int main_predict(int argc, const char **argv) {
     bool enable_correlations = stim::find_bool_argument("--enable_correlations", argc, argv);
 
     stim::DetectorErrorModel dem = stim::DetectorErrorModel::from_file(dem_file);
+    check_for_read_error(dem_file, "the detector error model");
     fclose(dem_file);
 
     size_t num_obs = dem.count_observables();
@@ -78,9 +101,8 @@ int main_predict(int argc, const char **argv) {
         sparse_shot.clear();
         res.reset();
     }
-    if (predictions_out != stdout) {
-        fclose(predictions_out);
-    }
+    check_for_read_error(shots_in, "the shot data");
+    finish_output(predictions_out, "the predictions");
     if (shots_in != stdin) {
         fclose(shots_in);
     }
@@ -123,6 +145,7 @@ int main_count_mistakes(int argc, const char **argv) {
     }
 
     stim::DetectorErrorModel dem = stim::DetectorErrorModel::from_file(dem_file);
+    check_for_read_error(dem_file, "the detector error model");
     fclose(dem_file);
 
     size_t num_obs = dem.count_observables();
@@ -150,6 +173,7 @@ int main_count_mistakes(int argc, const char **argv) {
             obs_shot.obs_mask = sparse_shot.obs_mask;
         } else {
             if (!obs_reader->start_and_read_entire_record(obs_shot)) {
+                check_for_read_error(obs_in, "the observable data");
                 throw std::invalid_argument("Obs data ended before shot data ended.");
             }
         }
@@ -161,10 +185,9 @@ int main_count_mistakes(int argc, const char **argv) {
         obs_shot.clear();
         num_shots++;
     }
+    check_for_read_error(shots_in, "the shot data");
     fprintf(stats_out, "%zu / %zu\n", num_mistakes, num_shots);
-    if (stats_out != stdout) {
-        fclose(stats_out);
-    }
+    finish_output(stats_out, "the statistics");
     if (shots_in != stdin) {
         fclose(shots_in);
     }
-- 
2.43.0


From edee99e0b9a0de4b6c61f7820fe1822b414f8266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:07 +0000
Subject: [PATCH 09/21] fix: count mistakes correctly with more than 64
 observables

count_mistakes used the decode function for up to 64 observables whatever the
error model, and compared only the first 64 observables.
---
 .../sparse_blossom/driver/namespaced_main.cc          | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/pymatching/sparse_blossom/driver/namespaced_main.cc b/src/pymatching/sparse_blossom/driver/namespaced_main.cc
index 5ba91e6..022c2bf 100644
--- a/src/pymatching/sparse_blossom/driver/namespaced_main.cc
+++ b/src/pymatching/sparse_blossom/driver/namespaced_main.cc
@@ -165,6 +165,7 @@ int main_count_mistakes(int argc, const char **argv) {
 
     stim::SparseShot sparse_shot;
     stim::SparseShot obs_shot;
+    pm::ExtendedMatchingResult res(mwpm.flooder.graph.num_observables);
     size_t num_mistakes = 0;
     size_t num_shots = 0;
     auto start = std::chrono::steady_clock::now();
@@ -177,12 +178,16 @@ int main_count_mistakes(int argc, const char **argv) {
                 throw std::invalid_argument("Obs data ended before shot data ended.");
             }
         }
-        auto res = pm::decode_detection_events_for_up_to_64_observables(mwpm, sparse_shot.hits, enable_correlations);
-        if (obs_shot.obs_mask_as_u64() != res.obs_mask) {
-            num_mistakes++;
+        pm::decode_detection_events(mwpm, sparse_shot.hits, res.obs_crossed.data(), res.weight, enable_correlations);
+        for (size_t k = 0; k < num_obs; k++) {
+            if (obs_shot.obs_mask[k] != (bool)res.obs_crossed[k]) {
+                num_mistakes++;
+                break;
+            }
         }
         sparse_shot.clear();
         obs_shot.clear();
+        res.reset();
         num_shots++;
     }
     check_for_read_error(shots_in, "the shot data");
-- 
2.43.0


From 23d51578cfb788f909c53f9380da798b2e780a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:07 +0000
Subject: [PATCH 10/21] fix: count_mistakes requires a source of observables

Without --obs_in (whose default is stdin, not null) and without
--in_includes_appended_observables, the predictions were silently compared with
all-zero observables.
---
 src/pymatching/sparse_blossom/driver/namespaced_main.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymatching/sparse_blossom/driver/namespaced_main.cc b/src/pymatching/sparse_blossom/driver/namespaced_main.cc
index 022c2bf..c1db440 100644
--- a/src/pymatching/sparse_blossom/driver/namespaced_main.cc
+++ b/src/pymatching/sparse_blossom/driver/namespaced_main.cc
@@ -140,7 +140,7 @@ int main_count_mistakes(int argc, const char **argv) {
     bool enable_correlations = stim::find_bool_argument("--enable_correlations", argc, argv);
 
     bool time = stim::find_bool_argument("--time", argc, argv);
-    if (!append_obs && obs_in == nullptr) {
+    if (!append_obs && obs_in == stdin) {
         throw std::invalid_argument("Must specify --in_includes_appended_observables or --obs_in.");
     }
 
-- 
2.43.0


From 22e25e9ad6ddf1247aad799bf47305ac59ff442e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:07 +0000
Subject: [PATCH 11/21] fix: print decoding times of more than 2^31
 microseconds

---
 src/pymatching/sparse_blossom/driver/namespaced_main.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymatching/sparse_blossom/driver/namespaced_main.cc b/src/pymatching/sparse_blossom/driver/namespaced_main.cc
index c1db440..6defa2c 100644
--- a/src/pymatching/sparse_blossom/driver/namespaced_main.cc
+++ b/src/pymatching/sparse_blossom/driver/namespaced_main.cc
@@ -200,7 +200,7 @@ int main_count_mistakes(int argc, const char **argv) {
     auto end = std::chrono::steady_clock::now();
     auto microseconds = (double)std::chrono::duration_cast<std::chrono::microseconds>(end - start).count();
     if (time) {
-        std::cerr << "Total decoding time: " << (int)microseconds << "us\n";
+        std::cerr << "Total decoding time: " << (int64_t)microseconds << "us\n";
         std::cerr << "Decoding time per shot: " << (microseconds / num_shots) << "us\n";
     }
 
-- 
2.43.0


From d31212ca547c45a0bb5bbf01c9f7282542db2e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:37 +0000
Subject: [PATCH 12/21] fix: include negative-weight self-loops in the edges of
 the solution

A self-loop with negative weight is part of every solution (its weight and
observables are counted), but decoding to edges left it out.
---
 .../sparse_blossom/driver/mwpm_decoding.cc           |  9 +++++++++
 src/pymatching/sparse_blossom/flooder/graph.cc       |  2 ++
 src/pymatching/sparse_blossom/search/search_graph.cc | 12 +++++++-----
 3 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/pymatching/sparse_blossom/driver/mwpm_decoding.cc b/src/pymatching/sparse_blossom/driver/mwpm_decoding.cc
index 7d160c2..ce2b989 100644
--- a/src/pymatching/sparse_blossom/driver/mwpm_decoding.cc
+++ b/src/pymatching/sparse_blossom/driver/mwpm_decoding.cc
@@ -299,6 +299,8 @@ void pm::decode_detection_events_to_edges(
             mwpm, mwpm.flooder.negative_weight_detection_events);
     // Flip edges with negative weights and add to edges vector.
     for (const auto& neg_node_pair : mwpm.search_flooder.graph.negative_weight_edges) {
+        if (neg_node_pair.first == neg_node_pair.second)
+            continue;  // Self-loops have no neighbor to mark, and are added at the end.
         auto node1_ptr = &mwpm.search_flooder.graph.nodes[neg_node_pair.first];
         auto node2_ptr =
             neg_node_pair.second != SIZE_MAX ? &mwpm.search_flooder.graph.nodes[neg_node_pair.second] : nullptr;
@@ -343,6 +345,13 @@ void pm::decode_detection_events_to_edges(
             i++;
         }
     }
+    // Self-loops with negative weights are always in the solution
+    for (const auto& neg_node_pair : mwpm.search_flooder.graph.negative_weight_edges) {
+        if (neg_node_pair.first == neg_node_pair.second) {
+            edges.push_back(neg_node_pair.first);
+            edges.push_back(neg_node_pair.second);
+        }
+    }
 }
 
 void pm::decode_detection_events_to_edges_with_edge_correlations(
diff --git a/src/pymatching/sparse_blossom/flooder/graph.cc b/src/pymatching/sparse_blossom/flooder/graph.cc
index 30b3643..75bfc3c 100644
--- a/src/pymatching/sparse_blossom/flooder/graph.cc
+++ b/src/pymatching/sparse_blossom/flooder/graph.cc
@@ -214,6 +214,8 @@ void MatchingGraph::reweight_for_edges(const std::vector<int64_t>& edges) {
     for (size_t i = 0; i < edges.size() >> 1; ++i) {
         int64_t u = edges[2 * i];
         int64_t v = edges[2 * i + 1];
+        if (u == v)
+            continue;  // Self-loops imply nothing about other edges.
         reweight_for_edge(u, v);
     }
 }
diff --git a/src/pymatching/sparse_blossom/search/search_graph.cc b/src/pymatching/sparse_blossom/search/search_graph.cc
index d4be3ae..a45b7ac 100644
--- a/src/pymatching/sparse_blossom/search/search_graph.cc
+++ b/src/pymatching/sparse_blossom/search/search_graph.cc
@@ -45,17 +45,17 @@ void pm::SearchGraph::add_edge(
             std::to_string(num_nodes) + ")");
     }
 
-    // Self-loops are ignored, since they are never included in the shortest-path (the search graph has only
-    // positive weights).
-    if (u == v)
-        return;
-
     uint8_t weight_sign = 0;
     if (weight < 0) {
         negative_weight_edges.push_back({u, v});
         weight_sign = pm::WEIGHT_SIGN;
     }
 
+    // Self-loops are not added to the adjacency lists, since they are never included in the shortest-path (the
+    // search graph has only positive weights).
+    if (u == v)
+        return;
+
     nodes[u].neighbors.push_back(&(nodes[v]));
     nodes[u].neighbor_weights.push_back(std::abs(weight));
     nodes[u].neighbor_observable_indices.push_back(observables);
@@ -110,6 +110,8 @@ void pm::SearchGraph::reweight_for_edges(const std::vector<int64_t>& edges) {
     for (size_t i = 0; i < edges.size() >> 1; ++i) {
         int64_t u = edges[2 * i];
         int64_t v = edges[2 * i + 1];
+        if (u == v)
+            continue;  // Self-loops imply nothing about other edges.
         reweight_for_edge(u, v);
     }
 }
-- 
2.43.0


From 4e2ad36b5e6e955cee7ca8e9c261f705f59ecb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:01 +0000
Subject: [PATCH 13/21] fix: all_edges_have_error_probabilities reflects edges
 that were replaced

---
 .../sparse_blossom/driver/user_graph.cc       | 28 +++++++++++--------
 .../sparse_blossom/driver/user_graph.h        |  2 +-
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/pymatching/sparse_blossom/driver/user_graph.cc b/src/pymatching/sparse_blossom/driver/user_graph.cc
index b5d24bc..3220dce 100644
--- a/src/pymatching/sparse_blossom/driver/user_graph.cc
+++ b/src/pymatching/sparse_blossom/driver/user_graph.cc
@@ -59,6 +59,10 @@ bool is_valid_probability(double p) {
     return (p >= 0 && p <= 1);
 }
 
+bool lacks_error_probability(double p) {
+    return p < 0 || p > 1;
+}
+
 void pm::UserGraph::merge_edge_or_boundary_edge(
     size_t node,
     size_t neighbor_index,
@@ -104,12 +108,14 @@ void pm::UserGraph::merge_edge_or_boundary_edge(
                     _num_observables = obs + 1;
             }
         }
+        if (lacks_error_probability(neighbor.edge_it->error_probability))
+            _num_edges_without_error_probability--;
+        if (lacks_error_probability(new_error_probability))
+            _num_edges_without_error_probability++;
         neighbor.edge_it->weight = new_weight;
         neighbor.edge_it->error_probability = new_error_probability;
 
         _mwpm_needs_updating = true;
-        if (new_error_probability < 0 || new_error_probability > 1)
-            _all_edges_have_error_probabilities = false;
     }
 }
 
@@ -149,8 +155,8 @@ void pm::UserGraph::add_or_merge_edge(
                 _num_observables = obs + 1;
         }
         _mwpm_needs_updating = true;
-        if (error_probability < 0 || error_probability > 1)
-            _all_edges_have_error_probabilities = false;
+        if (lacks_error_probability(error_probability))
+            _num_edges_without_error_probability++;
     } else {
         merge_edge_or_boundary_edge(node1, idx, observables, weight, error_probability, merge_strategy);
     }
@@ -186,24 +192,24 @@ void pm::UserGraph::add_or_merge_boundary_edge(
                 _num_observables = obs + 1;
         }
         _mwpm_needs_updating = true;
-        if (error_probability < 0 || error_probability > 1)
-            _all_edges_have_error_probabilities = false;
+        if (lacks_error_probability(error_probability))
+            _num_edges_without_error_probability++;
     } else {
         merge_edge_or_boundary_edge(node, idx, observables, weight, error_probability, merge_strategy);
     }
 }
 
 pm::UserGraph::UserGraph()
-    : _num_observables(0), _mwpm_needs_updating(true), _all_edges_have_error_probabilities(true) {
+    : _num_observables(0), _mwpm_needs_updating(true), _num_edges_without_error_probability(0) {
 }
 
 pm::UserGraph::UserGraph(size_t num_nodes)
-    : _num_observables(0), _mwpm_needs_updating(true), _all_edges_have_error_probabilities(true) {
+    : _num_observables(0), _mwpm_needs_updating(true), _num_edges_without_error_probability(0) {
     nodes.resize(num_nodes);
 }
 
 pm::UserGraph::UserGraph(size_t num_nodes, size_t num_observables)
-    : _num_observables(num_observables), _mwpm_needs_updating(true), _all_edges_have_error_probabilities(true) {
+    : _num_observables(num_observables), _mwpm_needs_updating(true), _num_edges_without_error_probability(0) {
     nodes.resize(num_nodes);
 }
 
@@ -252,7 +258,7 @@ pm::Mwpm& pm::UserGraph::get_mwpm() {
 }
 
 void pm::UserGraph::add_noise(uint8_t* error_arr, uint8_t* syndrome_arr) const {
-    if (!_all_edges_have_error_probabilities)
+    if (_num_edges_without_error_probability > 0)
         return;
 
     for (auto& e : edges) {
@@ -278,7 +284,7 @@ size_t pm::UserGraph::get_num_edges() {
 }
 
 bool pm::UserGraph::all_edges_have_error_probabilities() {
-    return _all_edges_have_error_probabilities;
+    return _num_edges_without_error_probability == 0;
 }
 
 double pm::UserGraph::max_abs_weight() {
diff --git a/src/pymatching/sparse_blossom/driver/user_graph.h b/src/pymatching/sparse_blossom/driver/user_graph.h
index 4fedb99..f0abd75 100644
--- a/src/pymatching/sparse_blossom/driver/user_graph.h
+++ b/src/pymatching/sparse_blossom/driver/user_graph.h
@@ -130,7 +130,7 @@ class UserGraph {
     pm::Mwpm _mwpm;
     size_t _num_observables;
     bool _mwpm_needs_updating;
-    bool _all_edges_have_error_probabilities;
+    size_t _num_edges_without_error_probability;
 };
 
 double to_weight_for_correlations(double probability);
-- 
2.43.0


From 6867298085b337d6e392c00d5416f30c850ab934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:21 +0000
Subject: [PATCH 14/21] fix: a read error inside a shot or observable record is
 not the record's end

---
 src/pymatching/sparse_blossom/driver/namespaced_main.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pymatching/sparse_blossom/driver/namespaced_main.cc b/src/pymatching/sparse_blossom/driver/namespaced_main.cc
index 6defa2c..7e61b91 100644
--- a/src/pymatching/sparse_blossom/driver/namespaced_main.cc
+++ b/src/pymatching/sparse_blossom/driver/namespaced_main.cc
@@ -93,6 +93,7 @@ int main_predict(int argc, const char **argv) {
     sparse_shot.clear();
     pm::ExtendedMatchingResult res(mwpm.flooder.graph.num_observables);
     while (reader->start_and_read_entire_record(sparse_shot)) {
+        check_for_read_error(shots_in, "the shot data");
         pm::decode_detection_events(mwpm, sparse_shot.hits, res.obs_crossed.data(), res.weight, enable_correlations);
         for (size_t k = 0; k < num_obs; k++) {
             writer->write_bit(res.obs_crossed[k]);
@@ -177,6 +178,7 @@ int main_count_mistakes(int argc, const char **argv) {
                 check_for_read_error(obs_in, "the observable data");
                 throw std::invalid_argument("Obs data ended before shot data ended.");
             }
+            check_for_read_error(obs_in, "the observable data");
         }
         pm::decode_detection_events(mwpm, sparse_shot.hits, res.obs_crossed.data(), res.weight, enable_correlations);
         for (size_t k = 0; k < num_obs; k++) {
-- 
2.43.0


From d33cf04053fef41c7c2583127ebc463871bfd70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:02:31 +0000
Subject: [PATCH 15/21] fix: observables above 31 survive conversion from a bit
 vector to a mask

---
 src/pymatching/sparse_blossom/driver/mwpm_decoding.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymatching/sparse_blossom/driver/mwpm_decoding.cc b/src/pymatching/sparse_blossom/driver/mwpm_decoding.cc
index ce2b989..e6848ff 100644
--- a/src/pymatching/sparse_blossom/driver/mwpm_decoding.cc
+++ b/src/pymatching/sparse_blossom/driver/mwpm_decoding.cc
@@ -67,7 +67,7 @@ pm::obs_int pm::bit_vector_to_obs_mask(const std::vector<uint8_t>& bit_vector) {
         throw std::invalid_argument("Too many observables");
     pm::obs_int obs_mask = 0;
     for (size_t i = 0; i < num_observables; i++)
-        obs_mask ^= bit_vector[i] << i;
+        obs_mask ^= (pm::obs_int)bit_vector[i] << i;
     return obs_mask;
 }
 
-- 
2.43.0


From 2dd099f952f314d203497cc17e34a09731eedf32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:38 +0000
Subject: [PATCH 16/21] fix: deep alternating trees no longer overflow the call
 stack

---
 .../matcher/alternating_tree.cc               | 41 ++++++++++++------
 src/pymatching/sparse_blossom/matcher/mwpm.cc | 42 ++++++++++++-------
 2 files changed, 56 insertions(+), 27 deletions(-)

diff --git a/src/pymatching/sparse_blossom/matcher/alternating_tree.cc b/src/pymatching/sparse_blossom/matcher/alternating_tree.cc
index 24b509b..b398556 100644
--- a/src/pymatching/sparse_blossom/matcher/alternating_tree.cc
+++ b/src/pymatching/sparse_blossom/matcher/alternating_tree.cc
@@ -83,19 +83,34 @@ const AltTreeNode *AltTreeNode::find_root() const {
 
 void AltTreeNode::become_root() {
     // Performs a tree rotation turning this node into the root of the tree/
-    if (!parent.alt_tree_node)
-        return;
-    auto old_parent = parent.alt_tree_node;
-    old_parent->become_root();
-    parent.alt_tree_node->inner_region = inner_region;
-    parent.alt_tree_node->inner_to_outer_edge = parent.edge;
-    inner_region = nullptr;
-    unstable_erase(parent.alt_tree_node->children, [&](const AltTreeEdge &x) {
-        return x.alt_tree_node == this;
-    });
-    parent = AltTreeEdge();
-    add_child(AltTreeEdge(old_parent, inner_to_outer_edge.reversed()));
-    inner_to_outer_edge = CompressedEdge{nullptr, nullptr, 0};
+    // This is not recursive, as a tree can be too deep for the call stack.
+    AltTreeNode *current = this;
+    AltTreeNode *new_parent = nullptr;
+    GraphFillRegion *new_inner_region = nullptr;
+    CompressedEdge new_inner_to_outer_edge{nullptr, nullptr, 0};
+    AltTreeEdge new_parent_edge;
+    while (true) {
+        AltTreeEdge old_parent_edge = current->parent;
+        GraphFillRegion *old_inner_region = current->inner_region;
+        CompressedEdge old_inner_to_outer_edge = current->inner_to_outer_edge;
+        if (old_parent_edge.alt_tree_node)
+            current->children.push_back(AltTreeEdge(old_parent_edge.alt_tree_node, old_inner_to_outer_edge.reversed()));
+        if (new_parent) {
+            unstable_erase(current->children, [&](const AltTreeEdge &x) {
+                return x.alt_tree_node == new_parent;
+            });
+        }
+        current->inner_region = new_inner_region;
+        current->inner_to_outer_edge = new_inner_to_outer_edge;
+        current->parent = new_parent_edge;
+        if (!old_parent_edge.alt_tree_node)
+            return;
+        new_parent = current;
+        new_parent_edge = AltTreeEdge(current, old_inner_to_outer_edge);
+        new_inner_region = old_inner_region;
+        new_inner_to_outer_edge = old_parent_edge.edge;
+        current = old_parent_edge.alt_tree_node;
+    }
 }
 
 bool AltTreeNode::operator==(const AltTreeNode &rhs) const {
diff --git a/src/pymatching/sparse_blossom/matcher/mwpm.cc b/src/pymatching/sparse_blossom/matcher/mwpm.cc
index d289e51..9f91acc 100644
--- a/src/pymatching/sparse_blossom/matcher/mwpm.cc
+++ b/src/pymatching/sparse_blossom/matcher/mwpm.cc
@@ -14,6 +14,7 @@
 
 #include "pymatching/sparse_blossom/matcher/mwpm.h"
 
+#include <algorithm>
 #include <set>
 
 #include "pymatching/sparse_blossom/flooder/graph_fill_region.h"
@@ -43,21 +44,34 @@ Mwpm::Mwpm(Mwpm &&other) noexcept
 }
 
 void Mwpm::shatter_descendants_into_matches_and_freeze(AltTreeNode &alt_tree_node) {
-    for (auto &child_edge : alt_tree_node.children) {
-        shatter_descendants_into_matches_and_freeze(*child_edge.alt_tree_node);
-    }
-    if (alt_tree_node.inner_region) {
-        alt_tree_node.parent = AltTreeEdge();
-        alt_tree_node.inner_region->add_match(alt_tree_node.outer_region, alt_tree_node.inner_to_outer_edge);
-        flooder.set_region_frozen(*alt_tree_node.inner_region);
-        flooder.set_region_frozen(*alt_tree_node.outer_region);
-        alt_tree_node.inner_region->alt_tree_node = nullptr;
-        alt_tree_node.outer_region->alt_tree_node = nullptr;
-    }
-    if (alt_tree_node.outer_region) {
-        alt_tree_node.outer_region->alt_tree_node = nullptr;
+    // Visits children before their parent. This is not recursive, as a tree can be too deep for the call stack.
+    AltTreeNode *node = &alt_tree_node;
+    std::reverse(node->children.begin(), node->children.end());
+    while (true) {
+        if (!node->children.empty()) {
+            AltTreeNode *child = node->children.back().alt_tree_node;
+            node->children.pop_back();
+            node = child;
+            std::reverse(node->children.begin(), node->children.end());
+            continue;
+        }
+        AltTreeNode *next = node == &alt_tree_node ? nullptr : node->parent.alt_tree_node;
+        if (node->inner_region) {
+            node->parent = AltTreeEdge();
+            node->inner_region->add_match(node->outer_region, node->inner_to_outer_edge);
+            flooder.set_region_frozen(*node->inner_region);
+            flooder.set_region_frozen(*node->outer_region);
+            node->inner_region->alt_tree_node = nullptr;
+            node->outer_region->alt_tree_node = nullptr;
+        }
+        if (node->outer_region) {
+            node->outer_region->alt_tree_node = nullptr;
+        }
+        node_arena.del(node);
+        if (!next)
+            return;
+        node = next;
     }
-    node_arena.del(&alt_tree_node);
 }
 
 void Mwpm::handle_tree_hitting_boundary(const RegionHitBoundaryEventData &event) {
-- 
2.43.0


From c823f41291bb88f25f90058f9e2553fa9dd35037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:20 +0000
Subject: [PATCH 17/21] fix: listing the event queue includes events across a
 31-bit boundary

---
 src/pymatching/sparse_blossom/tracker/radix_heap_queue.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pymatching/sparse_blossom/tracker/radix_heap_queue.h b/src/pymatching/sparse_blossom/tracker/radix_heap_queue.h
index 5018d82..6257cc6 100644
--- a/src/pymatching/sparse_blossom/tracker/radix_heap_queue.h
+++ b/src/pymatching/sparse_blossom/tracker/radix_heap_queue.h
@@ -56,7 +56,7 @@ namespace pm {
 ///     bucket K: event time in [1<<(K-1), (1<<K)-1]
 ///     ...
 ///     bucket 31: event time in [1<<30, (1<<31)-1]
-///     bucket 32: [invalid for an event to go into this bucket]
+///     bucket 32: event time across the next multiple of 1<<31
 ///
 /// Dequeueing always happens from bucket 0. Whenever bucket 0 is empty, it's refilled by
 /// redistributing events from the smallest non-empty bucket (after advancing the time to the
@@ -110,7 +110,7 @@ struct radix_heap_queue {
 
     /// Checks if all events are in the correct bucket.
     bool satisfies_invariants() const {
-        for (size_t b = 0; b < bit_buckets.size() - 1; b++) {
+        for (size_t b = 0; b < bit_buckets.size(); b++) {
             for (size_t k = 0; k < bit_buckets[b].size(); k++) {
                 if (cur_bit_bucket_for(bit_buckets[b][k].time) != b) {
                     return false;
@@ -173,7 +173,7 @@ struct radix_heap_queue {
     /// during normal operation.
     std::vector<FloodCheckEvent> to_vector() const {
         std::vector<FloodCheckEvent> result;
-        for (size_t b = 0; b < bit_buckets.size() - 1; b++) {
+        for (size_t b = 0; b < bit_buckets.size(); b++) {
             result.insert(result.begin(), bit_buckets[b].begin(), bit_buckets[b].end());
         }
         std::sort(result.begin(), result.end(), [](const FloodCheckEvent &e1, const FloodCheckEvent &e2) {
@@ -195,7 +195,7 @@ template <bool use_validation>
 std::ostream &operator<<(std::ostream &out, radix_heap_queue<use_validation> q) {
     out << "bit_bucket_queue {\n";
     out << "    cur_time=" << q.cur_time << "\n";
-    for (size_t b = 0; b < q.bit_buckets.size() - 1; b++) {
+    for (size_t b = 0; b < q.bit_buckets.size(); b++) {
         auto copy = q.bit_buckets[b];
         if (!copy.empty()) {
             out << "    bucket[" << b << "] {\n";
-- 
2.43.0


From 0141716249443bf8d4f69293c084e5a858135a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:46 +0000
Subject: [PATCH 18/21] fix: a graph loaded with correlations can be decoded
 after its boundary changes

Rules for edges that lead to a boundary node looked for a neighbor that the
decoded graph does not have, so every decode failed.
---
 .../sparse_blossom/driver/user_graph.cc          | 16 ++++++++++++++++
 .../sparse_blossom/driver/user_graph.h           | 12 +++++++++---
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/pymatching/sparse_blossom/driver/user_graph.cc b/src/pymatching/sparse_blossom/driver/user_graph.cc
index 3220dce..1ef8191 100644
--- a/src/pymatching/sparse_blossom/driver/user_graph.cc
+++ b/src/pymatching/sparse_blossom/driver/user_graph.cc
@@ -500,6 +500,22 @@ double pm::UserGraph::get_edge_weight_normalising_constant(size_t max_num_distin
     }
 }
 
+std::vector<pm::ImpliedWeightUnconverted> pm::UserGraph::merge_boundary_nodes_of_rules(
+    const std::vector<ImpliedWeightUnconverted>& rules) {
+    std::vector<ImpliedWeightUnconverted> merged;
+    merged.reserve(rules.size());
+    for (auto& rule : rules) {
+        bool node1_boundary = is_boundary_node(rule.node1);
+        bool node2_boundary = is_boundary_node(rule.node2);
+        if (!node1_boundary) {
+            merged.push_back({rule.node1, node2_boundary ? SIZE_MAX : rule.node2, rule.implied_weight});
+        } else if (!node2_boundary) {
+            merged.push_back({rule.node2, SIZE_MAX, rule.implied_weight});
+        }
+    }
+    return merged;
+}
+
 void pm::add_decomposed_error_to_joint_probabilities(
     DecomposedDemError& error,
     std::map<std::pair<size_t, size_t>, std::map<std::pair<size_t, size_t>, double>>& joint_probabilites) {
diff --git a/src/pymatching/sparse_blossom/driver/user_graph.h b/src/pymatching/sparse_blossom/driver/user_graph.h
index f0abd75..305bd65 100644
--- a/src/pymatching/sparse_blossom/driver/user_graph.h
+++ b/src/pymatching/sparse_blossom/driver/user_graph.h
@@ -103,6 +103,10 @@ class UserGraph {
     bool all_edges_have_error_probabilities();
     double max_abs_weight();
     double get_edge_weight_normalising_constant(size_t max_num_distinct_weights);
+    /// The rules as they apply to the graph that is decoded, where an edge to a boundary node is a boundary edge, and
+    /// an edge between two boundary nodes is left out.
+    std::vector<ImpliedWeightUnconverted> merge_boundary_nodes_of_rules(
+        const std::vector<ImpliedWeightUnconverted>& rules);
     template <typename EdgeCallable, typename BoundaryEdgeCallable>
     double iter_discretized_edges(
         pm::weight_int num_distinct_weights,
@@ -149,12 +153,14 @@ inline double UserGraph::iter_discretized_edges(
         w *= 2;
         bool node1_boundary = is_boundary_node(e.node1);
         bool node2_boundary = is_boundary_node(e.node2);
+        std::vector<ImpliedWeightUnconverted> implied_weights =
+            merge_boundary_nodes_of_rules(e.implied_weights_for_other_edges);
         if (node2_boundary && !node1_boundary) {
-            boundary_edge_func(e.node1, w, e.observable_indices, e.implied_weights_for_other_edges);
+            boundary_edge_func(e.node1, w, e.observable_indices, implied_weights);
         } else if (node1_boundary && !node2_boundary) {
-            boundary_edge_func(e.node2, w, e.observable_indices, e.implied_weights_for_other_edges);
+            boundary_edge_func(e.node2, w, e.observable_indices, implied_weights);
         } else if (!node1_boundary) {
-            edge_func(e.node1, e.node2, w, e.observable_indices, e.implied_weights_for_other_edges);
+            edge_func(e.node1, e.node2, w, e.observable_indices, implied_weights);
         }
     }
     return normalising_constant * 2;
-- 
2.43.0


From c52603552edf2295ac0ad936408e216374a1b580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:15 +0000
Subject: [PATCH 19/21] fix: animations take negative weights into account

The animated decode ignored the detection events of negative weight edges, so it solved a
different problem than a decode does. Detection events are now created by the code that decodes use.
---
 src/pymatching/sparse_blossom/diagram/mwpm_diagram.cc | 11 +++++------
 src/pymatching/sparse_blossom/driver/mwpm_decoding.cc |  6 +++++-
 src/pymatching/sparse_blossom/driver/mwpm_decoding.h  |  4 ++++
 3 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/pymatching/sparse_blossom/diagram/mwpm_diagram.cc b/src/pymatching/sparse_blossom/diagram/mwpm_diagram.cc
index bcc91a4..977784e 100644
--- a/src/pymatching/sparse_blossom/diagram/mwpm_diagram.cc
+++ b/src/pymatching/sparse_blossom/diagram/mwpm_diagram.cc
@@ -16,6 +16,8 @@
 
 #include <fstream>
 
+#include "pymatching/sparse_blossom/driver/mwpm_decoding.h"
+
 using namespace pm;
 
 std::pair<std::vector<std::pair<float, float>>, std::vector<std::pair<float, float>>>
@@ -428,13 +430,10 @@ void pm::write_animated_decoding_svg_frames(
     size_t hold_frames_at_end,
     size_t max_growth_between_frames) {
     // Set up the decoder.
-    mwpm.flooder.queue.cur_time = 0;
-    for (auto &detection : detection_events) {
-        mwpm.create_detection_event(&mwpm.flooder.graph.nodes[detection]);
-    }
+    pm::create_detection_events(mwpm, detection_events);
     auto check_if_done = [&]() {
-        for (auto &detection : detection_events) {
-            if (!mwpm.flooder.graph.nodes[detection].region_that_arrived_top->radius.is_frozen()) {
+        for (const auto &node : mwpm.flooder.graph.nodes) {
+            if (node.region_that_arrived_top != nullptr && !node.region_that_arrived_top->radius.is_frozen()) {
                 return false;
             }
         }
diff --git a/src/pymatching/sparse_blossom/driver/mwpm_decoding.cc b/src/pymatching/sparse_blossom/driver/mwpm_decoding.cc
index e6848ff..8b0ddd8 100644
--- a/src/pymatching/sparse_blossom/driver/mwpm_decoding.cc
+++ b/src/pymatching/sparse_blossom/driver/mwpm_decoding.cc
@@ -97,7 +97,7 @@ struct ResetMwpmOnException {
 
 }  // namespace
 
-void process_timeline_until_completion(pm::Mwpm& mwpm, const std::vector<uint64_t>& detection_events) {
+void pm::create_detection_events(pm::Mwpm& mwpm, const std::vector<uint64_t>& detection_events) {
     if (!mwpm.flooder.queue.empty()) {
         throw std::invalid_argument("!mwpm.flooder.queue.empty()");
     }
@@ -145,6 +145,10 @@ void process_timeline_until_completion(pm::Mwpm& mwpm, const std::vector<uint64_
             }
         }
     }
+}
+
+void process_timeline_until_completion(pm::Mwpm& mwpm, const std::vector<uint64_t>& detection_events) {
+    pm::create_detection_events(mwpm, detection_events);
 
     while (true) {
         auto event = mwpm.flooder.run_until_next_mwpm_notification();
diff --git a/src/pymatching/sparse_blossom/driver/mwpm_decoding.h b/src/pymatching/sparse_blossom/driver/mwpm_decoding.h
index 960a1da..6d576ae 100644
--- a/src/pymatching/sparse_blossom/driver/mwpm_decoding.h
+++ b/src/pymatching/sparse_blossom/driver/mwpm_decoding.h
@@ -52,6 +52,10 @@ Mwpm detector_error_model_to_mwpm(
     bool ensure_search_flooder_included = false,
     bool enable_correlations = false);
 
+/// Adds the given detection events to a decoder that is ready for them, combined with those of its negative weight
+/// edges. Detection events at boundary nodes are ignored.
+void create_detection_events(pm::Mwpm& mwpm, const std::vector<uint64_t>& detection_events);
+
 MatchingResult decode_detection_events_for_up_to_64_observables(
     pm::Mwpm& mwpm, const std::vector<uint64_t>& detection_events, bool edge_correlations);
 
-- 
2.43.0


From 12a61d89066ace54680b12fd754a721497d21e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:15 +0000
Subject: [PATCH 20/21] fix: animate fails when the model or shot cannot be
 read

---
 src/pymatching/sparse_blossom/diagram/animation_main.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pymatching/sparse_blossom/diagram/animation_main.cc b/src/pymatching/sparse_blossom/diagram/animation_main.cc
index 31b2fe6..e2e5e63 100644
--- a/src/pymatching/sparse_blossom/diagram/animation_main.cc
+++ b/src/pymatching/sparse_blossom/diagram/animation_main.cc
@@ -59,12 +59,18 @@ int pm::main_animation(int argc, const char **argv) {
     }
 
     auto dem = stim::DetectorErrorModel::from_file(dem_file);
+    if (ferror(dem_file)) {
+        throw std::invalid_argument("Failed to read the detector error model.");
+    }
     auto dets_reader = stim::MeasureRecordReader<stim::MAX_BITWORD_WIDTH>::make(
         dets_file, dets_in_format.id, 0, dem.count_detectors(), dem.count_observables() * dets_includes_obs);
     stim::SparseShot shot;
     if (!dets_reader->start_and_read_entire_record(shot)) {
         throw std::invalid_argument("No shot in file.");
     }
+    if (ferror(dets_file)) {
+        throw std::invalid_argument("Failed to read the detection events.");
+    }
     fclose(dem_file);
     fclose(dets_file);
 
-- 
2.43.0


From 641da65eac67483317e5c1614b5c847f860bf821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:15 +0000
Subject: [PATCH 21/21] fix: animations report frames that could not be written

---
 src/pymatching/sparse_blossom/diagram/mwpm_diagram.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pymatching/sparse_blossom/diagram/mwpm_diagram.cc b/src/pymatching/sparse_blossom/diagram/mwpm_diagram.cc
index 977784e..8b17405 100644
--- a/src/pymatching/sparse_blossom/diagram/mwpm_diagram.cc
+++ b/src/pymatching/sparse_blossom/diagram/mwpm_diagram.cc
@@ -459,6 +459,9 @@ void pm::write_animated_decoding_svg_frames(
         }
         pm::write_decoder_state_as_svg(coords, boundary_coords, mwpm, ev, out_file);
         out_file.close();
+        if (out_file.fail()) {
+            throw std::invalid_argument("Failed to write " + frame_path + ".");
+        }
         if (print_progress) {
             std::cerr << "wrote " << frame_path << "\n";
         }
-- 
2.43.0

