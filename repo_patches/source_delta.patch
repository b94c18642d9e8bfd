From 05c212757febd24ff1b4612a7c662cc057761ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:37 +0000
Subject: [PATCH 01/23] fix: track the maximum degree when compressing
 neighborhoods

---
 kaminpar-common/graph_compression/compressed_edges_builder.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kaminpar-common/graph_compression/compressed_edges_builder.h b/kaminpar-common/graph_compression/compressed_edges_builder.h
index 7cdba2a..d9e89ce 100644
--- a/kaminpar-common/graph_compression/compressed_edges_builder.h
+++ b/kaminpar-common/graph_compression/compressed_edges_builder.h
@@ -196,6 +196,8 @@ public:
       return offset;
     }
 
+    _max_degree = std::max(_max_degree, degree);
+
     if constexpr (kIsWeightedNeighbor) {
       std::sort(neighborhood.begin(), neighborhood.end(), [](const auto &a, const auto &b) {
         return a.first < b.first;
-- 
2.43.0


From 80f62ca99d0ad5a63b9843439cce4ffe0f8b7cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:56 +0000
Subject: [PATCH 02/23] fix: initialize all members of CSRGraph in its copying
 and sequential constructors

---
 kaminpar-shm/datastructures/csr_graph.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/kaminpar-shm/datastructures/csr_graph.cc b/kaminpar-shm/datastructures/csr_graph.cc
index 4700bd1..10446db 100644
--- a/kaminpar-shm/datastructures/csr_graph.cc
+++ b/kaminpar-shm/datastructures/csr_graph.cc
@@ -24,6 +24,7 @@ CSRGraph::CSRGraph(const Graph &graph)
       _edges(graph.m()),
       _node_weights(graph.n()),
       _edge_weights(graph.m()),
+      _sorted(graph.sorted()),
       _buckets(kNumberOfDegreeBuckets<NodeID> + 1) {
   graph.reified([&](const auto &graph) {
     _nodes.front() = 0;
@@ -42,6 +43,7 @@ CSRGraph::CSRGraph(const Graph &graph)
       });
     });
 
+    _max_node_weight = graph.max_node_weight();
     _total_node_weight = graph.total_node_weight();
     _total_edge_weight = graph.total_edge_weight();
     _max_degree = graph.max_degree();
@@ -112,6 +114,11 @@ CSRGraph::CSRGraph(
         std::accumulate(_edge_weights.begin(), _edge_weights.end(), static_cast<EdgeWeight>(0));
   }
 
+  _max_degree = 0;
+  for (NodeID u = 0; u < n(); ++u) {
+    _max_degree = std::max<NodeID>(_max_degree, degree(u));
+  }
+
   // TODO: Use a sequential routine to initialize degree buckets since work isolation can otherwise
   // be violated. However, this does not currently pose a problem as it is not called in parallel.
   init_degree_buckets();
-- 
2.43.0


From 6fd924a08ff7356df4d02368f85b6dbff971ae26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:09 +0000
Subject: [PATCH 03/23] fix: do not shift by the full width in compute_final_k
 for the root block

---
 kaminpar-shm/partitioning/partition_utils.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kaminpar-shm/partitioning/partition_utils.cc b/kaminpar-shm/partitioning/partition_utils.cc
index 3f50d36..a778ae2 100644
--- a/kaminpar-shm/partitioning/partition_utils.cc
+++ b/kaminpar-shm/partitioning/partition_utils.cc
@@ -22,6 +22,10 @@ BlockID compute_final_k(const BlockID block, const BlockID current_k, const Bloc
   if (current_k == input_k) {
     return 1;
   }
+  if (current_k == 1) {
+    // Level 0 only contains the root; the bit reversal below would shift by the width of BlockID
+    return input_k;
+  }
 
   // The level of the current block in the binary tree == log2(current_k)
   const BlockID level = math::floor_log2(current_k);
-- 
2.43.0


From 75c6252353bf8203676402ee26467820e4c3bb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:30 +0000
Subject: [PATCH 04/23] fix: use at least one thread for parallel initial
 partitioning

With a load below 1 and few threads (e.g., the fast preset with one thread),
floor2() was called with 0, whose result is undefined.
---
 kaminpar-shm/partitioning/partition_utils.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kaminpar-shm/partitioning/partition_utils.cc b/kaminpar-shm/partitioning/partition_utils.cc
index a778ae2..a74b333 100644
--- a/kaminpar-shm/partitioning/partition_utils.cc
+++ b/kaminpar-shm/partitioning/partition_utils.cc
@@ -127,9 +127,10 @@ std::size_t compute_num_copies(
 }
 
 int compute_num_threads_for_parallel_ip(const Context &input_ctx) {
-  return math::floor2(static_cast<unsigned int>(
+  const auto num_threads = static_cast<unsigned int>(
       1.0 * input_ctx.parallel.num_threads * input_ctx.partitioning.deep_initial_partitioning_load
-  ));
+  );
+  return math::floor2(std::max<unsigned int>(1, num_threads));
 }
 
 BlockID compute_next_k(const BlockID current_k, const Context &input_ctx) {
-- 
2.43.0


From 2dc3a28fbce06bd396248e195f8c79f317d2b025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:42 +0000
Subject: [PATCH 05/23] fix: a sorted graph without nodes has no degree buckets

The reverse iterator was advanced past rend(), resulting in an underflowed
number of buckets.
---
 kaminpar-shm/datastructures/compressed_graph.cc | 4 +++-
 kaminpar-shm/datastructures/csr_graph.cc        | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/kaminpar-shm/datastructures/compressed_graph.cc b/kaminpar-shm/datastructures/compressed_graph.cc
index eb00685..e12ed48 100644
--- a/kaminpar-shm/datastructures/compressed_graph.cc
+++ b/kaminpar-shm/datastructures/compressed_graph.cc
@@ -60,7 +60,9 @@ void CompressedGraph::init_degree_buckets() {
 
     auto last_nonempty_bucket =
         std::find_if(_buckets.rbegin(), _buckets.rend(), [](const auto n) { return n > 0; });
-    _number_of_buckets = std::distance(_buckets.begin(), (last_nonempty_bucket + 1).base());
+    _number_of_buckets = (last_nonempty_bucket == _buckets.rend())
+                             ? 0
+                             : std::distance(_buckets.begin(), (last_nonempty_bucket + 1).base());
   } else {
     _buckets[1] = n();
     _number_of_buckets = 1;
diff --git a/kaminpar-shm/datastructures/csr_graph.cc b/kaminpar-shm/datastructures/csr_graph.cc
index 10446db..4a41f10 100644
--- a/kaminpar-shm/datastructures/csr_graph.cc
+++ b/kaminpar-shm/datastructures/csr_graph.cc
@@ -226,7 +226,9 @@ void CSRGraph::init_degree_buckets() {
     );
     auto last_nonempty_bucket =
         std::find_if(_buckets.rbegin(), _buckets.rend(), [](const auto n) { return n > 0; });
-    _number_of_buckets = std::distance(_buckets.begin(), (last_nonempty_bucket + 1).base());
+    _number_of_buckets = (last_nonempty_bucket == _buckets.rend())
+                             ? 0
+                             : std::distance(_buckets.begin(), (last_nonempty_bucket + 1).base());
   } else {
     _buckets[1] = n();
     _number_of_buckets = 1;
-- 
2.43.0


From 9d035f34a51176fbb07306f902843348d7f0c976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:07 +0000
Subject: [PATCH 06/23] fix: drop nodes that no block can take from the
 balancer's queue

---
 kaminpar-shm/refinement/balancer/greedy_balancer.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kaminpar-shm/refinement/balancer/greedy_balancer.cc b/kaminpar-shm/refinement/balancer/greedy_balancer.cc
index 02c1a7b..8143518 100644
--- a/kaminpar-shm/refinement/balancer/greedy_balancer.cc
+++ b/kaminpar-shm/refinement/balancer/greedy_balancer.cc
@@ -201,9 +201,9 @@ private:
                 _marker.set(v);
               }
             });
-          } else {
+          } else if (to != from) {
             add_to_pq(from, u, u_weight, actual_relative_gain);
-          }
+          } // otherwise, no block can take u: drop it, reinserting it would loop forever
         } else { // gain changed after insertion --> try again with new gain
           add_to_pq(from, u, _graph->node_weight(u), actual_relative_gain);
           IFSTATS(++_stats.num_pq_reinserts);
-- 
2.43.0


From 388ee3abbbd1a714580a8b91ef47c81777fda08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:03 +0000
Subject: [PATCH 07/23] fix: keep clusters within their community in 2-hop and
 isolated-node clustering

The LP clusterer stored the favored cluster of a node before it looked at the
communities, and isolated nodes were matched or clustered regardless of them. With
communities set (v-cycles), clusters could thus span several communities, so that
projecting the communities to the coarse graph was ambiguous and restricted v-cycles
mixed blocks. After relabeling the clusters, the communities were also looked up by
cluster ID rather than by node ID.
---
 .../coarsening/clustering/lp_clusterer.cc     | 21 +++++++++----------
 kaminpar-shm/label_propagation.h              | 16 +++++++-------
 2 files changed, 19 insertions(+), 18 deletions(-)

diff --git a/kaminpar-shm/coarsening/clustering/lp_clusterer.cc b/kaminpar-shm/coarsening/clustering/lp_clusterer.cc
index 8a29feb..e4ee2c9 100644
--- a/kaminpar-shm/coarsening/clustering/lp_clusterer.cc
+++ b/kaminpar-shm/coarsening/clustering/lp_clusterer.cc
@@ -166,6 +166,12 @@ private:
   }
 
 public:
+  // Ignore neighbors in other communities: this also ensures that favored clusters (and thus 2-hop
+  // clusters) never span multiple communities
+  [[nodiscard]] bool accept_neighbor(const NodeID u, const NodeID v) {
+    return _communities.empty() || _communities[u] == _communities[v];
+  }
+
   [[nodiscard]] NodeID initial_cluster(const NodeID u) {
     return u;
   }
@@ -189,18 +195,12 @@ public:
   ) {
     const bool use_uniform_tie_breaking = _tie_breaking_strategy == TieBreakingStrategy::UNIFORM;
 
-    const auto accept_cluster_community = [&] {
-      return _communities.empty() ||
-             _communities[state.current_cluster] == _communities[state.initial_cluster];
-    };
-
     ClusterID favored_cluster = state.initial_cluster;
     if (use_uniform_tie_breaking) {
       const auto accept_cluster = [&] {
-        return (state.current_cluster_weight + state.u_weight <=
-                    max_cluster_weight(state.current_cluster) ||
-                state.current_cluster == state.initial_cluster) &&
-               accept_cluster_community();
+        return state.current_cluster_weight + state.u_weight <=
+                   max_cluster_weight(state.current_cluster) ||
+               state.current_cluster == state.initial_cluster;
       };
 
       for (const auto [cluster, rating] : map.entries()) {
@@ -254,8 +254,7 @@ public:
                 (state.current_gain == state.best_gain && state.local_rand.random_bool())) &&
                (state.current_cluster_weight + state.u_weight <=
                     max_cluster_weight(state.current_cluster) ||
-                state.current_cluster == state.initial_cluster) &&
-               accept_cluster_community();
+                state.current_cluster == state.initial_cluster);
       };
 
       for (const auto [cluster, rating] : map.entries()) {
diff --git a/kaminpar-shm/label_propagation.h b/kaminpar-shm/label_propagation.h
index d48da25..bc9b174 100644
--- a/kaminpar-shm/label_propagation.h
+++ b/kaminpar-shm/label_propagation.h
@@ -885,33 +885,35 @@ protected:
   void handle_isolated_nodes_impl(
       const NodeID from = 0, const NodeID to = std::numeric_limits<ClusterID>::max()
   ) {
-    constexpr ClusterID kInvalidClusterID = std::numeric_limits<ClusterID>::max();
-    tbb::enumerable_thread_specific<ClusterID> current_cluster_ets(kInvalidClusterID);
+    constexpr NodeID kInvalidNode = std::numeric_limits<NodeID>::max();
+    tbb::enumerable_thread_specific<NodeID> current_node_ets(kInvalidNode);
 
     tbb::parallel_for(
         tbb::blocked_range<NodeID>(from, std::min(_graph->n(), to)),
         [&](tbb::blocked_range<NodeID> r) {
-          ClusterID cluster = current_cluster_ets.local();
+          // Isolated node whose cluster is offered to the next isolated nodes
+          NodeID node = current_node_ets.local();
 
           for (NodeID u = r.begin(); u != r.end(); ++u) {
             if (_graph->degree(u) == 0) {
               const ClusterID cu = derived_cluster(u);
+              const ClusterID cluster = node != kInvalidNode ? derived_cluster(node) : cu;
 
-              if (cluster != kInvalidClusterID &&
+              if (node != kInvalidNode && derived_accept_neighbor(u, node) &&
                   derived_move_cluster_weight(
                       cu, cluster, derived_cluster_weight(cu), derived_max_cluster_weight(cluster)
                   )) {
                 derived_move_node(u, cluster);
                 if constexpr (match) {
-                  cluster = kInvalidClusterID;
+                  node = kInvalidNode;
                 }
               } else {
-                cluster = cu;
+                node = u;
               }
             }
           }
 
-          current_cluster_ets.local() = cluster;
+          current_node_ets.local() = node;
         }
     );
   }
-- 
2.43.0


From de1f32dab800765b6c9e84bc9f2f26ae769d7a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:21 +0000
Subject: [PATCH 08/23] fix: compare all elements of a StaticArray, not only
 its first size() bytes

---
 kaminpar-common/datastructures/static_array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kaminpar-common/datastructures/static_array.h b/kaminpar-common/datastructures/static_array.h
index 1094de3..8df1240 100644
--- a/kaminpar-common/datastructures/static_array.h
+++ b/kaminpar-common/datastructures/static_array.h
@@ -193,7 +193,7 @@ public:
     if (size() != other.size()) {
       return false;
     }
-    return std::memcmp(_data, other._data, size()) == 0;
+    return std::memcmp(_data, other._data, size() * sizeof(T)) == 0;
   }
 
   [[nodiscard]] bool is_span() const {
-- 
2.43.0


From efb170505d887e72bd3e64e73cc39339f766fb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:21 +0000
Subject: [PATCH 09/23] fix: postfix decrement of parallel::Atomic incremented
 the value

---
 kaminpar-common/parallel/atomic.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kaminpar-common/parallel/atomic.h b/kaminpar-common/parallel/atomic.h
index 3f06fcf..b1095f3 100644
--- a/kaminpar-common/parallel/atomic.h
+++ b/kaminpar-common/parallel/atomic.h
@@ -100,7 +100,7 @@ public:
   }
 
   T operator--(int) & noexcept {
-    return _value++;
+    return _value--;
   } // NOLINT
 
   T operator+=(T arg) noexcept {
-- 
2.43.0


From 2619c227a8f8087aacaaec9424f44c5799807d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:32 +0000
Subject: [PATCH 10/23] fix: markers stopped working after 2^31 resets: masks
 were only 32 bits wide

---
 kaminpar-common/datastructures/marker.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/kaminpar-common/datastructures/marker.h b/kaminpar-common/datastructures/marker.h
index e32e160..681adec 100644
--- a/kaminpar-common/datastructures/marker.h
+++ b/kaminpar-common/datastructures/marker.h
@@ -46,9 +46,9 @@ public:
     KASSERT(marker < kNumConcurrentMarkers);
     KASSERT(element < _data.size());
 
-    _data[element] = ((_data[element] & ~((1u << kNumConcurrentMarkers) - 1u)) == _marker_id)
-                         ? _data[element] | (1u << marker)
-                         : _marker_id | (1u << marker);
+    _data[element] = ((_data[element] & ~((Value{1} << kNumConcurrentMarkers) - 1u)) == _marker_id)
+                         ? _data[element] | (Value{1} << marker)
+                         : _marker_id | (Value{1} << marker);
 
     if constexpr (track_first_unmarked_element) {
       while (_first_unmarked_element[marker] < _data.size() &&
@@ -65,8 +65,8 @@ public:
 
   [[nodiscard]] bool get(const std::size_t element, const std::size_t marker = 0) const {
     KASSERT(marker < kNumConcurrentMarkers);
-    return ((_data[element] & ~((1u << kNumConcurrentMarkers) - 1u)) == _marker_id) &&
-           ((_data[element] & (1u << marker)) != 0);
+    return ((_data[element] & ~((Value{1} << kNumConcurrentMarkers) - 1u)) == _marker_id) &&
+           ((_data[element] & (Value{1} << marker)) != 0);
   }
 
   [[nodiscard]] inline std::size_t size() const {
@@ -80,11 +80,11 @@ public:
   // Increase timestamp s.t. the least significant
   // num_concurrent_markers bits are zeroed
   void reset() {
-    _marker_id |= (1u << kNumConcurrentMarkers) - 1u;
+    _marker_id |= (Value{1} << kNumConcurrentMarkers) - 1u;
     _marker_id += 1u;
     _first_unmarked_element.fill(0);
 
-    if ((_marker_id | ((1u << kNumConcurrentMarkers) - 1u)) == std::numeric_limits<Value>::max()) {
+    if ((_marker_id | ((Value{1} << kNumConcurrentMarkers) - 1u)) == std::numeric_limits<Value>::max()) {
       _marker_id = 0;
 
       if constexpr (std::is_same_v<Container<Value>, std::vector<Value>>) {
-- 
2.43.0


From ae8da782e75af67115608850c62b64932f2a8d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:59 +0000
Subject: [PATCH 11/23] fix: do not relabel favored clusters that became empty
 to unrelated or invalid clusters

---
 kaminpar-shm/label_propagation.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/kaminpar-shm/label_propagation.h b/kaminpar-shm/label_propagation.h
index bc9b174..0e4aec7 100644
--- a/kaminpar-shm/label_propagation.h
+++ b/kaminpar-shm/label_propagation.h
@@ -307,10 +307,14 @@ protected:
     tbb::parallel_for(tbb::blocked_range<NodeID>(0, _graph->n()), [&](const auto &r) {
       for (NodeID u = r.begin(); u != r.end(); ++u) {
         // Relabel the cluster stored for each node.
-        derived_move_node(u, mapping[derived_cluster(u)] - 1);
-
-        // Relabel the clusters stored in the favored clusters vector.
-        _favored_clusters[u] = mapping[_favored_clusters[u]] - 1;
+        const ClusterID new_c_u = mapping[derived_cluster(u)] - 1;
+        derived_move_node(u, new_c_u);
+
+        // Relabel the clusters stored in the favored clusters vector. The favored cluster might
+        // have become empty in the meantime, in which case it does not have a new ID.
+        const ClusterID favored = _favored_clusters[u];
+        const bool favored_is_empty = mapping[favored] == (favored == 0 ? 0 : mapping[favored - 1]);
+        _favored_clusters[u] = favored_is_empty ? new_c_u : mapping[favored] - 1;
       }
     });
 
-- 
2.43.0


From ddfad316d04d8da1d09e3e1ad81e3d49682ab4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:36 +0000
Subject: [PATCH 12/23] fix: LargeKGenericDeltaGainCache: report the
 connection, not the gain, to newly adjacent blocks unless exact gains are
 requested

---
 kaminpar-shm/refinement/gains/delta_gain_caches.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kaminpar-shm/refinement/gains/delta_gain_caches.h b/kaminpar-shm/refinement/gains/delta_gain_caches.h
index 54b8827..2da3585 100644
--- a/kaminpar-shm/refinement/gains/delta_gain_caches.h
+++ b/kaminpar-shm/refinement/gains/delta_gain_caches.h
@@ -142,7 +142,9 @@ public:
       for (const BlockID to : it->second) {
         if (to != from) {
           lambda(to, [&] {
-            return _gain_cache.gain(node, from, to) + conn_delta(node, to) - conn_from_delta;
+            const EdgeWeight base = kIteratesExactGains ? _gain_cache.gain(node, from, to)
+                                                        : _gain_cache.conn(node, to);
+            return base + conn_delta(node, to) - conn_from_delta;
           });
         }
       }
-- 
2.43.0


From 69933ce69dd9407d8a9fca0ca6dadf1ab5855843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:36 +0000
Subject: [PATCH 13/23] fix: HashingGainCache: size the table from the current
 graph when the cache is reused

---
 kaminpar-shm/refinement/gains/hashing_gain_cache.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kaminpar-shm/refinement/gains/hashing_gain_cache.h b/kaminpar-shm/refinement/gains/hashing_gain_cache.h
index 0105a77..d02e834 100644
--- a/kaminpar-shm/refinement/gains/hashing_gain_cache.h
+++ b/kaminpar-shm/refinement/gains/hashing_gain_cache.h
@@ -84,7 +84,7 @@ public:
       _offsets[u + 1] = std::min<EdgeID>(math::ceil2(_graph->degree(u)), _k);
     });
     parallel::prefix_sum(_offsets.begin(), _offsets.begin() + _n + 1, _offsets.begin());
-    const std::size_t gain_cache_size = _offsets.back();
+    const std::size_t gain_cache_size = _offsets[_n];
 
     if (_gain_cache.size() < gain_cache_size) {
       SCOPED_TIMER("Allocation");
-- 
2.43.0


From 2b3d4638bb5776f34d18147dce45549215360241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:36 +0000
Subject: [PATCH 14/23] fix: define math::ceil2(0), which gain caches use for
 isolated nodes

---
 kaminpar-common/math.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kaminpar-common/math.h b/kaminpar-common/math.h
index 180b47a..fd3c155 100644
--- a/kaminpar-common/math.h
+++ b/kaminpar-common/math.h
@@ -106,7 +106,7 @@ template <typename T> T ceil_log2(const T arg) {
 }
 
 template <typename T> T ceil2(const T arg) {
-  return 1 << ceil_log2(arg);
+  return (arg == 0) ? 1 : (1 << ceil_log2(arg));
 }
 
 template <typename Int> constexpr Int byte_width(const Int i) {
-- 
2.43.0


From fa16032d7807edd057e6db01010d7764f95f6d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:46 +0000
Subject: [PATCH 15/23] fix: do not read past the end of a mapped text file

---
 apps/io/file_toker.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/io/file_toker.h b/apps/io/file_toker.h
index a093663..79effaa 100644
--- a/apps/io/file_toker.h
+++ b/apps/io/file_toker.h
@@ -154,7 +154,7 @@ public:
   }
 
   [[nodiscard]] inline char current() const {
-    return _contents[_position];
+    return valid_position() ? _contents[_position] : '\0';
   }
 
   inline void advance() {
-- 
2.43.0


From e25891271e097f552968dda6f0dd94445637a6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:46 +0000
Subject: [PATCH 16/23] fix: reading an empty METIS graph into a compressed
 graph

---
 apps/io/shm_metis_parser.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/apps/io/shm_metis_parser.cc b/apps/io/shm_metis_parser.cc
index acf73c8..465fe71 100644
--- a/apps/io/shm_metis_parser.cc
+++ b/apps/io/shm_metis_parser.cc
@@ -275,7 +275,9 @@ CompressedGraph compress_read(const std::string &filename, const bool sorted) {
         edge += 1;
       }
   );
-  builder.add_node(node - 1, neighbourhood);
+  if (node > 0) {
+    builder.add_node(node - 1, neighbourhood);
+  }
 
   KASSERT(
       builder.total_node_weight() <=
-- 
2.43.0


From d5e54c9eb6ea6edb777210cb828c4ca11e66f7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:46 +0000
Subject: [PATCH 17/23] fix: skip the node sizes of METIS files

---
 apps/io/shm_metis_parser.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/apps/io/shm_metis_parser.cc b/apps/io/shm_metis_parser.cc
index 465fe71..e6540bb 100644
--- a/apps/io/shm_metis_parser.cc
+++ b/apps/io/shm_metis_parser.cc
@@ -25,6 +25,7 @@ namespace {
 struct MetisHeader {
   std::uint64_t num_nodes = 0;
   std::uint64_t num_edges = 0;
+  bool has_node_sizes = false;
   bool has_node_weights = false;
   bool has_edge_weights = false;
 };
@@ -46,7 +47,7 @@ MetisHeader parse_header(MappedFileToker &toker) {
     LOG_WARNING << "invalid or unsupported graph format";
   }
 
-  [[maybe_unused]] const bool has_node_sizes = format / 100; // == 1xx
+  const bool has_node_sizes = format / 100; // == 1xx
   const bool has_node_weights = (format % 100) / 10;         // == x1x
   const bool has_edge_weights = format % 10;                 // == xx1
 
@@ -70,6 +71,7 @@ MetisHeader parse_header(MappedFileToker &toker) {
   return {
       .num_nodes = num_nodes,
       .num_edges = num_edges,
+      .has_node_sizes = has_node_sizes,
       .has_node_weights = has_node_weights,
       .has_edge_weights = has_edge_weights,
   };
@@ -94,6 +96,10 @@ void parse_graph(
       toker.skip_spaces();
     }
 
+    if (header.has_node_sizes) {
+      toker.skip_uint();
+    }
+
     std::uint64_t node_weight = 1;
     if (header.has_node_weights) {
       node_weight = toker.scan_uint();
-- 
2.43.0


From 48f843ce3724d18285312adbe0fd91b087086a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:46 +0000
Subject: [PATCH 18/23] fix: detect multi-edges that are not adjacent in the
 edge list

---
 apps/io/shm_input_validator.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/apps/io/shm_input_validator.cc b/apps/io/shm_input_validator.cc
index ff8744d..cfd6409 100644
--- a/apps/io/shm_input_validator.cc
+++ b/apps/io/shm_input_validator.cc
@@ -50,8 +50,9 @@ void validate_undirected_graph(
 
     // Check for multi edges
     for (EdgeID e = nodes[u] + 1; e < nodes[u + 1]; ++e) {
-      if (edges[e - 1] == edges[e]) {
-        std::cerr << "node " << u + 1 << " has multiple edges to neighbor " << edges[e] << "\n";
+      const NodeID v = std::get<0>(edges_with_weights[e]);
+      if (std::get<0>(edges_with_weights[e - 1]) == v) {
+        std::cerr << "node " << u + 1 << " has multiple edges to neighbor " << v + 1 << "\n";
         std::exit(1);
       }
     }
-- 
2.43.0


From e4d6bdf4922952778fd271f7ee8dd7b0002bcbaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:56 +0000
Subject: [PATCH 19/23] fix: grow the block in greedy graph growing

The lambda tested the block of the node that was just moved instead of
the block of its neighbor, thus no neighbor was ever queued.
---
 kaminpar-shm/initial_partitioning/initial_ggg_bipartitioner.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kaminpar-shm/initial_partitioning/initial_ggg_bipartitioner.cc b/kaminpar-shm/initial_partitioning/initial_ggg_bipartitioner.cc
index b676091..b3313c9 100644
--- a/kaminpar-shm/initial_partitioning/initial_ggg_bipartitioner.cc
+++ b/kaminpar-shm/initial_partitioning/initial_ggg_bipartitioner.cc
@@ -71,7 +71,7 @@ void InitialGGGBipartitioner::fill_bipartition() {
 
       // Queue unmarked neighbors / update gains
       _graph->adjacent_nodes(u, [&](const NodeID v, const EdgeWeight w) {
-        if (_partition[u] == V2) {
+        if (_partition[v] == V2) {
           // v already in V2: won't touch this node anymore
           return;
         }
-- 
2.43.0


From fee91897d7d7567ce66ebf01e644cef574fdbd53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:56 +0000
Subject: [PATCH 20/23] fix: store every cluster weight in the initial
 coarsener

The bit field had too few bits for weights of 2^29 and more.
---
 kaminpar-shm/initial_partitioning/initial_coarsener.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kaminpar-shm/initial_partitioning/initial_coarsener.h b/kaminpar-shm/initial_partitioning/initial_coarsener.h
index 05dacf7..cb1765f 100644
--- a/kaminpar-shm/initial_partitioning/initial_coarsener.h
+++ b/kaminpar-shm/initial_partitioning/initial_coarsener.h
@@ -7,6 +7,8 @@
  ******************************************************************************/
 #pragma once
 
+#include <limits>
+#include <type_traits>
 #include <utility>
 
 #include "kaminpar-shm/datastructures/csr_graph.h"
@@ -50,7 +52,8 @@ public:
   struct Cluster {
     // Steal one bit from the weight field to achieve 8 instead 12 bytes per entry
     bool locked : 1;
-    NodeWeight weight : std::numeric_limits<NodeWeight>::digits - 1;
+    // Weights are never negative: without the sign bit, every weight fits into the remaining bits
+    std::make_unsigned_t<NodeWeight> weight : std::numeric_limits<NodeWeight>::digits;
     NodeID leader;
   };
 
-- 
2.43.0


From bdaf6fd3d8e0a7641f79248264b81cd591b2626f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 04:08:35 +0000
Subject: [PATCH 21/23] fix: exchange element counts with matching types in the
 distributed contraction

---
 .../coarsening/contraction/global_cluster_contraction.cc      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kaminpar-dist/coarsening/contraction/global_cluster_contraction.cc b/kaminpar-dist/coarsening/contraction/global_cluster_contraction.cc
index 556f040..082a1d7 100644
--- a/kaminpar-dist/coarsening/contraction/global_cluster_contraction.cc
+++ b/kaminpar-dist/coarsening/contraction/global_cluster_contraction.cc
@@ -524,10 +524,10 @@ template <typename T> StaticArray<T> build_distribution(const T count, MPI_Comm
   MPI_Allgather(
       &count,
       1,
-      mpi::type::get<NodeID>(),
+      mpi::type::get<T>(),
       distribution.data(),
       1,
-      mpi::type::get<GlobalNodeID>(),
+      mpi::type::get<T>(),
       comm
   );
   std::exclusive_scan(
-- 
2.43.0


From c2285f66032abd14fddfee5ea625246ff456c33b Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 04:10:50 +0000
Subject: [PATCH 22/23] fix: balance coarse nodes if there are fewer of them
 than PEs

---
 .../coarsening/contraction/global_cluster_contraction.cc       | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kaminpar-dist/coarsening/contraction/global_cluster_contraction.cc b/kaminpar-dist/coarsening/contraction/global_cluster_contraction.cc
index 082a1d7..7ae92a4 100644
--- a/kaminpar-dist/coarsening/contraction/global_cluster_contraction.cc
+++ b/kaminpar-dist/coarsening/contraction/global_cluster_contraction.cc
@@ -912,7 +912,8 @@ AssignmentShifts compute_assignment_shifts(
   pe_overload.front() = 0;
   pe_underload.front() = 0;
 
-  const auto avg_cnode_count = static_cast<NodeID>(c_n / size);
+  // At least one, even if there are fewer coarse nodes than PEs
+  const auto avg_cnode_count = std::max<NodeID>(1, static_cast<NodeID>(c_n / size));
   const auto max_cnode_count = static_cast<NodeID>(max_cnode_imbalance * avg_cnode_count);
 
   // Determine overloaded PEs
-- 
2.43.0


From 1d3424fedbafbc863884b92a3a0ac6385b116e27 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 04:25:31 +0000
Subject: [PATCH 23/23] fix: color distributed graphs with PEs that do not own
 any nodes

---
 kaminpar-dist/coarsening/clustering/hem/hem_clusterer.cc | 4 +++-
 kaminpar-dist/graphutils/rearrangement.cc                | 4 +++-
 kaminpar-dist/refinement/lp/clp_refiner.cc               | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/kaminpar-dist/coarsening/clustering/hem/hem_clusterer.cc b/kaminpar-dist/coarsening/clustering/hem/hem_clusterer.cc
index 9b0ef82..feb1493 100644
--- a/kaminpar-dist/coarsening/clustering/hem/hem_clusterer.cc
+++ b/kaminpar-dist/coarsening/clustering/hem/hem_clusterer.cc
@@ -110,7 +110,9 @@ private:
       return compute_node_coloring_sequentially(*_graph, _ctx.chunks.compute(_input_ctx.parallel));
     }();
 
-    const ColorID num_local_colors = *std::max_element(coloring.begin(), coloring.end()) + 1;
+    // A PE might not own any nodes
+    const ColorID num_local_colors =
+        coloring.empty() ? 0 : *std::max_element(coloring.begin(), coloring.end()) + 1;
     const ColorID num_colors = mpi::allreduce(num_local_colors, MPI_MAX, _graph->communicator());
 
     TIMED_SCOPE("Allocation") {
diff --git a/kaminpar-dist/graphutils/rearrangement.cc b/kaminpar-dist/graphutils/rearrangement.cc
index 0518cb1..340a4af 100644
--- a/kaminpar-dist/graphutils/rearrangement.cc
+++ b/kaminpar-dist/graphutils/rearrangement.cc
@@ -56,7 +56,9 @@ DistributedCSRGraph rearrange_by_coloring(DistributedCSRGraph graph, const Conte
   auto coloring = compute_node_coloring_sequentially(
       graph, ctx.refinement.colored_lp.coloring_chunks.compute(ctx.parallel)
   );
-  const ColorID num_local_colors = *std::max_element(coloring.begin(), coloring.end()) + 1;
+  // A PE might not own any nodes
+  const ColorID num_local_colors =
+      coloring.empty() ? 0 : *std::max_element(coloring.begin(), coloring.end()) + 1;
   const ColorID num_colors = mpi::allreduce(num_local_colors, MPI_MAX, graph.communicator());
 
   START_TIMER("Allocation");
diff --git a/kaminpar-dist/refinement/lp/clp_refiner.cc b/kaminpar-dist/refinement/lp/clp_refiner.cc
index b49e272..42fa3af 100644
--- a/kaminpar-dist/refinement/lp/clp_refiner.cc
+++ b/kaminpar-dist/refinement/lp/clp_refiner.cc
@@ -96,7 +96,9 @@ void ColoredLPRefiner::initialize() {
     );
   }();
 
-  const ColorID num_local_colors = *std::max_element(coloring.begin(), coloring.end()) + 1;
+  // A PE might not own any nodes
+  const ColorID num_local_colors =
+      coloring.empty() ? 0 : *std::max_element(coloring.begin(), coloring.end()) + 1;
   const ColorID num_colors = mpi::allreduce(num_local_colors, MPI_MAX, graph.communicator());
   STATS << "Number of colors: " << num_colors;
 
-- 
2.43.0

