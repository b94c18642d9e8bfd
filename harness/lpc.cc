// Label propagation clustering.
#include "gk.h"
#include "kaminpar-shm/coarsening/clustering/lp_clusterer.h"
#include "kaminpar-shm/graphutils/compressed_graph_builder.h"
#include "kaminpar-shm/presets.h"
using namespace gk; using namespace kaminpar;
static LabelPropagationCoarseningContext base() {
  CoarseningContext c = create_default_context().coarsening; return c.clustering.lp;
}
static void check(const SG &g, const StaticArray<NodeID> &cl, NodeWeight maxw, const std::vector<NodeID> &comm) {
  for (unsigned u = 0; u < g.n; ++u) kse_assert(cl[u] < g.n, "every node gets a cluster label below n");
  for (unsigned c = 0; c < g.n; ++c) {
    NodeWeight w = 0; unsigned cnt = 0;
    for (unsigned u = 0; u < g.n; ++u) if (cl[u] == c) { w += g.vw[u]; ++cnt; }
    if (cnt > 1 && maxw >= 0) kse_assert(w <= maxw, "a cluster with more than one node respects the maximum cluster weight");
  }
  if (!comm.empty()) for (unsigned u = 0; u < g.n; ++u) for (unsigned v = 0; v < u; ++v) if (cl[u] == cl[v]) kse_assert(comm[u] == comm[v], "nodes in the same cluster belong to the same community");
}
static const LabelPropagationImplementation IMPL[] = {LabelPropagationImplementation::SINGLE_PHASE, LabelPropagationImplementation::TWO_PHASE, LabelPropagationImplementation::GROWING_HASH_TABLES};
static const TwoHopStrategy TWO[] = {TwoHopStrategy::DISABLE, TwoHopStrategy::MATCH, TwoHopStrategy::MATCH_THREADWISE, TwoHopStrategy::CLUSTER, TwoHopStrategy::CLUSTER_THREADWISE};
static const IsolatedNodesClusteringStrategy ISO[] = {IsolatedNodesClusteringStrategy::KEEP, IsolatedNodesClusteringStrategy::MATCH, IsolatedNodesClusteringStrategy::CLUSTER, IsolatedNodesClusteringStrategy::MATCH_DURING_TWO_HOP, IsolatedNodesClusteringStrategy::CLUSTER_DURING_TWO_HOP};
struct Cfg { unsigned impl = 1, two = 0, iso = 0, tie = 1, iters = 2, chunks = 1, budget = 0; bool z = false, again = false, relabel = false, communities = false; NodeWeight maxw = 0; NodeID desired = 0; int mt = -1; };
static void run(const SG &s, const Cfg &c) {
  CoarseningContext cc = create_default_context().coarsening; auto &lp = cc.clustering.lp;
  lp.impl = IMPL[c.impl]; lp.two_hop_strategy = TWO[c.two]; lp.isolated_nodes_strategy = ISO[c.iso]; lp.two_hop_threshold = c.two || c.iso ? 1.0 : 0.5; lp.tie_breaking_strategy = c.tie ? TieBreakingStrategy::UNIFORM : TieBreakingStrategy::GEOMETRIC;
  lp.num_iterations = c.iters; lp.relabel_before_second_phase = c.relabel;
  kse_threads = kse_chunks = c.chunks; kse_rand_budget = c.budget;
  CSRGraph cg = csr(s); Graph g = c.z ? Graph(std::make_unique<CompressedGraph>(CompressedGraphBuilder::compress(cg))) : Graph(std::make_unique<CSRGraph>(csr(s)));
  std::vector<NodeID> comm; if (c.communities) for (unsigned u = 0; u < s.n; ++u) comm.push_back(kse_choose("community", 2));
  LPClustering lpc(cc); lpc.set_max_cluster_weight(c.maxw); lpc.set_desired_cluster_count(c.desired); if (c.communities) lpc.set_communities(comm);
  StaticArray<NodeID> cl(s.n); for (unsigned u = 0; u < s.n; ++u) cl[u] = 77;
  { std::optional<Threads> th; if (c.mt >= 0) th.emplace(c.mt); lpc.compute_clustering(cl, g, false); } check(s, cl, c.mt >= 0 ? -1 : c.maxw, comm); // (the limit is relaxed if several nodes move at the same time)
  if (c.again) { StaticArray<NodeID> c2(s.n); for (unsigned u = 0; u < s.n; ++u) c2[u] = 99; lpc.compute_clustering(c2, g, true); check(s, c2, c.maxw, comm); }
  kse_reach("done");
}
#ifndef W
#define W 1000
#endif
extern "C" void core() { // symbolic node and edge weights, symbolic limit
  unsigned t = kse_choose("structure", TIER ? 3 : 2); SG s = t == 2 ? mkg(4, EDGES_CYCLE, 1, W) : mkg(3, t == 0 ? EDGES_PATH : EDGES_COMPLETE, W, W); Cfg c; c.impl = kse_choose("impl", 3); c.tie = kse_choose("tie", 2); c.maxw = kse_sin<NodeWeight>("max", 1, 4 * W);
  if (TIER) { c.budget = 2; c.again = true; } else c.iters = 1 + kse_choose("iterations", 2);
  run(s, c);
}
static SG shape(unsigned t, long nw, long ew) { return t == 0 ? mkg(3, EDGES_ANY, nw, ew) : t == 1 ? mkg(TIER ? 5 : 4, EDGES_STAR, nw, 1) : mkg(4, EDGES_PATH, nw, 1); }
extern "C" void twohop() { // two-hop and isolated nodes strategies
  SG s = shape(kse_choose("structure", 3), W, 1); Cfg c; c.two = kse_choose("two", 5); c.iso = c.two == 0 || c.two == 2 || s.n == 3 ? kse_choose("iso", 5) : 0; c.maxw = kse_sin<NodeWeight>("max", 1, 4 * W); c.iters = TIER ? 2 : 1; if (TIER) { c.chunks = 1 + kse_choose("chunks", 2); c.again = true; }
  run(s, c);
}
extern "C" void communities() {
  unsigned t = kse_choose("structure", 3); SG s = shape(t, 1, TIER ? W : 1); Cfg c; c.impl = s.n == 3 ? kse_choose("impl", 3) : 1; c.communities = true; c.two = kse_choose("two", 5); c.iso = s.n == 3 ? kse_choose("iso", 5) : 0; c.maxw = kse_sin<NodeWeight>("max", 1, 6); c.iters = 1 + kse_choose("iterations", 2);
  run(s, c);
}
extern "C" void second() { // second phase (threshold scaled down), relabeling
  SG s = kse_choose("structure", 2) ? mkg(4, EDGES_STAR, W, 1) : mkg(3, EDGES_CONN, W, TIER ? W : 1); Cfg c; c.tie = kse_choose("tie", 2); c.relabel = kse_choose("relabel", 2); c.two = kse_choose("two", 3); c.chunks = TIER ? 1 + kse_choose("chunks", 2) : 1; c.maxw = kse_sin<NodeWeight>("max", 1, 4 * W); c.again = TIER;
  run(s, c);
}
extern "C" void relabel_communities() { SG s = kse_choose("structure", 2) ? mkg(4, EDGES_STAR, 1, 1) : mkg(3, EDGES_CONN, 1, W); Cfg c; c.communities = true; c.relabel = true; c.two = kse_choose("two", 5); c.maxw = kse_sin<NodeWeight>("max", 1, 6); run(s, c); }
extern "C" void relabel() { // any random choice, any number of iterations after relabeling
  SG s = kse_choose("structure", 2) ? mkg(4, TIER ? EDGES_CONN : EDGES_PATH, 1, 1) : mkg(3, EDGES_CONN, 3, 1); Cfg c; c.relabel = true; c.two = kse_choose("two", 5); c.iters = 1 + kse_choose("iterations", 2); c.budget = TIER ? 4 : 3; c.maxw = kse_sin<NodeWeight>("max", 1, 6); c.again = TIER; run(s, c);
}
extern "C" void compressed() { SG s = mkg(3, EDGES_ANY, W, 1); Cfg c; c.z = true; c.two = 2; c.iso = 3; c.maxw = kse_sin<NodeWeight>("max", 1, 4 * W); run(s, c); }

#ifndef PRE
#define PRE 1
#endif
extern "C" void mt_lp() { SG s = kse_choose("structure", 2) ? mkg(4, EDGES_PATH, 1, 1) : mkg(3, EDGES_CONN, 1, 1); Cfg c; c.impl = kse_choose("impl", 3); c.tie = 1; c.iters = 1 + TIER; c.mt = PRE; c.maxw = 2 + kse_choose("max", 2); run(s, c); }
extern "C" void mt_twohop() { SG s = kse_choose("structure", 2) ? mkg(4, EDGES_STAR, 1, 1) : mkg(3, TIER || kse_choose("any", 2) ? EDGES_ANY : EDGES_CONN, 1, 1); Cfg c; if (!TIER && s.n == 3 && !s.adj.empty() && s.adj.size() < 4) kse_assume(s.e[0][1]); c.communities = TIER && s.n == 3; c.iters = 1; c.mt = PRE; c.two = kse_choose("two", 5); c.iso = s.n == 3 ? kse_choose("iso", 5) : 0; c.maxw = 2; run(s, c); }
extern "C" void mt_relabel() { SG s = kse_choose("structure", 2) ? mkg(4, EDGES_PATH, 1, 1) : mkg(3, EDGES_CONN, 1, 1); Cfg c; c.relabel = true; c.iters = 1; c.mt = PRE; c.two = kse_choose("two", 2); c.maxw = 2; run(s, c); }
