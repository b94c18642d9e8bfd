// Sequential initial bipartitioning: flat bipartitioners, 2-way FM, sequential coarsening, pool, multilevel bipartitioner.
#include "gk.h"
#include "kaminpar-shm/metrics.h"
#include "kaminpar-shm/presets.h"
#include "kaminpar-shm/initial_partitioning/seed_node_utils.h"
#include "kaminpar-shm/graphutils/compressed_graph_builder.h"
#include "kaminpar-shm/initial_partitioning/initial_bfs_bipartitioner.h"
#include "kaminpar-shm/initial_partitioning/initial_coarsener.h"
#include "kaminpar-shm/initial_partitioning/initial_fm_refiner.h"
#include "kaminpar-shm/initial_partitioning/initial_ggg_bipartitioner.h"
#include "kaminpar-shm/initial_partitioning/initial_multilevel_bipartitioner.h"
#include "kaminpar-shm/initial_partitioning/initial_pool_bipartitioner.h"
#include "kaminpar-shm/initial_partitioning/initial_random_bipartitioner.h"
#include "kaminpar-shm/initial_partitioning/initial_bipartitioner_worker_pool.h"
using namespace gk;
#ifndef BUDGET
#define BUDGET 2
#endif
static SG fixed(unsigned t) { switch (t) { case 0: return mkg(4, EDGES_PATH, 1, 1); case 1: return mkg(4, EDGES_STAR, 1, 1); case 2: return mkg(5, EDGES_CYCLE, 1, 1); case 3: return mkg(4, EDGES_COMPLETE, 1, 1); case 4: return mkg(6, EDGES_PATH, 1, 1); default: return mkg(1, EDGES_PATH, 1, 1); } }
static SG anyg() { const unsigned n = TIER ? 1 + kse_choose("n", 4) : 3; return mkg(n, EDGES_ANY, 1, 1); }
static void weights(SG &s) { for (unsigned u = 0; u < s.n; ++u) { s.vw[u] = 1 + kse_choose("node weight", TIER ? 3 : 2); } }
static bool connected(const SG &s, const std::vector<char> &in) { unsigned start = s.n, cnt = 0, seen = 0; for (unsigned u = 0; u < s.n; ++u) if (in[u]) { start = u; ++cnt; } if (!cnt) return true; std::vector<char> vis(s.n, 0); std::vector<unsigned> st{start}; vis[start] = 1; while (!st.empty()) { unsigned u = st.back(); st.pop_back(); ++seen; for (unsigned v = 0; v < s.n; ++v) if (in[v] && s.e[u][v] && !vis[v]) { vis[v] = 1; st.push_back(v); } } return seen == cnt; }
template <class PG> static void check_bip(const SG &s, const PG &p, const PartitionContext &pc, bool unit) {
  check_pgraph(s, p, 2);
  if (unit) for (unsigned b = 0; b < 2; ++b) kse_assert(p.block_weight(b) <= pc.max_block_weight(b), "unit-weight bipartitions are balanced");
}
static PartitionContext context(const CSRGraph &g, unsigned total, bool uniform) {
  PartitionContext pc; if (uniform) { static const double EPS[] = {0.0, 0.03, 0.5}; pc.setup(g, 2, EPS[kse_choose("eps", 3)]); } else { unsigned a = kse_choose("limit 0", total + 1), extra = kse_choose("slack", 2); kse_assume(a && total - a + extra); pc.setup(g, std::vector<BlockWeight>{(BlockWeight)a, (BlockWeight)(total - a + extra)}); } return pc; }
static std::unique_ptr<InitialFlatBipartitioner> flat_algo(unsigned a, const InitialPoolPartitionerContext &c) {
  switch (a) { case 0: return std::make_unique<AlternatingBfsBipartitioner>(c); case 1: return std::make_unique<LighterBlockBfsBipartitioner>(c); case 2: return std::make_unique<SequentialBfsBipartitioner>(c); case 3: return std::make_unique<LongerQueueBfsBipartitioner>(c); case 4: return std::make_unique<ShorterQueueBfsBipartitioner>(c); case 5: return std::make_unique<InitialGGGBipartitioner>(c); default: return std::make_unique<InitialRandomBipartitioner>(c); } }
static void flat(unsigned a, bool unit) {
  Context ctx = create_default_context(); auto &pool = ctx.initial_partitioning.pool; pool.num_seed_iterations = TIER ? 1 + kse_choose("seed iterations", 2) : 2; auto alg = flat_algo(a, pool);
  StaticArray<BlockID> part; StaticArray<BlockWeight> bw;
  for (int round = 0; round < 2; ++round) { // the objects are reused for another graph
    SG s = round ? fixed(kse_choose("second graph", 2) ? 5 : 4) : anyg(); if (!unit && !round) weights(s); CSRGraph g = csr(s); PartitionContext pc = context(g, s.total(), round || kse_choose("uniform", 2)); if (round) kse_rand_budget = 0; else kse_rand_budget = BUDGET;
    alg->init(g, pc); auto p = alg->bipartition(std::move(part), std::move(bw)); check_bip(s, p, pc, unit);
    if (a == 5) { std::vector<char> all(s.n, 1), in(s.n); for (unsigned u = 0; u < s.n; ++u) in[u] = p.block(u) == 1; if (connected(s, all)) kse_assert(connected(s, in), "greedy growing grows a connected block"); }
    part = p.take_raw_partition(); bw = p.take_raw_block_weights();
  }
  kse_reach("done");
}
extern "C" void flat_bfs() { flat(kse_choose("algorithm", 5), true); }
extern "C" void flat_ggg() { flat(5, true); }
extern "C" void flat_rnd() { flat(6, true); }
extern "C" void flat_w() { // symbolic weights
  min_w = 2; SG s = kse_choose("graph", 2) ? mkg(3, EDGES_PATH, 9, 9) : mkg(3 + TIER, EDGES_STAR, 9, 9); CSRGraph g = csr(s); Context ctx = create_default_context(); auto &pool = ctx.initial_partitioning.pool; pool.num_seed_iterations = 1; const unsigned a = kse_choose("algorithm", 7); auto alg = flat_algo(a, pool); PartitionContext pc; pc.setup(g, std::vector<BlockWeight>{(BlockWeight)(3 + 4 * kse_choose("limit", 3)), (BlockWeight)(3 + 4 * kse_choose("limit", 3))}); kse_rand_budget = 1;
  alg->init(g, pc); auto p = alg->bipartition(StaticArray<BlockID>{}, StaticArray<BlockWeight>{}); check_bip(s, p, pc, false); if (a == 5) { std::vector<char> in(s.n); for (unsigned u = 0; u < s.n; ++u) in[u] = p.block(u) == 1; kse_assert(connected(s, in), "greedy growing grows a connected block"); }
  kse_reach("done");
}
extern "C" void far() {
  SG s = anyg(); CSRGraph g = csr(s); const int it = 1 + kse_choose("iterations", 2); kse_rand_budget = BUDGET + 1; Queue<NodeID> q(s.n); Marker<> m(s.n);
  for (int round = 0; round < 2; ++round) { auto [a, b] = round ? find_far_away_nodes(g, it, q, m) : find_far_away_nodes(g, it); kse_assert(a < s.n && b < s.n, "seed nodes exist");
    if (s.n > 1) { kse_assert(a != b, "two different seed nodes"); std::vector<unsigned> d(s.n, 99); d[a] = 0; for (unsigned i = 0; i < s.n; ++i) for (unsigned u = 0; u < s.n; ++u) for (unsigned v = 0; v < s.n; ++v) if (s.e[u][v] && d[u] + 1 < d[v]) d[v] = d[u] + 1; unsigned mx = 0; for (unsigned u = 0; u < s.n; ++u) mx = std::max(mx, d[u]); kse_assert(d[b] == mx, "no node is farther away from the first seed node"); } }
  kse_reach("done");
}
// ---------------------------------------------------------------- 2-way FM
extern "C" void fm2() {
  Context ctx = create_default_context(); auto &rc = ctx.initial_partitioning.refinement; rc.num_iterations = kse_choose("iterations", 2) ? 1 : TIER ? 5 : 2; rc.num_fruitless_moves = TIER && kse_choose("fruitless", 2) ? 1 : 100; std::unique_ptr<InitialRefiner> r; const bool adaptive = kse_choose("adaptive", 2); if (adaptive) r = std::make_unique<InitialAdaptive2WayFM>(rc); else r = std::make_unique<InitialSimple2WayFM>(rc);
  for (int round = 0; round < 2; ++round) {
    SG s = round ? fixed(kse_choose("second graph", 2) ? 5 : 4) : TIER ? fixed(kse_choose("graph", 4)) : kse_choose("graph", 2) ? mkg(3, EDGES_COMPLETE, 1, 1) : fixed(1); if (!round && !adaptive) { s.vw[TIER ? kse_choose("heavy node", s.n) : 0] = 3; for (unsigned u = 0; u < s.n; ++u) for (unsigned v = u + 1; v < s.n; ++v) if (s.e[u][v]) s.w[u][v] = s.w[v][u] = kse_sin<EdgeWeight>("ew", 1, TIER ? 7 : 4); for (unsigned a = 0; a < s.n; ++a) for (unsigned e = s.xadj[a]; e < s.xadj[a + 1]; ++e) s.ew[e] = s.w[a][s.adj[e]]; }
    CSRGraph g = csr(s); PartitionContext pc; BlockWeight l0 = round ? 4 : TIER ? (BlockWeight)kse_choose("limit", 5) + 1 : 1 + 2 * (BlockWeight)kse_choose("limit", 2), l1 = round ? 4 : TIER ? (BlockWeight)kse_choose("limit", 5) + 1 : 5 - l0; pc.setup(g, std::vector<BlockWeight>{l0, l1}); kse_rand_budget = round ? 0 : TIER ? BUDGET : 1;
    PartitionedCSRGraph p(g, 2, round ? partition(s.n, 1) : partition(s.n, 2)); auto blk = [&](unsigned u) { return p.block(u); }; EdgeWeight c0 = cut(s, blk); BlockWeight o0 = 0; for (unsigned b = 0; b < 2; ++b) { BlockWeight x = bw(s, blk, b) - pc.max_block_weight(b); o0 += kse_ite64(x > 0, x, 0); }
    r->init(g); r->refine(p, pc); check_pgraph(s, p, 2); kse_assert(cut(s, blk) <= c0, "2-way FM does not increase the cut"); BlockWeight o1 = 0; for (unsigned b = 0; b < 2; ++b) { BlockWeight x = bw(s, blk, b) - pc.max_block_weight(b); o1 += kse_ite64(x > 0, x, 0); } kse_assert(o1 <= o0, "2-way FM does not increase the overload");
    if (TIER == 0 && round == 0 && kse_choose("reuse", 2)) break;
  }
  kse_reach("done");
}
// ---------------------------------------------------------------- sequential coarsening
static void coarsen(const SG &s, NodeWeight maxw, bool symw) {
  Context ctx = create_default_context(); auto &cc = ctx.initial_partitioning.coarsening; cc.convergence_threshold = 0.05; InitialCoarsener c(cc);
  if (kse_choose("reuse", 2)) { SG t = fixed(kse_choose("first graph", 2) ? 4 : 0); CSRGraph g0 = csr(t); c.init(g0); kse_rand_budget = 0; c.coarsen(100); while (!c.empty()) { PartitionedCSRGraph cp(*c.current(), 2, partition(c.current()->n(), 1)); c.uncoarsen(std::move(cp)); } }
  CSRGraph g = csr(s); c.init(g); kse_rand_budget = BUDGET; std::vector<const CSRGraph *> lv{&g}; std::vector<SG> sg{s};
  for (int i = 0; i < 2; ++i) { const unsigned before = c.current()->n(), l = c.level(); const CSRGraph *x = c.coarsen(maxw); kse_assert(x == c.current(), "the current graph"); if (c.level() == l) break; kse_assert(x->n() < before, "a coarser graph is smaller"); lv.push_back(x); }
  kse_assert(c.level() + 1 == lv.size(), "number of levels");
  while (lv.size() > 1) { const CSRGraph *x = c.current(), *f; const unsigned cn = x->n(), k = std::max(2u, cn); std::vector<long> cw(cn); std::vector<std::vector<long>> ce(cn, std::vector<long>(cn, 0)); for (unsigned u = 0; u < cn; ++u) { cw[u] = x->node_weight(u); x->adjacent_nodes(u, [&](NodeID v, EdgeWeight w) { kse_assert(v < cn && v != u && ce[u][v] == 0, "coarse edges lead to other coarse nodes, once"); ce[u][v] = w; }); }
    const NodeWeight ctot = x->total_node_weight(); const EdgeWeight ctote = x->total_edge_weight(); const NodeWeight cmax = x->max_node_weight();
    StaticArray<BlockID> id(cn); for (unsigned u = 0; u < cn; ++u) id[u] = u; PartitionedCSRGraph cp(*x, k, std::move(id)); PartitionedCSRGraph p = c.uncoarsen(std::move(cp)); f = &p.graph(); lv.pop_back(); lv.back() = f; kse_assert(f == c.current() && c.level() + 1 == lv.size(), "uncoarsening returns to the finer graph");
    std::vector<long> fw(cn, 0); std::vector<unsigned> cnt(cn, 0); std::vector<std::vector<long>> fe(cn, std::vector<long>(cn, 0)); for (unsigned u = 0; u < f->n(); ++u) { unsigned a = p.block(u); kse_assert(a < cn, "every node is mapped"); fw[a] += f->node_weight(u); ++cnt[a]; f->adjacent_nodes(u, [&](NodeID v, EdgeWeight w) { unsigned b = p.block(v); if (a != b) fe[a][b] += w; }); }
    long tot = 0, tote = 0, mx = 0; for (unsigned a = 0; a < cn; ++a) { kse_assert(cnt[a] > 0, "no empty coarse node"); kse_assert(fw[a] == cw[a], "a coarse node weighs as much as its cluster"); kse_assert(p.block_weight(a) == fw[a], "projected block weights"); kse_assert(cnt[a] == 1 || fw[a] <= maxw, "clusters respect the maximum cluster weight"); tot += fw[a]; mx = kse_ite64(fw[a] > mx, fw[a], mx); for (unsigned b = 0; b < cn; ++b) { kse_assert(fe[a][b] == ce[a][b], "a coarse edge weighs as much as the edges between the clusters"); tote += fe[a][b]; } }
    kse_assert(ctot == tot && ctote == tote && cmax == mx, "coarse totals");
  }
  kse_assert(c.empty(), "all levels removed"); kse_reach("done");
}
extern "C" void coarse() { SG s = anyg(); coarsen(s, kse_choose("max cluster weight", 4), false); }
extern "C" void coarse_w() { min_w = 2; SG s = kse_choose("graph", 2) ? mkg(3, EDGES_PATH, 1000, 50) : mkg(3, EDGES_COMPLETE, 1000, 1); coarsen(s, kse_sin<NodeWeight>("max cluster weight", 1, 3000), true); }
extern "C" void coarse_huge() { min_w = 2; SG s = mkg(TIER + 2, EDGES_PATH, 700000000, 1); coarsen(s, 2100000000, true); }
extern "C" void coarse_deep() { coarsen(fixed(kse_choose("graph", 5)), 2 + kse_choose("max cluster weight", 4), false); }
// ---------------------------------------------------------------- pool and multilevel bipartitioner
extern "C" void pool() {
  Context ctx = create_default_context(); auto &pc = ctx.initial_partitioning.pool; pc.min_num_repetitions = 1; pc.min_num_non_adaptive_repetitions = 1; pc.max_num_repetitions = 2; pc.refinement.disabled = kse_choose("no refinement", 2); InitialPoolBipartitioner b(pc); b.set_num_repetitions(1 + kse_choose("repetitions", 2));
  const bool unit = kse_choose("unit", 2); for (int round = 0; round < 2; ++round) { SG s = round ? fixed(kse_choose("second graph", 2) ? 5 : 4) : TIER ? anyg() : fixed(kse_choose("graph", 3)); if (!round && !unit) { if (TIER) weights(s); else s.vw[TIER ? kse_choose("heavy node", s.n) : 0] = 3; } CSRGraph g = csr(s); PartitionContext c = context(g, s.total(), round || kse_choose("uniform", 2)); kse_rand_budget = pc.refinement.disabled ? -1 : 0;
    b.init(g, c); auto p = b.bipartition(); check_bip(s, p, c, unit || round);
    if (pc.refinement.disabled) { // constant draws: every bipartitioner is a function of the graph, the pool returns the best of their bipartitions
      bool bf = false; EdgeWeight bc = -1; StaticArray<BlockID> part; StaticArray<BlockWeight> bws; auto cutof = [&](const PartitionedCSRGraph &q) { return cut(s, [&](unsigned u) { return q.block(u); }); }; auto feas = [&](const PartitionedCSRGraph &q) { return q.block_weight(0) <= c.max_block_weight(0) && q.block_weight(1) <= c.max_block_weight(1); };
      for (unsigned a = 0; a < 7; ++a) { auto alg = flat_algo(a, pc); alg->init(g, c); auto q = alg->bipartition(std::move(part), std::move(bws)); const bool f = feas(q); const EdgeWeight w = cutof(q); if (bc < 0 || f > bf || (f == bf && w < bc)) { bf = f; bc = w; } part = q.take_raw_partition(); bws = q.take_raw_block_weights(); }
      kse_assert(feas(p) == bf && cutof(p) == bc, "the pool returns the best bipartition"); } }
  kse_reach("done");
}
static Graph zipped(const SG &s) { CSRGraph c = csr(s); return Graph(std::make_unique<CompressedGraph>(CompressedGraphBuilder::compress(c))); }
extern "C" void multilevel() {
  Context ctx = create_default_context(); auto &i = ctx.initial_partitioning; i.coarsening.contraction_limit = 1 + kse_choose("contraction limit", 2); i.coarsening.cluster_weight_multiplier = 0.5; i.pool.max_num_repetitions = i.pool.min_num_repetitions = i.pool.min_num_non_adaptive_repetitions = 1; i.refine_pool_partition = kse_choose("refine pool partition", 2); InitialBipartitionerWorkerPool wp(ctx);
  const bool unit = kse_choose("unit", 2), zip = kse_choose("compressed", 2); const unsigned k = 2 + kse_choose("k", 2); SG s[2] = {TIER ? anyg() : fixed(kse_choose("graph", 3)), fixed(kse_choose("second graph", 2) ? 5 : 4)}; if (!unit) { if (TIER) weights(s[0]); else s[0].vw[kse_choose("heavy node", 3)] = 3; } std::optional<Graph> g[2]; std::optional<PartitionedGraph> p[2]; std::vector<BlockID> keep; bool copy = false;
  for (int round = 0; round < 2; ++round) { g[round].emplace(zip && !round ? zipped(s[0]) : make(s[round])); ctx.partition.setup(*g[round], k, 0.03); kse_rand_budget = 0; if (!round) copy = kse_choose("copy", 2);
    p[round].emplace(wp.bipartition(&*g[round], 0, 1, copy)); check_pgraph(s[round], *p[round], 2); if (!round && copy) for (unsigned u = 0; u < s[0].n; ++u) keep.push_back(p[0]->block(u)); }
  if (copy) { for (unsigned u = 0; u < s[0].n; ++u) kse_assert(p[0]->block(u) == keep[u], "a copied bipartition outlives the next one"); }
  kse_reach("done");
}
