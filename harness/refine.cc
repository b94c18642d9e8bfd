// Refiners: what they may and may not do to a partition.
#include "gk.h"
#include "kaminpar-shm/metrics.h"
#include "kaminpar-shm/presets.h"
#include "kaminpar-shm/graphutils/compressed_graph_builder.h"
#if defined(R_LP)
#include "kaminpar-shm/refinement/lp/lp_refiner.h"
#elif defined(R_BAL)
#include "kaminpar-shm/refinement/balancer/greedy_balancer.h"
#elif defined(R_FM)
#include "kaminpar-shm/refinement/fm/fm_refiner.h"
#elif defined(R_JET)
#include "kaminpar-shm/refinement/jet/jet_refiner.h"
#endif
using namespace gk; using namespace kaminpar;
struct St { EdgeWeight cut; std::vector<BlockWeight> w; std::vector<BlockID> p; };
template <class PG> static St snap(const SG &s, const PG &pg, unsigned k) { St x; x.cut = cut(s, [&](unsigned u) { return pg.block(u); }); for (unsigned b = 0; b < k; ++b) x.w.push_back(bw(s, [&](unsigned u) { return pg.block(u); }, b)); for (unsigned u = 0; u < s.n; ++u) x.p.push_back(pg.block(u)); return x; }
static Graph wrap(const SG &s, bool z) { if (z) { CSRGraph c = csr(s); return Graph(std::make_unique<CompressedGraph>(CompressedGraphBuilder::compress(c))); } return make(s); }
static SG shape(unsigned t, long nw, long ew) { return t == 0 ? mkg(3, EDGES_ANY, nw, ew) : t == 1 ? mkg(4, EDGES_PATH, nw, ew) : t == 2 ? mkg(4, EDGES_STAR, nw, ew) : t == 3 ? mkg(4, EDGES_CYCLE, nw, ew) : t == 4 ? mkg(3, EDGES_PATH, nw, ew) : mkg(3, EDGES_COMPLETE, nw, ew); }
// every refiner: block weights consistent, blocks valid, weights within max(previous, limit)
static void common(const SG &s, const PartitionedGraph &pg, unsigned k, const St &before, const PartitionContext &pc, bool no_new_overload) {
  check_pgraph(s, pg, k);
  if (no_new_overload) for (unsigned b = 0; b < k; ++b) { BlockWeight lim = pc.max_block_weight(b); kse_assert(pg.block_weight(b) <= kse_ite64(before.w[b] > lim, before.w[b], lim), "a block is not overloaded unless it was, and never more than it was"); }
}
#ifndef PRE
#define PRE 1
#endif
#if defined(R_LP)
struct Cfg { bool z = false, comm = false; unsigned impl = 0, tie = 1, iters = 2, chunks = 1, budget = 0; int mt = -1; };
static void run(const SG &s, unsigned k, long lw, const Cfg &c) {
  Context ctx = create_default_context(); auto &lp = ctx.refinement.lp; Graph g = wrap(s, c.z);
  static const LabelPropagationImplementation IMPL[] = {LabelPropagationImplementation::SINGLE_PHASE, LabelPropagationImplementation::TWO_PHASE, LabelPropagationImplementation::GROWING_HASH_TABLES};
  lp.impl = IMPL[c.impl]; lp.tie_breaking_strategy = c.tie ? TieBreakingStrategy::UNIFORM : TieBreakingStrategy::GEOMETRIC; lp.num_iterations = c.iters; kse_threads = kse_chunks = c.chunks; kse_rand_budget = c.budget;
  std::vector<BlockWeight> lim(k); for (auto &x : lim) x = kse_sin<BlockWeight>("limit", 0, lw); ctx.partition.setup(g, lim);
  std::vector<NodeID> comm; if (c.comm) for (unsigned u = 0; u < s.n; ++u) comm.push_back(kse_choose("community", 2));
  PartitionedGraph pg(g, k, partition(s.n, k)); St a = snap(s, pg, k);
  LabelPropagationRefiner r(ctx); if (c.comm) r.set_communities(comm);
  r.initialize(pg); { std::optional<Threads> th; if (c.mt >= 0) th.emplace(c.mt); r.refine(pg, ctx.partition); }
  common(s, pg, k, a, ctx.partition, true); St b = snap(s, pg, k);
  if (!c.comm && c.mt < 0) kse_assert(b.cut <= a.cut, "label propagation does not increase the cut");
  for (unsigned u = 0; u < s.n; ++u) { bool adj = false; for (unsigned v = 0; v < s.n; ++v) if (v != u && s.w[u][v] != 0) adj |= !c.comm || comm[u] == comm[v]; if (!adj) kse_assert(b.p[u] == a.p[u], "a node without neighbors in its community stays where it is"); }
  if (c.comm) { // a block only receives nodes of communities that it had at some neighbor: with community-pure blocks, blocks stay pure
    bool pure = true; for (unsigned u = 0; u < s.n; ++u) for (unsigned v = 0; v < u; ++v) if (a.p[u] == a.p[v] && comm[u] != comm[v]) pure = false;
    if (pure) for (unsigned u = 0; u < s.n; ++u) for (unsigned v = 0; v < u; ++v) if (b.p[u] == b.p[v]) kse_assert(comm[u] == comm[v], "blocks stay within their community");
  }
  r.initialize(pg); r.refine(pg, ctx.partition); common(s, pg, k, b, ctx.partition, true); // reused
  kse_reach("done");
}
#define LW 2000
#ifndef W
#define W 15
#endif
extern "C" void lp() { unsigned t = kse_choose("structure", 2); SG s = shape(t + 4, t == 0 || TIER ? W : 1, t == 1 || TIER ? W : 3); Cfg c; c.impl = kse_choose("impl", 3); c.tie = kse_choose("tie", 2); c.iters = 1 + TIER; run(s, 2, 3 * W, c); }
extern "C" void lp3() { SG s = shape(kse_choose("structure", TIER ? 4 : 3), 1, TIER ? W : 1); Cfg c; c.impl = kse_choose("impl", 3); c.tie = kse_choose("tie", 2); c.budget = TIER ? 2 : 0; run(s, 3, 3, c); }
extern "C" void lp_comm() { SG s = shape(kse_choose("structure", 3), 1, 1); Cfg c; c.comm = true; c.chunks = 2; run(s, s.n == 3 ? 3 : 2, 3, c); }
extern "C" void lp_z() { SG s = shape(kse_choose("structure", 1), W, 1); Cfg c; c.z = true; run(s, 2, 3 * W, c); }
extern "C" void lp_second() { SG s = shape(kse_choose("structure", 2) + 4, W, TIER ? W : 1); Cfg c; c.impl = 1; c.chunks = 2; c.tie = kse_choose("tie", 2); run(s, 2, 3 * W, c); }
extern "C" void mt_lp() { SG s = TIER ? shape(kse_choose("structure", 4), 1, 1) : shape(kse_choose("structure", 2) * 2 + 2, 1, 1); Cfg c; c.impl = kse_choose("impl", 3); c.iters = 1; c.mt = PRE; run(s, 2, 3, c); }
#elif defined(R_BAL)
static void run(const SG &s, unsigned k, std::vector<BlockWeight> lim, bool uniform, bool unit, bool z, bool fork = true, int mt = -1) {
  Context ctx = create_default_context(); Graph g = wrap(s, z);
  if (uniform) { static const double E[] = {0.0, 0.03, 0.5}; ctx.partition.setup(g, k, E[kse_choose("eps", 3)]); } else ctx.partition.setup(g, lim);
  PartitionedGraph pg(g, k, partition(s.n, k, fork)); St a = snap(s, pg, k); BlockWeight room = 0; for (unsigned b = 0; b < k; ++b) room += ctx.partition.max_block_weight(b);
  GreedyBalancer r(ctx); r.initialize(pg); bool ok; { std::optional<Threads> th; if (mt >= 0) th.emplace(mt); ok = r.refine(pg, ctx.partition); }
  common(s, pg, k, a, ctx.partition, true); St b = snap(s, pg, k); bool was = true, is = true;
  for (unsigned x = 0; x < k; ++x) { was = was & (a.w[x] <= ctx.partition.max_block_weight(x)); is = is & (b.w[x] <= ctx.partition.max_block_weight(x)); }
  kse_assert(ok == is, "the balancer reports success exactly if the partition is balanced");
  if (was) for (unsigned u = 0; u < s.n; ++u) kse_assert(a.p[u] == b.p[u], "a balanced partition is left alone");
  if (unit) { if (room >= (BlockWeight)s.n) kse_assert(is, "unit node weights and feasible limits: the result is balanced"); }
  if (mt < 0 && kse_choose("again", 2)) { bool ok2 = r.refine(pg, ctx.partition); common(s, pg, k, b, ctx.partition, true); kse_assert(!ok || ok2, "balancing a balanced partition succeeds"); }
  kse_reach("done");
}
#ifndef W
#define W 3
#endif
extern "C" void uniform() { SG s = shape(kse_choose("structure", 2) + 4, W, 2); run(s, 2 + kse_choose("k", 2), {}, true, false, false); }
extern "C" void unit() { unsigned t = kse_choose("structure", 4); SG s = shape(t, 1, TIER || t == 1 ? 2 : 1); kse_threads = kse_chunks = 1 + kse_choose("chunks", 2); run(s, 2 + kse_choose("k", TIER ? 3 : 2), {}, true, true, kse_choose("compressed", 2)); }
extern "C" void limits() { // explicit limits, any
  SG s = shape(kse_choose("structure", 2) + 4, W, 1); unsigned k = 2 + kse_choose("k", TIER ? 2 : 1); std::vector<BlockWeight> l(k); for (auto &x : l) x = 1 + kse_choose("limit", 4); run(s, k, l, false, false, false);
}
extern "C" void unit_limits() { SG s = shape(kse_choose("structure", 3), 1, 1); unsigned k = 2 + kse_choose("k", 2); std::vector<BlockWeight> l(k); for (auto &x : l) x = 1 + kse_choose("limit", 3); run(s, k, l, false, true, false); }
extern "C" void mt() { SG s = shape(TIER ? kse_choose("structure", 4) : 1 + kse_choose("structure", 2), 1, 1); unsigned k = TIER ? 2 + kse_choose("k", 2) : 2; std::vector<BlockWeight> l(k); for (auto &x : l) x = 1 + kse_choose("limit", 3); run(s, k, l, false, true, false, true, PRE); }
#elif defined(R_FM) || defined(R_JET)
#ifdef R_FM
using R = FMRefiner;
#else
using R = JetRefiner;
#endif
static void run(const SG &s, unsigned k, std::vector<BlockWeight> lim, bool z, int threads, bool unit, int mt = -1) {
  Context ctx = create_context_by_preset_name(
#ifdef R_FM
    "strong"
#else
    "jet"
#endif
  ); Graph g = wrap(s, z); kse_threads = kse_chunks = threads; ctx.parallel.num_threads = threads;
  if (lim.empty()) { static const double E[] = {0.0, 0.03, 0.5}; ctx.partition.setup(g, k, E[kse_choose("eps", 3)]); } else ctx.partition.setup(g, lim);
#ifdef R_FM
  auto &fm = ctx.refinement.kway_fm; fm.num_iterations = 2; fm.gain_cache_strategy = kse_choose("cache", 2) ? GainCacheStrategy::SPARSE : GainCacheStrategy::COMPACT_HASHING; fm.num_seed_nodes = mt >= 0 ? 1 : 1 + kse_choose("seeds", 2); fm.unlock_seed_nodes = fm.unlock_locally_moved_nodes = mt >= 0 && !TIER ? true : kse_choose("unlock", 2);
#else
  auto &j = ctx.refinement.jet; j.num_iterations = 2; j.num_rounds_on_fine_level = 1 + kse_choose("rounds", 2);
#endif
  PartitionedGraph pg(g, k, partition(s.n, k)); St a = snap(s, pg, k); bool was = true, is = true;
  R r(ctx); { std::optional<Threads> th; if (mt >= 0) th.emplace(mt); r.initialize(pg); r.refine(pg, ctx.partition); } St b = snap(s, pg, k);
  for (unsigned x = 0; x < k; ++x) { was = was & (a.w[x] <= ctx.partition.max_block_weight(x)); is = is & (b.w[x] <= ctx.partition.max_block_weight(x)); }
#ifdef R_FM
  common(s, pg, k, a, ctx.partition, mt < 0); // (threads check limits before they apply their moves: a balancer follows)
  if (mt < 0) kse_assert(b.cut <= a.cut, "the refiner does not increase the cut"); // (gains are not exact if neighbors move at the same time)
  if (mt < 0 && was) kse_assert(is, "a balanced partition stays balanced");
#else
  common(s, pg, k, a, ctx.partition, false);
  kse_assert(b.cut <= a.cut, "the refiner does not increase the cut");
  if (unit && was) kse_assert(is, "a balanced partition stays balanced");
#endif
  if (TIER) { r.initialize(pg); r.refine(pg, ctx.partition); check_pgraph(s, pg, k); kse_assert(cut(s, [&](unsigned u) { return pg.block(u); }) <= b.cut, "nor when it is used again"); }
  kse_reach("done");
}
extern "C" void unit() { SG s = shape(kse_choose("structure", 4), 1, 1); unsigned k = 2 + kse_choose("k", TIER || s.n == 3 ? 2 : 1), z = kse_choose("compressed", 2); run(s, k, {}, z, TIER ? 1 + kse_choose("threads", 2) : 1 + z, true); }
extern "C" void edges() { SG s = shape(kse_choose("structure", 2) + 4, 1, 3); run(s, 2 + kse_choose("k", 2), {}, false, 1, true); }
extern "C" void nodes() { SG s = shape(kse_choose("structure", 2) + 4, 3, 1); unsigned k = 2; std::vector<BlockWeight> l(k); for (auto &x : l) x = 2 + kse_choose("limit", 4); run(s, k, l, false, 1, false); }
extern "C" void mt() { SG s = TIER ? shape(kse_choose("structure", 4), 1, 1) : shape(kse_choose("structure", 2) + 4, 1, 1); unsigned k = 2; std::vector<BlockWeight> l(k); for (auto &x : l) x = 2 + kse_choose("limit", 2); run(s, k, l, false, 2, true, PRE); }
#endif
