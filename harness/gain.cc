// Gain caches: conn, gain, gains and is_border_node always agree with their definition on the current partition, after any moves, through delta caches, and after reuse.
#include "gk.h"
#include "kaminpar-shm/datastructures/delta_partitioned_graph.h"
#include "kaminpar-shm/kaminpar.h"
#include "kaminpar-shm/presets.h"
#include "kaminpar-shm/refinement/gains/compact_hashing_gain_cache.h"
#include "kaminpar-shm/refinement/gains/dense_gain_cache.h"
#include "kaminpar-shm/refinement/gains/hashing_gain_cache.h"
#include "kaminpar-shm/refinement/gains/on_the_fly_gain_cache.h"
#include "kaminpar-shm/refinement/gains/sparse_gain_cache.h"
#include "kaminpar-shm/graphutils/compressed_graph_builder.h"
using namespace gk;
#ifndef MOVES
#define MOVES 1
#endif
template <class G> using OnTheFlyAdjacent = OnTheFlyGainCache<G, false, true>;
template <class G> using OnTheFlyConn = OnTheFlyGainCache<G, true, false>;
template <class G> using DenseExact = DenseGainCache<G, GenericDeltaGainCache, true, true>;
template <class G> using SparseExact = SparseGainCache<G, GenericDeltaGainCache, true, true>;
template <class G> using SparseLargeExact = SparseGainCache<G, LargeKGenericDeltaGainCache, false, true>;
template <class GC, class PG> void check_cache(const char *, GC &gc, const SG &g, const PG &pg, unsigned k, bool adjacent_only, bool exact, bool delta) {
  for (unsigned u = 0; u < g.n; ++u) {
    const BlockID from = pg.block(u);
    std::vector<EdgeWeight> c(k, 0); std::vector<char> adj(k, 0);
    for (unsigned v = 0; v < g.n; ++v) if (g.e[u][v]) { c[pg.block(v)] += g.w[u][v]; adj[pg.block(v)] = 1; }
    bool conn = true, gain = true, pairs = true, blocks = true, values = true, cover = true;
    for (unsigned b = 0; b < k; ++b) {
      conn &= gc.conn(u, b) == c[b];
      if (b != from) gain &= gc.gain(u, from, b) == c[b] - c[from];
      for (unsigned b2 = 0; b2 < k && b2 < 3; ++b2) if (b != from && b2 != from && b != b2) { auto [x, y] = gc.gain(u, from, std::pair<BlockID, BlockID>{b, b2}); pairs &= (x == c[b] - c[from]) & (y == c[b2] - c[from]); }
    }
    kse_assert(conn, "the connection to a block is the total weight of the edges into it");
    kse_assert(gain, "the gain of a move is the reduction of the cut");
    kse_assert(pairs, "the gains of two targets are the reductions of the cut");
    std::vector<int> seen(k, 0);
    gc.gains(u, from, [&](const BlockID to, auto &&val) {
      if (to >= k || to == from) { blocks = false; return; }
      ++seen[to]; values &= val() == c[to] - (exact ? c[from] : 0);
    });
    kse_assert(blocks, "gains are reported for blocks other than the own one");
    kse_assert(values, "reported gains are the gains (or connections)");
    for (unsigned b = 0; b < k; ++b) if (b != from) cover &= !adjacent_only ? seen[b] == 1 : !delta ? seen[b] == adj[b] : seen[b] >= adj[b];
    kse_assert(cover, adjacent_only ? "the adjacent blocks are reported" : "every other block is reported once");
    if constexpr (requires { gc.is_border_node(u, from); }) {
      bool border = false; for (unsigned b = 0; b < k; ++b) if (b != from && adj[b]) border = true;
      kse_assert(gc.is_border_node(u, from) == border, "a border node is a node with a neighbor in another block");
    }
  }
}
struct Cfg { SG g; unsigned k; bool sorted; };
// sorted: nodes ordered by degree bucket, no isolated nodes
static bool by_bucket(const SG &g) { int last = 1; for (unsigned u = 0; u < g.n; ++u) { int b = degree_bucket<NodeID>(g.xadj[u + 1] - g.xadj[u]); if (b < last) return false; last = b; } return true; }
static void weigh(SG &g) { // with large weights: one arbitrary weight
  if (min_w == 1) return;
  const unsigned keep = TIER ? kse_choose("symbolic edge", g.adj.size() / 2) : 0; unsigned i = 0;
  for (unsigned u = 0; u < g.n; ++u) for (unsigned v = u + 1; v < g.n; ++v) if (g.e[u][v]) { if (i != keep) g.w[u][v] = g.w[v][u] = min_w + i; ++i; }
  for (unsigned u = 0; u < g.n; ++u) for (unsigned e = g.xadj[u]; e < g.xadj[u + 1]; ++e) g.ew[e] = g.w[u][g.adj[e]];
}
static SG graph_(unsigned which, long W) {
  switch (which) {
  case 0: return mkg(3, EDGES_COMPLETE, 1, W);
  case 1: { // an edge and an isolated node
    SG g = mkg(2, EDGES_PATH, 1, W); g.n = 3; for (auto &r : g.w) r.push_back(0); for (auto &r : g.e) r.push_back(0); g.w.push_back({0, 0, 0}); g.e.push_back({0, 0, 0}); g.xadj.push_back(2); g.vw.push_back(1); return g; }
  case 2: return mkg(4, EDGES_STAR, 1, W);
  default: { // a star whose centre is the last node: sorted by degree buckets
    SG g; const unsigned n = which == 3 ? 4 : 5; g.n = n; g.w.assign(n, std::vector<EdgeWeight>(n, 0)); g.e.assign(n, std::vector<char>(n, 0)); g.vw.assign(n, 1);
    auto add = [&](unsigned u, unsigned v) { EdgeWeight x = kse_sin<EdgeWeight>("ew", min_w, W); g.w[u][v] = g.w[v][u] = x; g.e[u][v] = g.e[v][u] = 1; };
    for (unsigned u = 0; u + 1 < n; ++u) add(u, n - 1);
    if (which == 5) add(2, 3);
    g.xadj.push_back(0);
    for (unsigned u = 0; u < n; ++u) { for (unsigned v = 0; v < n; ++v) if (g.e[u][v]) { g.adj.push_back(v); g.ew.push_back(g.w[u][v]); } g.xadj.push_back(g.adj.size()); }
    return g; }
  }
}
static SG graph(unsigned which, long W) { SG g = graph_(which, W); weigh(g); return g; }
static unsigned blocks(unsigned n) { static const unsigned ks[] = {5, 2, 3, 1}, q[] = {5, 3}; return TIER ? ks[kse_choose("k", 4)] : n == 3 ? q[kse_choose("k", 2)] : ks[kse_choose("k", 2)]; }
static StaticArray<BlockID> part(unsigned n, unsigned k) { // with many blocks: spread over some of them
  if (k <= 3 && n <= 3 && min_w == 1) { if (TIER) return partition(n, k); StaticArray<BlockID> p(n); for (unsigned u = 0; u < n; ++u) p[u] = u ? kse_choose("block", k) : 1; return p; }
  StaticArray<BlockID> p(n); for (unsigned u = 0; u < n; ++u) p[u] = ((TIER || min_w == 1 || u < 3) ? kse_choose("block", 2) : u % 2) ? k - 1 - (u % 2 ? k / 2 : 0) : 0; return p;
}
template <template <class> class GC, bool kDelta = true, class GR> void scenario(const GR &gr, const SG &g, unsigned k, Graph &wrap, std::type_identity_t<GC<GR>> *reuse, bool delta_moves, unsigned moved = 9) {
  using C = GC<GR>;
  static Context ctx = create_default_context();
  std::optional<C> own; if (!reuse) own.emplace(ctx, k == 2 ? g.n : 0, k);
  C &gc = reuse ? *reuse : *own;
  auto p = part(g.n, k); PartitionedGraph pg(wrap, k, std::move(p));
  gc.initialize(gr, pg);
  constexpr bool adj = !C::kIteratesNonadjacentBlocks, exact = C::kIteratesExactGains;
  check_cache("initial", gc, g, pg, k, adj, exact, false);
  if (delta_moves) { if constexpr (kDelta) {
    DeltaPartitionedGraph d(&pg); typename C::DeltaGainCache dc(gc, d);
    for (unsigned i = 0; i < MOVES; ++i) {
      const unsigned u = kse_choose("u", g.n), to = kse_choose("to", k > 3 ? 3 : k) * (k > 3 ? k / 2 : 1); const BlockID from = d.block(u);
      if (to != from) { d.set_block(u, to); dc.move(u, from, to); }
      if (i + 1 == MOVES) { check_cache("delta", dc, g, d, k, adj, exact, true); check_cache("base under delta", gc, g, pg, k, adj, exact, false); }
    }
    d.clear(); dc.clear(); check_cache("delta cleared", dc, g, d, k, adj, exact, true);
    const BlockID from = pg.block(0), to = (from + 1) % k; if (to != from) { pg.set_block(0, to); gc.move(0, from, to); }
    check_cache("delta follows", dc, g, d, k, adj, exact, true);
  } } else for (unsigned i = 0; i < MOVES; ++i) {
    const unsigned u = kse_choose("u", std::min(g.n, moved)), to = kse_choose("to", k > 3 ? 3 : k) * (k > 3 ? k / 2 : 1); const BlockID from = pg.block(u);
    if (to != from) { pg.set_block(u, to); gc.move(u, from, to); }
    check_cache("moved", gc, g, pg, k, adj, exact, false);
  }
}
template <template <class> class GC, bool kDelta = true> void run(long W, bool many_moves = true) {
  const bool sorted = kse_choose("sorted", 2);
  SG g = graph(sorted ? (TIER || !kse_choose("graph", 2) ? 3 + kse_choose("graph", TIER ? 3 : 1) : 5) : kse_choose("graph", 3), W);
  if (sorted) kse_assume(by_bucket(g));
  const unsigned k = blocks(g.n);
  Graph gr = make(g, false, true, sorted); const CSRGraph &c = *dynamic_cast<const CSRGraph *>(gr.underlying_graph());
  scenario<GC, kDelta>(c, g, k, gr, nullptr, kDelta && (TIER || min_w == 1) && kse_choose("delta", 2));
  kse_reach("done");
}
template <template <class> class GC> void again(long W) {
  static Context ctx = create_default_context();
  const unsigned k1 = 2 + 3 * kse_choose("k1", 2), k2 = 2 + 3 * kse_choose("k2", 2);
  const bool s1 = kse_choose("sorted", 2), s2 = kse_choose("sorted", 2);
  SG g1 = graph(s1 ? 4 : 0, W), g2 = graph(s2 ? 3 : 2, W); if (kse_choose("swap", 2)) std::swap(g1, g2);
  Graph a = make(g1, false, true, by_bucket(g1) && s1), b = make(g2, false, true, by_bucket(g2) && s2);
  GC<CSRGraph> gc(ctx, 0, k1);
  StaticArray<BlockID> p1(g1.n); for (unsigned u = 0; u < g1.n; ++u) p1[u] = u % k1; { PartitionedGraph pg(a, k1, std::move(p1)); gc.initialize(*dynamic_cast<const CSRGraph *>(a.underlying_graph()), pg); }
  if (s1 && k1 > 2) gc.free();
  scenario<GC>(*dynamic_cast<const CSRGraph *>(b.underlying_graph()), g2, k2, b, &gc, false, TIER ? 9 : 1);
  kse_reach("done");
}
template <template <class> class GC> void comp(long W) {
  SG g = mkg(3, TIER ? EDGES_ANY : EDGES_CONN, 1, 1); const unsigned k = TIER ? 2 + kse_choose("k", 2) : 3;
  CSRGraph c = csr(g, false, false, false); Graph gr(std::make_unique<CompressedGraph>(CompressedGraphBuilder::compress(c)));
  scenario<GC>(*dynamic_cast<const CompressedGraph *>(gr.underlying_graph()), g, k, gr, nullptr, kse_choose("delta", 2));
  kse_reach("done");
}
#define E(name, cls, W) extern "C" void name() { run<cls>(W); } extern "C" void name##_again() { again<cls>(W); }
E(sparse, NormalSparseGainCache, 1000000)
E(sparse_large, LargeKSparseGainCache, 1000000)
E(dense, NormalDenseGainCache, 100000000)
E(dense_large, LargeKDenseGainCache, 100000000)
E(hashing, NormalHashingGainCache, 1000000)
E(hashing_large, LargeKHashingGainCache, 1000000)
// entries of 1, 2, 4 and 8 bytes, and weights at the borders
static long magnitude() { static const long r[][2] = {{60, 70}, {20000, 70000}, {1 << 25, 1 << 27}, {2, 3}, {5000, 6000}, {2, 300}, {10, 40}, {1 << 27, 1 << 28}}; const auto &x = r[kse_choose("magnitude", TIER ? 8 : 3)]; min_w = x[0]; return x[1]; }
E(compact, NormalCompactHashingGainCache, magnitude())
E(compact_large, LargeKCompactHashingGainCache, magnitude())
E(fly, NormalOnTheFlyGainCache, 100000000)
extern "C" void fly_adjacent() { run<OnTheFlyAdjacent, false>(100000000); }
extern "C" void fly_conn() { run<OnTheFlyConn>(100000000); }
extern "C" void dense_exact() { run<DenseExact>(100000000); }
extern "C" void sparse_exact() { run<SparseExact>(1000000); }
extern "C" void sparse_large_exact() { run<SparseLargeExact>(1000000); }
extern "C" void compressed() {
  switch (kse_choose("cache", 5)) { case 0: comp<NormalSparseGainCache>(1); break; case 1: comp<LargeKHashingGainCache>(1); break; case 2: comp<NormalCompactHashingGainCache>(1); break; case 3: comp<LargeKDenseGainCache>(1); break; default: comp<NormalOnTheFlyGainCache>(1); }
}
// two threads move nodes at the same time
template <template <class> class GC> void concurrent(long W) {
  static Context ctx = create_default_context();
  const unsigned t = kse_choose("graph", 2); SG g = graph(t ? 3 : 0, W); const unsigned k = kse_choose("k", 2) ? 5 : 2;
  Graph gr = make(g, false, true, t); StaticArray<BlockID> p(g.n); for (unsigned u = 0; u < g.n; ++u) p[u] = (u % 2) * (k - 1);
  PartitionedGraph pg(gr, k, std::move(p)); GC<CSRGraph> gc(ctx, 0, k); gc.initialize(*dynamic_cast<const CSRGraph *>(gr.underlying_graph()), pg);
  struct Move { GC<CSRGraph> &gc; PartitionedGraph &pg; NodeID u; BlockID to; static void run(void *p) { auto *m = static_cast<Move *>(p); const BlockID from = m->pg.block(m->u); if (from == m->to) return; m->pg.set_block(m->u, m->to); m->gc.move(m->u, from, m->to); } };
  const unsigned u = kse_choose("u", g.n), v = kse_choose("v", g.n); kse_assume(u != v);
  Move a{gc, pg, u, (pg.block(u) + 1) % k}, b{gc, pg, v, BlockID((pg.block(v) + 1 + kse_choose("to", k > 2 ? 2 : 1)) % k)};
  kse_mt(TIER ? 3 : 2); int id = kse_spawn(&Move::run, &b); Move::run(&a); kse_join(id); kse_mt(-1);
  check_pgraph(g, pg, k);
  check_cache("after concurrent moves", gc, g, pg, k, !GC<CSRGraph>::kIteratesNonadjacentBlocks, GC<CSRGraph>::kIteratesExactGains, false);
  kse_reach("done");
}
extern "C" void conc_sparse() { concurrent<NormalSparseGainCache>(4); }
extern "C" void conc_hashing() { concurrent<LargeKHashingGainCache>(4); }
extern "C" void conc_compact() { concurrent<NormalCompactHashingGainCache>(1); }
extern "C" void conc_dense() { concurrent<NormalDenseGainCache>(4); }
