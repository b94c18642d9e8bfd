// Contraction: every algorithm builds exactly the quotient graph of the clustering.
#include "gk.h"
#include "kaminpar-shm/coarsening/contraction/cluster_contraction.h"
#include "kaminpar-shm/graphutils/compressed_graph_builder.h"
using namespace gk;
#ifndef NQ
#define NQ 3
#endif
static void check_coarse(const SG &g, const std::vector<NodeID> &cl, CoarseGraph &cg) {
  const Graph &c = cg.get(); const unsigned n = g.n;
  unsigned distinct = 0; for (unsigned x = 0; x < n; ++x) { bool used = false; for (unsigned u = 0; u < n; ++u) used |= cl[u] == x; distinct += used; }
  kse_assert(c.n() == distinct, "one coarse node per cluster");
  std::vector<BlockID> id(c.n()), up(n, 12345); for (unsigned i = 0; i < c.n(); ++i) id[i] = i;
  cg.project_up(id, up);
  for (unsigned u = 0; u < n; ++u) { kse_assert(up[u] < c.n(), "mapping in range"); for (unsigned v = 0; v < u; ++v) kse_assert((up[u] == up[v]) == (cl[u] == cl[v]), "fine nodes share a coarse node exactly if they share a cluster"); }
  std::vector<BlockID> down(c.n(), 999), fine(n); for (unsigned u = 0; u < n; ++u) fine[u] = 100 + cl[u];
  cg.project_down(fine, down);
  for (unsigned u = 0; u < n; ++u) kse_assert(down[up[u]] == 100 + cl[u], "project_down assigns the block of the members");
  std::vector<std::vector<EdgeWeight>> W(distinct, std::vector<EdgeWeight>(distinct, 0)); std::vector<NodeWeight> NW(distinct, 0); std::vector<std::vector<char>> has(distinct, std::vector<char>(distinct, 0));
  for (unsigned u = 0; u < n; ++u) { NW[up[u]] += g.vw[u]; for (unsigned v = 0; v < n; ++v) if (v != u && g.w[u][v] != 0 && up[u] != up[v]) { W[up[u]][up[v]] += g.w[u][v]; has[up[u]][up[v]] = 1; } }
  unsigned m = 0; NodeWeight tot = 0, mx = 0; EdgeWeight te = 0;
  for (unsigned x = 0; x < distinct; ++x) {
    kse_assert(c.node_weight(x) == NW[x], "coarse node weight is the sum of the cluster's node weights"); tot += NW[x]; mx = kse_ite64(NW[x] > mx, NW[x], mx);
    std::vector<char> seen(distinct, 0); unsigned deg = 0;
    c.adjacent_nodes(x, [&](const NodeID y, const EdgeWeight w) {
      kse_assert(y < distinct && y != x, "coarse edge leads to another coarse node"); kse_assert(!seen[y], "no parallel coarse edges"); seen[y] = 1; ++deg;
      kse_assert(has[x][y], "coarse edges connect adjacent clusters"); kse_assert(w == W[x][y], "coarse edge weight is the sum of the weights of the edges between the clusters"); te += w;
    });
    for (unsigned y = 0; y < distinct; ++y) kse_assert(!!seen[y] == !!has[x][y], "adjacent clusters are joined by a coarse edge");
    kse_assert(c.degree(x) == deg, "coarse degree"); m += deg;
  }
  kse_assert(c.m() == m, "coarse m"); kse_assert(c.total_node_weight() == tot, "total node weight preserved"); kse_assert(tot == g.total(), "total node weight equals the fine one");
  kse_assert(c.max_node_weight() == mx, "coarse max node weight"); kse_assert(c.total_edge_weight() == te, "coarse total edge weight");
}
static SG pick(unsigned n, unsigned mode, long mw) { // n <= 3 (quick) / n <= 4 (thorough): every simple graph; larger: path, star, cycle, complete graph
  const bool rev = mode & 1;
  if (n <= (TIER ? 4u : 3u)) return mkg(n, EDGES_ANY, 1000000, mw, rev);
  static const int kinds[] = {EDGES_PATH, EDGES_STAR, EDGES_CYCLE, EDGES_COMPLETE};
  return mkg(n, kinds[kse_choose("structure", 4)], 1000000, mw, rev);
}
static std::vector<NodeID> pick_clustering(unsigned n) { // n <= 3: all label vectors; larger: all set partitions, with two labelling schemes
  std::vector<NodeID> c(n);
  if (n <= 3) { for (auto &x : c) x = kse_choose("cluster", n); return c; }
  unsigned used = 0; std::vector<unsigned> grp(n); for (unsigned u = 0; u < n; ++u) { grp[u] = kse_choose("group", used + 1); if (grp[u] == used) ++used; }
  const bool last = kse_choose("labels", 2);
  for (unsigned u = 0; u < n; ++u) { NodeID l = 0; for (unsigned v = 0; v < n; ++v) if (grp[v] == grp[u]) { l = v; if (!last) break; } c[u] = last ? (l + 1) % n : l; }
  return c;
}
static void run(ContractionAlgorithm algo, ContractionImplementation impl, unsigned n, bool compressed, bool twice = false) {
  const unsigned mode = kse_choose("mode", 3); // representation and environment
  kse_chunks = mode == 1 ? 2 : mode == 2 ? 3 : 1;
  SG g = pick(n, mode, compressed ? 30 : 1000000); const bool weighted = mode != 2;
  if (!weighted) { for (auto &x : g.vw) x = 1; for (auto &x : g.ew) x = 1; for (auto &r : g.w) for (auto &x : r) x = x != 0; }
  auto cg = std::make_unique<CSRGraph>(csr(g, weighted, weighted));
  Graph gr = compressed ? Graph(std::make_unique<CompressedGraph>(CompressedGraphBuilder::compress(*cg))) : Graph(std::move(cg));
  ContractionCoarseningContext ctx; ctx.algorithm = algo; ctx.unbuffered_implementation = impl; ctx.edge_buffer_fill_fraction = mode == 0 ? 1 : 0.3;
  contraction::MemoryContext mctx;
  for (int r = 0; r < (twice ? 2 : 1); ++r) {
    std::vector<NodeID> copy = pick_clustering(n);
    auto c = contract_clustering(gr, sarr<NodeID>(copy), ctx, mctx);
    check_coarse(g, copy, *c);
  }
  kse_reach("done");
}
using A = ContractionAlgorithm; using I = ContractionImplementation;
#define E(name, algo, impl) extern "C" void name##_all() { run(algo, impl, 3, false); } extern "C" void name##_big() { run(algo, impl, TIER ? 5 : 4, false); } extern "C" void name##_z() { run(algo, impl, 3, true); }
E(buffered, A::BUFFERED, I::SINGLE_PHASE)
E(legacy, A::BUFFERED_LEGACY, I::SINGLE_PHASE)
E(naive, A::UNBUFFERED_NAIVE, I::SINGLE_PHASE)
E(single_phase, A::UNBUFFERED, I::SINGLE_PHASE)
E(two_phase, A::UNBUFFERED, I::TWO_PHASE)
E(growing, A::UNBUFFERED, I::GROWING_HASH_TABLES)
extern "C" void reuse() { const unsigned a = kse_choose("algorithm", 6); static const A al[] = {A::BUFFERED, A::BUFFERED_LEGACY, A::UNBUFFERED_NAIVE, A::UNBUFFERED, A::UNBUFFERED, A::UNBUFFERED}; static const I im[] = {I::SINGLE_PHASE, I::SINGLE_PHASE, I::SINGLE_PHASE, I::SINGLE_PHASE, I::TWO_PHASE, I::GROWING_HASH_TABLES}; run(al[a], im[a], 2, false, true); }
#ifndef PRE
#define PRE 2
#endif
extern "C" void mt() { // two threads
  static const A al[] = {A::BUFFERED, A::BUFFERED_LEGACY, A::UNBUFFERED_NAIVE, A::UNBUFFERED, A::UNBUFFERED, A::UNBUFFERED}; static const I im[] = {I::SINGLE_PHASE, I::SINGLE_PHASE, I::SINGLE_PHASE, I::SINGLE_PHASE, I::TWO_PHASE, I::GROWING_HASH_TABLES};
  const unsigned a = kse_choose("algorithm", 6), t = kse_choose("structure", 2); SG g = mkg(4, t ? EDGES_STAR : EDGES_CYCLE, 1, 1); for (unsigned u = 0; u < 4; ++u) g.vw[u] = 1 + u; for (unsigned u = 0; u < 4; ++u) for (unsigned e = g.xadj[u]; e < g.xadj[u + 1]; ++e) { unsigned v = g.adj[e]; g.ew[e] = g.w[u][v] = 1 + u + v; }
  Graph gr = make(g); ContractionCoarseningContext ctx; ctx.algorithm = al[a]; ctx.unbuffered_implementation = im[a]; ctx.edge_buffer_fill_fraction = 1; contraction::MemoryContext m;
  static const NodeID C[][4] = {{0, 0, 2, 2}, {3, 1, 1, 3}, {0, 1, 2, 3}, {2, 1, 2, 2}}; const auto &x = C[kse_choose("clustering", 4)]; std::vector<NodeID> cl(x, x + 4); auto arr = sarr<NodeID>(cl);
  std::unique_ptr<CoarseGraph> c; { Threads th(PRE); c = contract_clustering(gr, std::move(arr), ctx, m); } check_coarse(g, cl, *c); kse_reach("done");
}
