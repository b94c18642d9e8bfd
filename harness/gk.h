// Small symbolic graphs for the shared-memory harnesses.
#pragma once
#include <optional>
#include <vector>
#include "kaminpar-shm/datastructures/csr_graph.h"
#include "kaminpar-shm/datastructures/graph.h"
#include "kaminpar-shm/datastructures/partitioned_graph.h"
#include "kse.h"
namespace gk {
inline long min_w = 1; // lower bound of symbolic weights
using namespace kaminpar;
using namespace kaminpar::shm;
// two threads: parallel loops are split in the middle and run on two fibers, with every interleaving of their atomic operations with up to p preemptions
struct Threads { Threads(int p) { kse_threads = 2; kse_chunks = 1; kse_mt_region = 2; kse_mt(p); } void stop() { kse_mt(-1); kse_mt_region = 0; } ~Threads() { stop(); } };
struct SG {
  unsigned n = 0; std::vector<EdgeID> xadj; std::vector<NodeID> adj; std::vector<NodeWeight> vw; std::vector<EdgeWeight> ew;
  std::vector<std::vector<EdgeWeight>> w;   // symmetric weight matrix, 0 = no edge
  std::vector<std::vector<char>> e;         // is there an edge?
  EdgeWeight weight(unsigned u, unsigned v) const { return w[u][v]; }
  NodeWeight total() const { NodeWeight t = 0; for (auto x : vw) t += x; return t; }
  EdgeWeight total_edges() const { EdgeWeight t = 0; for (auto x : ew) t += x; return t; }
};
enum { EDGES_ANY = 0, EDGES_PATH = 1, EDGES_COMPLETE = 2, EDGES_STAR = 3, EDGES_CYCLE = 4, EDGES_CONN = 5, EDGES_NOISOLATED = 6 };
// structure: decided by forks (every edge present or absent); weights stay symbolic
inline SG mkg(unsigned n, int kind, long max_vw, long max_ew, bool reverse_adj = false) {
  SG g; g.n = n; g.w.assign(n, std::vector<EdgeWeight>(n, 0)); g.e.assign(n, std::vector<char>(n, 0));
  for (unsigned u = 0; u < n; ++u) for (unsigned v = u + 1; v < n; ++v) {
    bool on = kind == EDGES_COMPLETE ? true : kind == EDGES_PATH ? v == u + 1 : kind == EDGES_STAR ? u == 0 : kind == EDGES_CYCLE ? (v == u + 1 || (u == 0 && v == n - 1 && n > 2)) : kse_choose("edge", 2) != 0;
    if (on) { EdgeWeight x = max_ew > 1 ? kse_sin<EdgeWeight>("ew", min_w, max_ew) : 1; g.w[u][v] = g.w[v][u] = x; g.e[u][v] = g.e[v][u] = 1; }
  }
  if (kind == EDGES_NOISOLATED || kind == EDGES_CONN) for (unsigned u = 0; u < n; ++u) { bool iso = true; for (unsigned v = 0; v < n; ++v) { if (g.e[u][v]) iso = false; } kse_assume(!iso); }
  g.xadj.push_back(0);
  for (unsigned u = 0; u < n; ++u) {
    for (unsigned i = 0; i < n; ++i) { unsigned v = reverse_adj ? n - 1 - i : i; if (g.e[u][v]) { g.adj.push_back(v); g.ew.push_back(g.w[u][v]); } }
    g.xadj.push_back(g.adj.size());
    g.vw.push_back(max_vw > 1 ? kse_sin<NodeWeight>("vw", min_w, max_vw) : 1);
  }
  return g;
}
template <class T, class V> StaticArray<T> sarr(const V &v) { StaticArray<T> a(v.size()); for (std::size_t i = 0; i < v.size(); ++i) a[i] = v[i]; return a; }
inline CSRGraph csr(const SG &g, bool vwgt = true, bool ewgt = true, bool sorted = false) {
  return CSRGraph(CSRGraph::seq{}, sarr<EdgeID>(g.xadj), sarr<NodeID>(g.adj), vwgt ? sarr<NodeWeight>(g.vw) : StaticArray<NodeWeight>{}, ewgt ? sarr<EdgeWeight>(g.ew) : StaticArray<EdgeWeight>{}, sorted);
}
inline Graph make(const SG &g, bool vwgt = true, bool ewgt = true, bool sorted = false) { return Graph(std::make_unique<CSRGraph>(csr(g, vwgt, ewgt, sorted))); }
inline StaticArray<BlockID> partition(unsigned n, unsigned k, bool fork = true) { StaticArray<BlockID> p(n); for (unsigned u = 0; u < n; ++u) p[u] = fork ? kse_choose("block", k) : kse_in<BlockID>("block", 0, k - 1); return p; }
template <class P> inline EdgeWeight cut(const SG &g, const P &block) { EdgeWeight c = 0; for (unsigned u = 0; u < g.n; ++u) for (unsigned v = u + 1; v < g.n; ++v) if (g.e[u][v]) c += kse_ite64(block(u) != block(v), g.w[u][v], 0); return c; }
template <class P> inline BlockWeight bw(const SG &g, const P &block, unsigned b) { BlockWeight c = 0; for (unsigned u = 0; u < g.n; ++u) c += kse_ite64(block(u) == b, g.vw[u], 0); return c; }
// weights in a partitioned graph agree with its partition, blocks are in range
template <class PG> inline void check_pgraph(const SG &g, const PG &pg, unsigned k) {
  for (unsigned u = 0; u < g.n; ++u) kse_assert(pg.block(u) < k, "every node is in a block < k");
  for (unsigned b = 0; b < k; ++b) kse_assert(pg.block_weight(b) == bw(g, [&](unsigned u) { return pg.block(u); }, b), "block weights equal the sum of the weights of their nodes");
}
template <class GR> inline void check_same(const SG &g, const GR &gr) {
  kse_assert(gr.n() == g.n, "n preserved"); kse_assert(gr.m() == g.adj.size(), "m preserved");
  for (unsigned u = 0; u < g.n; ++u) { kse_assert(gr.node_weight(u) == g.vw[u], "node weight preserved"); kse_assert(gr.degree(u) == g.xadj[u + 1] - g.xadj[u], "degree preserved"); }
}
} // namespace gk
