// Compressed graphs: what is decoded is exactly the graph that was encoded, and header data matches its definition.
#include "gk.h"
#include "kaminpar-shm/graphutils/compressed_graph_builder.h"
#include "kaminpar-shm/graphutils/parallel_compressed_graph_builder.h"
#include "kaminpar-common/graph_compression/compressed_neighborhoods_builder.h"
using namespace gk;
#ifndef ND
#define ND 4
#endif
// one or two neighborhoods with symbolic targets and weights inside a graph of N nodes
template <class NID, class EID, class W, bool PAR> static void nbhd(unsigned N, unsigned maxd, bool weighted, long mw, bool two) {
  const unsigned us[] = {0, N / 2, N - 1}; unsigned u1 = us[kse_choose("u", 3)], u2 = two ? (u1 + 1) % N : u1; if (u2 < u1) std::swap(u1, u2);
  std::vector<std::pair<NID, W>> A[2]; unsigned nn = u1 == u2 ? 1 : 2, tot = 0;
  for (unsigned i = 0; i < nn; ++i) { unsigned d = kse_choose("degree", maxd + 1); NID u = i ? u2 : u1, prev = 0;
    for (unsigned j = 0; j < d; ++j) { NID v = kse_in<NID>("v", 0, N - 1); kse_assume(v != u && (j == 0 || v > prev)); prev = v; A[i].push_back({v, weighted ? kse_sin<W>("w", 1, mw) : W(1)}); } tot += d; }
  CompressedNeighborhoodsBuilder<NID, EID, W> b(N, tot, weighted);
  for (unsigned x = 0; x < N; ++x) {
    std::vector<std::pair<NID, W>> nb; if (x == u1) nb = A[0]; else if (x == u2 && nn == 2) nb = A[1];
    if (weighted) { b.add(x, nb); } else { std::vector<NID> t; for (auto &p : nb) t.push_back(p.first); b.add(x, t); }
  }
  auto cn = b.build(); unsigned md = std::max(A[0].size(), A[1].size()); W tw = 0; for (auto &a : A) for (auto &p : a) tw += p.second;
  kse_assert(cn.num_nodes() == N && cn.num_edges() == tot, "number of nodes and edges"); kse_assert(cn.max_degree() == md, "maximum degree"); kse_assert(cn.has_edge_weights() == weighted && (W)cn.total_edge_weight() == tw, "total edge weight");
  for (unsigned i = 0; i < nn; ++i) { NID u = i ? u2 : u1; auto &a = A[i]; kse_assert(cn.degree(u) == a.size(), "degree");
    unsigned mode = kse_choose("how", 3), cnt = 0, lim = mode == 2 ? kse_choose("limit", 2) + 1 : 1000; std::vector<NID> got;
    auto cb = [&](NID v, W w) { bool found = false; W ew = 0; for (auto &p : a) { bool m = p.first == v; found = kse_ite64(m, 1, found) != 0; ew = (W)kse_ite64(m, (uint64_t)(long)p.second, (uint64_t)(long)ew); } kse_assert(found, "decoded neighbor is a neighbor"); kse_assert(w == ew, "decoded edge weight is the weight of that edge"); for (NID g : got) kse_assert(g != v, "every neighbor is decoded once"); got.push_back(v); ++cnt; };
    if (mode == 0) cn.adjacent_nodes(u, cb);
    else if (mode == 1) cn.parallel_adjacent_nodes(u, cb);
    else cn.adjacent_nodes(u, lim, cb);
    kse_assert(cnt == std::min<unsigned>(lim, a.size()), "every neighbor is decoded");
    if (a.size() > 1) { unsigned c2 = 0; cn.adjacent_nodes(u, [&](NID, W) -> bool { return ++c2 == 2; }); kse_assert(c2 == 2, "decoding stops when asked to"); }
  }
  kse_assert(cn.degree(u1 == N / 3 || u2 == N / 3 ? N / 3 + 2 : N / 3) == 0, "isolated nodes stay isolated");
  kse_reach("done");
}
extern "C" void nb_u() { nbhd<uint32_t, uint32_t, int32_t, false>(70, ND, false, 1, false); }
extern "C" void nb_w() { nbhd<uint32_t, uint32_t, int32_t, false>(70, ND - 1, true, 100, false); }
extern "C" void nb_big() { nbhd<uint32_t, uint32_t, int32_t, false>(9000, ND - 1, false, 1, false); }
extern "C" void nb_bigw() { nbhd<uint32_t, uint32_t, int32_t, false>(12, 2, true, 0x7fffffff, false); }
extern "C" void nb_two() { nbhd<uint32_t, uint32_t, int32_t, false>(70, ND - 2, true, 60, true); }
#ifndef KAMINPAR_COMPRESSION_STREAMVBYTE_ENCODING
extern "C" void nb_64() { nbhd<uint64_t, uint64_t, int64_t, false>(70, ND - 2, true, 100, false); }
#endif
extern "C" void nb_tiny() { nbhd<uint32_t, uint32_t, int32_t, false>(8, ND + 1, false, 1, false); }
// ---------------------------------------------------------------- whole graphs
template <class GR> static void same_graph(const SG &s, const GR &g, bool sortedflag) {
  check_same(s, g); NodeWeight tot = 0, mx = 0; EdgeWeight te = 0; NodeID md = 0;
  for (unsigned u = 0; u < s.n; ++u) {
    unsigned deg = s.xadj[u + 1] - s.xadj[u]; md = std::max<NodeID>(md, deg); tot += s.vw[u]; mx = kse_ite64(s.vw[u] > mx, s.vw[u], mx); std::vector<char> seen(s.n, 0); unsigned c = 0;
    g.adjacent_nodes(u, [&](const NodeID v, const EdgeWeight w) { kse_assert(v < s.n && s.w[u][v] != 0 && !seen[v], "decoded neighbor is a neighbor"); seen[v] = 1; ++c; kse_assert(w == s.w[u][v], "edge weight"); te += s.w[u][v]; });
    kse_assert(c == deg, "all neighbors decoded");
    for (unsigned lim = 1; lim <= deg + 1 && lim <= 3; ++lim) { unsigned c2 = 0; g.adjacent_nodes(u, lim, [&](const NodeID v, const EdgeWeight w) { ++c2; }); kse_assert(c2 == std::min(lim, deg), "limited traversal visits min(limit, degree) neighbors"); }
  }
  kse_assert(g.total_node_weight() == tot && (s.n == 0 || g.max_node_weight() == mx), "node weight totals"); kse_assert(g.total_edge_weight() == te, "total edge weight"); kse_assert(g.max_degree() == md, "maximum degree"); kse_assert(g.sorted() == sortedflag, "sorted flag");
}
template <class GR> static void check_buckets(const SG &s, const GR &g, bool sorted) {
  unsigned pos = 0, nb = 0; for (std::size_t b = 0; b < g.number_of_buckets(); ++b) { kse_assert(g.first_node_in_bucket(b) == pos, "buckets are contiguous"); for (NodeID u = g.first_node_in_bucket(b); u < g.first_invalid_node_in_bucket(b); ++u) if (sorted) kse_assert(degree_bucket<NodeID>(s.xadj[u + 1] - s.xadj[u]) == (int)b, "nodes are in the bucket of their degree"); pos += g.bucket_size(b); }
  kse_assert(pos == s.n, "buckets cover all nodes");
}
static SG pickg(long mw) { unsigned n = kse_choose("n", NGR + 1); if (n <= 4) return n == 0 ? SG{0, {0}, {}, {}, {}, {}} : mkg(n, EDGES_ANY, 50, mw, kse_choose("rev", 2)); static const int k[] = {EDGES_PATH, EDGES_STAR, EDGES_CYCLE, EDGES_COMPLETE}; return mkg(n, k[kse_choose("kind", 4)], 50, mw, kse_choose("rev", 2)); }
static void whole(bool par) {
  SG s = pickg(30); unsigned mode = kse_choose("weighted", 3); bool vw = mode != 1, ew = mode != 2 && mode != 1; if (!vw) for (auto &x : s.vw) x = 1; if (!ew) { for (auto &x : s.ew) x = 1; for (auto &r : s.w) for (auto &x : r) x = x != 0; }
  kse_chunks = par ? 1 + kse_choose("pieces", 3) : 1; kse_threads = kse_chunks;
  CSRGraph c = csr(s, vw, ew); CompressedGraph z = par ? parallel_compress(c) : CompressedGraphBuilder::compress(c);
  same_graph(s, z, false); check_buckets(s, z, false);
  CSRGraph back(Graph(std::make_unique<CompressedGraph>(std::move(z)))); same_graph(s, back, false); check_buckets(s, back, false);
  kse_reach("done");
}
extern "C" void whole_seq() { whole(false); }
extern "C" void whole_par() { whole(true); }
// header data of uncompressed graphs
extern "C" void csr_header() {
  SG s = pickg(1000000); bool w = kse_choose("weighted", 2); if (!w) { for (auto &x : s.vw) x = 1; for (auto &x : s.ew) x = 1; for (auto &r : s.w) for (auto &x : r) x = x != 0; }
  bool sorted = true; for (unsigned u = 0; u + 1 < s.n; ++u) sorted &= degree_bucket<NodeID>(s.xadj[u + 1] - s.xadj[u]) <= degree_bucket<NodeID>(s.xadj[u + 2] - s.xadj[u + 1]);
  if (s.n == 0) sorted = false;
  unsigned mode = kse_choose("ctor", 3); kse_chunks = 1 + kse_choose("pieces", 2);
  std::unique_ptr<CSRGraph> g;
  if (mode == 0) g = std::make_unique<CSRGraph>(csr(s, w, w, sorted));
  else if (mode == 1) g = std::make_unique<CSRGraph>(sarr<EdgeID>(s.xadj), sarr<NodeID>(s.adj), w ? sarr<NodeWeight>(s.vw) : StaticArray<NodeWeight>{}, w ? sarr<EdgeWeight>(s.ew) : StaticArray<EdgeWeight>{}, sorted);
  else g = std::make_unique<CSRGraph>(Graph(std::make_unique<CSRGraph>(csr(s, w, w, sorted))));
  same_graph(s, *g, sorted); check_buckets(s, *g, sorted);
  kse_reach("done");
}
#ifndef PRE
#define PRE 2
#endif
extern "C" void mt() { // two threads
  SG s = kse_choose("structure", 2) ? mkg(4, EDGES_STAR, 1, 1) : mkg(4, EDGES_CYCLE, 1, 1); const bool w = kse_choose("weighted", 2); if (w) for (unsigned u = 0; u < s.n; ++u) { s.vw[u] = 2 + u; for (unsigned e = s.xadj[u]; e < s.xadj[u + 1]; ++e) { unsigned v = s.adj[e]; s.w[u][v] = s.ew[e] = 2 + u + v; } }
  CSRGraph c = csr(s, w, w); std::optional<CompressedGraph> z; { Threads th(PRE); z.emplace(parallel_compress(c)); } same_graph(s, *z, false); check_buckets(s, *z, false); kse_reach("done");
}
