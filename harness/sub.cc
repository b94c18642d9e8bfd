// Extraction of block-induced subgraphs and the way back.
#include "gk.h"
#include "kaminpar-shm/graphutils/compressed_graph_builder.h"
#include "kaminpar-shm/graphutils/subgraph_extractor.h"
#include "kaminpar-shm/partitioning/partition_utils.h"
using namespace gk;
using namespace kaminpar::shm::graph;
// sub is the subgraph of s induced by the nodes orig[0], orig[1], ...
template <class G> static void induced(const SG &s, const G &sub, const std::vector<unsigned> &orig, bool vw, bool ew) {
  kse_assert(sub.n() == orig.size(), "a subgraph has the nodes of its block"); std::vector<int> pos(s.n, -1); for (unsigned i = 0; i < orig.size(); ++i) { kse_assert(orig[i] < s.n && pos[orig[i]] == -1, "distinct nodes"); pos[orig[i]] = i; }
  unsigned m = 0; NodeWeight t = 0;
  for (unsigned i = 0; i < orig.size(); ++i) {
    unsigned u = orig[i]; NodeWeight w = vw ? s.vw[u] : 1; t += w; kse_assert(sub.node_weight(i) == w, "node weights of the original nodes"); unsigned deg = 0; std::vector<EdgeWeight> got(orig.size(), 0); std::vector<char> seen(orig.size(), 0);
    sub.adjacent_nodes(i, [&](const NodeID j, const EdgeWeight c) { kse_assert(j < orig.size() && !seen[j], "neighbors are distinct nodes of the subgraph"); seen[j] = 1; got[j] = c; ++deg; });
    for (unsigned j = 0; j < orig.size(); ++j) { bool e = s.e[u][orig[j]]; EdgeWeight c = s.w[u][orig[j]]; kse_assert(seen[j] == e && got[j] == (e && !ew ? 1 : c), "exactly the edges inside the block, with their weights"); } kse_assert(sub.degree(i) == deg, "degree"); m += deg;
  }
  kse_assert(sub.m() == m, "number of edges"); kse_assert(sub.total_node_weight() == t, "total node weight");
}
static unsigned nshape = 3;
static SG pick() { min_w = 2; unsigned t = kse_choose("structure", TIER ? 6 : nshape); switch (t) { case 0: return mkg(3, EDGES_ANY, 1000, 1000, true); case 1: return mkg(4, EDGES_COMPLETE, 1000, 1000, true); case 2: return mkg(4, EDGES_STAR, 1000, 1000); case 3: return mkg(4, EDGES_CYCLE, 1000, 1000); case 4: return mkg(4, EDGES_PATH, 1000, 1000); default: return mkg(4, EDGES_ANY, 1000, 1000); } }
// compressed graphs: concrete edge weights (C04 and C05 cover the encoding of arbitrary ones)
static SG pick(bool z) { SG s = pick(); if (z) for (unsigned u = 0; u < s.n; ++u) for (unsigned e = s.xadj[u]; e < s.xadj[u + 1]; ++e) { unsigned v = s.adj[e]; s.w[u][v] = s.ew[e] = 2 + u + v + u * v * 3; } return s; }
static Graph wrap(const SG &s, bool vw, bool ew, bool z) { if (z) { CSRGraph c = csr(s, vw, ew); return Graph(std::make_unique<CompressedGraph>(CompressedGraphBuilder::compress(c))); } return make(s, vw, ew); }
struct Mode { bool vw, ew, z; }; static Mode mode() { switch (kse_choose("mode", TIER ? 5 : 3)) { case 0: return {true, true, false}; case 1: return {false, false, false}; case 2: return {true, true, true}; case 3: return {true, false, false}; default: return {false, true, true}; } }
static std::vector<std::vector<unsigned>> members(unsigned n, unsigned k, const std::vector<BlockID> &p, const StaticArray<NodeID> &mapping) {
  std::vector<std::vector<unsigned>> r(k); std::vector<unsigned> c(k, 0); for (unsigned u = 0; u < n; ++u) ++c[p[u]]; for (unsigned b = 0; b < k; ++b) r[b].resize(c[b], 9999);
  for (unsigned u = 0; u < n; ++u) { kse_assert(mapping[u] < c[p[u]] && r[p[u]][mapping[u]] == 9999, "the mapping numbers the nodes of every block"); r[p[u]][mapping[u]] = u; } return r;
}
static void extract_t(unsigned k, unsigned input_k, bool bipart) {
  Mode md = mode(); SG s = pick(md.z); kse_threads = kse_chunks = 1 + kse_choose("chunks", 2); Graph g = wrap(s, md.vw, md.ew, md.z); auto part = partition(s.n, k); std::vector<BlockID> p(part.begin(), part.end()); PartitionedGraph pg(g, k, std::move(part));
  SubgraphMemory mem; mem.resize(s.n, input_k, s.adj.size(), md.vw, md.ew); // as in KaMinPar: one position per final block
  auto res = extract_subgraphs(pg, input_k, mem); kse_assert(res.subgraphs.size() == k, "one subgraph per block"); auto mm = members(s.n, k, p, res.node_mapping);
  for (unsigned b = 0; b < k; ++b) induced(s, res.subgraphs[b], mm[b], md.vw, md.ew);
  ScalableVector<StaticArray<BlockID>> sp; std::vector<std::vector<BlockID>> fin(k); bool same = true; unsigned k2 = 0;
  TemporarySubgraphMemory tmp;
  for (unsigned b = 0; b < k; ++b) { // bipartition every block; the pieces replace the block's memory
    unsigned fk = partitioning::compute_final_k(b, k, input_k), f0 = 1, f1 = 1; auto [a0, a1] = math::split_integral(fk); f0 = a0; f1 = a1; StaticArray<BlockID> bp(mm[b].size()); fin[b].resize(mm[b].size());
    unsigned parts = fk >= 2 ? 2 : 1; k2 += parts; same &= parts == 2;
    for (unsigned i = 0; i < bp.size(); ++i) { bp[i] = fin[b][i] = (bipart && parts == 2) ? kse_choose("sub", 2) : 0; } sp.push_back(sarr<BlockID>(fin[b]));
    if (bipart && parts == 2 && bp.size() > 0) {
      PartitionedGraph sub(PartitionedGraph::seq{}, res.subgraphs[b], 2, std::move(bp)); auto r2 = extract_subgraphs_sequential(sub, {f0, f1}, res.positions[b], mem, tmp);
      for (unsigned h = 0; h < 2; ++h) { std::vector<unsigned> o; for (unsigned i = 0; i < mm[b].size(); ++i) if (fin[b][i] == h) o.push_back(mm[b][i]); induced(s, r2.subgraphs[h], o, md.vw, md.ew); }
      std::vector<unsigned> o[2]; for (unsigned i = 0; i < mm[b].size(); ++i) o[fin[b][i]].push_back(mm[b][i]);
      kse_assert(r2.positions[0].nodes_start_pos == res.positions[b].nodes_start_pos && r2.positions[1].nodes_start_pos == r2.positions[0].nodes_start_pos + o[0].size() + f0, "each half has one extra position per final block"); kse_assert(r2.positions[0].edges_start_pos == res.positions[b].edges_start_pos && r2.positions[1].edges_start_pos == r2.positions[0].edges_start_pos + r2.subgraphs[0].m(), "edge positions");
      for (unsigned c = b + 1; c < k; ++c) induced(s, res.subgraphs[c], mm[c], md.vw, md.ew); // other blocks' memory is untouched
      unsigned h = kse_choose("half", 2); if (o[h].size() > 0 && (h ? f1 : f0) >= 2) { // once more
        StaticArray<BlockID> b3(o[h].size()); std::vector<unsigned> q[2]; for (unsigned i = 0; i < o[h].size(); ++i) { b3[i] = kse_choose("subsub", 2); q[b3[i]].push_back(o[h][i]); }
        unsigned ff = h ? f1 : f0; auto [c0, c1] = math::split_integral(ff); PartitionedGraph s3(PartitionedGraph::seq{}, r2.subgraphs[h], 2, std::move(b3)); auto r3 = extract_subgraphs_sequential(s3, {c0, c1}, r2.positions[h], mem, tmp);
        for (unsigned x = 0; x < 2; ++x) induced(s, r3.subgraphs[x], q[x], md.vw, md.ew); induced(s, r2.subgraphs[1 - h], o[1 - h], md.vw, md.ew); for (unsigned c = b + 1; c < k; ++c) induced(s, res.subgraphs[c], mm[c], md.vw, md.ew);
      }
    }
  }
  if (bipart && (same || k2 == input_k)) { // copy back
    PartitionedGraph np = copy_subgraph_partitions(std::move(pg), sp, k2, input_k, res.node_mapping); kse_assert(np.k() == k2 && np.n() == s.n, "size of the refined partition"); unsigned off = 0;
    for (unsigned b = 0; b < k; ++b) { for (unsigned i = 0; i < mm[b].size(); ++i) kse_assert(np.block(mm[b][i]) == off + fin[b][i], "a node ends up in its sub-block of its block"); off += k2 == input_k ? partitioning::compute_final_k(b, k, input_k) : 2; }
    for (unsigned b = 0; b < k2; ++b) { BlockWeight w = 0; for (unsigned u = 0; u < s.n; ++u) if (np.block(u) == b) w += md.vw ? s.vw[u] : 1; kse_assert(np.block_weight(b) == w, "block weights of the refined partition"); }
  }
  kse_reach("done");
}
extern "C" void extract() { nshape = 5; unsigned k = 1 + kse_choose("k", 3); extract_t(k, k, false); }
extern "C" void bisect() { unsigned k = 1 + kse_choose("k", 2); extract_t(k, k == 1 ? 2 : 4, true); }
extern "C" void uneven() { unsigned k = 2; extract_t(k, 3 + 2 * kse_choose("input_k", TIER ? 3 : 2), true); }
extern "C" void lazy() {
  nshape = 5;
  Mode md = mode(); SG s = pick(md.z); kse_threads = kse_chunks = 1 + kse_choose("chunks", 2); unsigned k = 1 + kse_choose("k", 3); Graph g = wrap(s, md.vw, md.ew, md.z); auto part = partition(s.n, k); std::vector<BlockID> p(part.begin(), part.end()); PartitionedGraph pg(g, k, std::move(part));
  auto pre = lazy_extract_subgraphs_preprocessing(pg); auto mm = members(s.n, k, p, pre.mapping); kse_assert(pre.block_nodes_offset.size() == k + 1 && pre.block_nodes_offset[0] == 0 && pre.block_nodes_offset[k] == s.n, "offsets");
  unsigned maxn = 0, maxm = 0; for (unsigned b = 0; b < k; ++b) { unsigned c = 0; for (unsigned u : mm[b]) for (unsigned v : mm[b]) c += s.e[u][v]; kse_assert(pre.block_num_edges[b] == c, "number of edges inside a block"); kse_assert(pre.block_nodes_offset[b + 1] - pre.block_nodes_offset[b] == mm[b].size(), "number of nodes of a block"); maxn = std::max<unsigned>(maxn, mm[b].size()); maxm = std::max(maxm, c); for (unsigned i = 0; i < mm[b].size(); ++i) kse_assert(pre.block_nodes[pre.block_nodes_offset[b] + i] == mm[b][i], "the nodes of a block in the order of the mapping"); }
  SubgraphMemory mem(maxn, 1, maxm, md.vw, md.ew); for (unsigned b = 0; b < k; ++b) { StaticArray<NodeID> bn(mm[b].size(), pre.block_nodes.data() + pre.block_nodes_offset[b]); Graph sub = extract_subgraph(pg, b, bn, pre.mapping, mem); induced(s, sub, mm[b], md.vw, md.ew); } kse_reach("done");
}
#ifndef PRE
#define PRE 2
#endif
extern "C" void mt() { // two threads
  SG s = kse_choose("structure", 2) ? mkg(4, EDGES_CYCLE, 1, 1) : mkg(3, EDGES_ANY, 1, 1); for (unsigned u = 0; u < s.n; ++u) { s.vw[u] = 2 + u; for (unsigned e = s.xadj[u]; e < s.xadj[u + 1]; ++e) { unsigned v = s.adj[e]; s.w[u][v] = s.ew[e] = 2 + u + v; } } const unsigned k = 2; const bool lazy = kse_choose("lazy", 2);
  Graph g = make(s); auto part = partition(s.n, k); std::vector<BlockID> p(part.begin(), part.end()); PartitionedGraph pg(g, k, std::move(part));
  if (lazy) { std::optional<decltype(lazy_extract_subgraphs_preprocessing(pg))> r; { Threads th(PRE); r.emplace(lazy_extract_subgraphs_preprocessing(pg)); } auto mm = members(s.n, k, p, r->mapping); for (unsigned b = 0; b < k; ++b) { unsigned c = 0; for (unsigned u : mm[b]) for (unsigned v : mm[b]) c += s.e[u][v]; kse_assert(r->block_num_edges[b] == c, "number of edges inside a block"); kse_assert(r->block_nodes_offset[b + 1] - r->block_nodes_offset[b] == mm[b].size(), "number of nodes of a block"); for (unsigned i = 0; i < mm[b].size(); ++i) kse_assert(r->block_nodes[r->block_nodes_offset[b] + i] == mm[b][i], "the nodes of a block in the order of the mapping"); } kse_reach("done"); return; }
  SubgraphMemory mem(pg); std::optional<SubgraphExtractionResult> r; { Threads th(PRE); r.emplace(extract_subgraphs(pg, k, mem)); } auto mm = members(s.n, k, p, r->node_mapping); for (unsigned b = 0; b < k; ++b) induced(s, r->subgraphs[b], mm[b], true, true);
  ScalableVector<StaticArray<BlockID>> sp; for (unsigned b = 0; b < k; ++b) { StaticArray<BlockID> x(mm[b].size()); for (unsigned i = 0; i < x.size(); ++i) x[i] = i % 2; sp.push_back(std::move(x)); } std::optional<PartitionedGraph> np; { Threads th(PRE); np.emplace(copy_subgraph_partitions(std::move(pg), sp, 4, 4, r->node_mapping)); }
  check_pgraph(s, *np, 4); for (unsigned b = 0; b < k; ++b) for (unsigned i = 0; i < mm[b].size(); ++i) kse_assert(np->block(mm[b][i]) == 2 * b + i % 2, "a node ends up in its sub-block of its block"); kse_reach("done");
}
