// Reordering nodes and edges, cutting off isolated nodes and putting them back.
#include "gk.h"
#include "kaminpar-shm/graphutils/compressed_graph_builder.h"
#include "kaminpar-shm/graphutils/permutator.h"
using namespace gk;
using namespace kaminpar::shm::graph;
static void par(unsigned t) { kse_threads = kse_choose("threads", t) + 1; kse_chunks = kse_choose("pieces", 2) + 1; }
template <class B> static void check_perm(const NodePermutations &p, unsigned n, B &&bucket) {
  kse_assert(p.old_to_new.size() == n && p.new_to_old.size() == n, "one entry per node");
  for (unsigned u = 0; u < n; ++u) { kse_assert(p.old_to_new[u] < n, "permutation in range"); kse_assert(p.new_to_old[p.old_to_new[u]] == u, "the two directions are inverse to each other"); }
  for (unsigned i = 0; i + 1 < n; ++i) { unsigned a = p.new_to_old[i], b = p.new_to_old[i + 1]; kse_assert(bucket(a) < bucket(b) || (bucket(a) == bucket(b) && a < b), "nodes are sorted by bucket, and in each bucket by their old number"); }
}
extern "C" void buckets() {
  par(3); unsigned n = kse_choose("n", TIER ? 7 : 6); unsigned nb = 3; std::vector<unsigned> b(n); for (auto &x : b) x = kse_choose("bucket", nb);
  check_perm(compute_node_permutation_by_generic_buckets(NodeID(n), int(nb), [&](NodeID u) { return b[u]; }), n, [&](unsigned u) { return b[u]; }); kse_reach("done");
}
static unsigned bk(unsigned d, bool end) { return d == 0 ? (end ? 99u : 0u) : d < 2 ? 1 : d < 4 ? 2 : d < 8 ? 3 : 4; }
extern "C" void degrees() {
  par(3); unsigned n = kse_choose("n", TIER ? 6 : 5); bool end = kse_choose("end", 2); static const unsigned D[] = {0, 1, 3, 4, 2}; std::vector<unsigned> d(n); StaticArray<EdgeID> x(n + 1); for (unsigned i = 0; i < n; ++i) { d[i] = D[kse_choose("degree", TIER ? 5 : 4)]; x[i + 1] = x[i] + d[i]; }
  check_perm(compute_node_permutation_by_degree_buckets(x, end), n, [&](unsigned u) { return bk(d[u], end); }); kse_reach("done");
}
// g2 is g with nodes renamed by map (old -> new)
template <class G, class M> static void isomorphic(const SG &g, const G &g2, M &&map, unsigned n2, bool vw = true, bool ew = true) {
  std::vector<bool> hit(g.n); unsigned m = 0; kse_assert(g2.n() == n2, "number of nodes");
  for (unsigned u = 0; u < g.n; ++u) {
    unsigned x = map(u); kse_assert(x < g.n && !hit[x], "the mapping is a permutation"); hit[x] = true; if (x >= n2) { kse_assert(g.xadj[u] == g.xadj[u + 1], "only isolated nodes are cut off"); continue; }
    kse_assert(g2.node_weight(x) == (vw ? g.vw[u] : 1), "node weight"); kse_assert(g2.degree(x) == g.xadj[u + 1] - g.xadj[u], "degree"); m += g2.degree(x);
    std::vector<EdgeWeight> w(g.n, 0); std::vector<char> seen(g.n, 0); g2.adjacent_nodes(x, [&](const NodeID y, const EdgeWeight c) { kse_assert(y < n2 && !seen[y], "neighbors are distinct nodes"); seen[y] = 1; w[y] = c; });
    for (unsigned v = 0; v < g.n; ++v) if (map(v) < n2) kse_assert(seen[map(v)] == g.e[u][v] && w[map(v)] == (g.e[u][v] && !ew ? 1 : g.w[u][v]), "the same edges with the same weights");
  }
  kse_assert(g2.m() == m, "number of edges");
}
template <class G> static void check_buckets(const G &g) {
  unsigned n = g.n(), total = 0; int top = -1; for (unsigned u = 0; u < n; ++u) { int b = g.degree(u) == 0 ? 0 : bk(g.degree(u), true); if (b > top) top = b; }
  if (n > 0) kse_assert(int(g.number_of_buckets()) == top + 1, "number of buckets"); bool iso = false; for (unsigned u = 0; u < n; ++u) iso |= g.degree(u) == 0;
  for (int b = 0; b <= top; ++b) { unsigned c = 0; for (unsigned u = 0; u < n; ++u) c += (g.degree(u) == 0 ? 0 : bk(g.degree(u), true)) == unsigned(b); kse_assert(g.bucket_size(b) == c, "bucket size"); total += c; if (!iso) { kse_assert(g.first_node_in_bucket(b) + c == g.first_invalid_node_in_bucket(b), "bucket range"); for (unsigned u = g.first_node_in_bucket(b); u < g.first_invalid_node_in_bucket(b); ++u) kse_assert(u < n && bk(g.degree(u), true) == unsigned(b), "nodes of a bucket have degrees of that bucket"); } }
  kse_assert(total == n, "every node is in a bucket");
}
template <class G> static void totals(const SG &g, const G &g2, bool vw) { NodeWeight t = 0, m = 0; for (unsigned u = 0; u < g2.n(); ++u) { NodeWeight w = g2.node_weight(u); t += w; m = kse_ite64(w > m, w, m); } kse_assert(g2.total_node_weight() == t, "total node weight"); if (g2.n() > 0) kse_assert(g2.max_node_weight() == m, "maximum node weight"); (void)g; (void)vw; }
static SG some(unsigned n) { min_w = 2; if (n <= 4) return mkg(n, EDGES_ANY, 1000, 1000, true); SG s; s.n = n; s.w.assign(n, std::vector<EdgeWeight>(n, 0)); s.e.assign(n, std::vector<char>(n, 0)); unsigned t = kse_choose("structure", 3); // structures with isolated nodes between others
  for (unsigned u = 0; u < n; ++u) for (unsigned v = u + 1; v < n; ++v) { bool on = t == 0 ? (u == 1 && v != 3) : t == 1 ? (u % 2 == 0 && v % 2 == 0) : (u == 0 && v == n - 1); if (on) s.e[u][v] = s.e[v][u] = 1, s.w[u][v] = s.w[v][u] = kse_sin<EdgeWeight>("ew", 1, 1000); }
  s.xadj.push_back(0); for (unsigned u = 0; u < n; ++u) { for (unsigned v = 0; v < n; ++v) if (s.e[u][v]) { s.adj.push_back(v); s.ew.push_back(s.w[u][v]); } s.xadj.push_back(s.adj.size()); s.vw.push_back(kse_sin<NodeWeight>("vw", 1, 1000)); } return s; }
extern "C" void rearrange() {
  par(2); SG s = some(kse_choose("n", 6)); bool zip = kse_choose("compress", 2); if (zip) for (unsigned u = 0; u < s.n; ++u) for (unsigned e = s.xadj[u]; e < s.xadj[u + 1]; ++e) { unsigned v = s.adj[e]; s.w[u][v] = s.ew[e] = 2 + u + v + u * v * 3; } unsigned vw = kse_choose("vw", 2), ew = TIER ? kse_choose("ew", 2) : vw; CSRGraph c = csr(s, vw, ew); Graph g = rearrange_by_degree_buckets(c);
  kse_assert(g.sorted() && (g.permuted() || s.n == 0), "the result is sorted and remembers the permutation");
  auto map = [&](unsigned u) { return s.n ? g.map_original_node(u) : 0u; }; isomorphic(s, g, map, s.n, vw, ew); totals(s, g, vw);
  for (unsigned i = 0; i + 1 < s.n; ++i) kse_assert(bk(g.degree(i), true) <= bk(g.degree(i + 1), true), "nodes are sorted by degree bucket, isolated nodes last");
  unsigned iso = 0; for (unsigned u = 0; u < s.n; ++u) iso += s.xadj[u] == s.xadj[u + 1]; kse_assert(count_isolated_nodes(g) == iso, "number of isolated nodes");
  if (zip && s.n > 0) { CompressedGraph z = CompressedGraphBuilder::compress(g.csr_graph()); kse_assert(z.sorted(), "compressing keeps the order"); z.remove_isolated_nodes(iso); isomorphic(s, z, map, s.n - iso, vw, ew); if (iso < s.n) check_buckets(z); totals(s, z, vw); kse_assert(z.integrate_isolated_nodes() == iso, "number of nodes put back"); isomorphic(s, z, map, s.n, vw, ew); check_buckets(z); totals(s, z, vw); kse_reach("done"); return; }
  for (unsigned round = 0; round < 2; ++round) { check_buckets(g.csr_graph()); g.remove_isolated_nodes(iso); isomorphic(s, g, map, s.n - iso, vw, ew); if (iso < s.n) check_buckets(g.csr_graph()); else if (s.n > 0) kse_assert(g.csr_graph().number_of_buckets() == 0, "no buckets"); totals(s, g, vw); kse_assert(g.integrate_isolated_nodes() == iso, "number of nodes put back"); isomorphic(s, g, map, s.n, vw, ew); totals(s, g, vw); }
  kse_reach("done");
}
// edges in the order that the compressed representation uses
static void reorder_t(unsigned deg, unsigned universe, bool ew) {
  unsigned n = universe + 1; std::vector<EdgeID> x(n + 1, 0); std::vector<NodeID> adj; std::vector<EdgeWeight> w; // neighborhood of node 0: an arbitrary subset in an arbitrary rotation (directed: the function looks at one neighborhood at a time)
  std::vector<unsigned> in; for (unsigned v = 1; v <= universe; ++v) if (kse_choose("neighbor", 2)) in.push_back(v); kse_assume(in.size() <= deg); unsigned rot = in.size() ? kse_choose("rotation", in.size()) : 0; bool rev = kse_choose("reverse", 2);
  for (unsigned i = 0; i < in.size(); ++i) { adj.push_back(in[((rev ? in.size() - 1 - i : i) + rot) % in.size()]); w.push_back(kse_sin<EdgeWeight>("w", 1, 1000)); } for (unsigned u = 1; u <= n; ++u) x[u] = adj.size();
  CSRGraph g(CSRGraph::seq{}, sarr<EdgeID>(x), sarr<NodeID>(adj), StaticArray<NodeWeight>{}, ew ? sarr<EdgeWeight>(w) : StaticArray<EdgeWeight>{}); reorder_edges_by_compression(g);
  kse_assert(g.n() == n && g.m() == adj.size(), "size"); std::vector<EdgeWeight> got(n, 0); std::vector<char> seen(n, 0); g.adjacent_nodes(0, [&](const NodeID v, const EdgeWeight c) { kse_assert(v < n && !seen[v], "distinct neighbors"); seen[v] = 1; got[v] = c; }); for (unsigned i = 0; i < adj.size(); ++i) kse_assert(got[adj[i]] == (ew ? w[i] : 1), "the same neighbors with the same weights");
  // same order as in the compressed graph
  std::vector<NodeID> a, b; CSRGraph g2(CSRGraph::seq{}, sarr<EdgeID>(x), sarr<NodeID>(adj), StaticArray<NodeWeight>{}, ew ? sarr<EdgeWeight>(w) : StaticArray<EdgeWeight>{}); CompressedGraph z = CompressedGraphBuilder::compress(g2); g.adjacent_nodes(0, [&](const NodeID v, EdgeWeight) { a.push_back(v); }); z.adjacent_nodes(0, [&](const NodeID v, EdgeWeight) { b.push_back(v); }); kse_assert(a == b, "the same order as in the compressed graph"); kse_reach("done");
}
extern "C" void reorder() { reorder_t(9, TIER ? 9 : 7, kse_choose("weighted", 2)); }
extern "C" void reorder_parts() { reorder_t(99, TIER ? 9 : 7, kse_choose("weighted", 2)); }  // high-degree threshold and part length scaled down
extern "C" void assign() {
  kse_threads = kse_chunks = 1; unsigned n = 3, iso = kse_choose("isolated", 3) + 1, k = 2 + kse_choose("k", 2); SG s = mkg(2, EDGES_PATH, 15, 1); for (unsigned i = 0; i < iso; ++i) { s.n++; s.vw.push_back(kse_sin<NodeWeight>("vw", 1, 15)); s.xadj.push_back(s.adj.size()); for (auto &r : s.w) r.push_back(0); for (auto &r : s.e) r.push_back(0); s.e.push_back(std::vector<char>(s.n, 0)); s.w.push_back(std::vector<EdgeWeight>(s.n, 0)); } n = s.n;
  CSRGraph c(sarr<EdgeID>(s.xadj), sarr<NodeID>(s.adj), sarr<NodeWeight>(s.vw), sarr<EdgeWeight>(s.ew), true); Graph g(std::make_unique<CSRGraph>(std::move(c))); g.remove_isolated_nodes(iso);
  auto part = partition(2, k); std::vector<BlockID> p0(part.begin(), part.end()); NodeWeight L = kse_sin<NodeWeight>("L", 1, 100), W = s.total(), mx = 0; for (auto x : s.vw) mx = kse_ite64(x > mx, x, mx);
  PartitionedGraph pg(g, k, std::move(part)); std::vector<BlockWeight> w0; bool within = true; for (unsigned b = 0; b < k; ++b) { w0.push_back(pg.block_weight(b)); within = within & (w0[b] <= L); }
  PartitionContext pc; pc.setup(g, std::vector<BlockWeight>(k, L)); kse_assert(g.integrate_isolated_nodes() == iso, "number of nodes put back"); PartitionedGraph r = assign_isolated_nodes(std::move(pg), iso, pc);
  kse_assert(r.n() == n && r.k() == k, "size"); check_pgraph(s, r, k); for (unsigned u = 0; u < 2; ++u) kse_assert(r.block(u) == p0[u], "other nodes stay in their blocks");
  bool ok = true; for (unsigned b = 0; b < k; ++b) { BlockWeight w = r.block_weight(b); ok = ok & (w <= L); if (b + 1 < k) kse_assert((w <= L) | (w == w0[b]), "only the last block is overloaded by isolated nodes"); }
  bool slack = L * NodeWeight(k) >= W + NodeWeight(k) * (mx - 1); // L >= W / k + mx - 1
  if (!TIER || kse_choose("balanced", 2)) { kse_assume(slack); kse_assume(within); kse_assert(ok, "blocks stay within limits that leave room for the heaviest node"); } kse_reach("done");
}
#ifndef PRE
#define PRE 3
#endif
extern "C" void mt() { // two threads
  if (kse_choose("what", 2)) { unsigned n = 4, nb = 3; std::vector<unsigned> b(n); for (auto &x : b) x = kse_choose("bucket", nb); std::optional<NodePermutations> p; { Threads th(PRE); p = compute_node_permutation_by_generic_buckets(NodeID(n), int(nb), [&](NodeID u) { return b[u]; }); } check_perm(*p, n, [&](unsigned u) { return b[u]; }); kse_reach("done"); return; }
  min_w = 1; SG s = kse_choose("structure", 2) ? mkg(4, EDGES_STAR, 1, 1) : mkg(3, EDGES_ANY, 1, 1); for (unsigned u = 0; u < s.n; ++u) { s.vw[u] = 2 + u; for (unsigned e = s.xadj[u]; e < s.xadj[u + 1]; ++e) { unsigned v = s.adj[e]; s.w[u][v] = s.ew[e] = 2 + u + v; } } CSRGraph c = csr(s); std::optional<Graph> g; { Threads th(PRE); g.emplace(rearrange_by_degree_buckets(c)); }
  isomorphic(s, *g, [&](unsigned u) { return g->map_original_node(u); }, s.n); totals(s, *g, true); check_buckets(g->csr_graph()); kse_reach("done");
}
