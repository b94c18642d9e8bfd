// Reading and writing graphs and partitions, and validating inputs. Files are in-memory buffers (engine/stubs/io).
#include "gk.h"
#include "kaminpar-shm/graphutils/compressed_graph_builder.h"
#include "apps/io/shm_io.h"
#include "apps/io/shm_input_validator.h"
#include "apps/io/shm_metis_parser.h"
#include "apps/io/shm_parhip_parser.h"
#include "apps/io/shm_compressed_graph_binary.h"
#include "kse_io.h"
using namespace gk;
#ifndef NV
#define NV 3
#endif
template <class GR> static void same(const SG &s, const GR &g, const std::vector<NodeID> *newid = nullptr) {
  kse_assert(g.n() == s.n, "number of nodes"); kse_assert(g.m() == s.adj.size(), "number of edges"); NodeWeight tot = 0; EdgeWeight te = 0;
  for (unsigned x = 0; x < s.n; ++x) {
    const NodeID u = newid ? (*newid)[x] : x; unsigned deg = s.xadj[x + 1] - s.xadj[x], c = 0; std::vector<char> seen(s.n, 0); tot += s.vw[x];
    kse_assert(g.degree(u) == deg, "degree"); kse_assert(g.node_weight(u) == s.vw[x], "node weight");
    g.adjacent_nodes(u, [&](const NodeID v, const EdgeWeight w) { unsigned y = s.n; for (unsigned i = 0; i < s.n; ++i) if ((newid ? (*newid)[i] : i) == v) y = i; kse_assert(y < s.n && s.e[x][y] && !seen[y], "every edge of the file, once"); seen[y] = 1; ++c; kse_assert(w == s.w[x][y], "edge weight"); te += s.w[x][y]; });
    kse_assert(c == deg, "every edge of the file");
  }
  kse_assert(g.total_node_weight() == tot && g.total_edge_weight() == te, "total weights");
}
static SG pick(unsigned maxn) { unsigned n = kse_choose("n", maxn + 1); if (n == 0) return SG{0, {0}, {}, {}, {}, {}}; return mkg(n, EDGES_ANY, 1, 1, kse_choose("rev", 2)); }
static void set_ew(SG &s, unsigned u, unsigned v, EdgeWeight x) { s.w[u][v] = s.w[v][u] = x; for (unsigned a = 0; a < s.n; ++a) for (unsigned e = s.xadj[a]; e < s.xadj[a + 1]; ++e) s.ew[e] = s.w[a][s.adj[e]]; }
// ---------------------------------------------------------------- METIS
struct Txt {
  std::vector<char> &t; bool spaces;
  void c(char x) { t.push_back(x); }
  void s(const char *p) { while (*p) c(*p++); }
  void sep() { c(' '); if (spaces) c(' '); }
  void num(unsigned x) { char b[12]; int k = 0; do { b[k++] = '0' + x % 10; x /= 10; } while (x); while (k) c(b[--k]); }
  void num(const std::vector<char> &d) { for (char x : d) c(x); }
};
static std::vector<char> digits(const char *nm, long &val, bool longnum) { unsigned k = longnum ? 4 : 1; std::vector<char> d; val = 0; for (unsigned i = 0; i < k; ++i) { char x = kse_in<uint8_t>(nm, '0', '9'); d.push_back(x); val = val * 10 + (x - '0'); } kse_assume(val >= 1); return d; }
static void metis(unsigned mode) { // 0: uncompressed, 1: compressed
  SG s = pick(NV); const bool vw = kse_choose("node weights", 2), ew = kse_choose("edge weights", 2), longnum = kse_choose("long number", 2);
  const unsigned style = kse_choose("style", 6); const bool spaces = style == 1 || style == 5, comments = style == 2 || style == 5, sizes = style == 3, nl = style != 4; bool first_long = longnum;
  auto number = [&](const char *nm, long &v) { if (!longnum) return digits(nm, v, false); if (first_long) { first_long = false; return digits(nm, v, true); } v = 10; return std::vector<char>{'1', '0'}; };
  if (!nl && s.n > 0 && !vw) kse_assume(s.xadj[s.n] != s.xadj[s.n - 1]); if (!nl) kse_assume(s.n > 0 && !comments);
  std::vector<std::vector<char>> vd(s.n); std::vector<std::vector<std::vector<char>>> ed(s.n, std::vector<std::vector<char>>(s.n));
  for (unsigned u = 0; u < s.n && vw; ++u) { long v; vd[u] = number("node weight digit", v); s.vw[u] = v; }
  for (unsigned u = 0; u < s.n && ew; ++u) for (unsigned v = u + 1; v < s.n; ++v) if (s.e[u][v]) { long w; ed[u][v] = ed[v][u] = number("edge weight digit", w); set_ew(s, u, v, w); }
  Txt t{kse_io::put("g").data, spaces};
  auto comment = [&] { if (comments) { if (spaces) t.c(' '); t.s("% 7\n%\n"); } };
  comment(); if (spaces) t.c(' '); t.num(s.n); t.sep(); t.num(s.adj.size() / 2);
  if (vw || ew || sizes) { t.sep(); if (sizes) t.c('1'); if (vw || sizes) t.c(vw ? '1' : '0'); t.c(ew ? '1' : '0'); } else if (spaces) t.s("  00"); if (spaces) t.c(' '); t.c('\n');
  for (unsigned u = 0; u < s.n; ++u) {
    comment(); if (spaces) t.c(' '); bool first = true; auto sep = [&] { if (!first) t.sep(); first = false; };
    if (sizes) { sep(); t.num(2 + u); } if (vw) { sep(); t.num(vd[u]); }
    for (unsigned e = s.xadj[u]; e < s.xadj[u + 1]; ++e) { sep(); t.num(s.adj[e] + 1); if (ew) { t.sep(); t.num(ed[u][s.adj[e]]); } }
    if (spaces) t.c(' '); if (u + 1 < s.n || nl) t.c('\n');
  }
  if (comments) t.s("%\n% 1");
  Graph g = io::read("g", io::GraphFileFormat::METIS, NodeOrdering::NATURAL, mode == 1);
  same(s, g); kse_assert(kse_io::open_fds == 0, "the file is closed"); kse_reach("done");
}
extern "C" void metis_csr() { metis(0); }
extern "C" void metis_zip() { metis(1); }
// ---------------------------------------------------------------- write, then read
static SG weighted(unsigned maxn, bool vw, bool ew, long mw) { SG s = pick(maxn); for (unsigned u = 0; u < s.n && vw; ++u) s.vw[u] = kse_sin<NodeWeight>("vw", min_w, mw); for (unsigned u = 0; u < s.n && ew; ++u) for (unsigned v = u + 1; v < s.n; ++v) if (s.e[u][v]) set_ew(s, u, v, kse_sin<EdgeWeight>("ew", min_w, mw)); return s; }
extern "C" void metis_write() { const bool vw = kse_choose("node weights", 2), ew = kse_choose("edge weights", 2); SG s = weighted(NV, vw, ew, 12); io::metis::write("g", make(s, vw, ew)); Graph g = io::read("g", io::GraphFileFormat::METIS, NodeOrdering::NATURAL, false); same(s, g); kse_reach("done"); }
// reads the ParHIP file "g" in every possible way
static void read_parhip(const SG &s, unsigned how) {
  kse_chunks = 1 + kse_choose("pieces", 2); kse_threads = kse_chunks;
  if (how == 5) { auto g = io::parhip::compressed_read("g", false); same(s, g); return; }
  const bool ext = how >= 3; Graph g = io::read("g", io::GraphFileFormat::PARHIP, ext ? NodeOrdering::EXTERNAL_DEGREE_BUCKETS : NodeOrdering::NATURAL, how & 1);
  if (!ext) { same(s, g); kse_assert(!g.sorted(), "natural order is not claimed to be sorted"); return; }
  std::vector<NodeID> id(s.n); std::vector<char> seen(s.n, 0); for (unsigned u = 0; u < s.n; ++u) { id[u] = g.map_original_node(u); kse_assert(id[u] < s.n && !seen[id[u]], "the node order is a permutation"); seen[id[u]] = 1; }
  same(s, g, &id); kse_assert(g.sorted(), "sorted flag"); bool pos = false; for (unsigned u = 0; u + 1 < s.n; ++u) { auto a = g.degree(u), b = g.degree(u + 1); kse_assert(a == 0 ? false || b == 0 || true : b == 0 || degree_bucket<NodeID>(a) <= degree_bucket<NodeID>(b), "nodes are ordered by degree bucket, isolated nodes last"); if (a == 0) pos = true; if (pos) kse_assert(b == 0, "isolated nodes come last"); }
}
static SG pweighted(unsigned how, bool vw, bool ew) { // symbolic weights for the uncompressed readers
  if (!(how & 1)) { min_w = 2; SG s = weighted(NV, vw, ew, 1000000); return s; }
  SG s = pick(NV); for (unsigned u = 0; u < s.n && vw; ++u) s.vw[u] = 7 + 100000 * u; for (unsigned u = 0; u < s.n && ew; ++u) for (unsigned v = u + 1; v < s.n; ++v) if (s.e[u][v]) set_ew(s, u, v, 5 + 70000 * u + v); return s; }
extern "C" void parhip_write() { const unsigned how = kse_choose("reader", 6); const bool vw = kse_choose("node weights", 2), ew = kse_choose("edge weights", 2); SG s = pweighted(how, vw, ew); io::parhip::write("g", csr(s, vw, ew)); read_parhip(s, how); kse_reach("done"); }
struct Bin { std::vector<char> &t; void w(uint64_t x, unsigned bytes) { for (unsigned i = 0; i < bytes; ++i) t.push_back((char)(x >> (8 * i))); } };
extern "C" void parhip_read() {
  const unsigned how = kse_choose("reader", 6);
  const bool vw = kse_choose("node weights", 2), ew = kse_choose("edge weights", 2), big_e = kse_choose("64 bit edge ids", 2), big_v = kse_choose("64 bit node ids", 2), big_vw = kse_choose("64 bit node weights", 2), big_ew = kse_choose("64 bit edge weights", 2);
  const bool unsupported = (big_e && sizeof(EdgeID) == 4) || (big_v && sizeof(NodeID) == 4) || (vw && big_vw && sizeof(NodeWeight) == 4) || (ew && big_ew && sizeof(EdgeWeight) == 4);
  SG s = unsupported ? mkg(2, EDGES_PATH, 1, 1) : pweighted(how, vw, ew);
  Bin b{kse_io::put("g").data}; const unsigned eb = big_e ? 8 : 4, vb = big_v ? 8 : 4; b.w(!ew | (!vw << 1) | (!big_e << 2) | (!big_v << 3) | (!big_vw << 4) | (!big_ew << 5), 8); b.w(s.n, 8); b.w(s.adj.size(), 8);
  const uint64_t base = 24 + (s.n + 1) * eb; for (unsigned u = 0; u <= s.n; ++u) b.w(base + s.xadj[u] * vb, eb); for (auto v : s.adj) b.w(v, vb);
  if (vw) for (auto x : s.vw) b.w(x, big_vw ? 8 : 4); if (ew) for (auto x : s.ew) b.w(x, big_ew ? 8 : 4);
  kse_io::may_exit = unsupported; read_parhip(s, how); kse_assert(!unsupported, "a file with unsupported widths is rejected"); kse_reach("done");
}
// ---------------------------------------------------------------- compressed binary
extern "C" void zbin() {
  const bool vw = kse_choose("node weights", 2), ew = kse_choose("edge weights", 2), sorted = kse_choose("sorted", 2); SG s = pick(NV); for (unsigned u = 0; u < s.n && vw; ++u) s.vw[u] = kse_sin<NodeWeight>("vw", 1, 1000000); for (unsigned u = 0; u < s.n && ew; ++u) for (unsigned v = u + 1; v < s.n; ++v) if (s.e[u][v]) set_ew(s, u, v, 3 + 300 * u + v);
  if (sorted) { for (unsigned u = 0; u + 1 < s.n; ++u) kse_assume(degree_bucket<NodeID>(s.xadj[u + 1] - s.xadj[u]) <= degree_bucket<NodeID>(s.xadj[u + 2] - s.xadj[u + 1])); kse_assume(s.n > 0); }
  CSRGraph c = csr(s, vw, ew, sorted); CompressedGraph z = CompressedGraphBuilder::compress(c); io::compressed_binary::write("z", z);
  kse_assert(io::compressed_binary::is_compressed("z"), "a compressed file is recognized"); Graph g = io::read("z", kse_choose("format", 2) ? io::GraphFileFormat::METIS : io::GraphFileFormat::PARHIP, NodeOrdering::NATURAL, true);
  same(s, g); kse_assert(g.sorted() == z.sorted() && g.max_degree() == z.max_degree(), "header data"); kse_assert(g.is_node_weighted() == z.is_node_weighted() && g.is_edge_weighted() == z.is_edge_weighted(), "kinds of weights"); kse_reach("done");
}
// ---------------------------------------------------------------- partitions
extern "C" void parts() {
  unsigned n = 1 + kse_choose("n", 3), k = 13; std::vector<BlockID> p(n); for (auto &b : p) b = kse_in<BlockID>("block", 0, k - 1);
  if (kse_choose("what", 2)) { io::partition::write("p", p); if (kse_choose("no final newline", 2)) kse_io::find("p")->data.pop_back(); auto q = io::partition::read("p"); kse_assert(q.size() == n, "number of nodes"); for (unsigned u = 0; u < n; ++u) kse_assert(q[u] == p[u], "every block survives"); }
  else { for (unsigned u = 0; u < n; ++u) kse_concretize(p[u]); io::partition::write_block_sizes("p", k, p); auto q = io::partition::read_block_sizes("p"); kse_assert(q.size() == n, "number of nodes"); for (unsigned u = 0; u + 1 < n; ++u) kse_assert(q[u] <= q[u + 1], "blocks are consecutive"); for (unsigned b = 0; b < k; ++b) { unsigned x = 0, y = 0; for (unsigned u = 0; u < n; ++u) { x += p[u] == b; y += q[u] == b; } kse_assert(x == y, "block sizes survive"); } }
  kse_assert(kse_io::open_fds == 0, "the file is closed"); kse_reach("done");
}
// ---------------------------------------------------------------- validator
extern "C" void validator() {
  const unsigned n = NV; const bool ew = kse_choose("edge weights", 2); std::vector<EdgeID> x(1, 0); std::vector<NodeID> a; std::vector<EdgeWeight> w;
  for (unsigned u = 0; u < n; ++u) { unsigned d = kse_choose("degree", DEG + 1); for (unsigned i = 0; i < d; ++i) { NodeID v = kse_choose("v", n - 1); if (v >= u) ++v; a.push_back(v); w.push_back(ew ? kse_sin<EdgeWeight>("ew", 1, 2) : 1); } x.push_back(a.size()); }
  bool ok = true; for (unsigned u = 0; u < n; ++u) for (unsigned e = x[u]; e < x[u + 1]; ++e) { bool rev = false; for (unsigned f = x[a[e]]; f < x[a[e] + 1]; ++f) if (a[f] == u) rev |= w[f] == w[e]; if (!rev) ok = false; for (unsigned f = e + 1; f < x[u + 1]; ++f) if (a[f] == a[e]) ok = false; }
  Graph g(std::make_unique<CSRGraph>(CSRGraph::seq{}, sarr<EdgeID>(x), sarr<NodeID>(a), StaticArray<NodeWeight>{}, ew ? sarr<EdgeWeight>(w) : StaticArray<EdgeWeight>{}));
  kse_io::may_exit = !ok; validate_undirected_graph(g); kse_assert(ok, "multi-edges, missing reverse edges and differing weights are rejected"); kse_reach("done");
}
