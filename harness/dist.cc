// The distributed-memory partitioner: distributed graphs, exchange of node data, metrics and contraction. The ranks are
// fibers of one process that exchange messages through the MPI stand-in.
#define private public
#include "kaminpar-dist/dkaminpar.h"
#undef private
#include "kaminpar-dist/datastructures/distributed_graph.h"
#include "kaminpar-dist/datastructures/distributed_partitioned_graph.h"
#include "kaminpar-dist/context.h"
#include "kaminpar-dist/metrics.h"
#include "kaminpar-dist/presets.h"
#include "kaminpar-dist/graphutils/communication.h"
#include "kaminpar-dist/graphutils/synchronization.h"
#ifdef WITH_CONTRACTION
#include "kaminpar-dist/coarsening/contraction/global_cluster_contraction.h"
#include "kaminpar-dist/coarsening/contraction/local_cluster_contraction.h"
#endif
#ifdef WITH_PARTS
#include "kaminpar-dist/factories.h"
#include "kaminpar-dist/coarsening/clusterer.h"
#include "kaminpar-dist/refinement/refiner.h"
#endif
#include "kse.h"
namespace K = kaminpar; namespace D = kaminpar::dist; using K::StaticArray;
#ifndef NV
#define NV (TIER ? 4 : 3)
#endif
#ifndef LIMIT
#define LIMIT 1
#endif
#ifndef CUTS
#define CUTS 1
#endif
#ifndef PES
#define PES 2
#endif
struct G { // the global graph, as every rank knows it
  unsigned n = 0, size = 1; std::vector<std::vector<char>> e; std::vector<std::vector<long>> w; std::vector<long> vw; bool nw, ew; std::vector<D::GlobalNodeID> dist;
  unsigned owner(unsigned u) const { unsigned p = 0; while (u >= dist[p + 1]) ++p; return p; }
};
static G mkg(unsigned n, unsigned size, bool nw, bool ew, long W = 15) {
  G g; g.n = n; g.size = size; g.nw = nw; g.ew = ew; g.e.assign(n, std::vector<char>(n, 0)); g.w.assign(n, std::vector<long>(n, 0));
  for (unsigned u = 0; u < n; ++u) for (unsigned v = u + 1; v < n; ++v) if (kse_choose("edge", 2)) { g.e[u][v] = g.e[v][u] = 1; g.w[u][v] = g.w[v][u] = ew ? kse_srange("ew", 1, W) : 1; }
  for (unsigned u = 0; u < n; ++u) g.vw.push_back(nw ? kse_srange("vw", 1, W) : 1);
  g.dist.push_back(0); for (unsigned p = 0; p + 1 < size; ++p) g.dist.push_back(g.dist.back() + kse_choose("owned", n - (unsigned)g.dist.back() + 1)); g.dist.push_back(n); return g;
}
static G anyg(unsigned size, unsigned maxn = NV) { const unsigned n = kse_choose("n", maxn) + 1; const unsigned wm = kse_choose("weights", 4); return mkg(n, size, wm & 1, wm & 2); }
static std::unique_ptr<K::dKaMinPar> import(const G &g, MPI_Comm comm, D::Context ctx = D::create_default_context()) { // the documented way in
  int r; MPI_Comm_rank(comm, &r); std::vector<D::GlobalNodeID> dist = g.dist, adj; std::vector<D::GlobalEdgeID> x{0}; std::vector<D::GlobalNodeWeight> vw; std::vector<D::GlobalEdgeWeight> ew;
  for (unsigned u = dist[r]; u < dist[r + 1]; ++u) { for (unsigned v = 0; v < g.n; ++v) if (g.e[u][v]) { adj.push_back(v); if (g.ew) ew.push_back(g.w[u][v]); } x.push_back(adj.size()); if (g.nw) vw.push_back(g.vw[u]); }
  auto d = std::make_unique<K::dKaMinPar>(comm, 1, std::move(ctx)); d->set_output_level(K::OutputLevel::QUIET); d->import_graph(dist, x, adj, vw, ew); return d;
}
template <class T> static T gather(const std::vector<T> &x) { return x[0]; }
static void check_graph(const G &g, const D::DistributedGraph &gr, int r) {
  const unsigned lo = g.dist[r], hi = g.dist[r + 1]; unsigned m = 0, gm = 0, ghosts = 0; long tw = 0, gw = 0, te = 0, ge = 0, mx = 0; std::vector<char> ghost(g.n, 0);
  for (unsigned u = 0; u < g.n; ++u) { const bool mine = u >= lo && u < hi; gw += g.vw[u]; if (mine) tw += g.vw[u]; mx = kse_ite64(g.vw[u] > mx, g.vw[u], mx);
    for (unsigned v = 0; v < g.n; ++v) if (g.e[u][v]) { ++gm; ge += g.w[u][v]; if (mine) { ++m; te += g.w[u][v]; if (v < lo || v >= hi) ghost[v] = 1; } } }
  for (char c : ghost) ghosts += c;
  kse_assert(gr.global_n() == g.n && gr.global_m() == gm, "every rank knows the size of the global graph");
  kse_assert(gr.n() == hi - lo && gr.m() == m && gr.offset_n() == lo, "every rank holds its part of the graph");
  kse_assert(gr.ghost_n() == ghosts && gr.total_n() == hi - lo + ghosts, "exactly the remote neighbours are ghost nodes");
  kse_assert(gr.total_node_weight() == tw && gr.global_total_node_weight() == gw, "local and global node weights"); kse_assert(gr.global_max_node_weight() == mx, "the largest node weight");
  kse_assert(gr.total_edge_weight() == te && gr.global_total_edge_weight() == ge, "local and global edge weights");
  unsigned moff = 0; for (unsigned p = 0; p < g.size; ++p) { unsigned pm = 0; for (unsigned u = g.dist[p]; u < g.dist[p + 1]; ++u) for (unsigned v = 0; v < g.n; ++v) pm += g.e[u][v]; kse_assert(gr.n(p) == g.dist[p + 1] - g.dist[p] && gr.offset_n(p) == g.dist[p] && gr.m(p) == pm && gr.offset_m(p) == moff, "node and edge distribution"); moff += pm; }
  for (unsigned v = 0; v < g.n; ++v) { const bool mine = v >= lo && v < hi; kse_assert(gr.is_owned_global_node(v) == mine, "ownership"); kse_assert(gr.contains_global_node(v) == (mine || ghost[v]), "contains a global node"); kse_assert(gr.find_owner_of_global_node(v) == (int)g.owner(v), "owner of a global node");
    if (mine || ghost[v]) { const auto l = gr.global_to_local_node(v); kse_assert(l < gr.total_n() && gr.local_to_global_node(l) == v, "global and local node IDs are inverse"); kse_assert(gr.is_owned_node(l) == mine && gr.is_ghost_node(l) == !mine, "ghost nodes follow owned nodes"); kse_assert(gr.node_weight(l) == g.vw[v], "node weights, of ghost nodes too"); if (!mine) { kse_assert(gr.ghost_owner(l) == (int)g.owner(v), "owner of a ghost node"); kse_assert(gr.map_remote_node(v - g.dist[g.owner(v)], g.owner(v)) == l, "remote node IDs"); } } }
  for (unsigned u = lo; u < hi; ++u) { std::vector<char> seen(g.n, 0); unsigned deg = 0; gr.adjacent_nodes(u - lo, [&](const D::NodeID v, const D::EdgeWeight w) { kse_assert(v < gr.total_n(), "neighbours are owned or ghost nodes"); const auto x = gr.local_to_global_node(v); kse_assert(g.e[u][x] && !seen[x], "the neighbours of a node"); seen[x] = 1; ++deg; kse_assert(w == g.w[u][x], "edge weights"); }); unsigned want = 0; for (unsigned v = 0; v < g.n; ++v) want += g.e[u][v]; kse_assert(deg == want && gr.degree(u - lo) == want, "degrees"); }
  for (unsigned p = 0; p < g.size; ++p) { unsigned c = 0, vol = 0; for (unsigned u = lo; u < hi; ++u) { unsigned x = 0; if (p != (unsigned)r) for (unsigned v = g.dist[p]; v < g.dist[p + 1]; ++v) x += g.e[u][v]; c += x; vol += x != 0; } kse_assert(gr.edge_cut_to_pe(p) == c && gr.comm_vol_to_pe(p) == vol, "edges and interface nodes per rank"); }
}
extern "C" void graph() { const G g = anyg(PES); kse_mpi::run(PES, [&](MPI_Comm c) { auto d = import(g, c); check_graph(g, *d->_graph_ptr, kse_mpi::rank(c)); }); kse_reach("done"); }
extern "C" void graph3() { const G g = mkg(3, 3, true, true); kse_mpi::run(3, [&](MPI_Comm c) { auto d = import(g, c); check_graph(g, *d->_graph_ptr, kse_mpi::rank(c)); }); kse_reach("done"); }
// block assignments of ghost nodes, block weights and metrics
static void part(const G &g, unsigned k) {
  std::vector<unsigned> b1, b2; for (unsigned u = 0; u < g.n; ++u) { b1.push_back(kse_range("block", 0, k - 1)); b2.push_back(kse_range("to", 0, k - 1)); }
  auto cut = [&](const std::vector<unsigned> &b) { long x = 0; for (unsigned u = 0; u < g.n; ++u) for (unsigned v = u + 1; v < g.n; ++v) if (g.e[u][v]) x += kse_ite64(b[u] != b[v], g.w[u][v], 0); return x; };
  auto bw = [&](const std::vector<unsigned> &b, unsigned i) { long x = 0; for (unsigned u = 0; u < g.n; ++u) x += kse_ite64(b[u] == i, g.vw[u], 0); return x; };
  kse_mpi::run(g.size, [&](MPI_Comm c) { auto d = import(g, c); const auto &gr = *d->_graph_ptr; const unsigned r = kse_mpi::rank(c), lo = g.dist[r];
    StaticArray<D::BlockID> p(gr.total_n()); for (unsigned u = 0; u < gr.total_n(); ++u) p[u] = b1[gr.local_to_global_node(u)];
    D::DistributedPartitionedGraph pg(&gr, k, std::move(p)); auto check = [&](const std::vector<unsigned> &b) { for (unsigned i = 0; i < k; ++i) kse_assert(pg.block_weight(i) == bw(b, i), "block weights are global"); kse_assert(D::metrics::edge_cut(pg) == cut(b), "the cut counts every edge once"); };
    check(b1); for (unsigned u = 0; u < gr.n(); ++u) pg.set_block<false>(u, b2[lo + u]); D::graph::synchronize_ghost_node_block_ids(pg); for (unsigned u = 0; u < gr.total_n(); ++u) kse_assert(pg.block(u) == b2[gr.local_to_global_node(u)], "ghost nodes learn the blocks of their owners"); pg.reinit_block_weights(); check(b2);
    D::PartitionContext pc(k, k, 0.0); pc.graph = std::make_unique<D::GraphContext>(gr, pc); unsigned over = 0; for (unsigned i = 0; i < k; ++i) over += kse_ite64(bw(b2, i) > pc.graph->max_block_weight(i), 1, 0); kse_assert(D::metrics::is_feasible(pg, pc) == (over == 0), "feasible exactly if no block is overweight"); kse_assert(D::metrics::num_imbalanced_blocks(pg, pc) == over, "number of overweight blocks"); });
}
extern "C" void partition() { const G g = anyg(PES); part(g, kse_choose("k", 2) + 1); kse_reach("done"); }
// data exchange
static void exchange(const G &g, unsigned mode) {
  std::vector<unsigned> val; std::vector<char> on; for (unsigned u = 0; u < g.n; ++u) { val.push_back(kse_range("val", 0, 1000)); on.push_back(kse_choose("on", 2)); }
  struct M { D::NodeID u; D::NodeID v; unsigned x; };
  kse_mpi::run(g.size, [&](MPI_Comm c) { auto d = import(g, c); const auto &gr = *d->_graph_ptr; const unsigned r = kse_mpi::rank(c), lo = g.dist[r]; std::vector<std::vector<char>> got(g.n, std::vector<char>(g.n, 0)); std::vector<char> from(g.size, 0);
    auto filter = [&](const D::NodeID u) { return on[lo + u] != 0; };
    if (mode == 0) { // one message per cut edge
      K::mpi::graph::sparse_alltoall_interface_to_ghost<M>(gr, filter, [&](const D::NodeID u, const D::NodeID v, const D::EdgeWeight) -> M { return {u, (D::NodeID)(gr.local_to_global_node(v) - gr.offset_n(gr.ghost_owner(v))), val[lo + u]}; },
        [&](const auto &b, const K::mpi::PEID pe) { for (const M &m : b) { const unsigned u = gr.offset_n(pe) + m.u, v = lo + m.v; kse_assert(u < g.n && v < g.n && m.v < gr.n() && g.e[u][v] && on[u] && g.owner(u) == (unsigned)pe, "messages run along cut edges"); kse_assert(!got[u][v], "one message per cut edge"); got[u][v] = 1; kse_assert(m.x == val[u], "the message is what was sent"); } });
      for (unsigned u = 0; u < g.n; ++u) for (unsigned v = lo; v < g.dist[r + 1]; ++v) if (g.owner(u) != r && g.e[u][v] && on[u]) kse_assert(got[u][v], "every cut edge carries a message");
    } else { // one message per interface node and adjacent rank
      K::mpi::graph::sparse_alltoall_interface_to_pe<M>(gr, filter, [&](const D::NodeID u) -> M { return {u, 0, val[lo + u]}; },
        [&](const auto &b, const K::mpi::PEID pe) { for (const M &m : b) { const unsigned u = gr.offset_n(pe) + m.u; kse_assert(u < g.n && on[u] && gr.contains_global_node(u) && g.owner(u) == (unsigned)pe, "messages come from neighbours"); kse_assert(!got[u][0], "one message per interface node and rank"); got[u][0] = 1; kse_assert(m.x == val[u], "the message is what was sent"); } });
      for (unsigned u = 0; u < g.n; ++u) if (g.owner(u) != r && on[u] && gr.contains_global_node(u)) kse_assert(got[u][0], "every replica gets a message");
    } });
}
extern "C" void exchange_edges() { const G g = mkg(kse_choose("n", NV) + 1, PES, false, false); exchange(g, 0); kse_reach("done"); }
extern "C" void exchange_nodes() { const G g = mkg(kse_choose("n", NV) + 1, PES, false, false); exchange(g, 1); kse_reach("done"); }
// the exchange primitives: message s of rank p to rank q
template <class F> static void a2a(unsigned size, F f) {
  std::vector<std::vector<std::vector<unsigned>>> m(size, std::vector<std::vector<unsigned>>(size)); const unsigned most = size > 2 && !TIER ? 1 : 2; unsigned budget = size > 3 ? 2 : TIER ? 5 : 4;
  for (auto &p : m) for (auto &q : p) { if (!budget) break; const unsigned c = kse_choose("messages", most + 1); if (c) --budget; for (unsigned i = 0; i < c; ++i) q.push_back((unsigned)kse_any<unsigned>("msg")); }
  kse_mpi::run(size, [&](MPI_Comm c) { const unsigned r = kse_mpi::rank(c); std::vector<K::NoinitVector<unsigned>> send(size); for (unsigned q = 0; q < size; ++q) for (unsigned x : m[r][q]) send[q].push_back(x); std::vector<unsigned> calls(size, 0), got(size, 0);
    auto receive = [&](const K::NoinitVector<unsigned> &b, const K::mpi::PEID pe) { kse_assert((unsigned)pe < size, "messages come from a rank"); ++calls[pe]; got[pe] += b.size(); kse_assert(b.size() == m[pe][r].size(), "every message arrives once"); for (std::size_t i = 0; i < b.size(); ++i) kse_assert(b[i] == m[pe][r][i], "messages arrive unchanged, in order"); };
    f(std::move(send), receive, c); for (unsigned p = 0; p < size; ++p) { kse_assert(calls[p] <= 1, "one buffer per sender"); kse_assert(got[p] == m[p][r].size(), "every message arrives once"); } });
}
static unsigned r_way;
template <class V, class R> static void a2a_all(V s, R &r, MPI_Comm c) { const unsigned way = r_way; if (way == 0) K::mpi::sparse_alltoall<unsigned, K::NoinitVector<unsigned>>(K::mpi::tag::grid, std::move(s), r, c); else if (way == 1) K::mpi::sparse_alltoall<unsigned, K::NoinitVector<unsigned>>(K::mpi::tag::alltoallv, std::move(s), r, c); else K::mpi::sparse_alltoall<unsigned, K::NoinitVector<unsigned>>(K::mpi::tag::complete_send_recv, std::move(s), r, c); }
extern "C" void alltoall() { r_way = kse_choose("way", 3); a2a(kse_choose("ranks", 3) + 1, [](auto s, auto &r, MPI_Comm c) { a2a_all(std::move(s), r, c); }); kse_reach("done"); }
extern "C" void alltoall_many() { r_way = kse_choose("way", 3); a2a(kse_choose("ranks", 3) + 4, [](auto s, auto &r, MPI_Comm c) { a2a_all(std::move(s), r, c); }); kse_reach("done"); }
// larger, incomplete grids: everybody sends to everybody, or one rank does not send to one rank, or only one rank sends to one rank
extern "C" void alltoall_grid() {
  r_way = 0; const unsigned size = 7 + kse_choose("ranks", 6), kind = kse_choose("kind", 3), a = kind ? kse_choose("from", size) : 0, b = kind ? kse_choose("to", size) : 0;
  std::vector<std::vector<std::vector<unsigned>>> m(size, std::vector<std::vector<unsigned>>(size)); for (unsigned p = 0; p < size; ++p) for (unsigned q = 0; q < size; ++q) if (kind == 0 || (kind == 1) == (p != a || q != b)) for (unsigned i = 0; i < 1 + (p + 2 * q) % 3; ++i) m[p][q].push_back(1000 * i + 100 * p + q);
  kse_mpi::run(size, [&](MPI_Comm c) { const unsigned r = kse_mpi::rank(c); std::vector<K::NoinitVector<unsigned>> send(size); for (unsigned q = 0; q < size; ++q) for (unsigned x : m[r][q]) send[q].push_back(x); std::vector<unsigned> got(size, 0);
    auto receive = [&](const K::NoinitVector<unsigned> &x, const K::mpi::PEID pe) { kse_assert((unsigned)pe < size, "messages come from a rank"); got[pe] += x.size(); kse_assert(x.size() == m[pe][r].size(), "every message arrives once"); for (std::size_t i = 0; i < x.size(); ++i) kse_assert(x[i] == m[pe][r][i], "messages arrive unchanged, in order"); };
    a2a_all(std::move(send), receive, c); for (unsigned p = 0; p < size; ++p) kse_assert(got[p] == m[p][r].size(), "every message arrives once"); });
  kse_reach("done");
}
// few ghost nodes in a large graph: they are looked up in a hash table
extern "C" void graph_sparse() {
  G g; g.n = 160; g.size = 2; g.nw = g.ew = true; g.e.assign(g.n, std::vector<char>(g.n, 0)); g.w.assign(g.n, std::vector<long>(g.n, 0)); const unsigned cut = 1 + kse_choose("split", 3) * 79;
  auto edge = [&](unsigned u, unsigned v) { g.e[u][v] = g.e[v][u] = 1; g.w[u][v] = g.w[v][u] = kse_srange("ew", 1, 15); };
  if (kse_choose("e0", 2)) edge(0, 159); if (kse_choose("e1", 2)) edge(cut - 1, cut); if (cut > 2) edge(0, 1); edge(157, 158); for (unsigned u = 0; u < g.n; ++u) g.vw.push_back(u < 4 || u > 155 ? kse_srange("vw", 1, 15) : 1);
  g.dist = {0, cut, g.n}; kse_mpi::run(2, [&](MPI_Comm c) { auto d = import(g, c); check_graph(g, *d->_graph_ptr, kse_mpi::rank(c)); }); kse_reach("done");
}
#ifdef WITH_CONTRACTION
// contraction of a clustering: the coarse graph is the quotient graph, and a partition of it projects to the fine graph
static void contraction(const G &g, double imbalance, bool prefix, bool perfect, bool any) {
  std::vector<unsigned> cl; for (unsigned u = 0; u < g.n; ++u) { unsigned x = kse_choose("cluster", any ? g.n : u + 1); cl.push_back(x); }
  std::vector<unsigned> to(g.n, 0); G cg; std::vector<std::vector<char>> adj; std::vector<unsigned> blk; for (unsigned u = 0; u < g.n; ++u) blk.push_back(kse_range("block", 0, 2));
  unsigned nc = 0; { std::vector<char> used(g.n, 0); for (unsigned x : cl) { nc += !used[x]; used[x] = 1; } }
  cg.n = nc; cg.size = g.size; cg.nw = cg.ew = true; cg.e.assign(nc, std::vector<char>(nc, 0)); cg.w.assign(nc, std::vector<long>(nc, 0)); cg.vw.assign(nc, 0); std::vector<char> seen(nc, 0);
  kse_mpi::run(g.size, [&](MPI_Comm c) { auto d = import(g, c); const auto &gr = *d->_graph_ptr; const unsigned r = kse_mpi::rank(c), lo = g.dist[r];
    StaticArray<D::GlobalNodeID> clustering(gr.total_n()); for (unsigned u = 0; u < gr.total_n(); ++u) clustering[u] = cl[gr.local_to_global_node(u)];
    auto coarse = D::contract_clustering(gr, clustering, imbalance, prefix, perfect); const auto &cgr = coarse->get(); kse_assert(cgr.global_n() == nc, "one coarse node per cluster");
    if (r == 0) { cg.dist.clear(); for (unsigned p = 0; p <= g.size; ++p) cg.dist.push_back(cgr.node_distribution(p)); kse_assert(cg.dist[0] == 0 && cg.dist.back() == nc, "coarse node distribution"); }
    StaticArray<D::BlockID> ids(cgr.total_n()), onto(gr.total_n()); for (unsigned u = 0; u < cgr.total_n(); ++u) ids[u] = cgr.local_to_global_node(u); coarse->project(ids, onto);
    for (unsigned u = 0; u < gr.n(); ++u) { kse_assert(onto[u] < nc, "projection of a partition"); to[lo + u] = onto[u]; }
    MPI_Barrier(c); for (unsigned u = 0; u < gr.total_n(); ++u) kse_assert(onto[u] == to[gr.local_to_global_node(u)], "ghost nodes are projected like the nodes they replicate");
    if (r == 0) { for (unsigned u = 0; u < g.n; ++u) for (unsigned v = 0; v < g.n; ++v) kse_assert((to[u] == to[v]) == (cl[u] == cl[v]), "coarse nodes are the clusters");
      for (unsigned u = 0; u < g.n; ++u) { cg.vw[to[u]] += g.vw[u]; for (unsigned v = 0; v < g.n; ++v) if (g.e[u][v] && to[u] != to[v]) { cg.e[to[u]][to[v]] = 1; cg.w[to[u]][to[v]] += g.w[u][v]; } } }
    MPI_Barrier(c); for (unsigned p = 0; p <= g.size; ++p) kse_assert(cgr.node_distribution(p) == cg.dist[p], "ranks agree on the coarse node distribution");
    check_graph(cg, cgr, r);
    StaticArray<D::BlockID> p(cgr.total_n()); for (unsigned u = 0; u < cgr.total_n(); ++u) p[u] = blk[cgr.local_to_global_node(u)]; coarse->project(p, onto); for (unsigned u = 0; u < gr.total_n(); ++u) kse_assert(onto[u] == blk[to[gr.local_to_global_node(u)]], "every node gets the block of its coarse node"); });
}
extern "C" void contract() { const G g = anyg(PES); contraction(g, 1e9, false, true, TIER); kse_reach("done"); }
extern "C" void contract_migrate() { const unsigned mode = kse_choose("mode", 4); const G g = mkg(NV, PES, true, true); contraction(g, 1.0 + kse_choose("imbalance", 2) * 0.5, mode & 1, mode & 2, TIER); kse_reach("done"); }
extern "C" void contract3() { const G g = mkg(3, 3, true, true); contraction(g, kse_choose("limit", 2) ? 1e9 : 1.0, false, true, false); kse_reach("done"); }
#endif
#ifdef WITH_E2E
#ifndef NP
#define NP 3
#endif
static D::Context preset(unsigned i) {
  D::Context c = i == 0 ? D::create_default_context() : i == 1 ? D::create_strong_context() : i == 2 ? D::create_jet_context() : D::create_europar23_strong_context();
  auto &q = c.initial_partitioning.kaminpar.initial_partitioning.pool; q.min_num_repetitions = q.min_num_non_adaptive_repetitions = q.max_num_repetitions = 1; c.initial_partitioning.kaminpar.initial_partitioning.coarsening.contraction_limit = 2; return c;
}
static void e2e(const G &g, unsigned pr, unsigned k, unsigned limit, D::PartitioningMode mode, bool balance) {
  std::vector<unsigned> part(g.n, 1000); std::vector<long> cuts(g.size, -1);
  kse_mpi::run(g.size, [&](MPI_Comm c) { D::Context ctx = preset(pr); ctx.mode = mode; ctx.coarsening.contraction_limit = limit; auto d = import(g, c, ctx); const unsigned r = kse_mpi::rank(c), lo = g.dist[r], n = g.dist[r + 1] - lo;
    auto p = std::make_unique<D::BlockID[]>(n); for (unsigned u = 0; u < n; ++u) p[u] = 1000; cuts[r] = d->compute_partition(k, p.get()); for (unsigned u = 0; u < n; ++u) part[lo + u] = p[u]; });
  for (unsigned u = 0; u < g.n; ++u) kse_assert(part[u] < k, "every node is assigned a block between 0 and k-1");
  long cut = 0; for (unsigned u = 0; u < g.n; ++u) for (unsigned v = u + 1; v < g.n; ++v) if (g.e[u][v]) cut += kse_ite64(part[u] != part[v], g.w[u][v], 0);
  for (unsigned r = 0; r < g.size; ++r) kse_assert(cuts[r] == cut, "every rank returns the edge cut of the returned partition");
  if (balance) { const long most = (long)(1.03 * ((g.n + k - 1) / k)); for (unsigned b = 0; b < k; ++b) { long w = 0; for (unsigned u = 0; u < g.n; ++u) w += kse_ite64(part[u] == b, g.vw[u], 0); kse_assert(w <= most, "every block respects its weight limit"); } }
  kse_reach("done");
}
extern "C" void small() { const unsigned pr = kse_choose("preset", NP); const G g = mkg(kse_choose("n", NV) + 1, PES, false, false); e2e(g, pr, kse_choose("k", 2) + 2, kse_choose("limit", 2) ? 2000 : 1, kse_choose("mode", 2) ? D::PartitioningMode::KWAY : D::PartitioningMode::DEEP, true); }
extern "C" void small3() { const unsigned pr = kse_choose("preset", NP); const G g = mkg(kse_choose("n", 2) + 2, 3, false, false); e2e(g, pr, kse_choose("k", 2) + 2, kse_choose("limit", 2) ? 2000 : 1, D::PartitioningMode::DEEP, true); }
extern "C" void esym() { const unsigned pr = kse_choose("preset", NP); const G g = mkg(3, PES, false, true, 3); e2e(g, pr, kse_choose("k", 2) + 2, kse_choose("limit", 2) ? 2000 : 1, kse_choose("mode", 2) ? D::PartitioningMode::KWAY : D::PartitioningMode::DEEP, true); }
extern "C" void wsym() { const unsigned pr = kse_choose("preset", NP); const G g = mkg(2 + TIER, PES, true, true, 3); e2e(g, pr, kse_choose("k", 2) + 2, kse_choose("limit", 2) ? 2000 : 1, kse_choose("mode", 2) ? D::PartitioningMode::KWAY : D::PartitioningMode::DEEP, false); }
// more ranks than blocks on a coarse level: groups of ranks get replicas of the graph
extern "C" void split() {
  const unsigned pr = kse_choose("preset", NP), st = kse_choose("graph", 3); G g; g.n = 5; g.size = 4; g.nw = g.ew = false; g.e.assign(5, std::vector<char>(5, 0)); g.w.assign(5, std::vector<long>(5, 0)); g.vw.assign(5, 1);
  auto edge = [&](unsigned u, unsigned v) { g.e[u][v] = g.e[v][u] = 1; g.w[u][v] = g.w[v][u] = 1; }; for (unsigned i = 0; i + 1 < 5; ++i) if (st != 2) edge(i, i + 1); else edge(0, i + 1); if (st == 1) edge(0, 4);
  g.dist.push_back(0); for (unsigned p = 0; p + 1 < 4; ++p) g.dist.push_back(g.dist.back() + kse_choose("owned", std::min<unsigned>(TIER ? 6 : 3, 6 - (unsigned)g.dist.back()))); g.dist.push_back(5);
  e2e(g, pr, kse_choose("k", 2) + 2, 2, D::PartitioningMode::DEEP, true);
}
#endif
#ifdef WITH_PARTS
static D::Context parts_ctx(const D::DistributedGraph &gr, unsigned k, double eps) { D::Context c = D::create_default_context(); c.partition.k = k; c.partition.epsilon = eps; c.partition.graph = std::make_unique<D::GraphContext>(gr, c.partition); c.parallel.num_mpis = (int)gr.node_distribution().size() - 1; return c; }
static void cluster(const G &g, D::ClusteringAlgorithm a, long limit) {
  std::vector<unsigned> cl(g.n, 0);
  kse_mpi::run(g.size, [&](MPI_Comm c) { auto d = import(g, c); const auto &gr = *d->_graph_ptr; const unsigned r = kse_mpi::rank(c), lo = g.dist[r]; D::Context ctx = parts_ctx(gr, 2, 0.03);
    auto x = D::factory::create_clusterer(ctx, a); StaticArray<D::GlobalNodeID> clustering(gr.total_n()); x->set_max_cluster_weight(limit); x->cluster(clustering, gr);
    for (unsigned u = 0; u < gr.n(); ++u) { kse_assert(clustering[u] < g.n, "every node is in a cluster"); cl[lo + u] = clustering[u]; }
    MPI_Barrier(c); for (unsigned u = 0; u < gr.total_n(); ++u) kse_assert(clustering[u] == cl[gr.local_to_global_node(u)], "ranks agree on the cluster of a node");
    if (r == 0) for (unsigned i = 0; i < g.n; ++i) { long w = 0, cnt = 0; for (unsigned u = 0; u < g.n; ++u) if (cl[u] == i) { w += g.vw[u]; ++cnt; } if (cnt > 1 && a == D::ClusteringAlgorithm::GLOBAL_HEM) { kse_assert(w <= limit, "matched pairs respect the weight limit"); kse_assert(cnt == 2, "a matching consists of pairs"); } } });
  kse_reach("done");
}
extern "C" void clusters() { static const D::ClusteringAlgorithm A[] = {D::ClusteringAlgorithm::GLOBAL_LP, D::ClusteringAlgorithm::GLOBAL_HEM, D::ClusteringAlgorithm::GLOBAL_HEM_LP}; const auto a = A[kse_choose("algorithm", 3)]; const G g = mkg(NV, PES, true, true, 7); cluster(g, a, kse_srange("limit", 7, 20)); }
static void refine(const G &g, D::RefinementAlgorithm a, unsigned k, int rounds) {
  std::vector<unsigned> b0, b(g.n, 0); for (unsigned u = 0; u < g.n; ++u) b0.push_back(kse_choose("block", k));
  auto cut = [&](const std::vector<unsigned> &b) { long x = 0; for (unsigned u = 0; u < g.n; ++u) for (unsigned v = u + 1; v < g.n; ++v) if (g.e[u][v] && b[u] != b[v]) x += g.w[u][v]; return x; };
  auto bw = [&](const std::vector<unsigned> &b, unsigned i) { long x = 0; for (unsigned u = 0; u < g.n; ++u) if (b[u] == i) x += g.vw[u]; return x; };
  std::vector<long> limit; for (unsigned i = 0; i < k; ++i) { long W = 0, mx = 0; for (long w : g.vw) { W += w; mx = kse_ite64(w > mx, w, mx); } limit.push_back((W + k - 1) / k + (g.nw ? mx : 0) + kse_srange("slack", 0, 3)); } bool feasible = true, now = true; 
  kse_mpi::run(g.size, [&](MPI_Comm c) { auto d = import(g, c); const auto &gr = *d->_graph_ptr; const unsigned r = kse_mpi::rank(c), lo = g.dist[r]; D::Context ctx = parts_ctx(gr, k, 0.03); for (unsigned i = 0; i < k; ++i) ctx.partition.graph->max_block_weights[i] = limit[i]; ctx.refinement.jet.fine_negative_gain_factor = 0.75;
    StaticArray<D::BlockID> p(gr.total_n()); for (unsigned u = 0; u < gr.total_n(); ++u) p[u] = b0[gr.local_to_global_node(u)]; D::DistributedPartitionedGraph pg(&gr, k, std::move(p));
    auto f = D::factory::create_refiner(ctx, a); auto x = f->create(pg, ctx.partition); x->initialize(); for (int i = 0; i < rounds; ++i) x->refine();
    for (unsigned u = 0; u < gr.n(); ++u) { kse_assert(pg.block(u) < k, "every node is in a block"); b[lo + u] = pg.block(u); }
    MPI_Barrier(c); for (unsigned u = 0; u < gr.total_n(); ++u) kse_assert(pg.block(u) == b[gr.local_to_global_node(u)], "ranks agree on the block of a node");
    for (unsigned i = 0; i < k; ++i) kse_assert(pg.block_weight(i) == bw(b, i), "every rank knows the block weights"); kse_assert(D::metrics::edge_cut(pg) == cut(b), "the cut counts every edge once"); });
  for (unsigned i = 0; i < k; ++i) { feasible = feasible && bw(b0, i) <= limit[i]; now = now && bw(b, i) <= limit[i]; }
  if (a == D::RefinementAlgorithm::HYBRID_NODE_BALANCER || a == D::RefinementAlgorithm::HYBRID_CLUSTER_BALANCER) { long o0 = 0, o1 = 0; for (unsigned i = 0; i < k; ++i) { o0 += std::max<long>(0, bw(b0, i) - limit[i]); o1 += std::max<long>(0, bw(b, i) - limit[i]); } kse_assert(o1 <= o0, "balancing does not increase the overload"); }
  if (feasible && (a == D::RefinementAlgorithm::JET_REFINER || a == D::RefinementAlgorithm::HYBRID_NODE_BALANCER || a == D::RefinementAlgorithm::HYBRID_CLUSTER_BALANCER)) kse_assert(now, "feasible partitions stay feasible");
  if (feasible && a == D::RefinementAlgorithm::JET_REFINER) kse_assert(cut(b) <= cut(b0), "refinement does not worsen feasible partitions");
  kse_reach("done");
}
#define ALG(name, A) extern "C" void name() { const bool w = kse_choose("weights", 2); const G g = mkg(NV, PES, w, w, 4); refine(g, D::RefinementAlgorithm::A, 2 + (TIER ? kse_choose("k", 2) : 0), 1); }
ALG(lp, BATCHED_LP_REFINER) ALG(clp, COLORED_LP_REFINER) ALG(jet, JET_REFINER) ALG(node_balancer, HYBRID_NODE_BALANCER) ALG(cluster_balancer, HYBRID_CLUSTER_BALANCER)
#endif
