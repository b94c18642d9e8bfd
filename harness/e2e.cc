// The public interface: partitions computed by KaMinPar::compute_partition.
#include "gk.h"
#include "kaminpar-shm/kaminpar.h"
#include "kaminpar-shm/presets.h"
#include "kaminpar-shm/graphutils/compressed_graph_builder.h"
using namespace gk; using namespace kaminpar;
#ifndef MODE
#define MODE 0
#endif
static Context preset(unsigned i) {
  static const char *const P[] = {"default", "strong", "jet", "vcycle", "restricted-vcycle", "largek-fast", "largek-strong", "noref", "fast"};
  Context c = create_context_by_preset_name(P[i]); auto &q = c.initial_partitioning.pool; q.min_num_repetitions = q.min_num_non_adaptive_repetitions = q.max_num_repetitions = 1;
  c.initial_partitioning.coarsening.contraction_limit = 2;
  return c;
}
struct Opt { Context ctx; BlockID k; double eps; bool compressed = false; int threads = 1; std::vector<BlockWeight> limits; int mt = -1; };
static void run(const SG &s, const Opt &o, bool vw, bool ew, bool balance) {
  auto xadj = std::make_unique<EdgeID[]>(s.xadj.size()); auto adj = std::make_unique<NodeID[]>(s.adj.size()); auto vwgt = std::make_unique<NodeWeight[]>(s.n); auto ewgt = std::make_unique<EdgeWeight[]>(s.ew.size());
  for (unsigned i = 0; i < s.xadj.size(); ++i) xadj[i] = s.xadj[i];
  for (unsigned i = 0; i < s.adj.size(); ++i) { adj[i] = s.adj[i]; ewgt[i] = s.ew[i]; }
  for (unsigned i = 0; i < s.n; ++i) vwgt[i] = s.vw[i];
  kse_threads = o.threads; kse_chunks = o.threads;
  KaMinPar p(o.threads, o.ctx); p.set_output_level(OutputLevel::QUIET);
  std::span<NodeWeight> vs = vw ? std::span<NodeWeight>(vwgt.get(), s.n) : std::span<NodeWeight>{}; std::span<EdgeWeight> es = ew ? std::span<EdgeWeight>(ewgt.get(), s.ew.size()) : std::span<EdgeWeight>{};
  if (o.compressed) { CSRGraph c = csr(s, vw, ew); p.set_graph(Graph(std::make_unique<CompressedGraph>(CompressedGraphBuilder::compress(c)))); }
  else { p.copy_graph({xadj.get(), s.xadj.size()}, {adj.get(), s.adj.size()}, vs, es); }
  auto part = std::make_unique<BlockID[]>(s.n); for (unsigned u = 0; u < s.n; ++u) part[u] = 1000 + u;
  std::optional<Threads> th; if (o.mt >= 0) th.emplace(o.mt);
  EdgeWeight c = o.limits.empty() ? p.compute_partition(o.k, o.eps, {part.get(), s.n}) : p.compute_partition(o.limits, {part.get(), s.n});
  if (th) th->stop();
  for (unsigned u = 0; u < s.n; ++u) kse_assert(part[u] < o.k, "every node is assigned a block between 0 and k-1");
  kse_assert(c == cut(s, [&](unsigned u) { return part[u]; }), "the returned value is the edge cut of the returned partition");
  if (balance) for (BlockID b = 0; b < o.k; ++b) kse_assert(bw(s, [&](unsigned u) { return part[u]; }, b) <= p.context().partition.max_block_weight(b), "every block respects its weight limit");
  if (!o.compressed) { for (unsigned i = 0; i < s.adj.size(); ++i) kse_assert(adj[i] == s.adj[i], "copied input is left alone"); }
  kse_reach("done");
}
static void unit(SG &s) { for (auto &x : s.vw) x = 1; for (auto &x : s.ew) x = 1; for (auto &r : s.w) for (auto &x : r) x = x != 0; }
#ifndef WV
#define WV 2
#define EV 2
#endif
#ifndef NP
#define NP 9
#endif
extern "C" void small() { // all graphs with up to 4 nodes, unit weights
  unsigned n = kse_choose("n", 5), pr = kse_choose("preset", NP); SG s = n == 0 ? SG{0, {0}, {}, {}, {}, {}} : mkg(n, EDGES_ANY, 1, 1); Opt o; o.ctx = preset(pr); o.k = kse_choose("k", 3) + 2; o.eps = 0.03;
  o.ctx.coarsening.contraction_limit = kse_choose("limit", 2) ? 2000 : 1;
  run(s, o, false, false, pr != 4 && pr != 7);
}
extern "C" void wsym() { // symbolic node and edge weights
  unsigned kind = kse_choose("kind", 4); SG s = kind == 3 ? mkg(2, EDGES_ANY, 3, 3) : mkg(3, kind == 0 ? EDGES_PATH : kind == 1 ? EDGES_COMPLETE : EDGES_STAR, WV, EV); Opt o; o.ctx = preset(kse_choose("preset", NP)); o.k = kse_choose("k", 2) + 2; o.eps = 0.1;
  o.ctx.coarsening.contraction_limit = kse_choose("limit", 2) ? 2000 : 1;
  run(s, o, true, true, false);
}
extern "C" void esym() { // symbolic edge weights, unit node weights
  SG s = mkg(3, EDGES_ANY, 1, EV); Opt o; unsigned pr = kse_choose("preset", NP); o.ctx = preset(pr); o.k = kse_choose("k", 2) + 2; o.eps = 0.03;
  o.ctx.coarsening.contraction_limit = kse_choose("limit", 2) ? 2000 : 1;
  run(s, o, false, true, pr != 4 && pr != 7);
}
#ifndef PRE
#define PRE 1
#endif
extern "C" void mt() { // two threads
  static const unsigned prs[] = {0, 1, 2, 5}; const unsigned t = kse_choose("structure", 2), pr = prs[kse_choose("preset", 4)]; SG s = mkg(4, t ? EDGES_CYCLE : EDGES_PATH, 1, 1); Opt o; o.ctx = preset(pr); o.k = 2 + kse_choose("k", 2); o.eps = 0.03; o.threads = 2; o.mt = PRE; o.ctx.coarsening.contraction_limit = 1; run(s, o, false, false, true);
}
