// PartitionedGraph / DeltaPartitionedGraph: block weights follow the partition under arbitrary operation sequences; metrics agree with their definitions.
#include "gk.h"
#include "kaminpar-shm/datastructures/delta_partitioned_graph.h"
#include "kaminpar-shm/metrics.h"
using namespace gk;
static constexpr unsigned N = TIER ? 4 : 3, K = TIER ? 3 : 2, OPS = TIER ? 5 : 3;
extern "C" void ctor_metrics() {
  SG g = mkg(TIER ? 4 : 3, EDGES_ANY, 1000000, 1000000); const unsigned k = 1 + kse_choose("k", 3);
  kse_chunks = 2;
  Graph gr = make(g); 
  auto part = partition(g.n, k, false); std::vector<BlockID> copy(part.begin(), part.end());
  const bool seq = kse_choose("seq", 2);
  PartitionedGraph pg = seq ? PartitionedGraph(PartitionedGraph::seq{}, gr, k, std::move(part)) : PartitionedGraph(gr, k, std::move(part));
  check_pgraph(g, pg, k);
  for (unsigned u = 0; u < g.n; ++u) kse_assert(pg.block(u) == copy[u], "partition kept");
  const EdgeWeight c = cut(g, [&](unsigned u) { return copy[u]; });
  kse_assert(metrics::edge_cut(pg) == c, "edge_cut equals the sum of the cut edges");
  kse_assert(metrics::edge_cut_seq(pg) == c, "edge_cut_seq equals the sum of the cut edges");
  PartitionContext ctx; std::vector<BlockWeight> mbw; for (unsigned b = 0; b < k; ++b) mbw.push_back(kse_sin<BlockWeight>("maxbw", 0, 4000000));
  ctx.setup(gr, mbw);
  NodeWeight over = 0; bool bal = true;
  for (unsigned b = 0; b < k; ++b) { BlockWeight d = pg.block_weight(b) - mbw[b]; bool o = d > 0; over += kse_ite64(o, d, 0); bal = bal & !o; }
  kse_assert(metrics::total_overload(pg, ctx) == over, "total_overload");
  kse_assert(metrics::is_balanced(pg, ctx) == bal, "is_balanced");
  kse_reach("done");
}
extern "C" void pg_moves() {
  SG g = mkg(N, EDGES_PATH, 1000000, 1); const unsigned k = K;
  Graph gr = make(g);
  auto part = partition(g.n, k); PartitionedGraph pg(gr, k, std::move(part));
  for (unsigned i = 0; i < OPS; ++i) {
    const unsigned u = kse_choose("u", g.n), b = kse_choose("to", k), op = kse_choose("op", 2);
    const BlockID from = pg.block(u);
    if (op == 0) pg.set_block(u, b);
    else if (b != from) {
      const BlockWeight mx = kse_sin<BlockWeight>("max", -5, 4000000), before = pg.block_weight(b), fb = pg.block_weight(from);
      const bool ok = pg.move(u, from, b, mx);
      kse_assert(ok == (before + g.vw[u] <= mx), "move succeeds exactly if the target stays within the limit");
      if (ok) { kse_assert(pg.block(u) == b && pg.block_weight(b) == before + g.vw[u], "moved"); }
      else kse_assert(pg.block(u) == from && pg.block_weight(b) == before && pg.block_weight(from) == fb, "failed move changes nothing");
    }
    check_pgraph(g, pg, k);
  }
  kse_reach("done");
}
extern "C" void delta_moves() {
  SG g = mkg(N, EDGES_PATH, 1000000, 1); const unsigned k = K;
  Graph gr = make(g);
  auto part = partition(g.n, k); std::vector<BlockID> cur(part.begin(), part.end()), base = cur;
  PartitionedGraph pg(gr, k, std::move(part)); DeltaPartitionedGraph d(&pg);
  for (unsigned i = 0; i < OPS; ++i) {
    const unsigned op = kse_choose("op", 2);
    if (op == 0) { const unsigned u = kse_choose("u", g.n), b = kse_choose("to", k); d.set_block(u, b); cur[u] = b; }
    else { d.clear(); cur = base; kse_assert(d.size() == 0, "clear empties the delta"); }
    check_pgraph(g, d, k);
    for (unsigned u = 0; u < g.n; ++u) { kse_assert(d.block(u) == cur[u], "delta partition shows the latest block"); kse_assert(pg.block(u) == base[u], "base partition untouched"); }
    unsigned cnt = 0; d.for_each([&](NodeID u, BlockID b) { kse_assert(u < g.n && b == cur[u], "for_each yields the moved nodes with their blocks"); ++cnt; });
    for (unsigned u = 0; u < g.n; ++u) if (cur[u] != base[u]) { kse_assert(cnt > 0, "moved node reported"); }
    kse_assert(cnt == d.size(), "size matches for_each");
  }
  kse_reach("done");
}
#ifndef PRE
#define PRE 2
#endif
struct Mover { PartitionedGraph &pg; NodeID u[2]; BlockID to[2]; BlockWeight max; bool ok[2]; static void run(void *p) { auto *m = static_cast<Mover *>(p); for (int i = 0; i < 2; ++i) { const BlockID from = m->pg.block(m->u[i]); m->ok[i] = from != m->to[i] && m->pg.move(m->u[i], from, m->to[i], m->max); } } };
extern "C" void mt_moves() { // two threads that move different nodes, with a limit
  SG g = mkg(4, EDGES_PATH, 100, 1); const unsigned k = 2 + kse_choose("k", 2); Graph gr = make(g); StaticArray<BlockID> part(4); for (unsigned u = 0; u < 4; ++u) part[u] = TIER || u % 2 ? kse_choose("block", 2) : u / 2; std::vector<BlockID> p0(part.begin(), part.end()); PartitionedGraph pg(gr, k, std::move(part));
  const BlockWeight mx = kse_sin<BlockWeight>("max", 0, 500); std::vector<BlockWeight> w0; for (unsigned b = 0; b < k; ++b) w0.push_back(pg.block_weight(b));
  Mover a{pg, {0, 1}, {0, 0}, mx, {}}, b{pg, {2, 3}, {0, 0}, mx, {}}; const unsigned t = kse_choose("to", k); for (auto *m : {&a, &b}) { m->to[0] = (p0[m->u[0]] + 1) % k; m->to[1] = m == &a ? t : (t + 1) % k; }
  kse_mt(PRE); int id = kse_spawn(&Mover::run, &b); Mover::run(&a); kse_join(id); kse_mt(-1);
  check_pgraph(g, pg, k); for (auto *m : {&a, &b}) for (int i = 0; i < 2; ++i) kse_assert(pg.block(m->u[i]) == (m->ok[i] ? m->to[i] : p0[m->u[i]]), "a node is where the last successful move put it");
  for (unsigned x = 0; x < k; ++x) kse_assert((pg.block_weight(x) <= mx) | (pg.block_weight(x) <= w0[x]), "limited moves of several threads do not overload a block");
  kse_reach("done");
}
