// Block weight limits: PartitionContext and the contexts derived from it for intermediate partitions.
#include "gk.h"
#include "kaminpar-shm/kaminpar.h"
#include "kaminpar-shm/presets.h"
#include "kaminpar-shm/partitioning/helper.h"
#include "kaminpar-shm/partitioning/partition_utils.h"
using namespace gk;
#ifndef MAXW
#define MAXW 24
#define KWK 2
#endif
static const struct { double v; long num, den; } EPS[] = {{0.0, 0, 100}, {0.03, 3, 100}, {0.1, 10, 100}, {0.5, 50, 100}, {1.0, 100, 100}};
extern "C" void uniform() {
  SG s = mkg(2, EDGES_PATH, MAXW, 1); Graph g = make(s); BlockID k = kse_choose("k", 5) + 1; auto eps = EPS[kse_choose("eps", 5)]; bool relax = kse_choose("relax", 2);
  PartitionContext p; p.setup(g, k, eps.v, relax); NodeWeight W = s.total(); NodeWeight perf = (W + (long)k - 1) / (long)k; NodeWeight mx = std::max(s.vw[0], s.vw[1]);
  kse_assert(p.k == k && p.n == 2 && p.m == s.adj.size() && p.total_node_weight == W && p.original_total_node_weight == W && p.max_node_weight == mx, "context describes the graph");
  BlockWeight sum = 0;
  for (BlockID b = 0; b < k; ++b) {
    BlockWeight x = p.max_block_weight(b); sum += x;
    kse_assert(x >= perf, "limit admits perfectly balanced blocks");
    if (!relax) kse_assert(x * eps.den <= (eps.den + eps.num) * perf && (x + 1) * eps.den >= (eps.den + eps.num) * perf, "limit is (1 + eps) times the average block weight, rounded");
    else kse_assert(x >= perf + mx || x * eps.den >= (eps.den + eps.num) * perf - eps.den, "relaxed limit leaves room for the heaviest node");
    if (relax) kse_assert(x * eps.den <= (eps.den + eps.num) * perf || x <= perf + mx + 1, "relaxed limit is not larger than needed");
  }
  kse_assert(sum >= W, "limits admit a feasible partition");
  kse_assert(p.total_max_block_weights(0, k) == sum, "total of the limits"); if (k > 1) kse_assert(p.total_max_block_weights(1, k) == sum - p.max_block_weight(0), "partial total of the limits");
  kse_assert(p.total_unrelaxed_max_block_weights(0, k) + 1 >= W, "unrelaxed total admits all nodes");
  kse_reach("done");
}
extern "C" void explicit_weights() {
  SG s = mkg(2, EDGES_PATH, 6, 1); Graph g = make(s); BlockID k = kse_choose("k", 2) + 2; bool relax = kse_choose("relax", 2); NodeWeight W = s.total(), mx = std::max(s.vw[0], s.vw[1]);
  std::vector<BlockWeight> w(k); BlockWeight sum = 0; for (auto &x : w) { x = kse_sin<BlockWeight>("limit", 1, 9); sum += x; } kse_assume(sum >= W);
  PartitionContext p; p.setup(g, w, relax);
  kse_assert(p.k == k && p.total_node_weight == W && p.max_node_weight == mx, "context describes the graph");
  for (BlockID b = 0; b < k; ++b) {
    if (!relax) kse_assert(p.max_block_weight(b) == w[b], "limits are the requested ones");
    else kse_assert(p.max_block_weight(b) >= w[b] && p.max_block_weight(b) <= w[b] + mx, "relaxed limit exceeds the requested one by at most the heaviest node");
  }
  BlockID a = kse_choose("a", k), e = a + kse_choose("e", k - a) + 1; BlockWeight t = 0, u = 0; for (BlockID b = a; b < e; ++b) { t += p.max_block_weight(b); u += w[b]; }
  kse_assert(p.total_max_block_weights(a, e) == t, "total of the limits of a range"); kse_assert(p.total_unrelaxed_max_block_weights(a, e) == u, "total of the requested limits of a range");
  kse_reach("done");
}
// contexts for intermediate block counts: sums of the limits of the final blocks that a block stands for
extern "C" void kway() {
  SG s = mkg(2, EDGES_PATH, 4, 1); Graph g = make(s); Context ctx; BlockID k = kse_choose("k", KWK) + 3; std::vector<BlockWeight> w(k); BlockWeight sum = 0; for (auto &x : w) { x = kse_sin<BlockWeight>("limit", 1, 6); sum += x; } kse_assume(sum >= s.total());
  ctx.partition.setup(g, w); bool top = kse_choose("toplevel", 2); if (!top) ctx.partition.n = 3;
  unsigned L = kse_choose("level", 2); BlockID ck = kse_choose("final", 2) ? k : 1u << L; if (ck > k) ck = k;
  PartitionedGraph pg(g, ck, partition(2, ck, false)); PartitionContext c = partitioning::create_kway_context(ctx, pg);
  kse_assert(c.k == ck, "one limit per block"); BlockID pos = 0;
  for (BlockID b = 0; b < ck; ++b) { BlockWeight t = 0; BlockID num = partitioning::compute_final_k(b, ck, k); for (BlockID i = 0; i < num; ++i) t += w[pos++]; if (top) kse_assert(c.max_block_weight(b) == t, "limit of an intermediate block is the sum over its final blocks"); else kse_assert(c.max_block_weight(b) >= t && c.max_block_weight(b) <= t + c.max_node_weight, "relaxed limit on coarse levels"); }
  kse_assert(pos == k, "every final block is accounted for once");
  kse_reach("done");
}
extern "C" void twoway() {
  SG s = mkg(2, EDGES_PATH, 4, 1); Graph g = make(s); Context ctx; BlockID k = kse_choose("k", 4) + 2; std::vector<BlockWeight> w(k); for (auto &x : w) x = kse_sin<BlockWeight>("limit", 1, 20);
  BlockWeight sum = 0; for (auto x : w) sum += x; kse_assume(sum >= s.total());
  ctx.partition.setup(g, w); ctx.initial_partitioning.use_adaptive_epsilon = kse_choose("adaptive", 2);
  unsigned L = kse_choose("level", 3); BlockID ck = 1u << L; kse_assume(ck < k); BlockID b = kse_choose("block", ck); BlockID f = partitioning::compute_first_sub_block(b, ck, k), num = partitioning::compute_final_k(b, ck, k); kse_assume(num >= 2);
  PartitionContext c = partitioning::create_twoway_context(ctx, b, ck, g); BlockWeight l = 0, r = 0; for (BlockID i = 0; i < num; ++i) (i < (num + 1) / 2 ? l : r) += w[f + i];
  kse_assume(l + r >= s.total()); kse_assert(c.k == 2, "two blocks"); NodeWeight mx = std::max(s.vw[0], s.vw[1]);
  kse_assert(c.max_block_weight(0) >= l && c.max_block_weight(1) >= r, "the halves may become as heavy as the final blocks they stand for");
  kse_assert(c.max_block_weight(0) <= l + mx && c.max_block_weight(1) <= r + mx, "the halves are relaxed by at most the heaviest node");
  kse_reach("done");
}
extern "C" void twoway_uniform() {
  SG s = mkg(2, EDGES_PATH, 3, 1); Graph g = make(s); Context ctx; BlockID k = kse_choose("k", 4) + 2; auto eps = EPS[kse_choose("eps", 4)];
  ctx.partition.setup(g, k, eps.v); ctx.initial_partitioning.use_adaptive_epsilon = kse_choose("adaptive", 2);
  NodeWeight W = s.total(), mx = std::max(s.vw[0], s.vw[1]); 
  PartitionContext c = partitioning::create_twoway_context(ctx, 0, 1, g);
  BlockWeight l = c.max_block_weight(0), r = c.max_block_weight(1);
  kse_assert(c.k == 2 && c.total_node_weight == W && c.max_node_weight == mx, "context of the bipartition describes the graph");
  kse_assert(l >= 0 && r >= 0 && l + r >= W, "the limits of a bipartition admit a feasible partition");
  BlockWeight one = ctx.partition.max_block_weight(0); BlockID kl = (k + 1) / 2, kr = k / 2;
  kse_assert(l <= kl * one + mx + 1 && r <= kr * one + mx + 1, "the limits do not exceed those of the final blocks by more than the heaviest node");
  kse_reach("done");
}
