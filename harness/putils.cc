// Recursive bipartitioning tree arithmetic (partition_utils.cc) and math.h.
#include "kaminpar-shm/partitioning/partition_utils.h"
#include "kaminpar-shm/kaminpar.h"
#include "kaminpar-common/math.h"
#include "kse.h"
using namespace kaminpar; using namespace kaminpar::shm; using namespace kaminpar::shm::partitioning;
#ifndef RSIZE
#define RSIZE 5
#define RMAX 65535
#endif
#ifndef MAXK
#define MAXK 64
#endif
// parent/child arithmetic: complete over all block counts and blocks of a level
extern "C" void tree() {
  unsigned L = kse_choose("level", 31); BlockID ck = BlockID(1) << L;
  BlockID k = kse_in<BlockID>("k", ck, 0x7fffffff), b = kse_in<BlockID>("b", 0, ck - 1);
  BlockID f = compute_final_k(b, ck, k);
  kse_assert(f >= 1, "every block of an intermediate partition stands for at least one final block");
  kse_assert(f == k / ck || (f == k / ck + 1 && k % ck != 0), "the blocks of one level stand for equally many final blocks, up to one");
  if (ck == k) { kse_assert(f == 1, "a final block is not subdivided"); }
  else {
    if (ck == 1) kse_assert(f == k, "the root stands for all k blocks");
    if (L < 30 && k >= 2 * ck) {
      BlockID l = compute_final_k(2 * b, 2 * ck, k), r = compute_final_k(2 * b + 1, 2 * ck, k);
      kse_assert(l + r == f, "the two halves of a block stand for as many final blocks as the block itself");
      kse_assert(l == (f + 1) / 2 && r == f / 2, "halves are the ceiling and the floor");
    } else if (k < 2ull * ck) kse_assert(f == 1 || f == 2, "on the last level a block splits into one or two");
  }
  kse_assert(compute_final_k(b, k, k) == 1, "final partition: one block each");
  kse_reach("done");
}
// the k final blocks are handed out contiguously and without gaps
extern "C" void ranges() {
  unsigned L = kse_choose("level", 6); BlockID ck = BlockID(1) << L;
  BlockID k = kse_in<BlockID>("k", ck + 1 > 2 ? ck + 1 : 2, MAXK); BlockID b = kse_choose("b", ck);
  BlockID f = compute_first_sub_block(b, ck, k), e = compute_first_invalid_sub_block(b, ck, k), w = compute_final_k(b, ck, k);
  kse_assert(e == f + w, "the range of final blocks has as many blocks as announced");
  if (b == 0) kse_assert(f == 0, "ranges start at 0");
  if (b + 1 < ck) kse_assert(compute_first_sub_block(b + 1, ck, k) == e, "consecutive blocks own consecutive ranges");
  else kse_assert(e == k, "ranges end at k");
  kse_reach("done");
}
extern "C" void sum() {
  unsigned L = kse_choose("level", 4); BlockID ck = BlockID(1) << L;
  BlockID k = kse_in<BlockID>("k", ck, 0x7fffffff); uint64_t s = 0;
  for (BlockID b = 0; b < ck; ++b) s += compute_final_k(b, ck, k);
  kse_assert(s == k, "the blocks of an intermediate partition together stand for exactly k blocks");
  kse_reach("done");
}
extern "C" void levels() {
  Context ctx; static const NodeID Cs[] = {2, 3, 20, 2000, 1u << 20}; NodeID C = Cs[kse_choose("C", 5)], n = kse_any<NodeID>("n"); BlockID k = kse_in<BlockID>("k", 2, 0x7fffffff);
  ctx.coarsening.contraction_limit = C; ctx.partition.k = k;
  BlockID r = compute_k_for_n(n, ctx);
  kse_assert(r >= 2 && r <= k, "intermediate block count in [2, k]");
  kse_assert(r == k || (r & (r - 1)) == 0, "intermediate block count is a power of two unless it is k");
  if (n >= 2ull * C) { if (r != k) kse_assert(uint64_t(r) * C + C > n - uint64_t(0) || uint64_t(r) >= n / C, "enough blocks for the graph size"); if (r > 2) kse_assert(uint64_t(r) / 2 < n / C, "no more blocks than the graph size calls for"); }
  NodeID n2 = kse_any<NodeID>("n2"); kse_assume(n2 >= n); kse_assert(compute_k_for_n(n2, ctx) >= r, "larger graphs are split into at least as many blocks");
  BlockID ck = kse_in<BlockID>("ck", 1, 0x3fffffff); kse_assume(ck <= k); BlockID nk = compute_next_k(ck, ctx);
  kse_assert(nk <= k && (nk == k || nk == 2 * ck), "the next block count doubles until it reaches k");
  kse_reach("done");
}
extern "C" void copies() {
  Context ctx; NodeID C = kse_in<NodeID>("C", 1, 8), n = kse_in<NodeID>("n", 1, 200); int t = kse_in<int>("t", 1, 9);
  ctx.coarsening.contraction_limit = C;
  bool conv = kse_choose("converged", 2);
  std::size_t r = compute_num_copies(ctx, n, conv, t);
  kse_assert(r >= 1 && r <= std::size_t(t), "number of copies between 1 and the number of threads");
  kse_reach("done");
}
extern "C" void ipthreads() {
  Context ctx; ctx.parallel.num_threads = kse_in<int>("t", 1, 512); static const double LOADS[] = {1.0, 0.5, 0.25, 0.01}; unsigned l = kse_choose("load", 4); ctx.partitioning.deep_initial_partitioning_load = LOADS[l];
  int p = compute_num_threads_for_parallel_ip(ctx);
  kse_assert(p >= 1 && p <= (int)ctx.parallel.num_threads && (p & (p - 1)) == 0, "a power of two between 1 and the number of threads"); if (l == 0) kse_assert(2 * p > (int)ctx.parallel.num_threads, "largest power of two not above the number of threads");
  kse_reach("done");
}
// ---------------------------------------------------------------- math.h
template <class T> static void range_t(uint64_t maxsize, uint64_t maxn) {
  T size = kse_choose("size", maxsize) + 1; T n = kse_in<T>("n", 0, maxn), rank = kse_choose("rank", size);
  auto [f, t] = math::compute_local_range<T>(n, size, rank);
  kse_assert(f <= t && t <= n, "local range inside [0, n)");
  if (rank == 0) kse_assert(f == 0, "first range starts at 0");
  if (rank + 1 == size) kse_assert(t == n, "last range ends at n");
  else { auto [f2, t2] = math::compute_local_range<T>(n, size, rank + 1); kse_assert(f2 == t, "ranges are contiguous"); }
  kse_assert(t - f == n / size || t - f == n / size + 1, "ranges are balanced");
  T e = kse_in<T>("e", 0, maxn); kse_assume(e < n);
  T owner = math::compute_local_range_rank<T>(n, size, e);
  kse_assert((owner == rank) == (f <= e && e < t), "the owner of an element is the rank whose range contains it");
  kse_reach("done");
}
extern "C" void lrange32() { range_t<uint32_t>(RSIZE, RMAX); }
extern "C" void lrange64() { range_t<uint64_t>(RSIZE, RMAX / 64); }
template <class T> static void bits_t() {
  constexpr int W = sizeof(T) * 8; T x = kse_any<T>("x"), y = kse_any<T>("y"); kse_assume(y != 0);
  __extension__ typedef unsigned __int128 W128;
  kse_assert(W128(math::div_ceil<T, T>(x, y)) * y >= x && (x == 0 || W128(math::div_ceil<T, T>(x, y) - 1) * y < x), "div_ceil");
  kse_reach("div");
}
template <class T> static void log_t() {
  constexpr int W = sizeof(T) * 8; T x = kse_any<T>("x"); kse_assume(x != 0);
  T l = math::floor_log2<T>(x); kse_assert(l < W && (x >> l) == 1, "floor_log2 is the index of the highest bit");
  T c = math::ceil_log2<T>(x); kse_assert(c == l + ((x & (x - 1)) != 0), "ceil_log2");
  kse_assert(math::is_power_of_2<T>(x) == ((x & (x - 1)) == 0), "is_power_of_2");
  T bw = math::byte_width<T>(x); kse_assert(bw >= 1 && bw <= W / 8 && (bw == W / 8 || (x >> (8 * (bw % (W / 8)))) == 0) && (bw == 1 || (x >> (8 * (bw - 1))) != 0), "byte_width is the smallest number of bytes that holds the value");
  kse_assert(math::is_msb_set<T>(x) == (l == W - 1), "is_msb_set");
  kse_reach("done");
}
extern "C" void log32() { log_t<uint32_t>(); }
extern "C" void log64() { log_t<uint64_t>(); }
template <class T> static void pow2_t(int maxbit) {
  T x = kse_in<T>("x", 1, (uint64_t(1) << maxbit));
  T f = math::floor2<T>(x), c = math::ceil2<T>(x);
  kse_assert(f <= x && x - f < f && (f & (f - 1)) == 0, "floor2 is the largest power of two not above");
  kse_assert(c >= x && (c == 1 || c / 2 < x) && (c & (c - 1)) == 0, "ceil2 is the smallest power of two not below");
  kse_reach("done");
}
extern "C" void pow2_32() { pow2_t<uint32_t>(31); }
extern "C" void divceil() { uint32_t x = kse_any<uint32_t>("x"), y = kse_choose("y", 40) + 1; uint32_t q = math::div_ceil<uint32_t, uint32_t>(x, y); kse_assert(uint64_t(q) * y >= x && (q == 0 || uint64_t(q - 1) * y < x), "div_ceil rounds up"); if (x == 0) kse_assert(q == 0, "div_ceil of 0"); uint32_t m = math::mod_ceil<uint32_t, uint32_t>(x, y); kse_assert(m == (x % y == 0 ? y : x % y), "mod_ceil"); kse_reach("done"); }
extern "C" void split() { uint32_t v = kse_in<uint32_t>("v", 0, 300); auto [a, b] = math::split_integral<uint32_t>(v); kse_assert(a + b == v && (a == b || a == b + 1), "halves add up, the first one is the larger"); kse_reach("done"); }
extern "C" void finddist() {
  unsigned n = kse_choose("n", 4) + 1; std::vector<uint64_t> d(n + 1); for (unsigned i = 0; i <= n; ++i) { d[i] = i == 0 ? 0 : kse_in<uint64_t>("d", 0, 1ull << 40); if (i) kse_assume(d[i] >= d[i - 1]); }
  uint64_t v = kse_in<uint64_t>("v", 0, 1ull << 40); kse_assume(v < d[n]);
  std::size_t r = math::find_in_distribution<uint64_t>(v, d); kse_assert(r < n && d[r] <= v && v < d[r + 1], "the owner's range contains the value"); kse_reach("done");
}
