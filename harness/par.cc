// Parallel primitives against their sequential definitions.
#include <array>
#include <vector>
#include "kaminpar-common/datastructures/static_array.h"
#include "kaminpar-common/degree_buckets.h"
#include "kaminpar-common/assert.h"
#include "kaminpar-common/parallel/algorithm.h"
#include "kaminpar-common/parallel/aligned_prefix_sum.h"
#include "kaminpar-common/parallel/atomic.h"
#include "kaminpar-common/parallel/loops.h"
#include "kaminpar-common/parallel/vector_ets.h"
#include "kaminpar-common/ranges.h"
#include "kse.h"
using namespace kaminpar;
using I = std::int64_t; using UN = std::uint32_t;
#ifndef N
#define N 4
#endif
static void pieces() { kse_chunks = kse_choose("pieces", 3) + 1; }
extern "C" void reduce() {
  pieces(); unsigned n = kse_choose("n", N + 1); StaticArray<I> a(n); std::vector<I> v; for (unsigned i = 0; i < n; ++i) { a[i] = kse_any<I>("a"); v.push_back(a[i]); }
  I init = kse_any<I>("init"), s = init, s2 = init; auto add = [](I x, I y) { return I(std::uint64_t(x) + std::uint64_t(y)); };
  for (I x : v) { s = add(s, x); s2 = add(s2, x ^ 5); }
  kse_assert(parallel::accumulate(a, init) == s, "accumulate over a container");
  kse_assert(parallel::accumulate(v.begin(), v.end(), init) == s, "accumulate over a range");
  kse_assert(parallel::accumulate(v.begin(), v.end(), init, [](I x) { return x ^ 5; }) == s2, "accumulate over a transformed range");
  StaticArray<I> o(n); parallel::prefix_sum(a.begin(), a.end(), o.begin()); I p = 0; for (unsigned i = 0; i < n; ++i) { p = add(p, v[i]); kse_assert(o[i] == p, "prefix sum"); }
  parallel::prefix_sum(a.begin(), a.end(), a.begin()); p = 0; for (unsigned i = 0; i < n; ++i) { p = add(p, v[i]); kse_assert(a[i] == p, "prefix sum in place"); }
  kse_reach("done");
}
extern "C" void extrema() {
  pieces(); unsigned n = kse_choose("n", N + 1); StaticArray<I> a(n); StaticArray<UN> u(n); std::vector<UN> w(n); bool sorted = true;
  for (unsigned i = 0; i < n; ++i) { a[i] = kse_any<I>("a"); u[i] = w[i] = kse_any<UN>("u"); }
  I mx = std::numeric_limits<I>::min(); UN um = 0, df = 0;
  for (unsigned i = 0; i < n; ++i) { mx = kse_ite64(a[i] > mx, a[i], mx); um = kse_ite64(u[i] > um, u[i], um); if (i + 1 < n) { sorted = sorted & (u[i] <= u[i + 1]); UN d = u[i + 1] - u[i]; df = kse_ite64(d > df, d, df); } }
  kse_assert(parallel::max_element(a) == mx && parallel::max_element(u) == um && parallel::max_element(w) == um, "maximum of a container"); kse_assert(parallel::max_element(w.begin(), w.end()) == um && parallel::max_element(a.begin(), a.end()) == mx, "maximum of a range");
  if (kse_choose("sorted", 2)) { kse_assume(sorted); kse_assert(parallel::max_difference(w.begin(), w.end()) == df && parallel::max_difference(w) == df, "maximum difference of consecutive values"); }
  kse_reach("done");
}
extern "C" void chunked() {
  pieces(); unsigned nb = kse_choose("buffers", N); std::vector<std::vector<I>> b(nb), c; for (unsigned i = 0; i < nb; ++i) { unsigned s = kse_choose("size", 3); for (unsigned j = 0; j < s; ++j) b[i].push_back(I(i * 10 + j)); } c = b;
  std::vector<std::vector<unsigned>> seen(nb); for (unsigned i = 0; i < nb; ++i) seen[i].resize(b[i].size());
  parallel::chunked_for(b, [&](I &x, const int id) { kse_assert(id >= 0 && unsigned(id) < nb && unsigned(x / 10) == unsigned(id), "the buffer number fits the element"); ++seen[id][x % 10]; });
  for (unsigned i = 0; i < nb; ++i) for (unsigned s : seen[i]) kse_assert(s == 1, "every element is visited once");
  parallel::chunked_for(b, [&](I &x) { x += 1000; }); for (unsigned i = 0; i < nb; ++i) for (unsigned j = 0; j < b[i].size(); ++j) kse_assert(b[i][j] == c[i][j] + 1000, "every element is visited once by reference");
  kse_reach("done");
}
extern "C" void det() {
  kse_threads = kse_choose("threads", 4) + 1; pieces(); unsigned n = kse_choose("n", 7), from = kse_choose("from", 2) * 5; std::vector<unsigned> seen(n); std::vector<unsigned> id(8); unsigned calls = 0; std::vector<unsigned> end(8, 0), begin(8, 0);
  int p = parallel::deterministic_for<UN>(from, from + n, [&](UN a, UN b, int cpu) { kse_assert(cpu >= 0 && cpu < 8, "cpu number"); ++id[cpu]; begin[cpu] = a; end[cpu] = b; kse_assert(from <= a && a <= b && b <= from + n, "range"); for (UN i = a; i < b; ++i) ++seen[i - from]; ++calls; });
  for (unsigned s : seen) kse_assert(s == 1, "every index is visited once");
  kse_assert(p >= 0 && unsigned(p) == calls && p <= int(kse_threads) && (n == 0 || p > 0), "returns the number of ranges"); for (int i = 0; i < p; ++i) { kse_assert(id[i] == 1, "every cpu number is used once"); kse_assert(begin[i] == (i ? end[i - 1] : from), "ranges are consecutive in the order of the cpu numbers"); }
  kse_reach("done");
}
extern "C" void aligned() {
  kse_threads = kse_choose("threads", 3) + 1; unsigned n = kse_choose("n", N + 2); std::vector<unsigned> al(n); std::vector<I> val(n); static const unsigned A[] = {0, 1, 2, 4, 8};
  for (unsigned i = 0; i < n; ++i) { al[i] = A[kse_choose("alignment", TIER ? 5 : 3) + (TIER ? 0 : 2 * (i & 1))]; val[i] = kse_in<unsigned>("value", 0, 100); }
  auto check = [&](auto &o, std::size_t r) {
    if (n == 0) { kse_assert(r == 0, "empty"); return; } kse_assert(o[0] == 0, "the first offset is 0");
    for (unsigned i = 0; i < n; ++i) { if (al[i] > 0) kse_assert(o[i] % al[i] == 0, "offsets are aligned"); if (i + 1 < n) kse_assert(o[i + 1] >= o[i] + val[i], "ranges do not overlap"); if (i + 1 < n) kse_assert(o[i + 1] <= o[i] + val[i] + 24, "no more space than alignment needs"); }
    if (n > 1) kse_assert(r == o[n - 1] + val[n - 1], "returns the total size");
  };
  StaticArray<std::uint64_t> o(n); auto r = parallel::aligned_prefix_sum(o.begin(), o.end(), [&](std::size_t i) { return std::make_pair(std::size_t(al[i]), std::size_t(val[i])); }); check(o, r);
  kse_reach("done");
}
extern "C" void ets() {
  kse_threads = 3; pieces(); parallel::vector_ets<I> e(3); I s[3] = {0, 0, 0}; I x[6]; for (int i = 0; i < 6; ++i) { x[i] = kse_sin<int>("x", -1000, 1000); s[i % 3] += x[i]; }
  tbb::parallel_for<int>(0, 6, [&](int i) { e.local()[i % 3] += x[i]; }); auto r = e.combine(std::plus{}); for (int i = 0; i < 3; ++i) kse_assert(r[i] == s[i], "combines the values of all threads"); kse_reach("done");
}
extern "C" void atomic() {
  I a = kse_sin<I>("a", -1000, 1000), b = kse_sin<I>("b", -1000, 1000), e = kse_sin<I>("e", -1000, 1000); parallel::Atomic<I> x = a; I r = 0, w = a, res = 0;
  switch (kse_choose("op", 18)) {
  case 0: res = ++x; w = a + 1; r = a + 1; break; case 1: res = x++; w = a + 1; r = a; break; case 2: res = --x; w = a - 1; r = a - 1; break; case 3: res = x--; w = a - 1; r = a; break;
  case 4: res = (x += b); r = w = a + b; break; case 5: res = (x -= b); r = w = a - b; break; case 6: res = (x &= b); r = w = a & b; break; case 7: res = (x |= b); r = w = a | b; break; case 8: res = (x ^= b); r = w = a ^ b; break;
  case 9: res = x.fetch_add(b); r = a; w = a + b; break; case 10: res = x.fetch_sub(b); r = a; w = a - b; break; case 11: res = x.fetch_and(b); r = a; w = a & b; break; case 12: res = x.fetch_or(b); r = a; w = a | b; break; case 13: res = x.fetch_xor(b); r = a; w = a ^ b; break;
  case 14: res = x.exchange(b); r = a; w = b; break; case 15: { I t = e; bool ok = x.compare_exchange_strong(t, b); kse_assert(ok == (a == e), "compare exchange succeeds iff the value is the expected one"); if (ok) w = b; else kse_assert(t == a, "compare exchange reports the current value"); break; }
  case 16: x = b; w = b; break; case 17: { parallel::Atomic<I> y(x), z; z = y; kse_assert(I(y) == a && z.load() == a, "copies"); z.store(b); kse_assert(I(z) == b, "store"); break; }
  }
  kse_assert(res == r, "atomic operations return what the operations on plain integers return"); kse_assert(I(x) == w, "atomic operations change the value like the operations on plain integers"); kse_reach("done");
}
extern "C" void buckets() {
  UN d = kse_any<UN>("degree"); int b = degree_bucket<UN>(d); kse_assert(0 <= b && b < kNumberOfDegreeBuckets<UN>, "bucket in range"); kse_assert((b == 0) == (d == 0), "only isolated nodes are in bucket 0");
  if (b < 32) { kse_assert(lowest_degree_in_bucket<UN>(b) <= d, "lowest degree"); if (b < 31) kse_assert(d < lowest_degree_in_bucket<UN>(b + 1), "degrees below those of the next bucket"); }
  std::uint64_t e = kse_any<std::uint64_t>("degree64"); int c = degree_bucket<std::uint64_t>(e); kse_assert(0 <= c && c < kNumberOfDegreeBuckets<std::uint64_t>, "bucket in range"); if (e > 0) { kse_assert(((std::uint64_t(1) << (c - 1)) <= e) && (c == 64 || e < (std::uint64_t(1) << c)), "bucket is the position of the highest bit"); }
  kse_reach("done");
}
extern "C" void ranges() {
  UN a = kse_choose("a", 3), b = a + kse_choose("len", 4); std::vector<UN> x; for (UN i : IotaRange<UN>(a, b)) x.push_back(i); kse_assert(x.size() == b - a, "length"); for (UN i = 0; i < x.size(); ++i) kse_assert(x[i] == a + i, "values");
  auto f = [](UN i) { return i * 3 + 1; }; TransformedIotaRange t(a, b, f); kse_assert(t.size() == b - a, "size"); UN i = a; for (UN y : t) kse_assert(y == f(i++), "transformed values"); kse_assert(i == b, "length");
  std::vector<UN> s; for (UN k = 0; k < b - a; ++k) s.push_back(kse_any<UN>("s")); TransformedRange r(s.begin(), s.end(), f); i = 0; for (UN y : r) { kse_assert(y == f(s[i]), "transformed values"); ++i; } kse_assert(i == s.size(), "length"); kse_reach("done");
}
