// Maps, sets and arrays against plain references.
#include <vector>
#include "kaminpar-common/datastructures/bitvector_rank.h"
#include "kaminpar-common/datastructures/compact_hash_map.h"
#include "kaminpar-common/datastructures/compact_static_array.h"
#include "kaminpar-common/datastructures/concurrent_fast_reset_array.h"
#include "kaminpar-common/datastructures/dynamic_map.h"
#include "kaminpar-common/datastructures/fast_reset_array.h"
#include "kaminpar-common/datastructures/fixed_size_sparse_map.h"
#include "kaminpar-common/datastructures/marker.h"
#include "kaminpar-common/datastructures/maxsize_vector.h"
#include "kaminpar-common/datastructures/queue.h"
#include "kaminpar-common/datastructures/rating_map.h"
#include "kaminpar-common/datastructures/scalable_vector.h"
#include "kaminpar-common/datastructures/sparse_map.h"
#include "kaminpar-common/datastructures/static_array.h"
#include "kaminpar-common/datastructures/ts_navigable_linked_list.h"
#include "kse.h"
using namespace kaminpar;
#ifndef NOPS
#define NOPS 3
#endif
static std::size_t murmur(std::size_t key) { key ^= key >> 33; key *= 0xff51afd7ed558ccdL; key ^= key >> 33; key *= 0xc4ceb9fe1a85ec53L; key ^= key >> 33; return key; }
struct Ref { std::vector<unsigned> key; std::vector<int> val; std::vector<bool> in; unsigned cnt() const { unsigned c = 0; for (bool b : in) c += b; return c; } int at(unsigned k) const { for (unsigned i = 0; i < key.size(); ++i) if (key[i] == k) return i; return -1; } void clear() { for (unsigned i = 0; i < in.size(); ++i) in[i] = false; } };
static int sv() { return kse_any<int>("value"); }
// 5 keys that hash to the last two slots of a table of the given size (probe sequences wrap around), one that does not
static Ref keys(unsigned table) { Ref r; unsigned last = 0, prev = 0; for (unsigned k = 0; r.key.size() < 5; ++k) { auto h = murmur(k) & (table - 1); if ((h == table - 1 && last < 3) || (h == table - 2 && prev < 2)) { r.key.push_back(k); ++(h == table - 1 ? last : prev); } } for (unsigned k = 0;; ++k) if ((murmur(k) & (table - 1)) == 2) { r.key.push_back(k); break; } r.val.resize(6); r.in.resize(6); return r; }
template <class E> static void same_entries(const Ref &r, E &&each) { unsigned n = 0; std::vector<bool> seen(r.key.size()); each([&](unsigned k, int v) { int i = r.at(k); kse_assert(i >= 0 && r.in[i] && !seen[i], "iteration visits contained keys, each once"); seen[i] = true; kse_assert(v == r.val[i], "iteration yields the current values"); ++n; }); kse_assert(n == r.cnt(), "iteration visits every contained key"); }
template <class M, class E> static void dynmap(M &m, E &&entries) {
  Ref r = keys(16);
  auto check = [&] { kse_assert(m.size() == r.cnt(), "size"); for (unsigned i = 0; i < r.key.size(); ++i) { kse_assert(m.contains(r.key[i]) == r.in[i], "contains"); const auto *p = m.get_if_contained(r.key[i]); kse_assert((p != nullptr) == r.in[i], "get_if_contained"); if (r.in[i]) { kse_assert(*p == r.val[i] && m.get(r.key[i]) == r.val[i], "every key has the value last set"); } } entries(r); };
  unsigned pre = kse_choose("prefill", 5);
  if (pre == 4) { // beyond 2/5 of the capacity: the table grows
    for (unsigned k = 1000; k < 1005; ++k) { int v = sv(); r.key.push_back(k); r.val.push_back(v); r.in.push_back(true); m[k] = v; } pre = 2;
  }
  for (unsigned i = 0; i < pre; ++i) { int v = sv(); kse_assert(m[r.key[i]] == 0, "a new key has the default value"); m[r.key[i]] = v; r.in[i] = true; r.val[i] = v; }
  check();
  for (unsigned s = 0; s < NOPS; ++s) {
    switch (kse_choose("op", 3)) {
    case 0: { unsigned i = kse_choose("key", 6); int v = sv(); m[r.key[i]] = v; r.in[i] = true; r.val[i] = v; break; }
    case 1: { unsigned i = kse_choose("key", 6); unsigned d = kse_any<unsigned>("add"); auto &x = m[r.key[i]]; if (!r.in[i]) { r.in[i] = true; r.val[i] = 0; } x = int(unsigned(x) + d); r.val[i] = int(unsigned(r.val[i]) + d); break; }
    case 2: m.clear(); r.clear(); break;
    }
    check();
  }
  kse_reach("done");
}
extern "C" void flat() { DynamicFlatMap<unsigned, int> m; dynmap(m, [&](const Ref &r) { same_entries(r, [&](auto &&l) { m.for_each(l); }); }); }
extern "C" void remembering() { DynamicRememberingFlatMap<unsigned, int> m; dynmap(m, [&](const Ref &r) { same_entries(r, [&](auto &&l) { m.for_each(l); }); same_entries(r, [&](auto &&l) { for (auto [k, v] : m.entries()) l(k, v); }); }); }
extern "C" void fixed() {
  FixedSizeSparseMap<unsigned, int, 8> m; Ref r = keys(8);
  auto check = [&] { kse_assert(m.size() == r.cnt(), "size"); for (unsigned i = 0; i < r.key.size(); ++i) { kse_assert(m.contains(r.key[i]) == r.in[i], "contains"); if (r.in[i]) kse_assert(m.get(r.key[i]) == r.val[i], "value"); } same_entries(r, [&](auto &&l) { for (auto &e : m.entries()) l(e.key, e.value); }); };
  unsigned pre = kse_choose("prefill", 5); for (unsigned i = 0; i < pre; ++i) { int v = sv(); kse_assert(m[r.key[i]] == 0, "a new key has the default value"); m[r.key[i]] = v; r.in[i] = true; r.val[i] = v; } check();
  for (unsigned s = 0; s < NOPS; ++s) {
    switch (kse_choose("op", 3)) {
    case 0: { unsigned i = kse_choose("key", 6); int v = sv(); m[r.key[i]] = v; r.in[i] = true; r.val[i] = v; break; }
    case 1: { unsigned i = kse_choose("key", 6); unsigned d = kse_any<unsigned>("add"); auto &x = m[r.key[i]]; if (!r.in[i]) { r.in[i] = true; r.val[i] = 0; } x = int(unsigned(x) + d); r.val[i] = int(unsigned(r.val[i]) + d); break; }
    case 2: if (kse_choose("grow", 2)) m.set_max_size(16); else m.clear(); if (m.size() == 0) r.clear(); break;
    }
    check();
  }
  kse_reach("done");
}
static Ref small_keys(unsigned n) { Ref r; for (unsigned i = 0; i < n; ++i) r.key.push_back(i); r.val.resize(n); r.in.resize(n); return r; }
extern "C" void sparse() {
  unsigned cap = 4; SparseMap<unsigned, int> m0(cap), m1; bool late = kse_choose("late", 2); if (late) m1.resize(cap); auto &m = late ? m1 : m0; Ref r = small_keys(cap);
  auto check = [&] { kse_assert(m.size() == r.cnt() && m.capacity() == cap, "size"); for (unsigned i = 0; i < cap; ++i) { kse_assert(m.contains(i) == r.in[i], "contains"); if (r.in[i]) kse_assert(m.get(i) == r.val[i], "value"); } same_entries(r, [&](auto &&l) { for (auto &e : m.entries()) l(e.key, e.value); }); };
  for (unsigned s = 0; s < NOPS + (TIER ? 1 : 0); ++s) {
    switch (kse_choose("op", 5)) {
    case 0: { unsigned i = kse_choose("key", cap); int v = sv(); m[i] = v; r.in[i] = true; r.val[i] = v; break; }
    case 1: { unsigned i = kse_choose("key", cap); int v = sv(); m.add(i, v); if (!r.in[i]) { r.in[i] = true; r.val[i] = v; } break; }
    case 2: { unsigned i = kse_choose("key", cap); m.remove(i); r.in[i] = false; break; }
    case 3: m.clear(); r.clear(); break;
    case 4: { unsigned i = kse_choose("key", cap); unsigned d = kse_any<unsigned>("add"); auto &x = m[i]; if (!r.in[i]) { r.in[i] = true; r.val[i] = 0; } x = int(unsigned(x) + d); r.val[i] = int(unsigned(r.val[i]) + d); break; }
    }
    check();
  }
  kse_reach("done");
}
template <template <class, class> class L> static void rating_t() { // sizes scaled down: 8 / 16 slots
  unsigned cap = 20; RatingMap<int, unsigned, L> m(kse_choose("late", 2) ? 0 : cap); m.change_max_size(cap); kse_assert(m.max_size() == cap, "max size");
  for (unsigned s = 0; s < 3; ++s) { // usage pattern of the algorithms: select, fill, read, clear
    Ref r = small_keys(cap); static const unsigned UB[] = {1, 2, 4, 5, 6, 12}; unsigned ub = UB[kse_choose("bound", 6)];
    m.execute(ub, [&](auto &map) {
      unsigned cnt = 0; for (auto &&e [[maybe_unused]] : map.entries()) ++cnt; kse_assert(cnt == 0, "a selected map starts empty");
      static const unsigned PAT[] = {19, 3, 11, 3, 0, 7, 15, 19}; 
      for (unsigned j = 0; j < 8; ++j) { unsigned k = PAT[j]; if (!r.in[k] && r.cnt() >= ub) continue; int v = kse_sin<int>("rating", 1, 1000); map[k] += v; r.val[k] = r.in[k] ? r.val[k] + v : v; r.in[k] = true; }
      for (unsigned k = 0; k < cap; ++k) if (r.in[k]) kse_assert(map[k] == r.val[k], "rating");
      same_entries(r, [&](auto &&l) { for (auto &&[k, v] : map.entries()) l(k, v); });
      map.clear();
    });
  }
  kse_reach("done");
}
extern "C" void rating() { switch (kse_choose("large map", 3)) { case 0: rating_t<rm_backyard::FastResetArray>(); break; case 1: rating_t<rm_backyard::SparseMap>(); break; default: rating_t<rm_backyard::UnorderedMap>(); } }
template <class T, bool full> static void chm(unsigned cap, unsigned maxkey) {
  int bits = CompactHashMap<std::uint32_t, full>::compute_key_bits(maxkey); std::vector<T> data(cap); CompactHashMap<T, full> m(data.data(), cap, bits); kse_assert((1u << bits) >= maxkey, "key bits suffice for every key below the maximum");
  const T VM = T(T(~T(0)) >> bits); unsigned room = full ? cap : cap - 1; std::vector<T> ref(maxkey);
  auto cnt = [&] { unsigned c = 0; for (auto x : ref) c += bool(x != 0); return c; };
  std::vector<bool> in(maxkey); auto nin = [&] { unsigned c = 0; for (bool b : in) c += b; return c; };
  auto check = [&] { for (unsigned k = 0; k < maxkey; ++k) kse_assert(m.get(k) == (in[k] ? ref[k] : T(0)), "every key has exactly its weight, absent keys have 0"); kse_assert(m.count() == nin(), "count"); kse_assert(m.capacity() == cap, "capacity"); unsigned e = 0; m.for_each([&](auto k, auto v) { kse_assert(k < maxkey && in[k] && v == ref[k], "for_each"); ++e; }); kse_assert(e == nin(), "for_each visits all"); };
  unsigned pre = kse_choose("prefill", room + 1); // any distinct keys, in any order
  for (unsigned s = 0; s < pre + (TIER ? 3 : 2); ++s) {
    unsigned op = s < pre ? 0 : kse_choose("op", 3); unsigned k = kse_choose("key", maxkey);
    if (op == 0 || op == 1) { if ((s < pre) == in[k] && s < pre) kse_end(); if (!in[k] && nin() >= room) continue; T v = kse_in<T>("weight", 1, 3); if (in[k]) kse_assume(ref[k] + v <= VM); bool fresh = m.increase_by(k, v); kse_assert(fresh == !in[k], "increase_by reports new keys"); ref[k] = T((in[k] ? ref[k] : 0) + v); in[k] = true; }
    else { if (!in[k]) continue; bool all = kse_choose("all", 2); T v; if (all) v = ref[k]; else { v = kse_in<T>("less", 1, 3); kse_assume(v < ref[k]); } bool gone = m.decrease_by(k, v); kse_assert(gone == all, "decrease_by reports removed keys"); if (all) in[k] = false; else ref[k] = T(ref[k] - v); }
    if (s + 1 >= pre) check();
  }
  kse_reach("done");
}
#ifndef MK
#define MK 5
#endif
extern "C" void compact_map() { chm<std::uint32_t, false>(4, MK); }
extern "C" void compact_map_full() { if (kse_choose("width", 2)) chm<std::uint64_t, true>(4, 4); else chm<std::uint8_t, true>(2, 4); }
extern "C" void compact_map_8() { chm<std::uint8_t, false>(8, 9); }
template <std::size_t C, class V> static void marker_t() {
  unsigned n = 3; Marker<C, V> m(n); bool ref[C][3] = {}; unsigned first[C] = {};
  for (unsigned s = 0; s < (TIER || (C == 1 && sizeof(V) > 1) ? 4 : 3); ++s) {
    unsigned op = kse_choose("op", 3), c = op == 2 ? 0 : kse_choose("marker", C), e = op == 2 ? 0 : kse_choose("element", n);
    if (op == 0) { m.set(e, c); ref[c][e] = true; } else if (op == 1) { m.template set<true>(e, c); ref[c][e] = true; while (first[c] < n && ref[c][first[c]]) ++first[c]; kse_assert(m.first_unmarked_element(c) == first[c], "first unmarked element"); }
    else { unsigned times = sizeof(V) == 1 && kse_choose("many", 2) ? 125 + kse_choose("resets", 4) : 1; for (unsigned t = 0; t < times; ++t) { m.reset(); } for (auto &x : ref) for (auto &y : x) y = false; for (auto &x : first) x = 0; }
    for (unsigned a = 0; a < C; ++a) for (unsigned b = 0; b < n; ++b) kse_assert(m.get(b, a) == ref[a][b], "exactly the elements marked since the last reset are marked");
  }
  kse_assert(m.size() == n, "size"); kse_reach("done");
}
template <class M, class V, V M::*p> struct Peek { friend V &stamp(M &m) { return m.*p; } };
template struct Peek<Marker<>, std::size_t, &Marker<>::_marker_id>; std::size_t &stamp(Marker<> &);
extern "C" void marker_late() { // as after many resets
  Marker<> m(3); stamp(m) = kse_in<std::size_t>("stamp", 0, std::numeric_limits<std::size_t>::max() - 8) & ~std::size_t(1); kse_assume(stamp(m) != 0); unsigned e = kse_choose("element", 3); m.set(e); for (unsigned i = 0; i < 3; ++i) kse_assert(m.get(i) == (i == e), "exactly the element set is marked"); m.reset(); for (unsigned i = 0; i < 3; ++i) kse_assert(!m.get(i), "nothing is marked after a reset"); kse_reach("done");
}
extern "C" void marker() { marker_t<1, std::size_t>(); }
extern "C" void marker2() { if (kse_choose("wide", 2)) marker_t<2, std::size_t>(); else marker_t<2, unsigned>(); }
extern "C" void marker8() { marker_t<1, std::uint8_t>(); }
extern "C" void reset_array() {
  unsigned n = 4; FastResetArray<int, unsigned> a(kse_choose("late", 2) ? 0 : n); a.resize(n); std::vector<int> ref(n); std::vector<bool> in(n);
  for (unsigned s = 0; s < (TIER ? 4 : 3); ++s) {
    unsigned i = kse_choose("pos", n); int v = kse_sin<int>("value", 1, 1000);
    switch (kse_choose("op", 3)) { case 0: a[i] += v; ref[i] += v; in[i] = true; break; case 1: a.set(i, v); ref[i] = v; in[i] = true; break; case 2: a.clear(); for (unsigned j = 0; j < n; ++j) { ref[j] = 0; in[j] = false; } break; }
    unsigned c = 0; for (unsigned j = 0; j < n; ++j) { kse_assert(a.get(j) == ref[j], "value"); kse_assert(a.exists(j) == in[j], "exists"); c += in[j]; } kse_assert(a.size() == c && a.empty() == (c == 0) && a.capacity() == n, "size");
    std::vector<bool> seen(n); unsigned e = 0; for (auto [k, x] : a.entries()) { kse_assert(k < n && in[k] && !seen[k] && x == ref[k], "entries"); seen[k] = true; ++e; } kse_assert(e == c, "all entries");
  }
  kse_reach("done");
}
extern "C" void conc_reset_array() {
  unsigned n = 4; ConcurrentFastResetArray<int, unsigned> a(n); a.resize(n); kse_assert(a.capacity() == n, "capacity");
  for (unsigned round = 0; round < (TIER ? 3 : 2); ++round) { std::vector<int> ref(n); std::vector<bool> in(n);
    for (unsigned s = 0; s < 3; ++s) { unsigned i = kse_choose("pos", n); int v = kse_sin<int>("value", 1, 1000); if (a[i] == 0) a.local_used_entries().push_back(i); a[i] += v; ref[i] += v; in[i] = true; }
    unsigned e = 0; std::vector<bool> seen(n); a.iterate_and_reset([&](auto, auto &entries) { for (auto [k, x] : entries) { kse_assert(k < n && in[k] && !seen[k] && x == ref[k], "entries"); seen[k] = true; ++e; } });
    unsigned c = 0; for (bool b : in) c += b; kse_assert(e == c, "all entries"); for (unsigned j = 0; j < n; ++j) kse_assert(a[j] == 0, "reset"); }
  kse_reach("done");
}
extern "C" void queue() {
  Queue<int> q(4); std::vector<int> ref; unsigned head = 0, tail = 0;
  for (unsigned s = 0; s < (TIER ? 6 : 5); ++s) {
    switch (kse_choose("op", 5)) {
    case 0: if (tail < 4) { int v = sv(); q.push_tail(v); ref.push_back(v); ++tail; } break; case 1: if (!ref.empty()) { q.pop_head(); ref.erase(ref.begin()); ++head; } break;
    case 2: if (head > 0) { int v = sv(); q.push_head(v); ref.insert(ref.begin(), v); --head; } break; case 3: if (!ref.empty()) { q.pop_tail(); ref.pop_back(); --tail; } break; case 4: if (kse_choose("resize", 2)) q.resize(4); else q.clear(); ref.clear(); head = tail = 0; break;
    }
    kse_assert(q.size() == ref.size() && q.empty() == ref.empty() && q.capacity() == 4, "size"); if (!ref.empty()) kse_assert(q.head() == ref.front(), "head"); unsigned i = 0; for (int x : q) { kse_assert(i < ref.size() && x == ref[i] && q[i] == ref[i], "content in order"); ++i; } kse_assert(i == ref.size(), "all");
  }
  kse_reach("done");
}
extern "C" void maxsize() { MaxSizeVector<int> v(5); std::vector<int> ref; for (unsigned s = 0; s < (TIER ? 6 : 5); ++s) { switch (kse_choose("op", 4)) { case 0: if (ref.size() < 5) { int x = sv(); v.push_back(x); ref.push_back(x); } break; case 1: if (!ref.empty()) { v.pop_back(); ref.pop_back(); } break; case 2: v.clear(); ref.clear(); break; case 3: { unsigned n = 5 / (1 + 2 * kse_choose("size", 3)); v.resize(n); ref.resize(n); break; } }
  kse_assert(v.size() == ref.size() && v.empty() == ref.empty() && v.max_size() == 5 && v.capacity() >= v.size() && v.capacity() <= 5, "size"); for (unsigned i = 0; i < ref.size(); ++i) kse_assert(v[i] == ref[i], "content"); } kse_reach("done"); }
template <class Int> static void csa() {
  unsigned bw = 1 + kse_choose("byte width", sizeof(Int)), n = 3; CompactStaticArray<Int> a(bw, n); Int ref[3]; const Int mx = bw == sizeof(Int) ? Int(~Int(0)) : Int((Int(1) << (8 * bw)) - 1);
  for (unsigned i = 0; i < n; ++i) { unsigned p = (i * 2 + 1) % n; ref[p] = kse_in<Int>("value", 0, mx); a.write(p, ref[p]); }
  unsigned q = kse_choose("rewrite", n); ref[q] = kse_in<Int>("value", 0, mx); a.write(q, ref[q]);
  kse_assert(a.size() == n && !a.empty() && a.byte_width() == bw, "size"); for (unsigned i = 0; i < n; ++i) kse_assert(a[i] == ref[i], "every value is read back");
  unsigned i = 0; for (auto it = a.begin(); it != a.end(); ++it, ++i) { kse_assert(i < n && *it == ref[i] && *(a.begin() + i) == ref[i], "iteration"); } kse_assert(i == n && a.end() - a.begin() == std::ptrdiff_t(n), "iteration is complete");
  a.restrict(2); kse_assert(a.size() == 2, "restricted"); i = 0; for (auto it = a.begin(); it != a.end(); ++it) ++i; kse_assert(i == 2, "restricted iteration"); a.unrestrict(); kse_assert(a.size() == n && a[2] == ref[2], "unrestricted");
  CompactStaticArray<Int> b = std::move(a); kse_assert(b.size() == n && b[1] == ref[1], "moved");
  kse_reach("done");
}
extern "C" void compact_array() { if (kse_choose("64 bit", 2)) csa<std::uint64_t>(); else csa<std::uint32_t>(); }
extern "C" void bitvector() { // superblocks of two blocks of 128 bits (120 of data)
  using BV = RankCombinedBitVector<128, 8>; static const unsigned LEN[] = {1, 57, 120, 121, 241, 300}; unsigned n = LEN[kse_choose("length", 6)]; bool init = kse_choose("init", 2); BV v(n, init); std::vector<bool> b(n);
  kse_assert(v.length() == n, "length"); for (unsigned i = 0; i < n; ++i) { if (init) kse_assert(v.is_set(i), "initial value"); else kse_assert(!v.is_set(i), "initial value"); }
  for (unsigned i = 0; i < n; ++i) { bool x = (murmur(i + 5) & 3) == 0; b[i] = x; if (i % 3 == 0) v.set(i, x); else if (x) v.set(i); else v.unset(i); }
  unsigned w = n > 8 ? n - 8 : 0; std::vector<std::uint64_t> symb(n); for (unsigned i = w; i < n && n != 57; ++i) { bool x = kse_choose("bit", 2); b[i] = x; v.set(i, x); }
  v.update(); std::uint64_t rank = 0; for (unsigned i = 0; i < n; ++i) { kse_assert(v.is_set(i) == b[i], "bit"); kse_assert(v.rank(i) == rank, "rank is the number of set bits before"); rank += b[i]; }
  kse_reach("done");
}
extern "C" void static_arr() {
  unsigned n = kse_choose("size", 4); int init = sv(); StaticArray<int> a(n, init), e; kse_assert(a.size() == n && a.empty() == (n == 0) && e.empty(), "size"); for (int x : a) kse_assert(x == init, "initial value");
  std::vector<int> ref(n); for (unsigned i = 0; i < n; ++i) { ref[i] = sv(); a[i] = ref[i]; } StaticArray<int> b(ref.begin(), ref.end()); kse_assert(b.size() == n, "range size"); for (unsigned i = 0; i < n; ++i) kse_assert(b[i] == ref[i] && a[i] == ref[i], "range content");
  kse_assert(a == b, "equal content compares equal"); if (n) { unsigned i = kse_choose("pos", n); int v = sv(); b[i] = v; kse_assert((a == b) == (v == ref[i]), "arrays are equal exactly if all elements are"); b[i] = ref[i]; kse_assert(a.front() == ref[0] && a.back() == ref[n - 1] && a.end() - a.begin() == int(n) && *(a.begin() + i) == ref[i], "access"); unsigned m = kse_choose("restrict", n + 1); a.restrict(m); kse_assert(a.size() == m, "restrict"); unsigned c = 0; for (int x : a) { kse_assert(x == ref[c], "restricted"); ++c; } kse_assert(c == m, "restricted iteration"); a.unrestrict(); kse_assert(a.size() == n, "unrestrict"); }
  StaticArray<int> sp(n, a.data()); kse_assert(sp.is_span() || n == 0, "span"); for (unsigned i = 0; i < n; ++i) { kse_assert(sp[i] == ref[i], "span reads"); } StaticArray<int> mv = std::move(a); kse_assert(mv.size() == n, "moved"); for (unsigned i = 0; i < n; ++i) kse_assert(mv[i] == ref[i], "moved content");
  unsigned k = kse_choose("resize", 4); int v2 = sv(); mv.resize(k, v2); kse_assert(mv.size() == k, "resize"); for (int x : mv) kse_assert(x == v2, "resize initialises"); mv.free(); kse_assert(mv.empty(), "free"); kse_reach("done");
}
struct El { unsigned a; int b; };
extern "C" void linked_list() { // chunk size scaled down to 4
  using List = LocalNavigableLinkedList<unsigned, El, ScalableVector>; NavigableLinkedList<unsigned, El, ScalableVector> ets; List &l = ets.local(); std::vector<int> ref; std::vector<unsigned> start; unsigned m = 1 + kse_choose("segments", 3);
  for (unsigned s = 0; s < m; ++s) { l.mark(s * 7); kse_assert(l.position() == ref.size(), "position"); start.push_back(ref.size()); unsigned len = kse_choose("length", 6); for (unsigned j = 0; j < len; ++j) { int v = sv(); if (j % 2) l.push_back(El{s, v}); else l.emplace_back(El{s, v}); ref.push_back(v); } }
  auto g = ts_navigable_list::combine<unsigned, El, ScalableVector, ScalableVector>(ets); unsigned found = 0;
  kse_assert(g.size() == m, "number of markers"); for (auto &mk : g) { kse_assert(mk.key % 7 == 0 && mk.key / 7 < m, "marker key"); unsigned s = mk.key / 7; kse_assert(mk.position == start[s], "marker position"); unsigned end = s + 1 < m ? start[s + 1] : ref.size(); for (unsigned p = start[s]; p < end; ++p) { const List *cl = mk.local_list; auto &e = cl->get(p); kse_assert(e.a == s && e.b == ref[p], "elements are found behind their marker"); } found |= 1u << s; }
  kse_assert(found == (1u << m) - 1, "all markers"); kse_reach("done");
}
