// Priority queues against a reference: a plain array of keys.
#include <vector>
#include "kaminpar-common/datastructures/binary_heap.h"
#include "kse.h"
using namespace kaminpar;
using Key = int;
#ifndef NPRE
#define NPRE 6
#endif
#ifndef NOPS
#define NOPS 2
#endif
static Key symkey() { return kse_sin<Key>("key", -60, 60); }
struct Ref { std::vector<bool> in; std::vector<Key> key; unsigned cnt = 0; Ref(unsigned n) : in(n), key(n) {} };
static bool better(bool max, Key a, Key b) { return max ? a >= b : a <= b; }
struct Shared { // uniform interface
  std::vector<std::size_t> h; SharedBinaryMaxHeap<Key> q; Shared(unsigned n) : h(n, SharedBinaryMaxHeap<Key>::kInvalidID), q(n, h.data()) {}
};
template <class Q> static void verify(Q &q, const Ref &r, bool max) {
  kse_assert(q.size() == r.cnt, "size"); kse_assert(q.empty() == (r.cnt == 0), "empty");
  for (unsigned i = 0; i < r.in.size(); ++i) { kse_assert(q.contains(i) == r.in[i], "contains exactly the inserted and not removed IDs"); if (r.in[i]) kse_assert(q.key(i) == r.key[i], "the key of every ID is the last one set"); }
  if (r.cnt) { std::size_t t = q.peek_id(); kse_assert(t < r.in.size() && r.in[t], "the top is a contained ID"); kse_assert(q.peek_key() == r.key[t], "the top key belongs to the top ID"); for (unsigned i = 0; i < r.in.size(); ++i) if (r.in[i]) kse_assert(better(max, q.peek_key(), r.key[i]), "no contained key is better than the top"); }
}
template <class Q> static void ops(Q &q, unsigned cap, bool max) {
  Ref r(cap);
  // pushed in heap order: up to renaming of the IDs every heap of this size arises
  for (unsigned i = 0; i < NPRE; ++i) { Key k = symkey(); if (i) kse_assume(better(max, r.key[(i - 1) / 4], k)); q.push(i, k); r.in[i] = true; r.key[i] = k; ++r.cnt; }
  verify(q, r, max);
  for (unsigned s = 0; s < NOPS; ++s) {
    switch (kse_choose("op", 6)) {
    case 0: if (r.cnt) { auto t = q.peek_id(); q.pop(); r.in[t] = false; --r.cnt; } break;
    case 1: { auto i = kse_choose("id", cap); if (r.in[i]) { q.remove(i); r.in[i] = false; --r.cnt; } break; }
    case 2: { auto i = kse_choose("id", cap); if (r.in[i]) { Key k = symkey(); q.change_priority(i, k); r.key[i] = k; } break; }
    case 3: { auto i = kse_choose("id", cap); Key k = symkey(); q.push_or_change_priority(i, k); if (!r.in[i]) { r.in[i] = true; ++r.cnt; } r.key[i] = k; break; }
    case 4: { auto i = cap - 1; if (!r.in[i]) { Key k = symkey(); q.push(i, k); r.in[i] = true; r.key[i] = k; ++r.cnt; } break; }
    case 5: if (s + 1 < NOPS) { q.clear(); for (unsigned i = 0; i < cap; ++i) r.in[i] = false; r.cnt = 0; verify(q, r, max); for (unsigned i = 0; i < 3; ++i) { Key k = symkey(); q.push(2 - i, k); r.in[2 - i] = true; r.key[2 - i] = k; ++r.cnt; } } break;
    }
    verify(q, r, max);
  }
  kse_reach("done");
}
extern "C" void heap_max() { BinaryMaxHeap<Key> q(NPRE + 1); ops(q, NPRE + 1, true); }
extern "C" void heap_min() { BinaryMinHeap<Key> q(NPRE + 1); ops(q, NPRE + 1, false); }
extern "C" void shared_max() { Shared s(NPRE + 1); ops(s.q, NPRE + 1, true); }
// sift_down through two full levels: a heap whose 6 elements are pushed with distinct symbolic keys is drained completely
template <class Q> static void drain(Q &q, unsigned n, bool max) {
  std::vector<Key> k(n); for (unsigned i = 0; i < n; ++i) { k[i] = symkey(); q.push(i, k[i]); }
  std::vector<bool> seen(n); Key last = 0;
  for (unsigned i = 0; i < n; ++i) { auto t = q.peek_id(); kse_assert(t < n && !seen[t], "every element leaves once"); seen[t] = true; kse_assert(q.peek_key() == k[t], "key travels with its ID"); if (i) kse_assert(better(max, last, q.peek_key()), "elements leave in order of their keys"); last = q.peek_key(); q.pop(); }
  kse_assert(q.empty(), "empty at the end"); kse_reach("done");
}
#ifndef ND
#define ND 5
#endif
extern "C" void dyn_drain() { if (kse_choose("max", 2)) { DynamicBinaryMaxHeap<unsigned, Key> q; drain(q, ND, true); } else { DynamicBinaryMinHeap<unsigned, Key> q(2); drain(q, ND, false); } }
extern "C" void heap_drain() { if (kse_choose("max", 2)) { BinaryMaxHeap<Key> q(ND); drain(q, ND, true); } else { BinaryMinHeap<Key> q(ND); drain(q, ND, false); } }
extern "C" void heap_second_level() { BinaryMinHeap<Key> q(9); for (unsigned i = 0; i < 9; ++i) q.push(i, i * 10); Key k0 = symkey(); auto i = kse_choose("id", 9); q.change_priority(i, k0); std::vector<Key> k; for (unsigned j = 0; j < 9; ++j) k.push_back(j == i ? k0 : Key(j * 10));
  Key last = 0; for (unsigned j = 0; j < 9; ++j) { auto t = q.peek_id(); kse_assert(t < 9 && q.key(t) == k[t], "key"); kse_assert(q.peek_key() == k[t], "key travels"); if (j) kse_assert(last <= k[t], "order"); last = k[t]; q.pop(); } kse_assert(q.empty(), "empty"); kse_reach("done"); }
// forests: several heaps that share one ID space
struct FRef { std::vector<int> heap; std::vector<Key> key; FRef(unsigned n) : heap(n, -1), key(n) {} unsigned cnt(int h) const { unsigned c = 0; for (int x : heap) c += x == h; return c; } };
#ifndef FN
#define FN 4
#endif
extern "C" void forest() {
  bool reinit = kse_choose("init", 2); DynamicBinaryMinMaxForest<unsigned, Key> f0(FN, 2), f1; if (reinit) f1.init(FN, 2); auto &f = reinit ? f1 : f0; FRef r(FN);
  auto verify = [&] {
    unsigned tot = 0;
    for (unsigned h = 0; h < 2; ++h) {
      kse_assert(f.size(h) == r.cnt(h), "size of a heap"); kse_assert(f.empty(h) == (r.cnt(h) == 0), "empty"); tot += r.cnt(h);
      if (r.cnt(h)) { auto a = f.peek_min_id(h), b = f.peek_max_id(h); kse_assert(a < FN && r.heap[a] == int(h) && b < FN && r.heap[b] == int(h), "tops belong to the heap"); kse_assert(f.peek_min_key(h) == r.key[a] && f.peek_max_key(h) == r.key[b], "top keys");
        for (unsigned i = 0; i < FN; ++i) if (r.heap[i] == int(h)) { kse_assert(r.key[a] <= r.key[i] && r.key[b] >= r.key[i], "tops are extreme"); kse_assert(f.key(h, i) == r.key[i], "key"); } }
      unsigned e = 0; for (const auto &x : f.elements(h)) { kse_assert(x.id < FN && r.heap[x.id] == int(h) && x.key == r.key[x.id], "elements() lists the content"); ++e; } kse_assert(e == r.cnt(h), "elements() is complete");
    }
    kse_assert(f.size() == tot, "total size"); for (unsigned i = 0; i < FN; ++i) kse_assert(f.contains(i) == (r.heap[i] >= 0), "contains");
  };
  for (unsigned i = 0; i + 1 < FN; ++i) { Key k = symkey(); unsigned h = i == FN - 2 ? 1 : 0; f.push(h, i, k); r.heap[i] = h; r.key[i] = k; }
  verify();
  for (unsigned s = 0; s < 2; ++s) {
    switch (kse_choose("op", 7)) {
    case 0: { auto h = kse_choose("heap", 2); if (r.cnt(h)) { auto i = f.peek_min_id(h); f.pop_min(h); r.heap[i] = -1; } break; }
    case 1: { auto h = kse_choose("heap", 2); if (r.cnt(h)) { auto i = f.peek_max_id(h); f.pop_max(h); r.heap[i] = -1; } break; }
    case 2: { auto i = kse_choose("id", FN); if (r.heap[i] >= 0) { f.remove(r.heap[i], i); r.heap[i] = -1; } break; }
    case 3: { auto i = kse_choose("id", FN); if (r.heap[i] >= 0) { Key k = symkey(); f.change_priority(r.heap[i], i, k); r.key[i] = k; } break; }
    case 4: { auto i = kse_choose("id", FN); if (r.heap[i] < 0) { Key k = symkey(); auto h = kse_choose("heap", 2); f.push(h, i, k); r.heap[i] = h; r.key[i] = k; } break; }
    case 5: { auto h = kse_choose("heap", 2); f.clear(h); for (auto &x : r.heap) if (x == int(h)) x = -1; break; }
    case 6: f.clear(); for (auto &x : r.heap) x = -1; break;
    }
    verify();
  }
  kse_reach("done");
}
