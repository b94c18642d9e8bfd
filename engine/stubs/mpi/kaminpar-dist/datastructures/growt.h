// Environment stub: growt's concurrent hash tables (third-party) as sequential maps with growt's contract: keys 0 and 2^63
// and above are reserved, insert does not overwrite, handles refer to the table they were created from.
#pragma once
#include <memory>
#include <type_traits>
#include <utility>
#include <vector>
#include <tbb/enumerable_thread_specific.h>
#include <tbb/parallel_for.h>
#include <tbb/task_arena.h>
#include "kaminpar-dist/dkaminpar.h"
#include "kse.h"
namespace kaminpar::dist::growt {
namespace internal { template <typename Type> using Ensure64BitType = std::conditional_t<std::numeric_limits<Type>::is_signed, GlobalNodeWeight, GlobalNodeID>; }
template <typename Value> class Table {
  using Slots = std::vector<std::pair<GlobalNodeID, Value>>; std::shared_ptr<Slots> _s; bool _grow; std::size_t _cap;
public:
  struct atomic_slot_type { GlobalNodeID k; Value v; };
  struct iterator { Slots *s = nullptr; std::size_t i = 0; std::pair<GlobalNodeID, Value> operator*() const { kse_assert(s && i < s->size(), "hash table entry exists"); return (*s)[i]; } iterator &operator++() { ++i; return *this; } bool end_() const { return !s || i >= s->size(); } bool operator==(const iterator &o) const { return (end_() && o.end_()) || (s == o.s && i == o.i); } bool operator!=(const iterator &o) const { return !(*this == o); } };
  using handle_type = Table; using insert_return_type = std::pair<iterator, bool>;
  Table() : Table(0, false) {}
  explicit Table(std::size_t n, bool grow) : _s(std::make_shared<Slots>()), _grow(grow), _cap(n) {}
  Table(const Table &) = delete; Table &operator=(const Table &) = delete; Table(Table &&) = default; Table &operator=(Table &&) = default;
  Table get_handle() { return Table(_s, _grow, _cap); }
  std::size_t capacity() const { return _grow ? _s->size() : _cap > _s->size() ? _cap : _s->size(); }
  iterator find(GlobalNodeID k) const { check(k); for (std::size_t i = 0; i < _s->size(); ++i) if ((*_s)[i].first == k) return {_s.get(), i}; return end(); }
  iterator begin() const { return {_s.get(), 0}; } iterator end() const { return {_s.get(), (std::size_t)-1}; }
  std::pair<iterator, bool> insert(GlobalNodeID k, Value v) { auto it = find(k); if (it != end()) return {it, false}; kse_assert(_grow || _s->size() < _cap, "static hash table has room"); _s->emplace_back(k, v); return {iterator{_s.get(), _s->size() - 1}, true}; }
  template <class F, class... A> std::pair<iterator, bool> update(GlobalNodeID k, F f, A &&...a) { auto it = find(k); if (it == end()) return {it, false}; f((*_s)[it.i].second, a...); return {it, true}; }
  template <class F, class... A> std::pair<iterator, bool> insert_or_update(GlobalNodeID k, Value v, F f, A &&...a) { auto it = find(k); if (it == end()) return insert(k, v); f((*_s)[it.i].second, a...); return {it, false}; }
  struct range_iterator : iterator { std::size_t stop; };
  range_iterator range(std::size_t a, std::size_t b) { range_iterator r; r.s = _s.get(); r.i = a; r.stop = b < _s->size() ? b : _s->size(); return r; }
  struct range_sentinel {}; range_sentinel range_end() const { return {}; }
  friend bool operator!=(const range_iterator &r, range_sentinel) { return r.i < r.stop; }
private:
  Table(std::shared_ptr<Slots> s, bool g, std::size_t c) : _s(std::move(s)), _grow(g), _cap(c) {}
  static void check(GlobalNodeID k) { kse_assert(k != 0 && k < (GlobalNodeID(1) << 63), "reserved hash table key"); }
};
template <typename Value> class GlobalNodeIDMap : public Table<internal::Ensure64BitType<Value>> { public: using Base = Table<internal::Ensure64BitType<Value>>; GlobalNodeIDMap(std::size_t n = 0) : Base(n, true) {} };
class StaticGhostNodeMapping : public Table<GlobalNodeID> { public: StaticGhostNodeMapping(std::size_t n = 0) : Table<GlobalNodeID>(n, false) {} };
template <typename Map, typename Lambda> void pfor_map(Map &map, Lambda &&lambda) { auto it = map.range(0, map.capacity()); for (; it != map.range_end(); ++it) lambda((*it).first, (*it).second); }
template <typename Handles, typename Lambda> void pfor_handles(Handles &handles, Lambda &&lambda) { pfor_map(handles.local(), lambda); }
} // namespace kaminpar::dist::growt
