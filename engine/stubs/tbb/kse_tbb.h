// Model of the oneTBB interface used by KaMinPar.
//   kse_threads == 1: every parallel construct runs sequentially (split into kse_chunks pieces);
//   kse_mt_region  : parallel constructs run on fibers whose interleaving is chosen by the engine.
#pragma once
#include <algorithm>
#include <cstddef>
#include <cstdlib>
#include <deque>
#include <functional>
#include <iterator>
#include <map>
#include <memory>
#include <type_traits>
#include <utility>
#include <vector>
#include "kse_env.h"
extern "C" { void *scalable_malloc(size_t); void scalable_free(void *); }
namespace tbb {
struct split {};
namespace detail { namespace d1 {} }
template <typename V> class blocked_range {
public:
  using const_iterator = V; using size_type = std::size_t;
  blocked_range() = default;
  blocked_range(V b, V e, size_type g = 1) : b_(b), e_(e), g_(g) {}
  V begin() const { return b_; } V end() const { return e_; }
  size_type size() const { return size_type(e_ - b_); }
  bool empty() const { return !(b_ < e_); }
  size_type grainsize() const { return g_; }
  bool is_divisible() const { return size() > g_; }
private:
  V b_, e_; size_type g_ = 1;
};
struct auto_partitioner {}; struct static_partitioner {}; struct simple_partitioner {}; struct affinity_partitioner {};
template <class T> struct KseJob { T f; int tid; int depth; static void run(void *p) { auto *j = static_cast<KseJob *>(p); kse_env::tid = j->tid; kse_env::depth = j->depth; j->f(); } };
inline bool kse_go_mt() { return kse_mt_region && kse_threads > 1 && kse_env::depth == 0; }
template <class Body> void kse_pieces(std::size_t n, Body &&body) { // body(lo, hi)
  if (n == 0) return;
  if (kse_go_mt() && n > 1) {
    // two workers; the split is in the middle (mode 2) or at a point of the engine's choosing
    std::size_t cut = kse_mt_region == 2 ? n / 2 : 1 + kse_choose("tbb.split", n - 1);
    auto right = [&] { body(cut, n); };
    KseJob<decltype(right)> job{right, 1, 1};
    kse_env::depth = 1;
    int id = kse_spawn(&KseJob<decltype(right)>::run, &job);
    body(std::size_t(0), cut);
    kse_join(id);
    kse_env::depth = 0;
    return;
  }
  std::size_t c = kse_chunks > 0 ? (std::size_t)kse_chunks : 1; if (c > n) c = n;
  std::size_t lo = 0; for (std::size_t i = 0; i < c; ++i) { std::size_t hi = n * (i + 1) / c; body(lo, hi); lo = hi; }
}
template <typename V, typename Body, typename... P> void parallel_for(const blocked_range<V> &r, const Body &body, P &&...) {
  kse_pieces(r.size(), [&](std::size_t lo, std::size_t hi) { blocked_range<V> sub(r.begin() + lo, r.begin() + hi, r.grainsize()); body(sub); });
}
template <typename R, typename Body, typename... P, typename = std::enable_if_t<!std::is_integral_v<R>>, typename = decltype(std::declval<const R &>().begin())> void parallel_for(const R &r, const Body &body, P &&...) { if (!r.empty()) body(const_cast<R &>(r)); }
template <typename I, typename F, typename... P, typename = std::enable_if_t<std::is_invocable_v<const F &, I>>> void parallel_for(I first, I last, const F &f, P &&...) {
  if (!(first < last)) return;
  kse_pieces(std::size_t(last - first), [&](std::size_t lo, std::size_t hi) { for (std::size_t i = lo; i < hi; ++i) f(static_cast<I>(first + static_cast<I>(i))); });
}
template <typename I, typename F, typename... P, typename = std::enable_if_t<std::is_invocable_v<const F &, I>>> void parallel_for(I first, I last, I step, const F &f, P &&...) {
  if (!(first < last)) return;
  std::size_t n = (std::size_t(last - first) - 1) / step + 1;
  kse_pieces(n, [&](std::size_t lo, std::size_t hi) { for (std::size_t i = lo; i < hi; ++i) f(static_cast<I>(first + static_cast<I>(i) * step)); });
}
template <typename It, typename F> void parallel_for_each(It b, It e, const F &f) { for (; b != e; ++b) f(*b); }
template <typename C, typename F> void parallel_for_each(C &&c, const F &f) { for (auto &x : c) f(x); }
template <typename F0> void parallel_invoke(F0 &&f) { f(); }
template <typename F0, typename... F> void parallel_invoke(F0 &&f, F &&...g) {
  if (kse_go_mt()) {
    auto right = [&] { parallel_invoke(std::forward<F>(g)...); };
    KseJob<decltype(right)> job{right, 1, 1}; kse_env::depth = 1;
    int id = kse_spawn(&KseJob<decltype(right)>::run, &job); f(); kse_join(id); kse_env::depth = 0; return;
  }
  f(); parallel_invoke(std::forward<F>(g)...);
}
template <typename R, typename Body> void parallel_reduce(const R &r, Body &b) {
  std::size_t n = r.size(); if (!n) { return; }
  std::size_t c = kse_chunks > 0 ? (std::size_t)kse_chunks : 1; if (c > n) c = n;
  std::size_t hi = n / c; b(R(r.begin(), r.begin() + hi));
  for (std::size_t i = 1; i < c; ++i) { std::size_t nh = n * (i + 1) / c; Body rb(b, split()); rb(R(r.begin() + hi, r.begin() + nh)); b.join(rb); hi = nh; }
}
template <typename R, typename V, typename F, typename J> V parallel_reduce(const R &r, const V &id, const F &f, const J &j) {
  std::size_t n = r.size(); if (!n) return id;
  std::size_t c = kse_chunks > 0 ? (std::size_t)kse_chunks : 1; if (c > n) c = n;
  std::size_t hi = n / c; V acc = f(R(r.begin(), r.begin() + hi), id);
  for (std::size_t i = 1; i < c; ++i) { std::size_t nh = n * (i + 1) / c; acc = j(acc, f(R(r.begin() + hi, r.begin() + nh), id)); hi = nh; }
  return acc;
}
template <typename R, typename V, typename S, typename J> V parallel_scan(const R &r, const V &id, const S &s, const J &j) {
  std::size_t n = r.size(); if (!n) return id;
  std::size_t c = kse_chunks > 0 ? (std::size_t)kse_chunks : 1; if (c > n) c = n;
  std::size_t hi = n / c; V acc = s(R(r.begin(), r.begin() + hi), id, true);
  for (std::size_t i = 1; i < c; ++i) { std::size_t nh = n * (i + 1) / c; R rr(r.begin() + hi, r.begin() + nh); V part = s(rr, id, false); s(rr, acc, true); acc = j(acc, part); hi = nh; }
  return acc;
}
template <typename It> void parallel_sort(It b, It e) { std::sort(b, e); }
template <typename It, typename C> void parallel_sort(It b, It e, const C &c) { std::sort(b, e, c); }
template <typename C> void parallel_sort(C &c) { std::sort(c.begin(), c.end()); }
class task_group { public: template <typename F> void run(F &&f) { f(); } int wait() { return 0; } template <typename F> int run_and_wait(F &&f) { f(); return 0; } };
namespace this_task_arena {
inline int max_concurrency() { return kse_threads; }
inline int current_thread_index() { return kse_env::tid; }
template <typename F> auto isolate(F &&f) { return f(); }
}
class task_arena { public: static const int automatic = -1; task_arena(int = -1, unsigned = 1) {} template <typename F> auto execute(F &&f) { return f(); } void initialize() {} int max_concurrency() const { return kse_threads; } };
class task_scheduler_observer { public: task_scheduler_observer() {} virtual ~task_scheduler_observer() {} virtual void on_scheduler_entry(bool) {} virtual void on_scheduler_exit(bool) {} void observe(bool = true) {} };
class global_control { public: enum parameter { max_allowed_parallelism, thread_stack_size }; global_control(parameter, std::size_t) {} static std::size_t active_value(parameter) { return kse_threads; } };
class spin_mutex { volatile int l_ = 0; public: class scoped_lock { public: scoped_lock() {} scoped_lock(spin_mutex &) {} void release() {} }; void lock() {} void unlock() {} bool try_lock() { return true; } };
template <typename T> struct scalable_allocator { using value_type = T; scalable_allocator() = default; template <typename U> scalable_allocator(const scalable_allocator<U> &) {} T *allocate(std::size_t n) { return static_cast<T *>(::operator new(n * sizeof(T))); } void deallocate(T *p, std::size_t) { ::operator delete(p); } template <typename U> bool operator==(const scalable_allocator<U> &) const { return true; } template <typename U> bool operator!=(const scalable_allocator<U> &) const { return false; } };
template <typename T> using cache_aligned_allocator = scalable_allocator<T>;
enum ets_key_usage_type { ets_key_per_instance, ets_no_key, ets_suspend_aware };
template <typename T, typename A = std::allocator<T>, int K = 1> class enumerable_thread_specific {
  static constexpr int N = 8;
  std::unique_ptr<T> s_[N]; std::vector<T *> order_;
  std::function<std::unique_ptr<T>()> make_;
public:
  using value_type = T; using reference = T &; using size_type = std::size_t;
  enumerable_thread_specific() : make_([] { return std::make_unique<T>(); }) {}
  template <typename F, typename = std::enable_if_t<std::is_invocable_v<F> && !std::is_same_v<std::decay_t<F>, enumerable_thread_specific>>> explicit enumerable_thread_specific(F f) : make_([f]() mutable { return std::unique_ptr<T>(new T(f())); }) {}
  template <typename U = T, typename = std::enable_if_t<std::is_copy_constructible_v<U>>> explicit enumerable_thread_specific(const T &v) : make_([v] { return std::make_unique<T>(v); }) {}
  template <typename P0, typename... P, typename = std::enable_if_t<(sizeof...(P) > 0 || (!std::is_invocable_v<P0> && !std::is_same_v<std::decay_t<P0>, T> && !std::is_same_v<std::decay_t<P0>, enumerable_thread_specific>))>, typename = void> explicit enumerable_thread_specific(P0 &&p0, P &&...p) : make_([p0, p...] { return std::unique_ptr<T>(new T(p0, p...)); }) {}
  enumerable_thread_specific(enumerable_thread_specific &&) = default; enumerable_thread_specific &operator=(enumerable_thread_specific &&) = default;
  T &local() { bool e; return local(e); }
  T &local(bool &exists) { int i = kse_env::tid; exists = (bool)s_[i]; if (!s_[i]) { s_[i] = make_(); order_.push_back(s_[i].get()); } return *s_[i]; }
  template <bool C> struct It { using iterator_category = std::random_access_iterator_tag; using value_type = T; using difference_type = std::ptrdiff_t; using pointer = std::conditional_t<C, const T, T> *; using reference = std::conditional_t<C, const T, T> &; T *const *p; reference operator*() const { return **p; } pointer operator->() const { return *p; } It &operator++() { ++p; return *this; } It operator++(int) { It o = *this; ++p; return o; } It &operator--() { --p; return *this; } It operator+(difference_type n) const { return {p + n}; } difference_type operator-(const It &o) const { return p - o.p; } bool operator==(const It &o) const { return p == o.p; } bool operator!=(const It &o) const { return p != o.p; } bool operator<(const It &o) const { return p < o.p; } reference operator[](difference_type n) const { return *p[n]; } It &operator+=(difference_type n) { p += n; return *this; } };
  using iterator = It<false>; using const_iterator = It<true>; using range_type = blocked_range<iterator>;
  iterator begin() { return {order_.data()}; } iterator end() { return {order_.data() + order_.size()}; }
  const_iterator begin() const { return {order_.data()}; } const_iterator end() const { return {order_.data() + order_.size()}; }
  range_type range(std::size_t g = 1) { return range_type(begin(), end(), g); }
  std::size_t size() const { return order_.size(); } bool empty() const { return order_.empty(); }
  void clear() { order_.clear(); for (auto &s : s_) s.reset(); }
  template <typename F> T combine(F f) { if (order_.empty()) return *make_(); T r = *order_[0]; for (std::size_t i = 1; i < order_.size(); ++i) r = f(r, *order_[i]); return r; }
  template <typename F> void combine_each(F f) { for (T *p : order_) f(*p); }
};
template <typename T> class combinable : private enumerable_thread_specific<T> { using B = enumerable_thread_specific<T>; public: combinable() = default; template <typename F> explicit combinable(F f) : B(f) {} T &local() { return B::local(); } void clear() { B::clear(); } template <typename F> T combine(F f) { return B::combine(f); } template <typename F> void combine_each(F f) { B::combine_each(f); } };
template <typename T, typename A = std::allocator<T>> class concurrent_vector {
  std::deque<T> d_;
public:
  using value_type = T; using iterator = typename std::deque<T>::iterator; using const_iterator = typename std::deque<T>::const_iterator; using reference = T &; using const_reference = const T &; using size_type = std::size_t; using range_type = blocked_range<iterator>;
  concurrent_vector() = default; explicit concurrent_vector(std::size_t n) : d_(n) {} concurrent_vector(std::size_t n, const T &v) : d_(n, v) {}
  iterator push_back(const T &v) { d_.push_back(v); return d_.end() - 1; } iterator push_back(T &&v) { d_.push_back(std::move(v)); return d_.end() - 1; }
  template <typename... Args> iterator emplace_back(Args &&...a) { d_.emplace_back(std::forward<Args>(a)...); return d_.end() - 1; }
  iterator grow_by(std::size_t n) { std::size_t o = d_.size(); d_.resize(o + n); return d_.begin() + o; }
  template <typename It> iterator grow_by(It b, It e) { std::size_t o = d_.size(); d_.insert(d_.end(), b, e); return d_.begin() + o; }
  iterator grow_to_at_least(std::size_t n) { if (d_.size() < n) d_.resize(n); return d_.begin(); }
  void resize(std::size_t n) { d_.resize(n); } void reserve(std::size_t) {} void shrink_to_fit() {} std::size_t capacity() const { return d_.size(); }
  T &operator[](std::size_t i) { return d_[i]; } const T &operator[](std::size_t i) const { return d_[i]; } T &at(std::size_t i) { return d_.at(i); }
  iterator begin() { return d_.begin(); } iterator end() { return d_.end(); } const_iterator begin() const { return d_.begin(); } const_iterator end() const { return d_.end(); }
  T &front() { return d_.front(); } T &back() { return d_.back(); }
  std::size_t size() const { return d_.size(); } bool empty() const { return d_.empty(); } void clear() { d_.clear(); }
  range_type range(std::size_t g = 1) { return range_type(begin(), end(), g); }
  void swap(concurrent_vector &o) { d_.swap(o.d_); }
};
template <typename K> struct tbb_hash_compare { static std::size_t hash(const K &k) { return std::hash<K>()(k); } static bool equal(const K &a, const K &b) { return a == b; } };
template <typename K, typename V, typename H = tbb_hash_compare<K>> class concurrent_hash_map {
  std::vector<std::unique_ptr<std::pair<const K, V>>> v_;
  std::pair<const K, V> *get(const K &k) const { for (auto &p : v_) if (p->first == k) return p.get(); return nullptr; }
public:
  using value_type = std::pair<const K, V>;
  class const_accessor { protected: value_type *p_ = nullptr; friend class concurrent_hash_map; public: const value_type &operator*() const { return *p_; } const value_type *operator->() const { return p_; } bool empty() const { return !p_; } void release() { p_ = nullptr; } };
  class accessor : public const_accessor { public: value_type &operator*() const { return *this->p_; } value_type *operator->() const { return this->p_; } };
  struct iterator { typename std::vector<std::unique_ptr<value_type>>::const_iterator i; value_type &operator*() const { return **i; } value_type *operator->() const { return i->get(); } iterator &operator++() { ++i; return *this; } bool operator==(const iterator &o) const { return i == o.i; } bool operator!=(const iterator &o) const { return i != o.i; } using iterator_category = std::forward_iterator_tag; using difference_type = std::ptrdiff_t; using pointer = value_type *; using reference = value_type &; using value_type = std::pair<const K, V>; };
  bool insert(const_accessor &a, const K &k) { if (auto *p = get(k)) { a.p_ = p; return false; } v_.push_back(std::make_unique<value_type>(k, V())); a.p_ = v_.back().get(); return true; }
  bool insert(const value_type &x) { if (get(x.first)) return false; v_.push_back(std::make_unique<value_type>(x)); return true; }
  bool find(const_accessor &a, const K &k) const { a.p_ = get(k); return a.p_; }
  iterator begin() const { return {v_.begin()}; } iterator end() const { return {v_.end()}; } std::size_t size() const { return v_.size(); } bool empty() const { return v_.empty(); } void clear() { v_.clear(); } void rehash(std::size_t = 0) {}
  struct range_type { const concurrent_hash_map *m; iterator begin() const { return m->begin(); } iterator end() const { return m->end(); } bool empty() const { return m->empty(); } };
  range_type range(std::size_t = 1) const { return {this}; }
};
} // namespace tbb
namespace oneapi { namespace tbb = ::tbb; }
