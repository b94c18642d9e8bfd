// Parts of the C/C++ runtime library that are executed symbolically (linked into every harness module).
#include <cstddef>
#include <cstdint>
#include <cmath>
#include <cstring>
#include <cstdlib>
#include <utility>
#include "kse.h"
namespace kaminpar::heap_profiler { __attribute__((weak)) double max_overcommitment_factor = 1.0; __attribute__((weak)) bool bruteforce_max_overcommitment_factor = false; __attribute__((weak)) std::size_t get_total_system_memory() { return ~std::size_t(0); } }
int kse_rand_budget = 0, kse_threads = 1, kse_chunks = 1, kse_mt_region = 0;
#ifndef KSE_NATIVE
extern "C" {
unsigned k_hwc() __asm__("_ZNSt6thread20hardware_concurrencyEv");
unsigned k_hwc() { return kse_threads; }
size_t k_strlen(const char *s) __asm__("strlen");
size_t k_strlen(const char *s) { size_t n = 0; while (s[n]) ++n; return n; }
int k_strcmp(const char *a, const char *b) __asm__("strcmp");
int k_strcmp(const char *a, const char *b) { while (*a && *a == *b) ++a, ++b; return (unsigned char)*a - (unsigned char)*b; }
int k_strncmp(const char *a, const char *b, size_t n) __asm__("strncmp");
int k_strncmp(const char *a, const char *b, size_t n) { for (; n; --n, ++a, ++b) { if (*a != *b) return (unsigned char)*a - (unsigned char)*b; if (!*a) return 0; } return 0; }
char *k_strcpy(char *d, const char *s) __asm__("strcpy");
char *k_strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) {} return r; }
void *k_memchr(const void *p, int c, size_t n) __asm__("memchr");
void *k_memchr(const void *p, int c, size_t n) { auto *q = (const unsigned char *)p; for (; n; --n, ++q) if (*q == (unsigned char)c) return (void *)q; return nullptr; }
char *k_strchr(const char *s, int c) __asm__("strchr");
char *k_strchr(const char *s, int c) { for (;; ++s) { if (*s == (char)c) return (char *)s; if (!*s) return nullptr; } }
char *k_strrchr(const char *s, int c) __asm__("strrchr");
char *k_strrchr(const char *s, int c) { const char *r = nullptr; for (;; ++s) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
void *scalable_malloc(size_t n) { return malloc(n); }
void scalable_free(void *p) { free(p); }
int *k___errno_location() __asm__("__errno_location");
int *k___errno_location() { static int e; return &e; }
static uint64_t strtoX(const char *s, char **e, int base, bool &neg) { const char *p = s; while (*p == ' ' || (*p >= 9 && *p <= 13)) ++p; neg = false; if (*p == '-') neg = true, ++p; else if (*p == '+') ++p; uint64_t v = 0; const char *st = p; while (*p >= '0' && *p <= '9') v = v * 10 + (*p++ - '0'); if (e) *e = (char *)(p == st ? s : p); return v; }
long k_strtol(const char *s, char **e, int b) __asm__("strtol");
long k_strtol(const char *s, char **e, int b) { bool n; uint64_t v = strtoX(s, e, b, n); return n ? -(long)v : (long)v; }
unsigned long k_strtoul(const char *s, char **e, int b) __asm__("strtoul");
unsigned long k_strtoul(const char *s, char **e, int b) { bool n; uint64_t v = strtoX(s, e, b, n); return n ? -v : v; }
unsigned long long k_strtoull(const char *s, char **e, int b) __asm__("strtoull");
unsigned long long k_strtoull(const char *s, char **e, int b) { return k_strtoul(s, e, b); }
long long k_strtoll(const char *s, char **e, int b) __asm__("strtoll");
long long k_strtoll(const char *s, char **e, int b) { return k_strtol(s, e, b); }
int k_atoi(const char *s) __asm__("atoi");
int k_atoi(const char *s) { return (int)k_strtol(s, nullptr, 10); }
}
#endif
#ifndef KSE_NATIVE
extern "C" {
// single-inheritance dynamic_cast
extern char kse_si_vt[] __asm__("_ZTVN10__cxxabiv120__si_class_type_infoE");
struct kse_ti { const char *vptr; const char *name; const kse_ti *base; };
void *k_dyncast(const void *p, const kse_ti *src, const kse_ti *dst, long) __asm__("__dynamic_cast");
void *k_dyncast(const void *p, const kse_ti *src, const kse_ti *dst, long) {
  const long *vt = *(const long *const *)p; const char *most = (const char *)p + vt[-2]; const kse_ti *t = (const kse_ti *)vt[-1];
  while (t != dst) { if (t->vptr != kse_si_vt + 16) return nullptr; t = t->base; }
  return (void *)most;
}
}
// libstdc++ pieces that live in the shared library
namespace std {
namespace __detail {
struct _Prime_rehash_policy { float _M_max_load_factor; size_t _M_next_resize; size_t _M_next_bkt(size_t n) const; std::pair<bool, size_t> _M_need_rehash(size_t b, size_t e, size_t i) const; size_t _M_bkt_for_elements(size_t n) const; };
struct _List_node_base { _List_node_base *_M_next, *_M_prev; void _M_hook(_List_node_base *p) noexcept; void _M_unhook() noexcept; void _M_transfer(_List_node_base *f, _List_node_base *l) noexcept; };
void _List_node_base::_M_hook(_List_node_base *p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { auto *n = _M_next, *p = _M_prev; p->_M_next = n; n->_M_prev = p; }
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
  static const size_t pr[] = {2, 3, 5, 7, 11, 13, 17, 23, 29, 37, 53, 79, 97, 131, 193, 257, 389, 521, 769, 1031, 1543, 2053, 3079, 6151, 12289, 24593, 49157, 98317, 196613, 393241, 786433};
  auto *self = const_cast<_Prime_rehash_policy *>(this);
  size_t r = pr[30]; for (size_t p : pr) if (p >= n) { r = p; break; }
  self->_M_next_resize = (size_t)(r * (double)_M_max_load_factor); return r;
}
size_t _Prime_rehash_policy::_M_bkt_for_elements(size_t n) const { return (size_t)__builtin_ceil(n / (double)_M_max_load_factor); }
std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const {
  auto *self = const_cast<_Prime_rehash_policy *>(this);
  if (ne + ni > _M_next_resize) {
    double mb = (double)((ne + ni) > (_M_next_resize ? 0 : 11) ? (ne + ni) : 11) / (double)_M_max_load_factor;
    if (mb >= nb) { size_t a = (size_t)mb + 1, b = nb * 2; return {true, _M_next_bkt(a > b ? a : b)}; }
    self->_M_next_resize = (size_t)(nb * (double)_M_max_load_factor);
  }
  return {false, 0};
}
}
size_t _Hash_bytes(const void *p, size_t n, size_t seed) { auto *q = (const unsigned char *)p; size_t h = seed; for (size_t i = 0; i < n; ++i) h = (h ^ q[i]) * 1099511628211ull; return h; }
// red-black trees: an (unbalanced) binary search tree satisfies the same interface
enum _Rb_tree_color { _S_red = false, _S_black = true };
struct _Rb_tree_node_base { _Rb_tree_color _M_color; _Rb_tree_node_base *_M_parent, *_M_left, *_M_right; };
static _Rb_tree_node_base *inc(_Rb_tree_node_base *x) { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; } else { auto *y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; } return x; }
static _Rb_tree_node_base *dec(_Rb_tree_node_base *x) { if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) x = x->_M_right; else if (x->_M_left) { auto *y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; } else { auto *y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; } return x; }
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw() { return inc(x); }
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return inc(const_cast<_Rb_tree_node_base *>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw() { return dec(x); }
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return dec(const_cast<_Rb_tree_node_base *>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) throw() {
  x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_black; h._M_color = _S_red;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) throw() {
  auto *&root = h._M_parent; auto *&lm = h._M_left; auto *&rm = h._M_right;
  auto *nxt = inc(z); auto *prv = (z == lm) ? nullptr : dec(z);
  if (z == lm) lm = nxt; if (z == rm) rm = prv ? prv : &h;
  auto repl = [&](_Rb_tree_node_base *a, _Rb_tree_node_base *b) { if (root == a) root = b; else if (a->_M_parent->_M_left == a) a->_M_parent->_M_left = b; else a->_M_parent->_M_right = b; if (b) b->_M_parent = a->_M_parent; };
  if (!z->_M_left) repl(z, z->_M_right);
  else if (!z->_M_right) repl(z, z->_M_left);
  else { auto *y = z->_M_right; while (y->_M_left) y = y->_M_left; if (y->_M_parent != z) { repl(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; } repl(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y; }
  if (!root) { lm = rm = &h; }
  return z;
}
}
#endif
#ifdef KSE_NATIVE
// native replay: inputs come from the file named by KSE_SEQ, one number per line
#include <cstdio>
#include <vector>
static std::vector<uint64_t> &seq() { static std::vector<uint64_t> v = [] { std::vector<uint64_t> r; if (const char *f = getenv("KSE_SEQ")) if (FILE *h = fopen(f, "r")) { unsigned long long x; while (fscanf(h, "%llu", &x) == 1) r.push_back(x); fclose(h); } return r; }(); return v; }
static size_t pos = 0;
static uint64_t nxt(uint64_t def) { return pos < seq().size() ? seq()[pos++] : def; }
static void leave(int code) { fflush(stdout); fflush(stderr); _Exit(code); }
extern "C" {
uint64_t kse_sym(const char *, unsigned bits) { uint64_t v = nxt(0); return bits >= 64 ? v : v & ((1ull << bits) - 1); }
uint64_t kse_range(const char *, uint64_t lo, uint64_t hi) { uint64_t v = nxt(lo); if (v < lo || v > hi) { puts("REPLAY-DIVERGED"); leave(0); } return v; }
int64_t kse_srange(const char *, int64_t lo, int64_t hi) { int64_t v = (int64_t)nxt((uint64_t)lo); if (v < lo || v > hi) { puts("REPLAY-DIVERGED"); leave(0); } return v; }
void kse_sym_bytes(void *p, uint64_t n, const char *) { for (uint64_t i = 0; i < n; ++i) ((unsigned char *)p)[i] = (unsigned char)nxt(0); }
uint64_t kse_choose(const char *, uint64_t n) { uint64_t v = nxt(0); if (v >= n) { puts("REPLAY-DIVERGED"); leave(0); } return v; }
void kse_assume(bool c) { if (!c) { puts("REPLAY-ASSUME-FALSE"); leave(0); } }
void kse_assert(bool c, const char *m) { if (!c) { printf("KSE-ASSERT-FAILED %s\n", m); leave(77); } }
void kse_fail(const char *m) { printf("KSE-ASSERT-FAILED %s\n", m); leave(77); __builtin_unreachable(); }
void kse_kassert_fail(const char *m) { printf("KSE-KASSERT-FAILED %s\n", m); leave(77); __builtin_unreachable(); }
void kse_reach(const char *) {}
uint64_t kse_concretize(uint64_t v) { return v; }
int kse_is_sym(uint64_t) { return 0; }
void kse_print(const char *n, uint64_t v) { printf("  %s = %llu\n", n, (unsigned long long)v); }
void kse_check_init(const void *, uint64_t, const char *) {}
void kse_make_uninit(void *, uint64_t) {}
void kse_readonly(const void *, int) {}
void kse_tag(const char *) {}
void kse_end() { puts("REPLAY-END"); leave(0); __builtin_unreachable(); }
uint64_t kse_ite64(bool c, uint64_t a, uint64_t b) { return c ? a : b; }
int kse_spawn(void (*fn)(void *), void *arg);
int kse_done(int id);
int kse_self();
void kse_yield();
void kse_join(int id);
void kse_block_until(const volatile int *flag);
void kse_mt(long n);
void kse_sync(uint64_t id, void *p);
int kse_symbolic() { return 0; }
void *scalable_malloc(size_t n) { return malloc(n); }
void scalable_free(void *p) { free(p); }
unsigned _ZNSt6thread20hardware_concurrencyEv() { return kse_threads; }
}
#include <dlfcn.h>
// fibers: threads of which exactly one runs at a time; the schedule is part of the input sequence (see engine/src/interp.inc)
#include <condition_variable>
#include <mutex>
#include <thread>
namespace {
struct Fib { int state = 0, kind = 0; uint64_t addr = 0; uint64_t spinId = 0; void *spinAddr = nullptr; int spinRep = 0; void (*fn)(void *) = nullptr; void *arg = nullptr; };
std::vector<Fib *> &F() { static std::vector<Fib *> v{new Fib}; return v; }
std::mutex baton; std::condition_variable turn; int cur = 0; thread_local int self = 0; bool mtm = false; long budget = 0;
void wait_turn() { std::unique_lock<std::mutex> l(baton); turn.wait(l, [] { return cur == self; }); }
void give(int to) { { std::lock_guard<std::mutex> l(baton); cur = to; } turn.notify_all(); }
int pick_next() {
  for (auto *f : F()) if (f->state == 2 && ((f->kind == 1 && F()[f->addr]->state == 1) || (f->kind == 2 && *(volatile int *)f->addr))) f->state = 0;
  std::vector<int> run; for (size_t i = 0; i < F().size(); ++i) if (F()[i]->state == 0) run.push_back(i);
  if (run.empty()) { puts("KSE-DEADLOCK"); leave(77); }
  if (!mtm) { for (size_t k = 1; k <= F().size(); ++k) { int i = (cur + k) % F().size(); if (F()[i]->state == 0) return i; } }
  uint64_t p = 0; if (run.size() > 1) { p = nxt(0); if (p >= run.size()) p = 0; } return run[p];
}
void resched() { int n = pick_next(); if (n != self) { give(n); wait_turn(); } }
}
extern "C" {
int kse_spawn(void (*fn)(void *), void *arg) {
  int id = -1; for (size_t i = 1; i < F().size(); ++i) if (F()[i]->state == 3) { id = i; break; }
  if (id >= 0) { auto *f = F()[id]; f->fn = fn; f->arg = arg; f->state = 0; f->spinId = 0; f->spinRep = 0; return id; }
  id = F().size(); F().push_back(new Fib); F()[id]->fn = fn; F()[id]->arg = arg;
  std::thread([id] { self = id; for (;;) { wait_turn(); F()[id]->fn(F()[id]->arg); F()[id]->state = 1; give(pick_next()); } }).detach(); return id;
}
int kse_done(int id) { return F()[id]->state == 1; }
int kse_self() { return self; }
void kse_yield() { resched(); }
void kse_join(int id) { while (F()[id]->state != 1) { auto *f = F()[self]; f->state = 2; f->kind = 1; f->addr = id; resched(); } F()[id]->state = 3; }
void kse_block_until(const volatile int *flag) { while (!*flag) { auto *f = F()[self]; f->state = 2; f->kind = 2; f->addr = (uint64_t)flag; resched(); } }
void kse_mt(long n) { budget = (int)n; mtm = n >= 0; }
void kse_sync(uint64_t id, void *p) {
  for (;;) {
    if (!mtm) return;
    int nr = 0; for (auto *f : F()) if (f->state == 0) nr++;
    if (nr < 2) return;
    auto *me = F()[self]; bool moved = false;
    if (me->spinId == id && me->spinAddr == p) { if (++me->spinRep >= 6) { me->spinRep = 0; for (size_t k = 1; k < F().size(); ++k) { int i = (self + k) % F().size(); if (F()[i]->state == 0) { give(i); wait_turn(); moved = true; break; } } } }
    else { me->spinId = id; me->spinAddr = p; me->spinRep = 0; }
    if (moved) continue;
    if (budget <= 0) return;
    if (!nxt(0)) return;
    budget--;
    std::vector<int> run; for (size_t i = 0; i < F().size(); ++i) if (F()[i]->state == 0 && (int)i != self) run.push_back(i);
    uint64_t q = 0; if (run.size() > 1) { q = nxt(0); if (q >= run.size()) q = 0; }
    give(run[q]); wait_turn();
  }
}
}
int main() { const char *e = getenv("KSE_ENTRY"); auto f = e ? (void (*)())dlsym(RTLD_DEFAULT, e) : nullptr; if (!f) { puts("REPLAY-DIVERGED no entry"); leave(0); } f(); puts("REPLAY-OK"); leave(0); }
#endif
