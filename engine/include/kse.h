// Harness interface of the symbolic executor (and of its native replay).
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
uint64_t kse_sym(const char *name, unsigned bits);
uint64_t kse_range(const char *name, uint64_t lo, uint64_t hi);
int64_t kse_srange(const char *name, int64_t lo, int64_t hi);
void kse_sym_bytes(void *p, uint64_t n, const char *name);
uint64_t kse_choose(const char *name, uint64_t n);
void kse_assume(bool c);
void kse_assert(bool c, const char *msg);
void kse_fail(const char *msg) __attribute__((noreturn));
void kse_kassert_fail(const char *msg) __attribute__((noreturn, cold));
void kse_reach(const char *label);
uint64_t kse_concretize(uint64_t v);
int kse_is_sym(uint64_t v);
void kse_print(const char *name, uint64_t v);
void kse_check_init(const void *p, uint64_t n, const char *msg);
void kse_make_uninit(void *p, uint64_t n);
void kse_readonly(const void *p, int ro);
void kse_tag(const char *tag);
void kse_end() __attribute__((noreturn));
uint64_t kse_ite64(bool c, uint64_t a, uint64_t b);
int kse_spawn(void (*fn)(void *), void *arg);
int kse_done(int id);
int kse_self();
void kse_yield();
void kse_join(int id);
void kse_block_until(const volatile int *flag);
void kse_mt(long preemptions);
int kse_symbolic();
}
template <class T> static inline T kse_any(const char *n) { return static_cast<T>(kse_sym(n, sizeof(T) * 8)); }
template <class T> static inline T kse_in(const char *n, uint64_t lo, uint64_t hi) { return static_cast<T>(kse_range(n, lo, hi)); }
template <class T> static inline T kse_sin(const char *n, int64_t lo, int64_t hi) { return static_cast<T>(kse_srange(n, lo, hi)); }
// randomness and threading knobs of the environment stubs
extern int kse_rand_budget;   // number of symbolic draws before falling back to a fixed sequence
extern int kse_threads;       // number of worker threads seen by the code under test
extern int kse_chunks;        // how many pieces ranges are split into (sequentially) when threads == 1
extern int kse_mt_region;     // nonzero: parallel constructs run on fibers
