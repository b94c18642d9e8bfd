// Environment stub: the PRNG returns arbitrary values (symbolic for the first kse_rand_budget draws, then a fixed sequence; constant draws if the budget is negative).
#pragma once
#include <algorithm>
#include <array>
#include <memory>
#include <mutex>
#include <numeric>
#include <random>
#include <vector>
#include "kaminpar-common/math.h"
#include "kse.h"
namespace kaminpar {
class Random {
public:
  Random() {}
  static Random &instance() { thread_local static Random r; return r; }
  static inline int seed_ = 0;
  static void reseed(int s) { seed_ = s; }
  static int get_seed() { return seed_; }
  Random(const Random &) = delete; Random &operator=(const Random &) = delete; Random(Random &&) noexcept = default;
  struct generator_type { using result_type = std::uint32_t; std::uint32_t s = 12345; static constexpr std::uint32_t min() { return 0; } static constexpr std::uint32_t max() { return 0xffffffffu; } std::uint32_t operator()() { s = s * 1664525u + 1013904223u; return s; } };
  void reinit(int) {}
  std::size_t random_index(const std::size_t lo, const std::size_t hi) {
    if (hi <= lo + 1) return lo;
    if (kse_rand_budget > 0) { --kse_rand_budget; return kse_concretize(kse_range("rand.index", lo, hi - 1)); }
    if (kse_rand_budget < 0) return lo; // constant draws
    return lo + (_generator() >> 8) % (hi - lo);
  }
  bool random_bool() { if (kse_rand_budget > 0) { --kse_rand_budget; return kse_sym("rand.bool", 1); } return kse_rand_budget < 0 ? false : (_generator() >> 16) & 1; }
  bool random_bool(const double prob) { if (kse_rand_budget > 0) { --kse_rand_budget; return kse_sym("rand.bool", 1); } if (kse_rand_budget < 0) return prob >= 1.0; return ((_generator() >> 8) & 0xffff) / 65536.0 <= prob; }
  template <typename Container> void shuffle(Container &&vec) { shuffle(vec.begin(), vec.end()); }
  template <typename Iterator> void shuffle(Iterator begin, Iterator end) { const std::size_t n = end - begin; for (std::size_t i = 1; i < n; ++i) std::swap(begin[i], begin[random_index(0, i + 1)]); }
  auto &generator() { return _generator; }
private:
  generator_type _generator;
};
template <typename ValueType, std::size_t size, std::size_t count> class RandomPermutations {
public:
  RandomPermutations(Random &rand) : _rand(&rand) { std::iota(_p.begin(), _p.end(), 0); }
  RandomPermutations() : _rand(&Random::instance()) { std::iota(_p.begin(), _p.end(), 0); }
  RandomPermutations(const RandomPermutations &) = delete; RandomPermutations &operator=(const RandomPermutations &) = delete; RandomPermutations(RandomPermutations &&) = delete;
  const std::array<ValueType, size> &get(Random &rand) { _rand = &rand; return get(); }
  const std::array<ValueType, size> &get() { if (kse_rand_budget > 0) { --kse_rand_budget; std::size_t r = kse_choose("rand.perm", 3); if (r == 1) std::reverse(_p.begin(), _p.end()); else if (r == 2) std::rotate(_p.begin(), _p.begin() + size / 2 + 1, _p.end()); } return _p; }
private:
  Random *_rand; std::array<ValueType, size> _p{};
};
}
