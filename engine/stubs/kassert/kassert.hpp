// Stand-in for the KAssert submodule (absent from this checkout): same interface, failures end in the engine.
#pragma once
#include <ostream>
#include <sstream>
#include <typeinfo>
#include "kse.h"
#ifndef KASSERT_ASSERTION_LEVEL
#define KASSERT_ASSERTION_LEVEL 10
#endif
#define KASSERT_ENABLED(level) ((level) <= KASSERT_ASSERTION_LEVEL)
namespace kassert { namespace assert { constexpr int normal = 30; } }
namespace kse_kassert {
constexpr bool on(int level) { return level <= KASSERT_ASSERTION_LEVEL; }
}
#define KSE_STR2(x) #x
#define KSE_STR(x) KSE_STR2(x)
#define KSE_KA_FAIL(c) kse_kassert_fail(#c " at " __FILE__)
#define KSE_KA3(c, msg, level) do { if constexpr (kse_kassert::on(level)) { if (!(c)) KSE_KA_FAIL(c); } } while (0)
#define KSE_KA2(c, msg) KSE_KA3(c, msg, 30)
#define KSE_KA1(c) KSE_KA3(c, "", 30)
#define KSE_KA_SEL(_1, _2, _3, N, ...) N
#define KASSERT(...) KSE_KA_SEL(__VA_ARGS__, KSE_KA3, KSE_KA2, KSE_KA1)(__VA_ARGS__)
#define THROWING_KASSERT(...) KASSERT(__VA_ARGS__)
#define THROWING_KASSERT_SPECIFIED(c, m, E, ...) do { if (!(c)) throw E(); } while (0)
