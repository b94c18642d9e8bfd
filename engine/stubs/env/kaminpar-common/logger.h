// Environment stub: logging has no effect (formatting is outside every property).
#pragma once
#include <atomic>
#include <cerrno>
#include <cstdint>
#include <cstring>
#include <iosfwd>
#include <memory>
#include <sstream>
#include <string>
#include <string_view>
#include <iostream>
#include <type_traits>
#include <utility>
#include <vector>
#include <tbb/spin_mutex.h>
namespace kaminpar {
namespace logger {
struct TextFormatter {}; struct ContainerFormatter {};
struct DefaultTextFormatter : TextFormatter {};
struct CompactContainerFormatter : ContainerFormatter { constexpr explicit CompactContainerFormatter(std::string_view) {} };
struct Table : ContainerFormatter { constexpr explicit Table(std::size_t) {} };
struct Colorized : TextFormatter { enum class Color { RED, GREEN, MAGENTA, ORANGE, CYAN, RESET }; constexpr explicit Colorized(Color) {} };
inline constexpr int DEFAULT_TEXT = 0, RED = 0, GREEN = 0, MAGENTA = 0, ORANGE = 0, CYAN = 0, RESET = 0, DEFAULT_CONTAINER = 0, COMPACT = 0, TABLE = 0;
}
class Logger {
public:
  Logger() {} template <typename... A> explicit Logger(A &&...) {}
  template <typename T> Logger &operator<<(T &&) { return *this; }
  void flush() {} static void set_quiet_mode(bool) {} static bool is_quiet() { return true; }
};
template <bool abort_on_destruction> class DisposableLogger : public Logger { public: using Logger::Logger; ~DisposableLogger() { if constexpr (abort_on_destruction) std::abort(); } template <typename T> DisposableLogger &operator<<(T &&) { return *this; } operator bool() { return false; } };
}
#define FILENAME __FILE__
#define POSITION FILENAME << ":" << __LINE__
#define CPU ""
#define SET_DEBUG(value) [[maybe_unused]] static constexpr bool kDebug = value
#define DBGC(cond) (kDebug && (cond)) && kaminpar::DisposableLogger<false>()
#define DBG DBGC(true)
#define IFDBG(x) (kDebug ? (x) : std::decay_t<decltype(x)>())
#define IF_DBG if constexpr (kDebug)
#define KSE_NOLOG false && kaminpar::DisposableLogger<false>()
#define LOG KSE_NOLOG
#define LLOG KSE_NOLOG
#define LOG_ERROR KSE_NOLOG
#define LOG_LERROR KSE_NOLOG
#define LOG_SUCCESS KSE_NOLOG
#define LOG_LSUCCESS KSE_NOLOG
#define LOG_WARNING KSE_NOLOG
#define LOG_LWARNING KSE_NOLOG
#define V(x) std::string(#x "=") << (x) << " "
#define C(x, y) "[" << (x) << " --> " << (y) << "] "
#define SET_STATISTICS(value) [[maybe_unused]] constexpr static bool kStatistics = value
#define IFSTATSC(cond, expr) ((cond) ? (expr) : std::decay_t<decltype(expr)>())
#define IFSTATS(expr) IFSTATSC(kStatistics, expr)
#define IF_STATSC(cond) if ((cond))
#define IF_STATS if constexpr (kStatistics)
#define LOG_STATS KSE_NOLOG
#define STATSC(cond) ((cond)) && LOG_STATS
#define STATS STATSC(kStatistics)
#define SET_STATISTICS_FROM_GLOBAL() SET_STATISTICS(false)
