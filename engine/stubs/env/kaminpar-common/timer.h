// Environment stub: timers have no effect.
#pragma once
#include <chrono>
#include <iostream>
#include <map>
#include <mutex>
#include <string>
#include <string_view>
#include <vector>
#include <tbb/enumerable_thread_specific.h>
#include <tbb/task_arena.h>
#define GLOBAL_TIMER (kaminpar::Timer::global())
#define GLOBAL_TIMER_PTR &(GLOBAL_TIMER)
#define ENABLE_TIMERS()
#define DISABLE_TIMERS()
#define SCOPED_TIMER(...)
#define START_TIMER(...)
#define STOP_TIMER()
#define TIMED_SCOPE(...) kaminpar::timer::TimedScopeStub{} + [&]
#define TIMER_BARRIER(...)
namespace kaminpar {
class Timer {
public:
  static Timer &global() { static Timer t; return t; }
  Timer() {} explicit Timer(std::string_view) {}
  template <typename... A> void start_timer(A &&...) {} void stop_timer() {} template <typename... A> int start_scoped_timer(A &&...) { return 0; }
  template <typename... A> void print_human_readable(A &&...) {} template <typename... A> void print_machine_readable(A &&...) {}
  void enable() {} void disable() {} void enable_all() {} void disable_all() {} void reset() {}
};
namespace timer {
struct TimedScopeStub { template <typename F> decltype(auto) operator+(F &&f) { return f(); } };
struct LocalTimer { std::uint64_t elapsed() const { return 0; } void reset() {} };
}
}
