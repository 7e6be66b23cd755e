// Controlled scheduler: the library's threads run as fibers; every pthread and file-offset operation is a
// scheduling point; all schedules within a preemption / spurious-wakeup bound are enumerated depth first.
// The library is compiled with thread-sanitizer instrumentation, but linked against the runtime in sched.cpp, which
// checks every access of every explored schedule: data races (vector clocks), use after free, heap overflow.
#pragma once
#include <functional>
#include <string>
#include <vector>
#include <cstdint>
#include <unordered_set>
struct SchedResult {
  std::string fail, klass;         // first violation
  std::string schedule;            // schedule that shows it
  uint64_t schedules = 0, points = 0;
  bool capped = false;
  std::unordered_set<uint64_t> states;
};
struct SchedBounds { int preempt = 2; int spurious = 0; uint64_t maxsched = 0; };
// setup: called in the main thread before; bodies: thread bodies; finish: called in the main thread after all joined.
// Any of them may call sched_fail().
SchedResult sched_explore(const SchedBounds &b, std::function<void()> setup, std::vector<std::function<void()>> bodies, std::function<void()> finish);
void sched_fail(const char *cls, const std::string &msg);
bool sched_failed();
const char *sched_current();       // schedule so far, for crash handlers
