// Controlled scheduler for stateless exploration of thread interleavings.
//
// The library and the harness are compiled with -fsanitize=thread; sched.cpp supplies the runtime functions the
// instrumentation calls and replaces pthread_create/join, mutexes and condition variables.  While a controlled
// execution is active exactly one thread runs; before every visible operation (lock, condition variable, thread
// creation/join, atomic access) the running thread asks which enabled thread continues.  Expirations of timed
// waits are scheduling choices too.  All plain memory accesses are checked for data races (happens-before).
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace sched {

struct Point {           // one scheduling decision
  uint8_t n;             // number of options
  uint8_t chosen;
  uint8_t preempt[8];    // cost of each option
  uint8_t timer[8];
};

struct Run {
  std::vector<Point> points;
  std::string race;      // first data race found, empty when none
  std::string trace;     // "tid:op ..." of the schedule
  uint64_t accesses = 0;
};

void Begin(const std::vector<uint8_t>& prefix, bool races);  // the calling thread becomes thread 0
Run End();                                                    // all other threads must have been joined

// Enumerates every schedule with at most `preempt` preemptions and `timers` chosen timer expirations whose first
// non-default decision has an index congruent to part modulo parts.  body executes one recording.
// Returns the number of executions.
uint64_t Explore(int preempt, int timers, size_t part, size_t parts, size_t part2, size_t parts2, bool races, const std::function<void(const Run*)>& body_and_check,
                 uint64_t max_runs = UINT64_MAX);
}  // namespace sched
