#include "flushctl.h"
#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <time.h>
#include <unistd.h>
#include <atomic>
#include <chrono>

namespace {
std::atomic<uint64_t> entries{0};   // timed waits entered
std::atomic<int> waiting{0};        // threads inside a timed wait
std::atomic<int> tick{0};           // requested timeouts
std::atomic<pthread_cond_t*> cond_now{nullptr};
using TW = int (*)(pthread_cond_t*, pthread_mutex_t*, const timespec*);
using CW = int (*)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const timespec*);
CW RealCW() { static CW f = (CW)dlsym(RTLD_NEXT, "pthread_cond_clockwait"); return f; }

std::atomic<int64_t> offset_mono{0}, offset_real{0};  // virtual time jumps
int64_t RealNow(clockid_t id) { timespec ts; clock_gettime(id, &ts); return ts.tv_sec * 1000000000ll + ts.tv_nsec; }

// libstdc++ decides by the clock, not by the return value, whether a timed wait has timed out.
void Jump(clockid_t id, const timespec* abs) {
  auto& off = id == CLOCK_MONOTONIC ? offset_mono : offset_real;
  int64_t need = abs->tv_sec * 1000000000ll + abs->tv_nsec + 1000 - RealNow(id);
  if (need > off) off = need;
}

int Wait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t id, const timespec* abs) {
  ++entries;
  cond_now = c;
  ++waiting;
  int rc = 0;
  for (int k = 0; k < 20; ++k) {
    int t = tick.load();
    while (t > 0 && !tick.compare_exchange_weak(t, t - 1)) {}
    if (t > 0) { Jump(id, abs); rc = ETIMEDOUT; break; }
    timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    ts.tv_nsec += 2000000;
    if (ts.tv_nsec >= 1000000000) { ts.tv_nsec -= 1000000000; ++ts.tv_sec; }
    int r = RealCW()(c, m, CLOCK_MONOTONIC, &ts);
    if (r == 0) {
      t = tick.load();
      while (t > 0 && !tick.compare_exchange_weak(t, t - 1)) {}
      if (t > 0) Jump(id, abs);
      rc = t > 0 ? ETIMEDOUT : 0;
      break;
    }
  }
  --waiting;
  return rc;  // 0 after the loop is a spurious wake-up, which the waiter has to handle anyway
}
}  // namespace

extern "C" int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t id, const timespec* abs) { return Wait(c, m, id, abs); }
extern "C" int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* abs) { return Wait(c, m, CLOCK_REALTIME, abs); }

namespace std { namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(RealNow(CLOCK_MONOTONIC) + offset_mono)); }
system_clock::time_point system_clock::now() noexcept { return time_point(duration(RealNow(CLOCK_REALTIME) + offset_real)); }
}}}

namespace flushctl {
uint64_t TimedWaits() { return entries; }
void Pass(bool) {}
bool Flush() {
  for (int k = 0; waiting == 0; ++k) { if (k > 4000) return false; usleep(50); }
  uint64_t e = entries;
  tick = 1;
  for (int k = 0;; ++k) {
    if (tick == 0 && entries > e && waiting > 0) return true;
    if (tick > 0) { auto* c = cond_now.load(); if (c) pthread_cond_broadcast(c); }
    if (k > 200000) return false;
    usleep(k < 50 ? 20 : 200);
  }
}
}  // namespace flushctl
