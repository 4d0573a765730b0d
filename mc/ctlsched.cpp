#include "ctlsched.h"
#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <semaphore.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>
#include <atomic>
#include <chrono>
#include <map>

namespace {
constexpr int kMax = 6;         // threads per execution
constexpr uint64_t kStepLimit = 200000;

template <class F> F Real(const char* name) { return (F)dlsym(RTLD_NEXT, name); }
using LockF = int (*)(pthread_mutex_t*);
using CondWaitF = int (*)(pthread_cond_t*, pthread_mutex_t*);
using CondClockF = int (*)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const timespec*);
using CondTimedF = int (*)(pthread_cond_t*, pthread_mutex_t*, const timespec*);
using CondSigF = int (*)(pthread_cond_t*);
using CreateF = int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
using JoinF = int (*)(pthread_t, void**);
LockF r_lock, r_unlock, r_trylock; CondWaitF r_wait; CondClockF r_clock; CondTimedF r_timed; CondSigF r_sig, r_bcast; CreateF r_create; JoinF r_join;
void Resolve() {
  if (r_lock) return;
  r_unlock = Real<LockF>("pthread_mutex_unlock"); r_trylock = Real<LockF>("pthread_mutex_trylock");
  r_wait = Real<CondWaitF>("pthread_cond_wait"); r_clock = Real<CondClockF>("pthread_cond_clockwait"); r_timed = Real<CondTimedF>("pthread_cond_timedwait");
  r_sig = Real<CondSigF>("pthread_cond_signal"); r_bcast = Real<CondSigF>("pthread_cond_broadcast"); r_create = Real<CreateF>("pthread_create");
  r_join = Real<JoinF>("pthread_join"); r_lock = Real<LockF>("pthread_mutex_lock");
}

struct VC { uint32_t c[kMax] = {}; void Join(const VC& o) { for (int i = 0; i < kMax; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; } };

enum State { kReady, kMutex, kCond, kTimed, kJoin, kDone };
struct Thr {
  int id = 0;
  State st = kReady;
  void* obj = nullptr;        // mutex / cond waited for
  pthread_mutex_t* relock = nullptr;
  int join_id = -1;
  bool timed_out = false;
  uint64_t seq = 0;           // wait order
  int64_t deadline = 0; clockid_t clk = CLOCK_MONOTONIC;
  sem_t sem;
  pthread_t handle{};
  VC vc;
  void* (*fn)(void*) = nullptr; void* arg = nullptr;
};
struct Mtx { int owner = -1; VC vc; };
struct Atom { VC vc; };

std::atomic<bool> active{false};
thread_local Thr* me = nullptr;
Thr thr[kMax];
int nthr = 0, live = 0;
std::map<void*, Mtx>* mtx;
std::map<void*, Atom>* atoms;
std::vector<uint8_t> prefix;
sched::Run* run;
uint64_t wait_seq, steps;
int64_t off_mono, off_real;
bool races_on;

int64_t RealNow(clockid_t id) { timespec ts; clock_gettime(id, &ts); return ts.tv_sec * 1000000000ll + ts.tv_nsec; }

[[noreturn]] void Die(const char* what) {
  fprintf(stderr, "ERROR: %s; schedule %s; threads:", what, run->trace.c_str());
  static const char* n[] = {"ready", "mutex", "cond", "timed-wait", "join", "done"};
  for (int i = 0; i < nthr; ++i) fprintf(stderr, " %d=%s", i, n[thr[i].st]);
  fprintf(stderr, "\n");
  fflush(stderr);
  _exit(78);
}

// ---------------------------------------------------------------- decisions
struct Option { int tid; bool timer; };

int Decide(Option* o, int n, const uint8_t* pc, const uint8_t* tc) {
  if (n == 1) return 0;
  size_t idx = run->points.size();
  sched::Point p{};
  p.n = (uint8_t)n;
  for (int i = 0; i < n; ++i) { p.preempt[i] = pc[i]; p.timer[i] = tc[i]; }
  p.chosen = idx < prefix.size() ? prefix[idx] : 0;
  if (p.chosen >= n) Die("nondeterministic replay");
  run->points.push_back(p);
  return p.chosen;
}

bool MutexFree(void* m) { auto it = mtx->find(m); return it == mtx->end() || it->second.owner < 0; }
bool Enabled(const Thr& t) {
  switch (t.st) {
    case kReady: return true;
    case kMutex: return MutexFree(t.obj);
    case kJoin: return thr[t.join_id].st == kDone;
    default: return false;
  }
}

// Chooses the next thread and transfers control to it.  Returns when this thread is scheduled again.
void Switch(const char* op) {
  if (++steps > kStepLimit) Die("no progress (step limit)");
  Option o[8]; uint8_t pc[8] = {}, tc[8] = {}; int n = 0;
  bool cur = Enabled(*me);
  if (cur) o[n++] = {me->id, false};
  for (int i = 0; i < nthr && n < 8; ++i) if (&thr[i] != me && Enabled(thr[i])) { pc[n] = cur ? 1 : 0; o[n++] = {i, false}; }
  bool any = n > 0;
  for (int i = 0; i < nthr && n < 8; ++i) if (thr[i].st == kTimed) { tc[n] = any ? 1 : 0; o[n++] = {i, true}; }
  if (n == 0) Die("deadlock");
  int k = Decide(o, n, pc, tc);
  Thr& t = thr[o[k].tid];
  if (run->trace.size() < 4000 && (k != 0 || !cur)) { char b[64]; snprintf(b, sizeof b, "%d>%d%s@%s ", me->id, t.id, o[k].timer ? "T" : "", op); run->trace += b; }
  if (o[k].timer) {
    // the timed wait expires: virtual time jumps, the waiter competes for its mutex
    auto& off = t.clk == CLOCK_MONOTONIC ? off_mono : off_real;
    int64_t need = t.deadline + 1000 - RealNow(t.clk);
    if (need > off) off = need;
    t.timed_out = true;
    t.st = kMutex; t.obj = t.relock;
    if (!Enabled(t)) { Switch(op); return; }
  }
  if (&t == me) { if (me->st != kReady) me->st = kReady; return; }
  t.st = kReady;
  sem_post(&t.sem);
  if (me->st == kDone) return;
  while (sem_wait(&me->sem) != 0) {}
}

// the running thread has been granted: acquire
void Acquire(pthread_mutex_t* m) {
  auto& x = (*mtx)[m];
  x.owner = me->id;
  me->vc.Join(x.vc);
}
void Release(pthread_mutex_t* m) {
  auto& x = (*mtx)[m];
  x.owner = -1;
  x.vc = me->vc;
  ++me->vc.c[me->id];
}
void LockM(pthread_mutex_t* m, const char* op) {
  for (;;) {
    me->st = kMutex; me->obj = m;
    Switch(op);
    if (MutexFree(m)) { Acquire(m); return; }
  }
}

void* Start(void* p) {
  me = (Thr*)p;
  while (sem_wait(&me->sem) != 0) {}
  void* r = me->fn(me->arg);
  me->st = kDone;
  --live;
  Switch("exit");
  me = nullptr;
  return r;
}

// ---------------------------------------------------------------- data races
struct Cell { uintptr_t g; uint32_t gen; uint32_t wclk; uint8_t wtid, wmask; void* wpc; uint32_t rclk[kMax]; uint8_t rmask[kMax]; void* rpc[kMax]; };
constexpr size_t kCells = 1 << 17;
Cell* cells;
uint32_t gen = 0;
size_t used = 0;

Cell* Find(uintptr_t g, bool make) {
  size_t h = (g * 0x9E3779B97F4A7C15ull) >> 47;
  for (size_t k = 0; k < 64; ++k) {
    Cell* c = &cells[(h + k) & (kCells - 1)];
    if (c->gen != gen) { if (!make) return nullptr; memset(c, 0, sizeof *c); c->gen = gen; c->g = g; c->wtid = 255; return c; }
    if (c->g == g) return c;
  }
  return nullptr;
}

std::string Sym(void* pc) {
  Dl_info i;
  if (dladdr(pc, &i) && i.dli_sname) { int s; char* d = abi::__cxa_demangle(i.dli_sname, nullptr, nullptr, &s); std::string r = d ? d : i.dli_sname; free(d); return r; }
  char b[32]; snprintf(b, sizeof b, "%p", pc); return b;
}

void Report(void* a, void* b, int ta, int tb, bool wa, bool wb) {
  if (!run->race.empty()) return;
  bool was = active; active = false;
  run->race = std::string("thread ") + std::to_string(ta) + (wa ? " writes" : " reads") + " in " + Sym(a) + ", thread " + std::to_string(tb) + (wb ? " writes" : " reads") + " in " + Sym(b);
  active = was;
}

void Access(uintptr_t a, size_t n, bool write, void* pc) {
  if (!active.load(std::memory_order_relaxed) || !me || !races_on || live < 2) return;
  ++run->accesses;
  uintptr_t sp = (uintptr_t)__builtin_frame_address(0);
  if (a > sp && a < sp + 65536) return;  // own stack
  while (n > 0) {
    size_t o = a & 7, k = n < 8 - o ? n : 8 - o;
    uint8_t mask = (uint8_t)(((1u << k) - 1) << o);
    Cell* c = Find(a >> 3, true);
    if (c) {
      if (c->wtid != 255 && c->wtid != me->id && (c->wmask & mask) && c->wclk > me->vc.c[c->wtid]) Report(c->wpc, pc, c->wtid, me->id, true, write);
      if (write) {
        for (int t = 0; t < nthr; ++t) if (t != me->id && (c->rmask[t] & mask) && c->rclk[t] > me->vc.c[t]) Report(c->rpc[t], pc, t, me->id, false, true);
        if (c->wtid == me->id && c->wclk == me->vc.c[me->id]) c->wmask |= mask; else c->wmask = mask;
        c->wtid = (uint8_t)me->id; c->wclk = me->vc.c[me->id]; c->wpc = pc;
      } else {
        if (c->rclk[me->id] == me->vc.c[me->id]) c->rmask[me->id] |= mask; else c->rmask[me->id] = mask;
        c->rclk[me->id] = me->vc.c[me->id]; c->rpc[me->id] = pc;
      }
    }
    a += k; n -= k;
  }
}
void Clear(void* p, size_t n) {
  if (!active.load(std::memory_order_relaxed) || !races_on || !p) return;
  for (uintptr_t g = (uintptr_t)p >> 3; g <= ((uintptr_t)p + n) >> 3; ++g) { Cell* c = Find(g, false); if (c) { uintptr_t s = c->g; uint32_t ge = c->gen; memset(c, 0, sizeof *c); c->g = s; c->gen = ge; c->wtid = 255; } }
}

bool Ctl() { return active.load(std::memory_order_relaxed) && me != nullptr; }

void AtomPoint(const volatile void* a) {
  if (!Ctl()) return;
  if (live > 1) { me->st = kReady; Switch("atomic"); }
  auto& x = (*atoms)[(void*)a];
  me->vc.Join(x.vc);
  x.vc.Join(me->vc);
  ++me->vc.c[me->id];
}
}  // namespace

// ---------------------------------------------------------------- pthread replacements
extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) {
  if (!Ctl()) { Resolve(); return r_lock(m); }
  LockM(m, "lock");
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!Ctl()) { Resolve(); return r_trylock(m); }
  me->st = kReady; Switch("trylock");
  if (!MutexFree(m)) return EBUSY;
  Acquire(m);
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!Ctl()) { Resolve(); return r_unlock(m); }
  Release(m);
  return 0;
}
static int CtlWait(pthread_cond_t* c, pthread_mutex_t* m, bool timed, clockid_t clk, const timespec* abs) {
  me->st = kReady; Switch("wait");
  Release(m);
  me->st = timed ? kTimed : kCond;
  me->obj = c; me->relock = m; me->seq = ++wait_seq; me->timed_out = false; me->clk = clk;
  if (timed) me->deadline = abs->tv_sec * 1000000000ll + abs->tv_nsec;
  Switch("wait");
  while (!MutexFree(m)) { me->st = kMutex; me->obj = m; Switch("relock"); }
  Acquire(m);
  return me->timed_out ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (!Ctl()) { Resolve(); return r_wait(c, m); } return CtlWait(c, m, false, CLOCK_MONOTONIC, nullptr); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t id, const timespec* abs) { if (!Ctl()) { Resolve(); return r_clock(c, m, id, abs); } return CtlWait(c, m, true, id, abs); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* abs) { if (!Ctl()) { Resolve(); return r_timed(c, m, abs); } return CtlWait(c, m, true, CLOCK_REALTIME, abs); }
static void Wake(pthread_cond_t* c, bool all) {
  for (;;) {
    Thr* best = nullptr;
    for (int i = 0; i < nthr; ++i) if ((thr[i].st == kCond || thr[i].st == kTimed) && thr[i].obj == c && (!best || thr[i].seq < best->seq)) best = &thr[i];
    if (!best) return;
    best->st = kMutex; best->obj = best->relock;
    if (!all) return;
  }
}
int pthread_cond_signal(pthread_cond_t* c) { if (!Ctl()) { Resolve(); return r_sig(c); } me->st = kReady; Switch("signal"); Wake(c, false); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) { if (!Ctl()) { Resolve(); return r_bcast(c); } me->st = kReady; Switch("broadcast"); Wake(c, true); return 0; }
int pthread_create(pthread_t* h, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
  Resolve();
  if (!Ctl()) return r_create(h, a, fn, arg);
  if (nthr >= kMax) Die("too many threads");
  Thr& t = thr[nthr];
  t.id = nthr; t.st = kReady; t.fn = fn; t.arg = arg; t.obj = nullptr;
  t.vc = me->vc; t.vc.c[t.id] = 1; ++me->vc.c[me->id];
  sem_init(&t.sem, 0, 0);
  ++nthr; ++live;
  int rc = r_create(h, a, Start, &t);
  t.handle = *h;
  me->st = kReady; Switch("create");
  return rc;
}
int pthread_join(pthread_t h, void** ret) {
  Resolve();
  if (!Ctl()) return r_join(h, ret);
  for (int i = 0; i < nthr; ++i) if (i != me->id && pthread_equal(thr[i].handle, h) && thr[i].fn) {
    while (thr[i].st != kDone) { me->st = kJoin; me->join_id = i; Switch("join"); }
    me->st = kReady;
    me->vc.Join(thr[i].vc);
    thr[i].fn = nullptr;
    return r_join(h, ret);
  }
  return r_join(h, ret);
}
}

namespace std { namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(RealNow(CLOCK_MONOTONIC) + off_mono)); }
system_clock::time_point system_clock::now() noexcept { return time_point(duration(RealNow(CLOCK_REALTIME) + off_real)); }
}}}

void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); Clear(p, n); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }

// ---------------------------------------------------------------- instrumentation callbacks
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(n) \
  void __tsan_read##n(void* a) { Access((uintptr_t)a, n, false, PC); } \
  void __tsan_write##n(void* a) { Access((uintptr_t)a, n, true, PC); } \
  void __tsan_volatile_read##n(void* a) { Access((uintptr_t)a, n, false, PC); } \
  void __tsan_volatile_write##n(void* a) { Access((uintptr_t)a, n, true, PC); } \
  void __tsan_unaligned_read##n(void* a) { Access((uintptr_t)a, n, false, PC); } \
  void __tsan_unaligned_write##n(void* a) { Access((uintptr_t)a, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, size_t n) { Access((uintptr_t)a, n, false, PC); }
void __tsan_write_range(void* a, size_t n) { Access((uintptr_t)a, n, true, PC); }
void __tsan_vptr_update(void** a, void* v) { if (*a != v) Access((uintptr_t)a, 8, true, PC); }
void __tsan_vptr_read(void** a) { Access((uintptr_t)a, 8, false, PC); }
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int) {}
#define AT(b, T) \
  T __tsan_atomic##b##_load(const volatile T* a, int) { AtomPoint(a); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##b##_store(volatile T* a, T v, int) { AtomPoint(a); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##b##_exchange(volatile T* a, T v, int) { AtomPoint(a); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##b##_fetch_add(volatile T* a, T v, int) { AtomPoint(a); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##b##_fetch_sub(volatile T* a, T v, int) { AtomPoint(a); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##b##_fetch_and(volatile T* a, T v, int) { AtomPoint(a); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##b##_fetch_or(volatile T* a, T v, int) { AtomPoint(a); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##b##_fetch_xor(volatile T* a, T v, int) { AtomPoint(a); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##b##_compare_exchange_strong(volatile T* a, T* e, T v, int, int) { AtomPoint(a); return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##b##_compare_exchange_weak(volatile T* a, T* e, T v, int, int) { AtomPoint(a); return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##b##_compare_exchange_val(volatile T* a, T e, T v, int, int) { AtomPoint(a); __atomic_compare_exchange_n(a, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
}

// ---------------------------------------------------------------- interface
namespace sched {
void Begin(const std::vector<uint8_t>& p, bool races) {
  Resolve();
  if (!mtx) { mtx = new std::map<void*, Mtx>; atoms = new std::map<void*, Atom>; cells = (Cell*)calloc(kCells, sizeof(Cell)); }
  mtx->clear(); atoms->clear();
  prefix = p;
  run = new Run;
  ++gen;
  races_on = races;
  wait_seq = 0; steps = 0; off_mono = off_real = 0;
  nthr = 1; live = 1;
  thr[0].id = 0; thr[0].st = kReady; thr[0].vc = VC(); thr[0].vc.c[0] = 1; thr[0].fn = nullptr;
  sem_init(&thr[0].sem, 0, 0);
  me = &thr[0];
  active = true;
}
Run End() {
  active = false;
  me = nullptr;
  Run r = std::move(*run);
  delete run;
  run = nullptr;
  return r;
}

uint64_t Explore(int P, int T, size_t part, size_t parts, size_t part2, size_t parts2, bool races, const std::function<void(const Run*)>& body, uint64_t max_runs) {
  std::vector<uint8_t> pre;
  uint64_t n = 0;
  for (;;) {
    Begin(pre, races);
    body(nullptr);
    Run r = End();
    ++n;
    body(&r);
    if (n >= max_runs) return n;
    // next schedule: deepest decision with another affordable option
    std::vector<int> cp(r.points.size() + 1, 0), ct(r.points.size() + 1, 0);
    for (size_t i = 0; i < r.points.size(); ++i) { cp[i + 1] = cp[i] + r.points[i].preempt[r.points[i].chosen]; ct[i + 1] = ct[i] + r.points[i].timer[r.points[i].chosen]; }
    size_t first = r.points.size(), second = r.points.size();
    for (size_t i = 0; i < r.points.size(); ++i) if (r.points[i].chosen) { if (first == r.points.size()) first = i; else { second = i; break; } }
    bool found = false;
    for (size_t i = r.points.size(); i-- > 0 && !found;) {
      if (i <= first && parts > 1 && i % parts != part) continue;  // the first deviation would be at i
      if (i > first && i <= second && parts2 > 1 && i % parts2 != part2) continue;  // the second deviation would be at i
      for (int k = r.points[i].chosen + 1; k < r.points[i].n; ++k) {
        if (cp[i] + r.points[i].preempt[k] > P || ct[i] + r.points[i].timer[k] > T) continue;
        pre.clear();
        for (size_t j = 0; j < i; ++j) pre.push_back(r.points[j].chosen);
        pre.push_back((uint8_t)k);
        found = true;
        break;
      }
    }
    if (!found) return n;
  }
}
}  // namespace sched
