// Bounded exhaustive explorer (stateless, choice-sequence DFS) used by all checks.
//
// A scenario is a function `void body(Ctx&)`.  It first asks all its questions with
// choose()/dev() and then calls mine().  mine() ends the planning phase: it returns true in exactly
// one of the worker processes, which then executes the case on the real code.  The explorer
// enumerates every choice sequence (every one with at most `dev_bound` non-default dev() answers).
#pragma once
#include <cstdint>
#include <functional>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

namespace mc {

struct Fail {
  std::string key;  // identifies the failing input (for known findings)
  std::string msg;
};

struct Skip {};

class Ctx {
 public:
  bool thorough = false;
  // --- planning
  size_t choose(size_t n);
  size_t dev(size_t n);
  template <class T>
  const T& pick(const std::vector<T>& v) { return v[choose(v.size())]; }
  template <class T>
  const T& devpick(const std::vector<T>& v) { return v[dev(v.size())]; }
  bool flag() { return choose(2) != 0; }
  bool mine();
  // --- execution
  [[noreturn]] void fail(const std::string& key, const std::string& msg);
  void outcome(uint64_t h);
  void outcome(const std::string& s);
  void step(uint64_t n = 1) { steps_ += n; }
  void describe(const std::string& d) { desc_ = d; }
  bool verbose = false;

  // --- internals
  struct Point { uint32_t n, v; bool dev; };
  std::vector<Point> seq_;
  size_t pos_ = 0;
  size_t dev_bound = 0;
  size_t devs_ = 0;
  uint64_t steps_ = 0;
  std::string desc_;
  bool executed_ = false;
  std::function<bool(Ctx&)> mine_fn_;
  std::function<void(uint64_t)> outcome_fn_;
};

struct Scenario {
  std::string name;
  std::function<void(Ctx&)> body;
  int dev_quick = 2;
  int dev_thorough = 3;
  int hang_s = 30;  // a case that runs longer is replayed alone with 4x this limit
};

uint64_t Hash(const void* p, size_t n, uint64_t h = 1469598103934665603ull);
std::string Hex(const void* p, size_t n);

int Main(int argc, char** argv, const char* id, const std::vector<Scenario>& scenarios);

int Worker();  // number of this worker process
const std::string& Scratch();  // private scratch directory of this process tree

}  // namespace mc

#define MC_STR2(x) #x
#define MC_STR(x) MC_STR2(x)
// Fails the case when cond is false; key is the stable identification, the rest is streamed.
#define EXPECT(c, cond, key, stream)                 \
  do {                                               \
    if (!(cond)) {                                   \
      std::ostringstream mc_os_;                     \
      mc_os_ << stream;                              \
      (c).fail(key, mc_os_.str());                   \
    }                                                \
  } while (0)
