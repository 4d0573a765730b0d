#include "mc.h"

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>

#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>

#include "mdf/mdffactory.h"
#include "mdf/mdflogstream.h"

namespace mc {
namespace {
constexpr int kMaxWorkers = 32;
constexpr size_t kSeqMax = 4000;
std::string g_scratch;
int g_worker = 0;

double Now() {
  timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);  // not steady_clock: harnesses may virtualize that
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}

struct Slot {
  std::atomic<double> started;      // 0: not in a case
  std::atomic<uint64_t> index;      // running case index (1-based)
  std::atomic<uint64_t> done;       // executed cases
  std::atomic<uint64_t> steps;
  std::atomic<uint64_t> planned;    // number of leaves enumerated
  std::atomic<int> complete;
  std::atomic<uint32_t> seq_len;
  uint16_t seq[kSeqMax];
  std::atomic<int> has_sample;
  char sample[2][1500];
};
struct Shared {
  std::atomic<int> stop;
  std::atomic<uint64_t> next;       // cases are handed out to the workers in order
  Slot slot[kMaxWorkers];
};
Shared* sh = nullptr;

std::vector<uint32_t> Choices(const Ctx& c) {
  std::vector<uint32_t> v;
  for (auto& p : c.seq_) v.push_back(p.v);
  return v;
}
std::string SeqText(const std::vector<uint32_t>& v) {
  std::string s;
  for (auto x : v) s += (s.empty() ? "" : ",") + std::to_string(x);
  return s;
}

// Advance to the next sequence; false when the space is exhausted.
bool Next(Ctx& c) {
  auto& s = c.seq_;
  while (!s.empty()) {
    auto& p = s.back();
    if (p.v + 1 < p.n) {
      bool ok = true;
      if (p.dev && p.v == 0) {
        size_t d = 0;
        for (size_t i = 0; i + 1 < s.size(); ++i) d += (s[i].dev && s[i].v != 0);
        ok = d < c.dev_bound;
      }
      if (ok) { ++p.v; return true; }
    }
    s.pop_back();
  }
  return false;
}

struct Violation {
  std::string scenario, key, msg, desc;
  std::vector<uint32_t> seq;
  int dev_bound = 0;
  bool hang = false;
};

std::string Esc(const std::string& s) {
  std::string o;
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
    else if (ch < 0x20 || ch > 0x7e) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
    else o += ch;
  }
  return o;
}
std::string OneLine(std::string s) {
  for (auto& ch : s) if (ch == '\n' || ch == '\r' || ch == '\t') ch = ' ';
  return s;
}

void ChildInit(const std::string& dir, const std::string& err) {
  mkdir(dir.c_str(), 0700);
  g_scratch = dir;
  setenv("TMPDIR", dir.c_str(), 1);
  if (chdir(dir.c_str()) != 0) _exit(99);
  int fd = open(err.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
  if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); close(fd); }
  struct rlimit rl {0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  mdf::MdfLogStream::SetLogFunction1([](const MdfLocation&, mdf::MdfLogSeverity, const std::string&) {});
}

void RunOne(const Scenario& s, Ctx& c) {
  c.pos_ = 0; c.devs_ = 0; c.steps_ = 0; c.desc_.clear(); c.executed_ = false;
  s.body(c);
}

void RmTree(const std::string& d) {
  if (d.rfind("/", 0) != 0 || d.size() < 8) return;
  pid_t p = fork();
  if (p == 0) { execlp("rm", "rm", "-rf", "--", d.c_str(), (char*)nullptr); _exit(1); }
  int st; waitpid(p, &st, 0);
}

// Run one recorded case alone. Returns 0 ok, 1 failed (key,msg set), 2 hang.
int RunAlone(const Scenario& s, const std::vector<uint32_t>& seq, int dev_bound, bool thorough, double limit,
             const std::string& root, Violation& out) {
  std::string rep = root + "/alone.txt", err = root + "/alone.err";
  unlink(rep.c_str());
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    setpgid(0, 0);
    ChildInit(root + "/alone", err);
    Ctx c;
    c.thorough = thorough; c.dev_bound = dev_bound; c.verbose = true;
    for (auto v : seq) c.seq_.push_back({0, v, false});
    c.mine_fn_ = [](Ctx&) { return true; };
    c.outcome_fn_ = [](uint64_t) {};
    FILE* f = fopen(rep.c_str(), "w");
    try { RunOne(s, c); fprintf(f, "OK\n"); }
    catch (Skip&) { fprintf(f, "OK\n"); }
    catch (Fail& e) { fprintf(f, "FAIL\n%s\n%s\n%s\n", e.key.c_str(), OneLine(e.msg).c_str(), OneLine(c.desc_).c_str()); }
    catch (std::exception& e) { fprintf(f, "FAIL\nexception\nuncaught exception: %s\n%s\n", OneLine(e.what()).c_str(), OneLine(c.desc_).c_str()); }
    fclose(f);
    _exit(0);
  }
  double t0 = Now();
  int st = 0;
  for (;;) {
    if (waitpid(pid, &st, WNOHANG) == pid) break;
    if (Now() - t0 > limit) { kill(-pid, SIGKILL); kill(pid, SIGKILL); waitpid(pid, &st, 0);
      out.key = "hang"; out.msg = "execution did not terminate within " + std::to_string((int)limit) + " s"; out.hang = true; return 2; }
    usleep(2000);
  }
  RmTree(root + "/alone");
  std::ifstream in(rep);
  std::string l;
  std::getline(in, l);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && l == "OK") return 0;
  if (l == "FAIL") {
    std::getline(in, out.key); std::getline(in, out.msg); std::getline(in, out.desc);
    return 1;
  }
  std::ifstream e(err);
  std::string sum, line;
  while (std::getline(e, line))
    if (line.find("ERROR: ") != std::string::npos || line.find("SUMMARY") != std::string::npos ||
        line.find("runtime error") != std::string::npos || line.find("terminate called") != std::string::npos ||
        line.find("what():") != std::string::npos || line.find("Assertion") != std::string::npos)
      if (sum.size() < 1500) sum += line + " | ";
  out.key = "crash";
  out.msg = "process died (" + std::string(WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st)) : "exit " + std::to_string(WEXITSTATUS(st))) + ") " + sum;
  return 1;
}
}  // namespace

int Worker() { return g_worker; }
const std::string& Scratch() { return g_scratch; }

size_t Ctx::choose(size_t n) {
  if (pos_ < seq_.size()) {
    auto& p = seq_[pos_++];
    p.n = (uint32_t)n; p.dev = false;
    if (p.v >= n) throw std::runtime_error("explorer: replay divergence (choice out of range)");
    return p.v;
  }
  seq_.push_back({(uint32_t)n, 0, false});
  ++pos_;
  return 0;
}
size_t Ctx::dev(size_t n) {
  if (pos_ < seq_.size()) {
    auto& p = seq_[pos_++];
    p.n = (uint32_t)n; p.dev = true;
    if (p.v >= n) throw std::runtime_error("explorer: replay divergence (choice out of range)");
    return p.v;
  }
  seq_.push_back({(uint32_t)n, 0, true});
  ++pos_;
  return 0;
}
bool Ctx::mine() { return mine_fn_(*this); }
void Ctx::fail(const std::string& key, const std::string& msg) { throw Fail{key, msg}; }
void Ctx::outcome(uint64_t h) { outcome_fn_(h); }
void Ctx::outcome(const std::string& s) { outcome_fn_(Hash(s.data(), s.size())); }

uint64_t Hash(const void* p, size_t n, uint64_t h) {
  auto* b = static_cast<const uint8_t*>(p);
  for (size_t i = 0; i < n; ++i) { h ^= b[i]; h *= 1099511628211ull; }
  h ^= h >> 29;
  return h;
}
std::string Hex(const void* p, size_t n) {
  auto* b = static_cast<const uint8_t*>(p);
  std::string s; char t[4];
  for (size_t i = 0; i < n && i < 200; ++i) { snprintf(t, sizeof t, "%02x", b[i]); s += t; }
  if (n > 200) s += "...";
  return s;
}

int Main(int argc, char** argv, const char* id, const std::vector<Scenario>& scenarios) {
  std::string tier = "quick", out, scratch = "/tmp/mc_" + std::string(id) + "_" + std::to_string(getpid());
  std::string replay, replay_dir, known_file, only;
  int workers = 8;
  double cap = 1e9;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--tier") tier = val();
    else if (a == "--out") out = val();
    else if (a == "--replay") replay = val();
    else if (a == "--replay-dir") replay_dir = val();
    else if (a == "--known") known_file = val();
    else if (a == "--only") only = val();
    else if (a == "--workers") workers = std::stoi(val());
    else if (a == "--cap") cap = std::stod(val());
    else if (a == "--scratch") scratch = val();
  }
  if (workers > kMaxWorkers) workers = kMaxWorkers;
  mkdir(scratch.c_str(), 0700);
  bool thorough = tier == "thorough";

  if (!replay.empty()) {
    std::ifstream in(replay);
    std::map<std::string, std::string> kv;
    std::string l;
    while (std::getline(in, l)) { auto p = l.find('='); if (p != std::string::npos) kv[l.substr(0, p)] = l.substr(p + 1); }
    std::vector<uint32_t> seq;
    std::stringstream ss(kv["choices"]);
    while (std::getline(ss, l, ',')) if (!l.empty()) seq.push_back(std::stoul(l));
    for (auto& s : scenarios) if (s.name == kv["scenario"]) {
      Violation v;
      int r = RunAlone(s, seq, std::stoi(kv["dev_bound"].empty() ? "0" : kv["dev_bound"]), kv["tier"] == "thorough", s.hang_s * 4, scratch, v);
      std::cout << (r == 0 ? "REPLAY OK" : "REPLAY FAILS key=" + v.key + " msg=" + v.msg + " case=" + v.desc) << std::endl;
      std::ifstream e(scratch + "/alone.err");
      std::cout << e.rdbuf();
      RmTree(scratch);
      return r ? 1 : 0;
    }
    std::cout << "unknown scenario\n";
    return 1;
  }

  std::map<std::string, std::string> known;  // key -> description
  {
    std::ifstream in(known_file);
    std::string l;
    std::string pre = std::string("known: property=") + id + " key=";
    while (std::getline(in, l)) if (l.rfind(pre, 0) == 0) {
      auto r = l.substr(pre.size());
      auto p = r.find(' ');
      known[r.substr(0, p)] = p == std::string::npos ? "" : r.substr(p + 1);
    }
  }

  sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  double t_begin = Now();
  uint64_t total_exec = 0, total_steps = 0, total_planned = 0;
  std::unordered_set<uint64_t> outcomes;
  std::vector<Violation> confirmed;
  std::set<std::string> known_hit;
  std::vector<std::string> samples;
  std::ostringstream per;
  bool exhaustive = true;
  int unconfirmed = 0;

  for (auto& s : scenarios) {
    if (!only.empty() && s.name != only) continue;
    int bound = thorough ? s.dev_thorough : s.dev_quick;
    double t_s = Now();
    sh->stop = 0;
    sh->next = 0;
    for (int w = 0; w < workers; ++w) {
      auto& sl = sh->slot[w];
      sl.started = 0; sl.index = 0; sl.done = 0; sl.steps = 0; sl.planned = 0; sl.complete = 0; sl.seq_len = 0; sl.has_sample = 0;
    }
    std::vector<pid_t> pid(workers, 0);
    std::string base = scratch + "/" + s.name;
    fflush(nullptr); std::cout.flush();
    auto spawn = [&](int w) {
      std::string wd = base + "_w" + std::to_string(w);
      pid_t p = fork();
      if (p != 0) { pid[w] = p; return; }
      setpgid(0, 0);
      g_worker = w;
      ChildInit(wd, wd + ".err");
      auto& sl = sh->slot[w];
      std::unordered_set<uint64_t> mine_out;
      FILE* fo = fopen((wd + ".out").c_str(), "a");
      FILE* fv = fopen((wd + ".viol").c_str(), "a");
      Ctx c;
      c.thorough = thorough; c.dev_bound = bound;
      uint64_t idx = 0, claim = 0;
      c.mine_fn_ = [&](Ctx& cc) {
        ++idx;
        if (claim == 0) claim = sh->next.fetch_add(1) + 1;
        if (idx != claim) return false;
        claim = 0;
        cc.executed_ = true;
        sl.seq_len = (uint32_t)cc.seq_.size();
        for (size_t i = 0; i < cc.seq_.size() && i < kSeqMax; ++i) sl.seq[i] = (uint16_t)cc.seq_[i].v;
        sl.index = idx;
        sl.started = Now();
        return true;
      };
      c.outcome_fn_ = [&](uint64_t h) { if (mine_out.insert(h).second) fwrite(&h, 8, 1, fo); };
      bool more = true;
      while (more) {
        if (sh->stop) break;
        try {
          RunOne(s, c);
        } catch (Skip&) {
        } catch (Fail& e) {
          fprintf(fv, "%s\t%s\t%s\t%s\n", SeqText(Choices(c)).c_str(), OneLine(e.key).c_str(), OneLine(e.msg).c_str(), OneLine(c.desc_).c_str());
          fflush(fv);
          if (!known.count(e.key)) sh->stop = 1;
        } catch (std::exception& e) {
          fprintf(fv, "%s\texception\tuncaught exception: %s\t%s\n", SeqText(Choices(c)).c_str(), OneLine(e.what()).c_str(), OneLine(c.desc_).c_str());
          fflush(fv);
          if (!known.count("exception")) sh->stop = 1;
        }
        sl.started = 0;
        if (c.executed_) {
          sl.done = sl.done + 1;
          sl.steps = sl.steps + c.steps_;
          if (sl.has_sample < 2 && (sl.has_sample == 0 || sl.done > 7)) {
            std::string d = s.name + ": " + (c.desc_.empty() ? "choices " + SeqText(Choices(c)) : c.desc_);
            strncpy(sl.sample[sl.has_sample], d.c_str(), 1499);
            sl.has_sample = sl.has_sample + 1;
          }
        }
        // A body that failed while planning would be the harness' own fault.
        c.seq_.resize(std::min(c.seq_.size(), c.pos_));
        more = Next(c);
        sl.planned = idx;
      }
      if (!more) sl.complete = 1;
      fclose(fo); fclose(fv);
      _exit(0);
    };
    for (int w = 0; w < workers; ++w) spawn(w);
    std::vector<Violation> cand;
    bool capped = false;
    int live = workers;
    while (live > 0) {
      usleep(3000);
      double now = Now();
      if (now - t_begin > cap && !sh->stop) { sh->stop = 2; capped = true; }
      for (int w = 0; w < workers; ++w) {
        if (pid[w] == 0) continue;
        auto& sl = sh->slot[w];
        int st = 0;
        bool dead = waitpid(pid[w], &st, WNOHANG) == pid[w];
        bool hung = false;
        double stt = sl.started;
        if (!dead && stt > 0 && now - stt > s.hang_s) {
          hung = true;
          kill(-pid[w], SIGKILL); kill(pid[w], SIGKILL); waitpid(pid[w], &st, 0);
          dead = true;
        }
        if (!dead) continue;
        if (!hung && WIFEXITED(st) && WEXITSTATUS(st) == 0) { pid[w] = 0; --live; continue; }
        // crash or hang: attribute to the case in shared memory
        Violation v;
        v.scenario = s.name; v.dev_bound = bound; v.hang = hung;
        uint32_t n = sl.seq_len;
        for (uint32_t i = 0; i < n && i < kSeqMax; ++i) v.seq.push_back(sl.seq[i]);
        v.key = hung ? "hang" : "crash";
        cand.push_back(v);
        if (sl.started == 0 || cand.size() > 40) { sh->stop = 1; pid[w] = 0; --live; continue; }  // died outside a case
        sl.started = 0;
        sl.done = sl.done + 1;
        if (known.empty()) sh->stop = 1;
        spawn(w);
      }
    }
    for (int w = 0; w < workers; ++w) {
      auto& sl = sh->slot[w];
      total_exec += sl.done; total_steps += sl.steps;
      if (!sl.complete && !capped) { if (!sh->stop) exhaustive = false; }
      for (int k = 0; k < sl.has_sample && samples.size() < 12; ++k) if (w < 2) samples.push_back(sl.sample[k]);
      std::string wd = base + "_w" + std::to_string(w);
      std::ifstream fo(wd + ".out", std::ios::binary);
      uint64_t h;
      while (fo.read(reinterpret_cast<char*>(&h), 8)) outcomes.insert(h);
      std::ifstream fv(wd + ".viol");
      std::string l;
      while (std::getline(fv, l)) {
        Violation v;
        v.scenario = s.name; v.dev_bound = bound;
        std::stringstream ls(l);
        std::string sq, x;
        std::getline(ls, sq, '\t'); std::getline(ls, v.key, '\t'); std::getline(ls, v.msg, '\t'); std::getline(ls, v.desc, '\t');
        std::stringstream ss(sq);
        while (std::getline(ss, x, ',')) if (!x.empty()) v.seq.push_back(std::stoul(x));
        cand.push_back(v);
      }
    }
    if (capped) exhaustive = false;
    uint64_t pl = 0;
    for (int w = 0; w < workers; ++w) pl = std::max<uint64_t>(pl, sh->slot[w].planned);
    total_planned += pl;
    per << (per.tellp() > 0 ? ", " : "") << "\"" << s.name << "\": {\"cases\": " << pl << ", \"wall_s\": " << (Now() - t_s) << ", \"deviation_bound\": " << bound << "}";
    std::cout << "  scenario " << s.name << ": cases=" << pl << " wall=" << (Now() - t_s) << (capped ? " (time cap)" : "") << std::endl;
    // replay before report
    for (auto& v : cand) {
      if (known.count(v.key)) { known_hit.insert(v.key); continue; }
      if (confirmed.size() >= 5) break;
      bool ok = false;
      for (int k = 0; k < 3 && !ok; ++k) {
        Violation r;
        int rc = RunAlone(s, v.seq, bound, thorough, s.hang_s * 4.0, scratch, r);
        if (rc) {
          ok = true; v.key = r.key; v.msg = r.msg; if (!r.desc.empty()) v.desc = r.desc; v.hang = rc == 2;
        }
      }
      if (!ok) { ++unconfirmed; std::cout << "  (not reproduced: " << v.key << " " << v.msg << " choices " << SeqText(v.seq) << ")\n"; continue; }
      if (known.count(v.key)) { known_hit.insert(v.key); continue; }
      confirmed.push_back(v);
    }
    if (!confirmed.empty()) { exhaustive = false; break; }
    if (capped) break;
  }

  for (auto& k : known_hit) std::cout << "KNOWN-FINDING: property=" << id << " key=" << k << " " << known[k] << std::endl;
  int n = 0;
  for (auto& v : confirmed) {
    std::string path = replay_dir + "/" + id + "_" + std::to_string(++n) + ".replay";
    std::ofstream f(path);
    f << "property=" << id << "\nscenario=" << v.scenario << "\ntier=" << tier << "\ndev_bound=" << v.dev_bound << "\nchoices=" << SeqText(v.seq)
      << "\nkey=" << v.key << "\nmessage=" << v.msg << "\ncase=" << v.desc << "\n";
    f.close();
    std::cout << "  [" << v.scenario << "] " << v.key << ": " << v.msg.substr(0, 1500) << "\n    case: " << v.desc.substr(0, 1500) << std::endl;
    std::cout << "VIOLATION property=" << id << " replay=" << path << std::endl;
  }
  if (!out.empty()) {
    std::ofstream f(out);
    f << "{\"evaluations\": " << total_exec << ", \"distinct\": " << outcomes.size() << ", \"steps\": " << total_steps
      << ", \"cases\": " << total_planned << ", \"exhaustive\": " << (exhaustive ? "true" : "false") << ", \"violations\": " << confirmed.size()
      << ", \"unconfirmed\": " << unconfirmed << ", \"known\": " << known_hit.size() << ", \"scenarios\": {" << per.str() << "}, \"samples\": [";
    for (size_t i = 0; i < samples.size(); ++i) f << (i ? ", " : "") << "\"" << Esc(samples[i]) << "\"";
    f << "]}\n";
  }
  std::cout << "  total: evaluations=" << total_exec << " distinct_outcomes=" << outcomes.size() << " steps=" << total_steps
            << " exhaustive=" << exhaustive << " wall=" << (Now() - t_begin) << std::endl;
  RmTree(scratch);
  return confirmed.empty() ? 0 : 1;
}
}  // namespace mc
