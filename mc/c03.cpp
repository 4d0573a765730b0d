// C03: no sample is lost, duplicated or reordered by background saving (all interleavings within the bounds).
#include <thread>
#include <sched.h>
#include "rec.h"
#include "ctlsched.h"
using namespace rec;
constexpr uint64_t kSec = 1'000'000'000ull;

struct Plan {
  Spec s;
  size_t producers = 1;      // 0: the main thread saves
  size_t samples = 2;        // per producer
  bool save_before_start = false;
  bool finalize = true;
  size_t bytes = 0;          // payload size of the large-record plans
  bool stop = true;          // false: the writer is destroyed without Stop/Finalize
  bool bus = false;          // CAN messages, payload in an own variable-length group
  bool light = false;        // expensive plan: smaller bounds
  std::string Text() const { std::ostringstream o; o << s.Text() << " producers=" << producers << " samples=" << samples << " prestart=" << save_before_start << " pretrig=" << s.pretrig << " bytes=" << bytes << " stop=" << stop << " bus=" << bus << " periodic=" << s.periodic; return o.str(); }
};

struct Exec {
  std::shared_ptr<MemDev> dev;
  std::vector<std::vector<std::pair<uint32_t, uint64_t>>> saved;  // per flat group, in order: value, time
  std::vector<size_t> after_start;                                 // number of samples saved before Start had returned
  bool ok = true;
};

static void Execute(const Plan& p, Exec& e) {
  e.dev = std::make_shared<MemDev>();
  auto w = NewWriter(p.s);
  auto flat = Flat(p.s);
  e.saved.assign(flat.size(), {});
  e.after_start.assign(flat.size(), 0);
  e.ok = w->Init(std::static_pointer_cast<std::streambuf>(e.dev));
  auto l = Configure(*w, p.s);
  e.ok = e.ok && w->InitMeasurement();
  auto produce = [&](size_t q) {
    for (size_t k = 0; k < p.samples; ++k) {
      size_t f = p.producers == 0 ? k % flat.size() : q % flat.size();
      auto [d, g] = flat[f];
      uint32_t v = (uint32_t)(1 + q * 1000 + k);
      uint64_t t = kStart + (uint64_t)(k + 1) * kSec;
      l.cn[d][g][1]->SetChannelValue(v);
      if (p.bytes) { Bytes b(p.bytes, (uint8_t)v); l.cn[d][g][2]->SetChannelValue(b); }
      if (k % 3 == 1) w->SaveSample(*l.cg[d][g], t);
      else if (k % 3 == 2 && !p.bytes) w->AddSample(*l.dg[d], *l.cg[d][g], t, l.cg[d][g]->GetSampleRecord());
      else w->SaveSample(*l.dg[d], *l.cg[d][g], t);
      e.saved[f].push_back({v, t});
    }
  };
  std::vector<std::thread> th;
  if (p.save_before_start) for (size_t q = 0; q < p.producers; ++q) th.emplace_back(produce, q);
  w->StartMeasurement(kStart);
  if (!p.save_before_start) for (size_t q = 0; q < p.producers; ++q) th.emplace_back(produce, q);
  if (p.producers == 0) produce(0);
  for (auto& t : th) t.join();
  if (!p.stop) { w.reset(); return; }
  w->StopMeasurement(kStart + 100 * kSec);
  if (p.finalize) e.ok = w->FinalizeMeasurement() && e.ok;
  w.reset();
}

static void Check(mc::Ctx& c, const Plan& p, const Exec& e, const sched::Run& run) {
  auto W = [&] { return " [schedule " + run.trace + "]"; };
  EXPECT(c, e.ok, "call-failed", "Init/InitMeasurement/FinalizeMeasurement returned false" << W());
  EXPECT(c, run.race.empty(), "data-race", run.race << W());
  MdfReader r(std::static_pointer_cast<std::streambuf>(std::make_shared<MemDev>(e.dev->data)));
  EXPECT(c, r.IsOk() && r.ReadEverythingButData(), "open", "file cannot be read" << W());
  if (!p.stop) return;
  EXPECT(c, r.GetHeader()->StartTime() == kStart, "start-time", "header start time " << r.GetHeader()->StartTime() << W());
  auto dgs = r.GetHeader()->DataGroups();
  auto flat = Flat(p.s);
  std::ostringstream out;
  for (size_t f = 0; f < flat.size(); ++f) {
    auto [d, g] = flat[f];
    auto* cg = dgs[d]->ChannelGroups()[g];
    auto ov = CreateChannelObserver(*dgs[d], *cg, *cg->Channels()[1]), om = CreateChannelObserver(*dgs[d], *cg, *cg->Channels()[0]);
    ChannelObserverPtr ob;
    if (p.bytes) ob = CreateChannelObserver(*dgs[d], *cg, *cg->Channels()[2]);
    EXPECT(c, r.ReadData(*dgs[d]), "read", "ReadData failed" << W());
    std::ostringstream got, want;
    for (size_t k = 0; k < ov->NofSamples(); ++k) { uint32_t v = 0; ov->GetChannelValue(k, v); got << v << " "; }
    for (auto& x : e.saved[f]) want << x.first << " ";
    out << got.str() << "|";
    EXPECT(c, cg->NofSamples() == ov->NofSamples(), "counter", GName(d, g) << ": counter " << cg->NofSamples() << " stored " << ov->NofSamples() << W());
    EXPECT(c, ov->NofSamples() == e.saved[f].size(), "count", GName(d, g) << ": stored " << got.str() << " saved " << want.str() << W());
    for (size_t k = 0; k < e.saved[f].size(); ++k) {
      uint32_t v = 0; double m = 0;
      ov->GetChannelValue(k, v); om->GetChannelValue(k, m);
      EXPECT(c, v == e.saved[f][k].first, "value", GName(d, g) << ": stored " << got.str() << " saved " << want.str() << W());
      EXPECT(c, m == (double)((int64_t)e.saved[f][k].second - (int64_t)kStart) / 1e9, "master", GName(d, g) << "[" << k << "] master time " << m << W());
      if (p.bytes) { Bytes b; ob->GetChannelValue(k, b); EXPECT(c, b == Bytes(p.bytes, (uint8_t)v), "payload", GName(d, g) << "[" << k << "] payload wrong" << W()); }
      c.step();
    }
  }
}

static Spec MakeSpec(MdfWriterType wt, bool zip, const std::vector<size_t>& groups, bool vlsd = false, size_t bytes = 0) {
  Spec s; s.writer = wt; s.compress = zip;
  for (auto n : groups) { Dg d; for (size_t g = 0; g < n; ++g) { Group gr; gr.ch = {MasterTime(), Ch(ChannelDataType::UnsignedIntegerLe, 4)}; if (vlsd) gr.ch.push_back(Vlsd(ChannelDataType::ByteArray)); else if (bytes) gr.ch.push_back(Ch(ChannelDataType::ByteArray, (uint32_t)bytes)); d.push_back(gr); } s.dgs.push_back(d); }
  return s;
}

static void Go(mc::Ctx& c, const Plan& p, int P, int T, size_t part, size_t parts, size_t part2, size_t parts2) {
  std::ostringstream t; t << p.Text() << " preemptions<=" << P << " timers<=" << T << " part " << part << "/" << parts << "." << part2 << "/" << parts2; c.describe(t.str());
  static std::set<std::string> warm;  // function-local statics are initialised before the controlled runs
  { cpu_set_t set, all; CPU_ZERO(&set); if (sched_getaffinity(0, sizeof all, &all) == 0 && CPU_ISSET(mc::Worker(), &all)) { CPU_SET(mc::Worker(), &set); sched_setaffinity(0, sizeof set, &set); } }  // one thread runs at a time
  if (warm.insert(p.Text()).second) { Exec e; Execute(p, e); }
  std::string pt = p.Text();
  std::vector<uint64_t> seen;
  Exec e;
  clock_t c0 = clock();
  uint64_t n = sched::Explore(P, T, part, parts, part2, parts2, true, [&](const sched::Run* r) {
    if (!r) { e = Exec(); Execute(p, e); return; }
    if (c.verbose && r->points.size()) { static bool once = false; if (!once) { once = true; printf("decision points %zu, accesses %llu\n", r->points.size(), (unsigned long long)r->accesses); } }
    Check(c, p, e, *r);
    c.step(r->points.size());
    std::string ch = pt; for (auto& q : r->points) ch += (char)q.chosen;
    seen.push_back(mc::Hash(ch.data(), ch.size()));
  });
  if (getenv("MC_TIME")) { FILE* tf = fopen(getenv("MC_TIME"), "a"); fprintf(tf, "%.2f n=%llu %s\n", (double)(clock() - c0) / CLOCKS_PER_SEC, (unsigned long long)n, t.str().c_str()); fclose(tf); }
  if (c.verbose) printf("schedules %llu\n", (unsigned long long)n);
  for (auto h : seen) c.outcome(h);
}

static std::vector<Plan> Plans() {
  std::vector<Plan> v;
  auto add = [&](Spec s, size_t prod, size_t n, bool pre = false, size_t bytes = 0, double pretrig = 0) { Plan p; p.s = s; p.producers = prod; p.samples = n; p.save_before_start = pre; p.bytes = bytes; p.s.pretrig = pretrig; v.push_back(p); };
  auto M4 = MdfWriterType::Mdf4Basic, M3 = MdfWriterType::Mdf3Basic, CV = MdfWriterType::MdfConverter;
  add(MakeSpec(M4, false, {1}), 1, 3);
  add(MakeSpec(M4, false, {2}), 2, 2);
  add(MakeSpec(M4, false, {1}, true), 1, 3, false, 5);
  add(MakeSpec(M4, true, {2}), 2, 2);
  add(MakeSpec(M4, false, {1, 1}), 2, 2);
  add(MakeSpec(M3, false, {1}), 1, 3);
  add(MakeSpec(M3, false, {2}), 2, 2);
  add(MakeSpec(M3, false, {1, 1}), 2, 2);
  add(MakeSpec(CV, false, {2}), 2, 2);
  add(MakeSpec(CV, true, {1}), 1, 3);
  add(MakeSpec(M4, false, {1}), 1, 2, true, 0, 1000);
  add(MakeSpec(M4, false, {2}), 2, 2, true, 0, 1000);
  add(MakeSpec(M3, false, {1}), 1, 2, true, 0, 1000);
  add(MakeSpec(M4, true, {1}), 1, 2, true, 0, 1000);
  { Plan p; p.s = MakeSpec(M4, false, {2}); p.producers = 2; p.samples = 2; p.stop = false; v.push_back(p); }
  { Plan p; p.s = MakeSpec(M3, false, {1}); p.producers = 1; p.samples = 2; p.stop = false; v.push_back(p); }
  { Plan p; p.s = MakeSpec(M4, true, {1}); p.producers = 1; p.samples = 2; p.stop = false; v.push_back(p); }
  { Plan p; p.s = MakeSpec(M4, false, {2}); p.producers = 2; p.samples = 2; p.s.periodic = false; v.push_back(p); }
  // more than one full compressed block is queued, so the periodic save stores it
  for (auto wt : {M4, CV}) { Plan p; p.s = MakeSpec(wt, true, {1}, false, 1'500'000); p.producers = 1; p.samples = 3; p.bytes = 1'500'000; p.light = true; v.push_back(p); }
  return v;
}

// P preemptions, T timer expirations
static void Interleave(mc::Ctx& c) {
  auto plans = Plans();
  size_t k = c.choose(plans.size());
  size_t parts = 16, part = c.choose(parts);
  size_t parts2 = plans[k].light ? 1 : 3, part2 = c.choose(parts2);
  int mode = (int)c.choose(c.thorough ? 3 : 2);
  if (plans[k].light && mode != (c.thorough ? 0 : 1)) return;
  if (plans[k].light && !c.thorough && k + 1 == plans.size()) return;  // the converter form only in the thorough tier
  if (!c.mine()) return;
  static const int B[3][2] = {{1, 1}, {0, 2}, {2, 1}};
  Go(c, plans[k], B[mode][0], plans[k].light ? 1 : B[mode][1], part, parts, part2, parts2);
}

int main(int argc, char** argv) {
  return mc::Main(argc, argv, "C03", {{"interleave", Interleave, 2, 3, 600}});
}
