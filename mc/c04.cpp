// C04: pre-trigger window, start time and master time of the stored samples.
#include "rec.h"
#include "flushctl.h"
#include "mdf/mdfhelper.h"
#include "mdf/itimestamp.h"
using namespace rec;
constexpr uint64_t kSec = 1'000'000'000ull;

struct Sample { size_t d, g; uint64_t time; uint32_t value; };

static void Window(mc::Ctx& c) {
  static const std::vector<std::vector<size_t>> layouts = {{1}, {2}, {1, 1}, {3}, {2, 1}};
  // times
  size_t npre = c.choose(c.thorough ? 5 : 4);
  std::vector<uint64_t> inc;
  for (size_t k = 0; k < npre; ++k) inc.push_back(c.choose(3));
  static const std::vector<double> pres = {0, 1, 2, 2.5, 100};
  double pretrig = c.pick(pres);
  uint64_t start_off = c.choose(3);
  // deviations
  size_t wr = c.dev(3);
  size_t lay = c.dev(layouts.size());
  size_t grp = c.dev(3);
  size_t npost = c.dev(4);
  static const size_t posts[] = {2, 0, 1, 4};
  npost = posts[npost];
  size_t fl1 = c.dev(npre + 4), fl2 = c.dev(npre + 4);
  if (fl2 && fl2 <= fl1) return;
  size_t overload = c.dev(4);   // StartMeasurement(ns), UTC, local, timezone
  size_t base = c.dev(4);
  size_t master = c.dev(8);
  bool periodic = c.dev(2) == 0;
  size_t unit = c.dev(2);
  size_t without = c.dev(3);  // the even / the odd groups have no master
  if (wr == 2 && (master >= 6)) return;
  if (!c.mine()) return;
  const uint64_t U = unit ? 7 : kSec;  // unit 7 ns: differences below the double resolution of absolute time
  pretrig = unit ? pretrig * 7e-9 : pretrig;
  const uint64_t p_ns = (uint64_t)(pretrig * 1e9);
  uint64_t t = base == 0 ? kStart : base == 1 ? 5 * kSec : base == 2 ? kSec : 4'000'000'000'000'000'123ull;
  Spec s;
  s.writer = wr == 2 ? MdfWriterType::Mdf3Basic : MdfWriterType::Mdf4Basic;
  s.compress = wr == 1; s.pretrig = pretrig; s.periodic = periodic;
  for (auto n : layouts[lay]) { Dg d; for (size_t g = 0; g < n; ++g) { Group gr; gr.ch = {MasterTime(), Ch(ChannelDataType::UnsignedIntegerLe, 4)}; if (g == 1) gr.ch.push_back(Ch(ChannelDataType::UnsignedIntegerLe, 2)); d.push_back(gr); } s.dgs.push_back(d); }
  // master variants
  bool has_master = true, calc = true; double res = 0; double lin = 1, lin0 = 0; bool unsig = false;
  for (auto& d : s.dgs) for (auto& g : d) {
    auto& m = g.ch[0];
    switch (master) {
      case 1: m.dt = ChannelDataType::FloatBe; break;
      case 2: m.bytes = 4; res = 1e-3; break;
      case 3: has_master = false; break;
      case 4: calc = false; break;
      case 5: m.dt = ChannelDataType::SignedIntegerLe; res = 1; break;
      case 6: m.dt = ChannelDataType::SignedIntegerBe; lin = 1e-9; res = 1e-9; break;
      case 7: m.dt = ChannelDataType::UnsignedIntegerLe; m.bytes = 8; lin = 1e-6; lin0 = -1000.0; res = 1e-6; break;
      default: break;
    }
  }
  std::vector<std::vector<bool>> hm;
  { size_t n = 0; for (auto& d : s.dgs) { hm.emplace_back(); for (auto& g : d) { bool h = has_master && !(without && n % 2 == without - 1); ++n; hm.back().push_back(h); if (!h) g.ch.erase(g.ch.begin()); } } }
  auto flat = Flat(s);
  std::vector<Sample> pre, post;
  auto pick = [&](size_t k) { return flat[grp == 0 ? k % flat.size() : grp == 1 ? (k / 2) % flat.size() : flat.size() - 1 - k % flat.size()]; };
  uint32_t val = 1;
  for (size_t k = 0; k < npre; ++k) { t += inc[k] * U; auto f = pick(k); pre.push_back({f.first, f.second, t, val++}); }
  uint64_t start = t + start_off * U;
  t = start;
  for (size_t k = 0; k < npost; ++k) { auto f = pick(npre + k); post.push_back({f.first, f.second, t, val++}); t += (k % 2 ? 1 : 2) * U; }
  std::ostringstream tx; tx << s.Text() << " pretrig=" << pretrig << " start=" << start << " overload=" << overload << " master=" << master << " periodic=" << periodic << " flush=" << fl1 << "," << fl2 << " pre=";
  for (auto& x : pre) tx << x.d << "." << x.g << "@" << (int64_t)(x.time - start) << " "; tx << "post="; for (auto& x : post) tx << x.d << "." << x.g << "@" << (int64_t)(x.time - start) << " ";
  c.describe(tx.str());

  auto dev = std::make_shared<MemDev>();
  auto w = NewWriter(s);
  EXPECT(c, w->Init(std::static_pointer_cast<std::streambuf>(dev)), "window-init", "");
  auto l = Configure(*w, s);
  for (size_t d = 0; d < l.cn.size(); ++d) for (size_t k = 0; k < l.cn[d].size(); ++k) {
    if (!hm[d][k]) continue;
    auto& g = l.cn[d][k];
    if (!calc) g[0]->CalculateMasterTime(false);
    if (lin != 1) { auto* cc = g[0]->CreateChannelConversion(); cc->Type(ConversionType::Linear); cc->Parameter(0, lin0); cc->Parameter(1, lin); }
  }
  EXPECT(c, w->InitMeasurement(), "window-initmeas", "");
  size_t op = 0;
  auto point = [&] { ++op; if (op == fl1 || op == fl2) flushctl::Flush(); };
  auto vi = [&](size_t d, size_t g) -> size_t { return hm[d][g] ? 1 : 0; };
  auto save = [&](const Sample& x) {
    l.cn[x.d][x.g][vi(x.d, x.g)]->SetChannelValue(x.value);
    if (hm[x.d][x.g] && !calc) l.cn[x.d][x.g][0]->SetChannelValue(x.value * 1.5);
    if (x.value % 2) w->SaveSample(*l.dg[x.d], *l.cg[x.d][x.g], x.time); else w->SaveSample(*l.cg[x.d][x.g], x.time);
    point();
    c.step();
  };
  for (auto& x : pre) save(x);
  if (overload == 0) w->StartMeasurement(start);
  else if (overload == 1) { UtcTimestamp ts(start); w->StartMeasurement(ts); }
  else if (overload == 2) { LocalTimestamp ts(start); w->StartMeasurement(ts); }
  else { TimezoneTimestamp ts(start, 60, 60); w->StartMeasurement(ts); }
  point();
  for (auto& x : post) save(x);
  w->StopMeasurement(t + U);
  EXPECT(c, w->FinalizeMeasurement(), "window-finalize", "");
  w.reset();

  // expected, per queue (data group)
  uint64_t eff_start = start;
  if (overload == 3) eff_start = 0;  // the UTC instant of a time-zone time stamp is a matter of C25
  MdfReader r(std::static_pointer_cast<std::streambuf>(std::make_shared<MemDev>(dev->data)));
  EXPECT(c, r.ReadEverythingButData(), "window-open", "");
  auto dgs = r.GetHeader()->DataGroups();
  EXPECT(c, dgs.size() == s.dgs.size(), "window-dg", "");
  if (wr != 2 && overload != 3) EXPECT(c, r.GetHeader()->StartTime() == start, "window-start", "header start time " << r.GetHeader()->StartTime() << " expected " << start);
  if (wr == 2 && overload == 0 && base != 1 && base != 2) EXPECT(c, r.GetHeader()->StartTime() == start, "window-start", "header start time " << r.GetHeader()->StartTime() << " expected " << start);
  std::ostringstream out;
  for (size_t d = 0; d < s.dgs.size(); ++d) {
    std::vector<Sample> want;
    size_t first = 0, n = 0;
    std::vector<Sample> q;
    for (auto& x : pre) if (x.d == d) q.push_back(x);
    for (n = 0; n < q.size(); ++n) if (q[n].time + p_ns < start) first = n;  // the last one before the window
    for (n = first; n < q.size(); ++n) want.push_back(q[n]);
    for (auto& x : post) if (x.d == d) want.push_back(x);
    if (overload == 3) continue;
    auto cgs = dgs[d]->ChannelGroups();
    std::vector<ChannelObserverPtr> ov, om;
    for (size_t g = 0; g < cgs.size(); ++g) { auto* cg = cgs[g]; ov.push_back(CreateChannelObserver(*dgs[d], *cg, *cg->Channels()[vi(d, g)])); om.push_back(CreateChannelObserver(*dgs[d], *cg, *cg->Channels()[0])); }
    EXPECT(c, r.ReadData(*dgs[d]), "window-read", "");
    for (size_t g = 0; g < cgs.size(); ++g) {
      std::vector<Sample> mine;
      for (auto& x : want) if (x.g == g) mine.push_back(x);
      std::ostringstream got;
      for (size_t k = 0; k < ov[g]->NofSamples(); ++k) { uint32_t v = 0; ov[g]->GetChannelValue(k, v); got << v << " "; }
      EXPECT(c, cgs[g]->NofSamples() == mine.size() && ov[g]->NofSamples() == mine.size(), "window-count", GName(d, g) << ": " << cgs[g]->NofSamples() << " samples (" << got.str() << ") expected " << mine.size());
      for (size_t k = 0; k < mine.size(); ++k) {
        uint32_t v = 0;
        EXPECT(c, ov[g]->GetChannelValue(k, v) && v == mine[k].value, "window-value", GName(d, g) << "[" << k << "] is sample " << v << " expected " << mine[k].value);
        out << v << ",";
        if (!hm[d][g]) continue;
        double m = 0;
        bool ok = om[g]->GetEngValue(k, m);
        EXPECT(c, ok, "window-mvalid", "master invalid");
        if (!calc) { EXPECT(c, m == mine[k].value * 1.5, "window-usermaster", "user master " << m << " expected " << mine[k].value * 1.5); continue; }
        double want_m = (double)(int64_t)(mine[k].time - start) / 1e9;
        double tol = res > 0 ? res * 1.0001 : fabs(want_m) * 2.3e-16;
        if (res == 0) EXPECT(c, m == want_m, "window-master", GName(d, g) << "[" << k << "] master " << m << " expected " << want_m);
        EXPECT(c, fabs(m - want_m) <= tol, "window-master", GName(d, g) << "[" << k << "] master " << m << " expected " << want_m);
        out << m << ";";
      }
    }
  }
  c.outcome(out.str());
}

// long queues: many samples are discarded before the start, in one go or in several
static void Long(mc::Ctx& c) {
  size_t n = c.pick(std::vector<size_t>{1, 2, 63, 200, 1000});
  size_t size = c.pick(std::vector<size_t>{1, 100, 600});
  size_t wr = c.choose(3);
  size_t pre = c.pick(std::vector<size_t>{0, 1, 10, 500});
  size_t flush = c.choose(4);
  if (!c.mine()) return;
  std::ostringstream t; t << "n=" << n << " size=" << size << " writer=" << wr << " pretrig=" << pre << " flush=" << flush; c.describe(t.str());
  Spec s; s.writer = wr == 2 ? MdfWriterType::Mdf3Basic : MdfWriterType::Mdf4Basic; s.compress = wr == 1; s.pretrig = (double)pre;
  Group g; g.ch = {MasterTime(), Ch(ChannelDataType::ByteArray, (uint32_t)size)}; s.dgs = {{g}};
  auto dev = std::make_shared<MemDev>();
  auto w = NewWriter(s);
  EXPECT(c, w->Init(std::static_pointer_cast<std::streambuf>(dev)), "long-init", "");
  auto l = Configure(*w, s);
  EXPECT(c, w->InitMeasurement(), "long-initmeas", "");
  auto val = [&](size_t k) { Bytes b(size); for (size_t j = 0; j < size; ++j) b[j] = (uint8_t)(k * 31 + j + (k >> 8)); return b; };
  for (size_t k = 0; k < n; ++k) { l.cn[0][0][1]->SetChannelValue(val(k)); w->SaveSample(*l.dg[0], *l.cg[0][0], kStart + k * kSec); if (flush && k % (n / flush + 1) == 5) flushctl::Flush(); }
  uint64_t start = kStart + (n - 1) * kSec;
  w->StartMeasurement(start);
  if (flush == 3) flushctl::Flush();
  for (size_t k = n; k < 2 * n; ++k) { l.cn[0][0][1]->SetChannelValue(val(k)); w->SaveSample(*l.dg[0], *l.cg[0][0], kStart + k * kSec); if (flush && k % (n / flush + 1) == 5) flushctl::Flush(); }
  w->StopMeasurement(kStart + 3 * n * kSec);
  EXPECT(c, w->FinalizeMeasurement(), "long-finalize", "");
  size_t first = n - 1 > pre ? n - 1 - pre - 1 : 0;
  MdfReader r(std::static_pointer_cast<std::streambuf>(std::make_shared<MemDev>(dev->data)));
  EXPECT(c, r.ReadEverythingButData(), "long-open", "");
  auto* dg = r.GetHeader()->DataGroups()[0]; auto* cg = dg->ChannelGroups()[0];
  auto o0 = CreateChannelObserver(*dg, *cg, *cg->Channels()[0]), o1 = CreateChannelObserver(*dg, *cg, *cg->Channels()[1]);
  EXPECT(c, r.ReadData(*dg), "long-read", "");
  EXPECT(c, o1->NofSamples() == 2 * n - first, "long-count", "samples " << o1->NofSamples() << " expected " << 2 * n - first);
  uint64_t h = 0;
  for (size_t k = 0; k < o1->NofSamples(); ++k) {
    Bytes b; double m = 0;
    o1->GetChannelValue(k, b); o0->GetChannelValue(k, m);
    EXPECT(c, b == val(k + first), "long-value", "sample " << k << " wrong");
    EXPECT(c, m == (double)((int64_t)(k + first) - (int64_t)(n - 1)), "long-master", "sample " << k << " master " << m);
    h = mc::Hash(b.data(), b.size(), h);
    c.step();
  }
  c.outcome(h + wr);
}

int main(int argc, char** argv) {
  return mc::Main(argc, argv, "C04", {{"window", Window, 2, 3}, {"long", Long, 2, 3, 60}});
}
