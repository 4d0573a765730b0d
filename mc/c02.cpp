// C02: MDF 3 values and channel configuration read back exactly as written.
#include "flushctl.h"
#include "rec.h"
using namespace rec;
using DT = ChannelDataType;

static std::vector<Chan> Alphabet() {
  std::vector<Chan> a;
  for (auto dt : {DT::UnsignedIntegerLe, DT::UnsignedIntegerBe, DT::SignedIntegerLe, DT::SignedIntegerBe})
    for (uint32_t b : {1u, 2u, 4u, 8u}) a.push_back(Ch(dt, b));
  for (auto dt : {DT::FloatLe, DT::FloatBe}) for (uint32_t b : {4u, 8u}) a.push_back(Ch(dt, b));
  for (uint32_t b : {1u, 5u, 12u}) a.push_back(Ch(DT::StringAscii, b));
  for (uint32_t b : {1u, 3u, 9u}) a.push_back(Ch(DT::ByteArray, b));
  a.push_back(Ch(DT::CanOpenDate, 7));
  a.push_back(Ch(DT::CanOpenTime, 6));
  return a;
}
static const std::vector<Chan> A = Alphabet();
static Chan M3() { Chan m = MasterTime(); m.sync = ChannelSyncType::None; return m; }

static void RoundTrip3(mc::Ctx& c, const Spec& s, const std::vector<Step>& steps, int mode, const std::vector<size_t>& flush_after, const std::string& key,
                       const std::function<void(MdfWriter&, Live&)>& conf = {}, const std::function<void(MdfReader&)>& check = {}) {
  auto dev = std::make_shared<MemDev>();
  auto w = NewWriter(s);
  EXPECT(c, w->Init(std::static_pointer_cast<std::streambuf>(dev)), key + "-init", "Init failed");
  auto l = Configure(*w, s);
  if (conf) conf(*w, l);
  EXPECT(c, w->InitMeasurement(), key + "-initmeas", "InitMeasurement failed");
  w->StartMeasurement(kStart);
  for (size_t i = 0; i < steps.size(); ++i) {
    Put(*w, s, l, steps[i], mode);
    for (auto f : flush_after) if (f == i) EXPECT(c, flushctl::Flush(), key + "-flush", "no background flush");
  }
  w->StopMeasurement(kStart + 3600'000'000'000ull);
  EXPECT(c, w->FinalizeMeasurement(), key + "-finalize", "FinalizeMeasurement failed");
  auto in = std::make_shared<MemDev>(dev->data);
  MdfReader r(std::static_pointer_cast<std::streambuf>(in));
  EXPECT(c, r.ReadEverythingButData(), key + "-config", "ReadEverythingButData failed");
  Verify(c, r, s, steps, 0, {}, kStart, key);
  if (check) check(r);
}

static void Triples(mc::Ctx& c) {
  Spec s;
  s.writer = MdfWriterType::Mdf3Basic;
  Group g;
  size_t opt = c.choose(2);
  if (opt == 1) g.ch.push_back(M3());
  g.ch.push_back(c.pick(A)); g.ch.push_back(c.pick(A)); g.ch.push_back(c.pick(A));
  s.dgs = {{g}};
  if (!c.mine()) return;
  c.describe(s.Text());
  RoundTrip3(c, s, MakeSteps(s, {0, 0, 0}), 0, {}, "value");
}

static const std::vector<std::vector<Chan>> kLayouts = {
    {Ch(DT::UnsignedIntegerLe, 2), Ch(DT::FloatBe, 8)},
    {M3(), Ch(DT::SignedIntegerBe, 4), Ch(DT::StringAscii, 6)},
    {Ch(DT::ByteArray, 5)},
};
// structures x save orders x (at most two) background flushes at every position
static void Groups(mc::Ctx& c) {
  Spec s;
  s.writer = MdfWriterType::Mdf3Basic;
  size_t nd = 1 + c.choose(3), total = 0;
  for (size_t d = 0; d < nd; ++d) {
    size_t ng = 1 + c.choose(3);
    if (total + ng > (c.thorough ? 5u : 4u)) return;
    Dg dg;
    for (size_t g = 0; g < ng; ++g) { Group gr; gr.ch = kLayouts[(d + g) % 3]; dg.push_back(gr); }
    total += ng;
    s.dgs.push_back(dg);
  }
  size_t mode = c.choose(2);
  size_t len = c.choose((c.thorough ? 6 : 5));
  std::vector<size_t> order, fl;
  for (size_t i = 0; i < len; ++i) { order.push_back(c.choose(total)); if (c.dev(2)) fl.push_back(i); }
  if (!c.mine()) return;
  std::ostringstream o; o << s.Text() << " mode=" << mode << " order="; for (auto x : order) o << x; o << " flush="; for (auto x : fl) o << x;
  c.describe(o.str());
  RoundTrip3(c, s, MakeSteps(s, order), (int)mode, fl, "groups");
}

// record size / channel position limits (bit offset is 16 bit, large byte offsets use a second field)
static void Offsets(mc::Ctx& c) {
  Spec s;
  s.writer = MdfWriterType::Mdf3Basic;
  uint32_t pad = c.pick(std::vector<uint32_t>{1, 100, 4095, 8000, 8100, 8150, 8160});
  size_t npad = 1 + c.choose(7);
  Chan x = c.pick(std::vector<Chan>{Ch(DT::UnsignedIntegerLe, 2), Ch(DT::UnsignedIntegerBe, 8), Ch(DT::FloatLe, 8), Ch(DT::StringAscii, 5), Ch(DT::ByteArray, 3)});
  uint32_t fill = (uint32_t)c.choose(c.thorough ? 60 : 35);  // shifts x over the 8191/8192 byte boundary
  if (!c.mine()) return;
  Group g;
  for (size_t i = 0; i < npad; ++i) g.ch.push_back(Ch(DT::ByteArray, pad));
  if (fill) g.ch.push_back(Ch(DT::ByteArray, fill));
  g.ch.push_back(x); g.ch.push_back(Ch(DT::SignedIntegerLe, 4));
  s.dgs = {{g}};
  c.describe("pad=" + std::to_string(pad) + "x" + std::to_string(npad) + "+" + std::to_string(fill) + " " + Show(x));
  RoundTrip3(c, s, MakeSteps(s, {0, 0}), 0, {}, "offset");
}

static void Counts(mc::Ctx& c) {
  Spec s;
  s.writer = MdfWriterType::Mdf3Basic;
  size_t n = c.pick(std::vector<size_t>{0, 1, 2, 3, 10, 100, 255, 256, 257, 1000, 5000, 70000});
  size_t ng = 1 + c.choose(3);
  size_t nd = 1 + c.choose(2);
  bool flush = c.flag();
  if (!c.mine()) return;
  for (size_t d = 0; d < nd; ++d) { Dg dg; for (size_t g = 0; g < ng; ++g) { Group gr; gr.ch = {Ch(DT::UnsignedIntegerLe, 4)}; dg.push_back(gr); } s.dgs.push_back(dg); }
  c.describe(s.Text() + " n=" + std::to_string(n) + (flush ? " flush" : ""));
  std::vector<size_t> order; size_t total = ng * nd;
  for (size_t i = 0; i < n; ++i) order.push_back((i * 7 + i / 5) % total);
  std::vector<size_t> fl; if (flush && n > 0) fl = {n / 3, n / 2, n - 1};
  RoundTrip3(c, s, MakeSteps(s, order), 0, fl, "counts");
}

// many groups in one data group (8 bit record id)
static void ManyGroups(mc::Ctx& c) {
  Spec s;
  s.writer = MdfWriterType::Mdf3Basic;
  size_t n = c.pick(std::vector<size_t>{2, 5, 100, 127, 128, 129, 254, 255});
  if (!c.mine()) return;
  Dg dg; std::vector<size_t> order;
  for (size_t i = 0; i < n; ++i) { Group g; g.ch = {Ch(DT::UnsignedIntegerLe, 2), A[i % A.size()]}; dg.push_back(g); order.push_back(n - 1 - i); order.push_back((i * 7) % n); }
  s.dgs = {dg};
  c.describe("groups=" + std::to_string(n));
  RoundTrip3(c, s, MakeSteps(s, order), 0, {}, "many");
}

static std::string Str(size_t n, char base) { std::string s; for (size_t i = 0; i < n; ++i) s += (char)(base + i % 26); return s; }

// channel and group texts of every length around the fixed field sizes
static void Texts(mc::Ctx& c) {
  size_t nl = c.pick(std::vector<size_t>{1, 2, 30, 31, 32, 33, 60, 200});
  size_t dl = c.pick(std::vector<size_t>{0, 1, 126, 127});
  size_t ul = c.pick(std::vector<size_t>{0, 1, 18, 19});
  size_t pl = c.pick(std::vector<size_t>{0, 1, 40});
  size_t gl = c.pick(std::vector<size_t>{0, 1, 100});
  bool second = c.flag();
  if (!c.mine()) return;
  Spec s;
  s.writer = MdfWriterType::Mdf3Basic;
  Group g; g.ch = {Ch(DT::UnsignedIntegerLe, 2), Ch(DT::FloatLe, 4)};
  size_t k = second ? 1 : 0;
  g.ch[k].name = Str(nl, 'A');
  s.dgs = {{g, g}};
  s.dgs[0][1].ch[k].name = "Other";
  std::ostringstream o; o << "name=" << nl << " desc=" << dl << " unit=" << ul << " disp=" << pl << " group=" << gl << " k=" << k;
  c.describe(o.str());
  RoundTrip3(c, s, MakeSteps(s, {0, 1, 0}), 0, {}, "texts",
    [&](MdfWriter& w, Live& l) {
      auto* cn = l.cn[0][0][k];
      cn->Description(Str(dl, 'a'));
      if (ul) cn->Unit(Str(ul, 'k'));
      cn->DisplayName(Str(pl, 'P'));
      l.cg[0][0]->Description(Str(gl, 'g'));
      w.Header()->Author(Str(dl % 32, 'H'));
      w.Header()->Department(Str(ul % 32, 'D'));
      w.Header()->Project(Str(nl % 32, 'p'));
      w.Header()->Subject(Str(pl % 32, 's'));
      w.Header()->Description(Str(gl, 'c'));
    },
    [&](MdfReader& r) {
      auto* hd = r.GetHeader();
      auto* dg = hd->DataGroups()[0];
      auto* cg = dg->ChannelGroups()[0];
      auto* cn = cg->Channels()[k];
      EXPECT(c, cn->Name() == Str(nl, 'A'), "texts-name", cn->Name());
      EXPECT(c, cn->Description() == Str(dl, 'a'), "texts-desc", cn->Description());
      EXPECT(c, cn->Unit() == Str(ul, 'k'), "texts-unit", cn->Unit());
      EXPECT(c, cn->DisplayName() == Str(pl, 'P'), "texts-display", cn->DisplayName());
      EXPECT(c, cg->Description() == Str(gl, 'g'), "texts-group", cg->Description());
      auto* oc = dg->ChannelGroups()[1]->Channels()[k];
      EXPECT(c, oc->Description().empty() && oc->Unit().empty() && oc->DisplayName().empty(), "texts-other", "texts leaked into another channel");
      EXPECT(c, dg->ChannelGroups()[1]->Description().empty(), "texts-other", "description leaked into another group");
      EXPECT(c, hd->Author() == Str(dl % 32, 'H'), "texts-author", hd->Author());
      EXPECT(c, hd->Department() == Str(ul % 32, 'D'), "texts-dep", hd->Department());
      EXPECT(c, hd->Project() == Str(nl % 32, 'p'), "texts-project", hd->Project());
      EXPECT(c, hd->Subject() == Str(pl % 32, 's'), "texts-subject", hd->Subject());
      EXPECT(c, hd->Description() == Str(gl, 'c'), "texts-comment", hd->Description());
    });
}

int main(int argc, char** argv) {
  return mc::Main(argc, argv, "C02", {{"triples", Triples}, {"groups", Groups}, {"offsets", Offsets}, {"counts", Counts}, {"manygroups", ManyGroups}, {"texts", Texts}});
}
