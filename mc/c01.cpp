// C01: MDF 4 fixed-length values read back exactly as written.
#include "flushctl.h"
#include "rec.h"
#include "mdf/idatawriter.h"
using namespace rec;
using DT = ChannelDataType;

static std::vector<Chan> Alphabet() {
  std::vector<Chan> a;
  for (auto dt : {DT::UnsignedIntegerLe, DT::UnsignedIntegerBe, DT::SignedIntegerLe, DT::SignedIntegerBe})
    for (uint32_t b : {1u, 2u, 4u, 8u}) a.push_back(Ch(dt, b));
  for (auto dt : {DT::FloatLe, DT::FloatBe}) for (uint32_t b : {4u, 8u}) a.push_back(Ch(dt, b));
  for (auto dt : {DT::StringAscii, DT::StringUTF8}) for (uint32_t b : {1u, 5u}) a.push_back(Ch(dt, b));
  for (uint32_t b : {1u, 3u, 9u}) a.push_back(Ch(DT::ByteArray, b));
  a.push_back(Ch(DT::MimeSample, 2));
  a.push_back(Ch(DT::CanOpenDate, 7));
  a.push_back(Ch(DT::CanOpenTime, 6));
  return a;
}
static const std::vector<Chan> A = Alphabet();

// Every ordered triple of channel types in one record, with and without master, every writer and compression.
static void Triples(mc::Ctx& c) {
  Spec s;
  Group g;
  size_t opt = c.choose(3);  // 0: plain, 1: master first, 2: master last + compression
  size_t w = c.choose(c.thorough ? 3 : 2);
  s.writer = w == 0 ? MdfWriterType::Mdf4Basic : w == 1 ? MdfWriterType::MdfConverter : MdfWriterType::MdfBusLogger;
  if (!c.thorough && w == 1 && opt != 1) { return; }
  s.compress = opt == 2;
  if (opt == 1) g.ch.push_back(MasterTime());
  const Chan x = c.pick(A), y = c.pick(A);
  Chan z = c.thorough || w == 0 ? c.pick(A) : x;
  g.ch.push_back(x); g.ch.push_back(y); g.ch.push_back(z);
  if (opt == 2) g.ch.push_back(MasterTime());
  s.dgs = {{g}};
  if (!c.mine()) return;
  c.describe(s.Text());
  RoundTrip(c, s, MakeSteps(s, {0, 0, 0}));
}

// Every structure of up to 3 data groups with up to 3 channel groups, every save order up to a length.
static const std::vector<std::vector<Chan>> kLayouts = {
    {Ch(DT::UnsignedIntegerLe, 2), Ch(DT::FloatBe, 8)},
    {MasterTime(), Ch(DT::SignedIntegerBe, 4), Ch(DT::StringUTF8, 6)},
    {Ch(DT::ByteArray, 5)},
};
static void Groups(mc::Ctx& c) {
  Spec s;
  size_t nd = 1 + c.choose(3);
  size_t total = 0;
  for (size_t d = 0; d < nd; ++d) {
    size_t ng = 1 + c.choose(nd == 1 ? 4 : 3);
    if (total + ng > (c.thorough ? 6u : 4u)) return;
    Dg dg;
    for (size_t g = 0; g < ng; ++g) { Group gr; gr.ch = kLayouts[(d + g) % 3]; dg.push_back(gr); }
    total += ng;
    s.dgs.push_back(dg);
  }
  size_t w = c.choose(3);
  s.writer = w == 2 ? MdfWriterType::MdfConverter : MdfWriterType::Mdf4Basic;
  s.compress = w == 1;
  s.periodic = c.dev(2) == 0;
  size_t mode = c.dev(2);
  size_t len = c.choose((c.thorough ? 6 : 5));
  std::vector<size_t> order, fl;
  for (size_t i = 0; i < len; ++i) { order.push_back(c.choose(total)); if (c.dev(2)) fl.push_back(i); }
  if (!c.mine()) return;
  std::ostringstream o; o << s.Text() << " mode=" << mode << " order="; for (auto x : order) o << x; o << " flush="; for (auto x : fl) o << x;
  c.describe(o.str());
  RoundTrip(c, s, MakeSteps(s, order), (int)mode, {}, "groups", [&](size_t i) { for (auto f : fl) if (f == i) flushctl::Flush(); });
}

// Number of samples and record sizes, also over the 4 MB compression chunk.
static void Counts(mc::Ctx& c) {
  Spec s;
  std::vector<size_t> ns = {0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 255, 256, 257, 1000};
  size_t n = c.pick(ns);
  size_t w = c.choose(4);
  s.writer = w >= 2 ? MdfWriterType::MdfConverter : MdfWriterType::Mdf4Basic;
  s.compress = (w & 1) != 0;
  std::vector<uint32_t> sizes = {1, 2, 3, 7, 8, 13, 50, 99, 100, 101, 1000};
  uint32_t size = c.pick(sizes);
  size_t ng = 1 + c.choose(2);
  Group g; g.ch = {Ch(DT::ByteArray, size)};
  Group g2; g2.ch = {Ch(DT::UnsignedIntegerBe, 4), Ch(DT::FloatLe, 4)};
  s.dgs = {ng == 1 ? Dg{g} : Dg{g, g2}};
  if (!c.mine()) return;
  c.describe(s.Text() + " n=" + std::to_string(n));
  std::vector<size_t> order;
  for (size_t i = 0; i < n; ++i) { order.push_back(0); if (ng == 2 && i % 3 == 0) order.push_back(1); }
  RoundTrip(c, s, MakeSteps(s, order));
}
static void Big(mc::Ctx& c) {
  Spec s;
  size_t w = c.choose(4);
  s.writer = w >= 2 ? MdfWriterType::MdfConverter : MdfWriterType::Mdf4Basic;
  s.compress = (w & 1) != 0;
  uint32_t size = c.pick(std::vector<uint32_t>{3999u, 4000u, 100003u});
  size_t extra = c.choose(3);
  size_t ng = 1 + c.choose(2);
  Group g; g.ch = {Ch(DT::ByteArray, size)};
  Group g2; g2.ch = {Ch(DT::UnsignedIntegerBe, 4), Ch(DT::FloatLe, 4)};
  s.dgs = {ng == 1 ? Dg{g} : Dg{g, g2}};
  if (!c.mine()) return;
  size_t n = 8'000'000 / size + extra;
  c.describe(s.Text() + " n=" + std::to_string(n));
  std::vector<size_t> order;
  for (size_t i = 0; i < n; ++i) { order.push_back(0); if (ng == 2 && i % 3 == 0) order.push_back(1); }
  RoundTrip(c, s, MakeSteps(s, order));
}

// Wide records and many groups (record id sizes of 1 and 2 bytes).
static void Wide(mc::Ctx& c) {
  Spec s;
  size_t kind = c.choose(2);
  size_t n = kind == 0 ? c.pick(std::vector<size_t>{2, 3, 4, 17, 100, 254, 255, 256, 257, 300}) : c.pick(std::vector<size_t>{8, 9, 40, 300});
  s.compress = c.flag();
  s.writer = c.flag() ? MdfWriterType::MdfConverter : MdfWriterType::Mdf4Basic;
  Dg dg;
  std::vector<size_t> order;
  if (kind == 0) {
    for (size_t i = 0; i < n; ++i) { Group g; g.ch = {Ch(DT::UnsignedIntegerLe, 2), A[i % A.size()]}; dg.push_back(g); order.push_back(n - 1 - i); order.push_back((i * 7) % n); }
  } else {
    Group g; for (size_t i = 0; i < n; ++i) g.ch.push_back(A[(i * 5) % A.size()]);
    dg.push_back(g); order = {0, 0, 0, 0};
  }
  s.dgs = {dg};
  if (!c.mine()) return;
  c.describe(std::string(kind == 0 ? "groups=" : "channels=") + std::to_string(n) + " writer=" + std::to_string((int)s.writer) + " compress=" + std::to_string(s.compress));
  RoundTrip(c, s, MakeSteps(s, order));
}

// Values set through the bulk data writer and AddSample.
static void Bulk(mc::Ctx& c) {
  std::vector<Chan> N(A.begin(), A.begin() + 20);  // numeric types
  Spec s;
  Group g;
  bool master = c.flag();
  if (master) g.ch.push_back(MasterTime());
  g.ch.push_back(c.pick(N)); g.ch.push_back(c.pick(N)); g.ch.push_back(N[(size_t)g.ch.back().bytes]);
  Group g2; g2.ch = {Ch(DT::UnsignedIntegerLe, 8)};
  bool two = c.flag();
  s.dgs = {two ? Dg{g, g2} : Dg{g}};
  s.compress = c.flag();
  if (!c.mine()) return;
  c.describe("bulk " + s.Text());
  auto dev = std::make_shared<MemDev>();
  auto w = NewWriter(s);
  w->Init(std::static_pointer_cast<std::streambuf>(dev));
  auto l = Configure(*w, s);
  EXPECT(c, w->InitMeasurement(), "bulk-init", "InitMeasurement failed");
  w->StartMeasurement(kStart);
  auto steps = MakeSteps(s, two ? std::vector<size_t>{0, 1, 0, 0, 1} : std::vector<size_t>{0, 0, 0});
  for (auto& st : steps) {
    auto& gs = s.dgs[st.d][st.g];
    auto dw = MdfFactory::CreateDataWriter(*l.cg[st.d][st.g]);
    EXPECT(c, dw != nullptr, "bulk-writer", "no data writer");
    for (auto& lay : dw->ChannelLayouts()) {
      auto& ch = gs.ch[lay.channel_index];
      Val v = Gen(ch, Salt(st.d, st.g, lay.channel_index), st.n);
      if (IsFloat(ch.dt)) { if (ch.bytes == 4) dw->SetValue<float>(lay, (float)v.f); else dw->SetValue<double>(lay, v.f); }
      else if (IsSigned(ch.dt)) switch (ch.bytes) { case 1: dw->SetValue<int8_t>(lay, v.i); break; case 2: dw->SetValue<int16_t>(lay, v.i); break; case 4: dw->SetValue<int32_t>(lay, v.i); break; default: dw->SetValue<int64_t>(lay, v.i); }
      else switch (ch.bytes) { case 1: dw->SetValue<uint8_t>(lay, v.u); break; case 2: dw->SetValue<uint16_t>(lay, v.u); break; case 4: dw->SetValue<uint32_t>(lay, v.u); break; default: dw->SetValue<uint64_t>(lay, v.u); }
    }
    w->AddSample(*l.dg[st.d], *l.cg[st.d][st.g], st.time, dw->Commit());
  }
  w->StopMeasurement(kStart + 1'000'000'000);
  EXPECT(c, w->FinalizeMeasurement(), "bulk-final", "FinalizeMeasurement failed");
  auto in = std::make_shared<MemDev>(dev->data);
  MdfReader r(std::static_pointer_cast<std::streambuf>(in));
  EXPECT(c, r.ReadEverythingButData(), "bulk-config", "ReadEverythingButData failed");
  Verify(c, r, s, steps, 0, {}, kStart, "bulk");
}

// The same recordings through real files.
static void Files(mc::Ctx& c) {
  Spec s;
  size_t w = c.choose(4);
  s.writer = w >= 2 ? MdfWriterType::MdfConverter : MdfWriterType::Mdf4Basic;
  s.compress = (w & 1) != 0;
  size_t nd = 1 + c.choose(2);
  for (size_t d = 0; d < nd; ++d) { Dg dg; size_t ng = 1 + c.choose(2); for (size_t g = 0; g < ng; ++g) { Group gr; gr.ch = kLayouts[(d + g) % 3]; dg.push_back(gr); } s.dgs.push_back(dg); }
  size_t len = c.pick(std::vector<size_t>{0, 1, 2, 3, 50, 3000});
  if (!c.mine()) return;
  c.describe("file " + s.Text() + " n=" + std::to_string(len));
  std::string path = mc::Scratch() + "/f.mf4";
  remove(path.c_str());
  std::vector<size_t> order; size_t total = Flat(s).size();
  for (size_t i = 0; i < len; ++i) order.push_back((i * 5 + i / 3) % total);
  auto steps = MakeSteps(s, order);
  {
    auto wr = NewWriter(s);
    EXPECT(c, wr->Init(path), "file-init", "Init failed");
    auto l = Configure(*wr, s);
    EXPECT(c, wr->InitMeasurement(), "file-initmeas", "InitMeasurement failed");
    wr->StartMeasurement(kStart);
    for (auto& st : steps) Put(*wr, s, l, st, 0);
    wr->StopMeasurement(kStart + 3600'000'000'000ull);
    EXPECT(c, wr->FinalizeMeasurement(), "file-final", "FinalizeMeasurement failed");
  }
  MdfReader r(path);
  EXPECT(c, r.ReadEverythingButData(), "file-config", "ReadEverythingButData failed");
  Verify(c, r, s, steps, 0, {}, kStart, "file");
  r.Close();
  remove(path.c_str());
}

int main(int argc, char** argv) {
  return mc::Main(argc, argv, "C01", {{"triples", Triples}, {"groups", Groups, 1, 2}, {"counts", Counts}, {"wide", Wide}, {"bulk", Bulk}, {"files", Files}, {"big", Big}});
}
