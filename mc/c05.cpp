// C05: every finalized MDF 4 file is structurally well-formed (checked by an independent parser).
#include "rich.h"
#include "mdf4parse.h"
#include "mdf/canmessage.h"
#include "mdf/ethmessage.h"
#include "mdf/linmessage.h"
#include "mdf/mostmessage.h"
#include "mdf/flexraymessage.h"
#include "mdf/flexrayconfigadapter.h"
using namespace rec;

static void CheckDev(mc::Ctx& c, const std::vector<uint8_t>& d, const std::string& key) {
  uint64_t records = 0;
  std::string e = m4::CheckFile(d, &records);
  if (c.verbose && !e.empty()) { FILE* f = fopen("/tmp/mc_bad.mf4", "wb"); if (f) { fwrite(d.data(), 1, d.size(), f); fclose(f); } }
  EXPECT(c, e.empty(), key, e);
  c.step(records);
  c.outcome(mc::Hash(d.data(), d.size()));
}

static void Features(mc::Ctx& c) {
  auto o = rich::ChooseDev(c);
  if (!c.mine()) return;
  c.describe(rich::Text(o));
  auto dev = rich::Build(c, o, "structure");
  CheckDev(c, dev->data, "structure");
}

// group structures x save orders x flush points x compression
static void Layouts(mc::Ctx& c) {
  static const std::vector<std::vector<Chan>> lay = {
      {Ch(ChannelDataType::UnsignedIntegerLe, 2), Ch(ChannelDataType::FloatBe, 8, true)},
      {MasterTime(), Ch(ChannelDataType::SignedIntegerBe, 4), Vlsd(ChannelDataType::StringUTF8)},
      {Ch(ChannelDataType::ByteArray, 5)}};
  Spec s;
  size_t nd = 1 + c.choose(3), total = 0;
  for (size_t d = 0; d < nd; ++d) {
    size_t ng = 1 + c.choose(3);
    if (total + ng > 4) return;
    Dg dg;
    for (size_t g = 0; g < ng; ++g) { Group gr; gr.ch = lay[(d + g) % 3]; dg.push_back(gr); }
    total += ng;
    s.dgs.push_back(dg);
  }
  s.compress = c.flag();
  s.periodic = !c.flag();
  size_t n = c.choose(5);
  std::vector<size_t> order;
  for (size_t k = 0; k < n; ++k) order.push_back(c.choose(total));
  size_t flush = c.choose(1u << n);
  if (__builtin_popcountll(flush) > (c.thorough ? 3 : 2)) return;
  if (!s.periodic && flush) return;
  if (!c.mine()) return;
  std::ostringstream t; t << s.Text() << " periodic=" << s.periodic << " order="; for (auto x : order) t << x; t << " flush=" << flush;
  c.describe(t.str());
  auto steps = MakeSteps(s, order);
  auto dev = Record(c, s, steps, 0, {}, "structure", [&](size_t i) { if (flush >> i & 1) flushctl::Flush(); });
  CheckDev(c, dev->data, "structure");
}

// many samples: several data blocks, large signal data (HL/DL for both)
static void Large(mc::Ctx& c) {
  Spec s;
  size_t kind = c.choose(4);
  s.compress = c.flag();
  size_t flush = c.choose(3);
  static const size_t counts[] = {1, 1100, 4200};
  size_t n = counts[c.choose(3)];
  if (!c.mine()) return;
  std::ostringstream t; t << "kind=" << kind << " compress=" << s.compress << " flush=" << flush << " n=" << n; c.describe(t.str());
  Group g;
  g.ch = {MasterTime(), Ch(ChannelDataType::ByteArray, 1000)};
  if (kind & 1) g.ch.push_back(Vlsd(ChannelDataType::ByteArray));
  Group h; h.ch = {Ch(ChannelDataType::ByteArray, 999)};
  s.dgs = {{g}};
  if (kind & 2) s.dgs[0].push_back(h);
  auto w = NewWriter(s);
  auto dev = std::make_shared<MemDev>();
  EXPECT(c, w->Init(std::static_pointer_cast<std::streambuf>(dev)), "structure-init", "");
  auto l = Configure(*w, s);
  EXPECT(c, w->InitMeasurement(), "structure-initmeas", "");
  w->StartMeasurement(kStart);
  std::vector<uint8_t> b(1000), v(3000);
  for (size_t k = 0; k < n; ++k) {
    for (size_t j = 0; j < b.size(); ++j) b[j] = (uint8_t)(j ^ k);
    l.cn[0][0][1]->SetChannelValue(b);
    if (kind & 1) { for (size_t j = 0; j < v.size(); ++j) v[j] = (uint8_t)(rec::Mix(j * 7 + k)); v.resize(2000 + k % 7); l.cn[0][0][2]->SetChannelValue(v); v.resize(3000); }
    w->SaveSample(*l.dg[0], *l.cg[0][0], kStart + k * 1000);
    if ((kind & 2) && k % 3 == 0) { std::vector<uint8_t> b2(b.begin(), b.begin() + 999); l.cn[0][1][0]->SetChannelValue(b2); w->SaveSample(*l.dg[0], *l.cg[0][1], kStart + k * 1000); }
    if (flush && k % (n / flush + 1) == n / (flush + 1)) flushctl::Flush();
  }
  w->StopMeasurement(kStart + 1000000000);
  EXPECT(c, w->FinalizeMeasurement(), "structure-finalize", "");
  CheckDev(c, dev->data, "structure");
}

// bus loggers: bus type x storage x mandatory only x number of messages
static void Bus(mc::Ctx& c) {
  auto storage = c.pick(std::vector<MdfStorageType>{MdfStorageType::FixedLengthStorage, MdfStorageType::VlsdStorage, MdfStorageType::MlsdStorage});
  size_t bus = c.choose(5);
  bool mandatory = c.flag(), zip = c.flag();
  size_t maxlen = c.pick(std::vector<size_t>{8, 64});
  size_t n = c.pick(std::vector<size_t>{0, 1, 5});
  bool flush = c.flag();
  if (!c.mine()) return;
  std::ostringstream t; t << "storage=" << (int)storage << " bus=" << bus << " mandatory=" << mandatory << " zip=" << zip << " max=" << maxlen << " n=" << n << " flush=" << flush; c.describe(t.str());
  auto w = MdfFactory::CreateMdfWriter(MdfWriterType::MdfBusLogger);
  auto dev = std::make_shared<MemDev>();
  static const uint16_t types[] = {MdfBusType::CAN, MdfBusType::LIN, MdfBusType::Ethernet, MdfBusType::MOST, MdfBusType::FlexRay};
  EXPECT(c, w->Init(std::static_pointer_cast<std::streambuf>(dev)), "structure-init", "");
  w->BusType(types[bus]); w->StorageType(storage); w->MaxLength(maxlen); w->CompressData(zip); w->MandatoryMembersOnly(mandatory); w->PreTrigTime(0);
  if (bus == 4) { auto* dg = w->Header()->CreateDataGroup(); FlexRayConfigAdapter f(*w); f.CreateConfig(*dg); }
  else EXPECT(c, w->CreateBusLogConfiguration(), "structure-buscfg", "CreateBusLogConfiguration failed");
  auto* dg = w->Header()->LastDataGroup();
  EXPECT(c, w->InitMeasurement(), "structure-initmeas", "");
  w->StartMeasurement(kStart);
  auto cgs = dg->ChannelGroups();
  for (size_t k = 0; k < n; ++k) {
    std::vector<uint8_t> b((k * 3) % (maxlen + 1), (uint8_t)k);
    for (auto* cg : cgs) {
      if (cg->Flags() & CgFlag::VlsdChannel) continue;
      uint64_t t = kStart + k * 1000;
      if (bus == 0) { CanMessage m; m.MessageId(100 + k); m.DataBytes(b); w->SaveCanMessage(*dg, *cg, t, m); }
      if (bus == 1) { LinMessage m; m.LinId(10 + k); b.resize(std::min<size_t>(b.size(), 8)); m.DataBytes(b); w->SaveLinMessage(*dg, *cg, t, m); }
      if (bus == 2) { EthMessage m; m.DataBytes(b); w->SaveEthMessage(*dg, *cg, t, m); }
    }
    if (flush && k == 0) flushctl::Flush();
  }
  w->StopMeasurement(kStart + 1000000000);
  EXPECT(c, w->FinalizeMeasurement(), "structure-finalize", "");
  CheckDev(c, dev->data, "structure");
}

int main(int argc, char** argv) {
  return mc::Main(argc, argv, "C05", {{"features", Features, 3, 4}, {"layouts", Layouts}, {"large", Large}, {"bus", Bus}});
}
