// C07: append sessions keep everything that is already in the file.
#include <fstream>
#include "dump.h"
#include "files.h"
#include "mdf4parse.h"
#include "rich.h"
using namespace rec;

static Bytes Load(const std::string& p) { std::ifstream f(p, std::ios::binary); return Bytes((std::istreambuf_iterator<char>(f)), {}); }
static void Store(const std::string& p, const Bytes& b) { std::ofstream f(p, std::ios::binary | std::ios::trunc); f.write((const char*)b.data(), (std::streamsize)b.size()); }

struct Image { dump::Map meta; std::map<std::string, std::vector<std::string>> values; size_t dgs = 0, fhs = 0, ats = 0, evs = 0; std::vector<Bytes> att; };
static Image Look(mc::Ctx& c, const std::string& p, const std::string& when) {
  Image im;
  MdfReader r(p);
  EXPECT(c, r.IsOk() && r.ReadEverythingButData(), "append-open", when << ": file cannot be opened");
  EXPECT(c, r.IsFinalized(), "append-finalized", when << ": file is not finalized");
  auto* h = r.GetHeader();
  im.meta = dump::Of(*h);
  im.dgs = h->DataGroups().size(); im.fhs = h->FileHistories().size(); im.ats = h->Attachments().size(); im.evs = h->Events().size();
  for (auto* a : h->Attachments()) {
    std::string out = mc::Scratch() + "/export.bin"; std::remove(out.c_str());
    Bytes b; if (a->IsEmbedded()) { r.ExportAttachmentData(*a, out); b = Load(out); }
    im.att.push_back(b);
  }
  auto all = AllChannels(r);
  std::vector<ChannelObserverPtr> ob;
  for (auto& pl : all) ob.push_back(Observe(r, pl));
  for (auto* dg : h->DataGroups()) EXPECT(c, r.ReadData(*dg), "append-read", when << ": ReadData failed");
  for (size_t k = 0; k < all.size(); ++k) im.values[Key(all[k])] = Snapshot(*ob[k]);
  return im;
}

enum Sess { kEmptyInit, kEmptyFin, kEmptyRun, kMeta, kRecord, kRecordZip, kRecord2, kRecordVl, kRecordBus, kRecordFlush, kRecordNone, kRecordConv, kTwice, kSessions };
static const char* SessName(size_t s) {
  static const char* n[] = {"init+finalize", "finalize", "init+start+stop+finalize", "metadata", "record", "record-zip", "record-2dg", "record-vlsd", "record-bus", "record-flush", "record-0", "record-converter", "record-twice"};
  return n[s];
}
static size_t SessAllowed(bool mdf3, size_t k) {  // k-th session type that applies
  static const size_t m3[] = {kEmptyInit, kEmptyFin, kEmptyRun, kRecord, kRecord2, kRecordFlush, kRecordNone};
  return mdf3 ? m3[k] : k;
}
static size_t SessCount(bool mdf3) { return mdf3 ? 7 : (size_t)kSessions; }

static Spec SessSpec(size_t s, bool mdf3) {
  Spec sp; if (mdf3) sp.writer = MdfWriterType::Mdf3Basic;
  Group a; a.ch = {MasterTime(), Ch(ChannelDataType::UnsignedIntegerBe, 2), Ch(ChannelDataType::StringAscii, 5), Ch(ChannelDataType::FloatLe, 8)};
  Group b; b.ch = {MasterTime(), Ch(ChannelDataType::ByteArray, 3), Ch(ChannelDataType::SignedIntegerLe, 8, !mdf3)};
  Group v; v.ch = {MasterTime(), Vlsd(ChannelDataType::StringUTF8), Ch(ChannelDataType::SignedIntegerBe, 4), Vlsd(ChannelDataType::ByteArray, true)};
  switch (s) {
    case kRecord2: sp.dgs = {{a}, {b}}; break;
    case kRecordVl: sp.dgs = {{v}}; break;
    case kRecordFlush: sp.dgs = {{b, a}}; break;
    case kRecordConv: sp.writer = MdfWriterType::MdfConverter; sp.dgs = {{a}}; break;
    default: sp.dgs = {{a}}; break;
  }
  sp.compress = s == kRecordZip;
  return sp;
}

// Runs one session; checks the new content; returns what may have been added.
struct Added { size_t dgs = 0, fhs = 0, ats = 0, evs = 0; };
static Added Session(mc::Ctx& c, const std::string& p, size_t s, bool mdf3, const Image& before, size_t no) {
  Added ad;
  uint64_t start = kStart + (no + 1) * 7'000'000'000ull;
  std::string when = "session " + std::to_string(no + 1) + " (" + SessName(s) + ")";
  bool bus = s == kRecordBus;
  Spec sp = SessSpec(s, mdf3);
  auto w = bus ? MdfFactory::CreateMdfWriter(MdfWriterType::MdfBusLogger) : NewWriter(sp);
  EXPECT(c, w->Init(p), "append-init", when << ": Init failed");
  EXPECT(c, w->Header() && w->Header()->DataGroups().size() == before.dgs, "append-config", when << ": writer sees " << (w->Header() ? w->Header()->DataGroups().size() : 0) << " data groups of " << before.dgs);
  std::vector<Step> steps; std::vector<size_t> sent;
  size_t rounds = s == kTwice ? 2 : 1;
  for (size_t round = 0; round < rounds; ++round) {
    Live l; IChannelGroup* bcg = nullptr; IDataGroup* bdg = nullptr;
    if (s == kMeta) {
      auto* fh = w->Header()->CreateFileHistory(); fh->Description("appended"); fh->ToolName("t2"); fh->Time(start); ad.fhs = 1;
      auto* ev = w->Header()->CreateEvent(); ev->Name("appended"); ev->Type(EventType::Marker); ev->SyncValue(17); ad.evs = 1;
      auto* at = w->Header()->CreateAttachment(); at->FileName(rich::AttachFile()); at->FileType("x/y"); at->IsEmbedded(true); at->IsCompressed(true); ad.ats = 1;
    } else if (bus) {
      w->BusType(MdfBusType::CAN); w->StorageType(MdfStorageType::VlsdStorage); w->MaxLength(8); w->PreTrigTime(0);
      EXPECT(c, w->CreateBusLogConfiguration(), "append-bus", when << ": no bus configuration");
      bdg = w->Header()->LastDataGroup(); bcg = bdg->GetChannelGroup("CAN_DataFrame"); ad.dgs = 1;
      if (w->Header()->DataGroups().size() == before.dgs) ad.dgs = 0;  // the file ended in an unused data group
    } else if (s >= kRecord) { l = Configure(*w, sp, before.dgs + ad.dgs); ad.dgs += sp.dgs.size(); }
    if (s != kEmptyFin) EXPECT(c, w->InitMeasurement(), "append-initmeas", when << ": InitMeasurement failed");
    if (s == kEmptyRun || s >= kRecord) {
      w->StartMeasurement(start);
      if (bus) for (size_t n = 0; n < 3; ++n) { CanMessage m; m.MessageId(0x10 + (uint32_t)n); m.BusChannel(1); Bytes b; for (size_t k = 0; k < 3 * n; ++k) b.push_back((uint8_t)(k + n)); m.DataBytes(b); w->SaveCanMessage(*bdg, *bcg, start + n, m); }
      else if (s >= kRecord && s != kRecordNone) {
        std::vector<size_t> order; for (size_t k = 0; k < 3 * Flat(sp).size(); ++k) order.push_back(k % Flat(sp).size());
        steps = MakeSteps(sp, order, start);
        for (size_t i = 0; i < steps.size(); ++i) { Put(*w, sp, l, steps[i], 0); if (s == kRecordFlush && i == 1) flushctl::Flush(); }
      }
      w->StopMeasurement(start + 1'000'000'000ull);
    }
    EXPECT(c, w->FinalizeMeasurement(), "append-finalize", when << ": FinalizeMeasurement failed");
  }
  w.reset();
  // the new content
  MdfReader r(p);
  EXPECT(c, r.IsOk() && r.ReadEverythingButData(), "append-open", when << ": file cannot be opened");
  auto* h = r.GetHeader();
  EXPECT(c, h->DataGroups().size() == before.dgs + ad.dgs, "append-dgs", when << ": " << h->DataGroups().size() << " data groups expected " << before.dgs + ad.dgs);
  if (bus) {
    auto* dg = h->DataGroups().back(); auto* cg = dg->GetChannelGroup("CAN_DataFrame");
    EXPECT(c, cg && cg->NofSamples() == 3, "append-bus", when << ": bus group holds " << (cg ? cg->NofSamples() : 0) << " messages");
    auto id = CreateChannelObserver(*dg, *cg, *cg->GetChannel("CAN_DataFrame.ID")); auto db = CreateChannelObserver(*dg, *cg, *cg->GetChannel("CAN_DataFrame.DataBytes"));
    r.ReadData(*dg);
    for (uint64_t n = 0; n < 3; ++n) { uint64_t v = 0; Bytes b; EXPECT(c, id->GetChannelValue(n, v) && v == 0x10 + n && db->GetChannelValue(n, b) && b.size() == 3 * n && (n == 0 || b[0] == n), "append-bus", when << ": message " << n << " differs: id " << v << " bytes " << b.size()); }
  } else if (s >= kRecord) {
    for (size_t round = 0; round < rounds; ++round) Verify(c, r, sp, steps, before.dgs + round * sp.dgs.size(), {}, start, "append-new", before.dgs + round * sp.dgs.size());
  }
  if (s == kMeta) {
    auto* fh = h->FileHistories().back(); EXPECT(c, fh->Description() == "appended" && fh->ToolName() == "t2" && fh->Time() == start, "append-newfh", when << ": new file history differs");
    auto* ev = h->Events().back(); EXPECT(c, ev->Name() == "appended" && ev->SyncValue() == 17, "append-newev", when << ": new event differs");
    auto* at = h->Attachments().back(); EXPECT(c, at->FileType() == "x/y" && at->OriginalSize() == 3000, "append-newat", when << ": new attachment differs");
  }
  return ad;
}

static void Compare(mc::Ctx& c, const Image& a, const Image& b, const Added& ad, const std::string& when) {
  auto idx = [](const std::string& k, const char* p) -> long { return k.compare(0, 2, p) == 0 ? atol(k.c_str() + 2) : -1; };
  auto extra = [&](const std::string& k) { return idx(k, "dg") >= (long)a.dgs || idx(k, "fh") >= (long)a.fhs || idx(k, "at") >= (long)a.ats || idx(k, "ev") >= (long)a.evs; };
  auto d = dump::Diff(a.meta, b.meta, extra);
  EXPECT(c, d.empty(), "append-meta", when << ": " << d);
  EXPECT(c, b.dgs == a.dgs + ad.dgs && b.fhs == a.fhs + ad.fhs && b.ats == a.ats + ad.ats && b.evs == a.evs + ad.evs, "append-lists", when << ": lists have " << b.dgs << "/" << b.fhs << "/" << b.ats << "/" << b.evs << " items");
  for (size_t k = 0; k < a.att.size(); ++k) EXPECT(c, a.att[k] == b.att[k], "append-attachment", when << ": attachment " << k << " changed");
  for (auto& [k, v] : a.values) {
    auto it = b.values.find(k);
    EXPECT(c, it != b.values.end(), "append-lost", when << ": channel " << k << " is missing");
    EXPECT(c, v.size() == it->second.size(), "append-values", when << ": channel " << k << " has " << it->second.size() << " samples, had " << v.size());
    for (size_t n = 0; n < v.size(); ++n) EXPECT(c, v[n] == it->second[n], "append-values", when << ": channel " << k << "[" << n << "] was " << v[n] << " is " << it->second[n]);
  }
}

static void Play(mc::Ctx& c, const Bytes& base, bool mdf3, const std::vector<size_t>& sess) {
  std::string p = mc::Scratch() + "/append" + std::to_string(mc::Worker()) + ".mf4";
  Store(p, base);
  Image im = Look(c, p, "before");
  for (size_t k = 0; k < sess.size(); ++k) {
    std::string when = "after session " + std::to_string(k + 1) + " (" + SessName(sess[k]) + ")";
    // the first measurement of the file sets its start time
    bool first = true; for (auto& [key, v] : im.meta) if (key.size() > 2 && key.compare(key.size() - 2, 2, ".n") == 0 && v != "0") first = false;
    auto ad = Session(c, p, sess[k], mdf3, im, k);
    Image now = Look(c, p, when);
    if (first && (sess[k] >= kRecord || sess[k] == kEmptyRun)) im.meta["hd.time"] = now.meta["hd.time"];
    Compare(c, im, now, ad, when);
    if (!mdf3) { auto f = Load(p); uint64_t n = 0; auto e = m4::CheckFile(f, &n); EXPECT(c, e.empty(), "append-structure", when << ": " << e); }
    im = now;
    c.step();
  }
  std::remove(p.c_str());
  std::string all; for (auto& [k, v] : im.meta) all += k + "=" + v + "\n"; for (auto& [k, v] : im.values) for (auto& s : v) all += s;
  c.outcome(all);
}

static void Kinds(mc::Ctx& c) {
  size_t kind = c.choose(kFileKinds); bool zip = c.flag();
  bool mdf3 = kind == 5 || kind == 6;
  if (mdf3 && zip) return;
  size_t n = c.choose(3) * 2;  // 0, 2 or 4 samples
  size_t len = 1 + c.choose(c.thorough ? 3 : 2);
  std::vector<size_t> sess; for (size_t k = 0; k < len; ++k) sess.push_back(SessAllowed(mdf3, c.choose(SessCount(mdf3))));
  if (!c.mine()) return;
  std::ostringstream t; t << KindName(kind) << " zip=" << zip << " samples=" << n; for (auto s : sess) t << " + " << SessName(s);
  c.describe(t.str());
  std::vector<size_t> order; for (size_t k = 0; k < n; ++k) order.push_back(k % KindGroups(kind));
  Play(c, KindFile(c, kind, zip, order, n > 2 ? 1 : -1), mdf3, sess);
}

// A configuration stored without samples is recorded to in a later session.
static void Unused(mc::Ctx& c) {
  size_t kind = c.choose(kFileKinds); bool zip = c.flag(), zip2 = c.flag();
  bool mdf3 = kind == 5 || kind == 6;
  if (KindBus(kind) || (mdf3 && (zip || zip2))) return;
  bool between = c.flag();  // a metadata-only session in between
  if (mdf3 && between) return;
  size_t len = 1 + c.choose(c.thorough ? 5 : 4);
  std::vector<size_t> order; std::vector<bool> flush;
  for (size_t k = 0; k < len; ++k) { order.push_back(c.choose(KindGroups(kind))); flush.push_back(k < 2 && c.flag()); }
  if (!c.mine()) return;
  std::ostringstream t; t << KindName(kind) << " zip=" << zip << "/" << zip2 << " metadata=" << between << " order="; for (size_t k = 0; k < len; ++k) t << order[k] << (flush[k] ? "F" : "");
  c.describe(t.str());
  std::string p = mc::Scratch() + "/append" + std::to_string(mc::Worker()) + ".mf4";
  Store(p, KindFile(c, kind, zip, {}, -1));
  Image im = Look(c, p, "before");
  if (between) { auto ad = Session(c, p, kMeta, mdf3, im, 0); auto now = Look(c, p, "metadata session"); Compare(c, im, now, ad, "metadata session"); im = now; }
  Spec s = KindSpec(kind, zip2);
  auto w = NewWriter(s);
  EXPECT(c, w->Init(p), "unused-init", "Init failed");
  Live l;
  for (auto* dg : w->Header()->DataGroups()) {
    l.dg.push_back(dg); l.cg.emplace_back(dg->ChannelGroups()); l.cn.emplace_back();
    for (auto* cg : l.cg.back()) l.cn.back().push_back(cg->Channels());
  }
  EXPECT(c, w->InitMeasurement(), "unused-initmeas", "InitMeasurement failed");
  uint64_t start = kStart + 9'000'000'000ull;
  w->StartMeasurement(start);
  ValidFn vf = [&](size_t d, size_t g, size_t k, uint64_t n) { return s.dgs[d][g].ch[k].inval ? !((n + k + g) % 3 == 1) : true; };
  auto steps = MakeSteps(s, order, start);
  for (size_t i = 0; i < steps.size(); ++i) { Put(*w, s, l, steps[i], 0, vf); if (flush[i]) flushctl::Flush(); }
  w->StopMeasurement(start + 1'000'000'000ull);
  EXPECT(c, w->FinalizeMeasurement(), "unused-finalize", "FinalizeMeasurement failed");
  w.reset();
  MdfReader r(p);
  EXPECT(c, r.IsOk() && r.ReadEverythingButData(), "unused-open", "file cannot be opened");
  Verify(c, r, s, steps, 0, vf, start, "unused");
  if (!mdf3) { auto f = Load(p); uint64_t n = 0; auto e = m4::CheckFile(f, &n); EXPECT(c, e.empty(), "unused-structure", e); }
  std::remove(p.c_str());
}

static void Rich(mc::Ctx& c) {
  auto o = rich::ChooseDev(c);
  std::vector<size_t> sess; sess.push_back(c.choose(kSessions));
  if (c.thorough && c.flag()) sess.push_back(c.choose(kSessions));
  if (!c.mine()) return;
  std::ostringstream t; t << "features: " << rich::Text(o); for (auto s : sess) t << " + " << SessName(s);
  c.describe(t.str());
  Play(c, rich::Build(c, o, "append-base")->data, false, sess);
}

int main(int argc, char** argv) { return mc::Main(argc, argv, "C07", {{"kinds", Kinds}, {"unused", Unused}, {"features", Rich, 1, 2}}); }
