// C15: CAN frames saved in a bus log are read back field by field, through the channels and through the CAN message decoder.
#include "flushctl.h"
#include "rec.h"
#include "mdf/canbusobserver.h"
#include "mdf/canmessage.h"
using namespace rec;
static std::string HexOf(const Bytes& b) { return mc::Hex(b.data(), b.size()); }

enum Kind { kData, kRemote, kError, kOverload };
static const char* kGroup[] = {"CAN_DataFrame", "CAN_RemoteFrame", "CAN_ErrorFrame", "CAN_OverloadFrame"};
// The attributes of a frame; the order is the order of the enumeration.
enum F { fBus, fId, fExt, fLen, fDlc, fDir, fSrr, fEdl, fBrs, fEsi, fWake, fWire, fR0, fR1, fDur, fCrc, fErr, fPos, fCount };
static const char* kName[] = {"BusChannel", "ID", "IDE", "DataLength", "DLC", "Dir", "SRR", "EDL", "BRS", "ESI", "WakeUp", "SingleWire", "R0", "R1", "FrameDuration", "CRC", "ErrorType", "BitPosition"};
static const uint64_t kTop[] = {0xFF, 0x1FFFFFFF, 1, 8, 15, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0xFFFFFFFF, 0xFFFFFFFF, 7, 0xFFFF};

struct Frame {
  Kind kind = kData;
  uint64_t v[fCount] = {};
  Bytes data;
  uint64_t time = 0;
  std::string Text() const {
    std::ostringstream o; o << kGroup[kind] << "{";
    for (int f = 0; f < fCount; ++f) if (v[f]) o << kName[f] << "=" << v[f] << " ";
    o << "}"; return o.str();
  }
};
static uint64_t DlcOf(size_t n) { static const size_t t[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 20, 24, 32, 48, 64}; uint64_t d = 0; while (d < 15 && t[d] < n) ++d; return d; }
static void SetLen(Frame& f, size_t n, uint64_t seed) {
  f.data.clear();
  for (size_t k = 0; k < n; ++k) f.data.push_back((uint8_t)(Mix(seed * 131 + k) >> 3));
  f.v[fLen] = n; f.v[fDlc] = DlcOf(n);
}
static bool Has(Kind k, bool mandatory, int f) {
  if (k == kOverload) return f == fBus || f == fDir;
  bool m = f <= fDlc;
  if (k == kError) return true;
  if (mandatory) return m;
  if (k == kRemote) return f != fEdl && f != fBrs && f != fEsi && f != fErr && f != fPos;
  return f != fErr && f != fPos;
}
static CanMessage Make(const Frame& f) {
  CanMessage m;
  m.BusChannel((uint8_t)f.v[fBus]); m.MessageId((uint32_t)f.v[fId]); m.ExtendedId(f.v[fExt]);
  m.DataBytes(f.data); m.Dlc((uint8_t)f.v[fDlc]);
  m.Dir(f.v[fDir]); m.Srr(f.v[fSrr]); m.Edl(f.v[fEdl]); m.Brs(f.v[fBrs]); m.Esi(f.v[fEsi]); m.WakeUp(f.v[fWake]); m.SingleWire(f.v[fWire]); m.R0(f.v[fR0]); m.R1(f.v[fR1]);
  m.FrameDuration((uint32_t)f.v[fDur]); m.Crc((uint32_t)f.v[fCrc]); m.ErrorType((CanErrorType)f.v[fErr]); m.BitPosition((uint16_t)f.v[fPos]);
  return m;
}
static uint64_t Get(const CanMessage& m, int f) {
  switch (f) {
    case fBus: return m.BusChannel(); case fId: return m.CanId(); case fExt: return m.ExtendedId(); case fLen: return m.DataLength(); case fDlc: return m.Dlc(); case fDir: return m.Dir();
    case fSrr: return m.Srr(); case fEdl: return m.Edl(); case fBrs: return m.Brs(); case fEsi: return m.Esi(); case fWake: return m.WakeUp(); case fWire: return m.SingleWire();
    case fR0: return m.R0(); case fR1: return m.R1(); case fDur: return m.FrameDuration(); case fCrc: return m.Crc(); case fErr: return (uint64_t)m.ErrorType(); default: return m.BitPosition();
  }
}
struct Conf { size_t storage; bool mandatory, zip, flush, old_api; };
static const MdfStorageType kStore[] = {MdfStorageType::VlsdStorage, MdfStorageType::MlsdStorage, MdfStorageType::MlsdStorage, MdfStorageType::FixedLengthStorage};
static size_t Limit(size_t storage) { return storage == 1 ? 8 : 64; }
static bool HasData(Kind k) { return k == kData || k == kError; }

static void CheckMsg(mc::Ctx& c, const CanMessage& m, const Frame& f, bool mandatory, const char* how, size_t n) {
  EXPECT(c, (int)m.TypeOfMessage() == (int)f.kind, "message-type", how << " message " << n << " of " << kGroup[f.kind] << " has type " << (int)m.TypeOfMessage());
  for (int i = 0; i < fCount; ++i) {
    if (!Has(f.kind, mandatory, i)) continue;
    if (i == fLen && f.kind == kOverload) continue;
    EXPECT(c, Get(m, i) == f.v[i], std::string("message-") + kName[i], how << " message " << n << " " << f.Text() << ": " << kName[i] << " decoded as " << Get(m, i));
  }
  if (HasData(f.kind)) EXPECT(c, m.DataBytes() == f.data, "message-data", how << " message " << n << " " << f.Text() << ": data " << HexOf(m.DataBytes()) << " expected " << HexOf(f.data));
  double want = (double)(f.time - kStart) / 1e9;
  EXPECT(c, std::fabs(m.Timestamp() - want) < 1e-9, "message-time", how << " message " << n << ": time " << m.Timestamp() << " expected " << want);
}

static void Run(mc::Ctx& c, const Conf& k, std::vector<Frame> frames) {
  auto dev = std::make_shared<MemDev>();
  auto w = MdfFactory::CreateMdfWriter(MdfWriterType::MdfBusLogger);
  EXPECT(c, w->Init(std::static_pointer_cast<std::streambuf>(dev)), "init", "");
  w->BusType(MdfBusType::CAN); w->StorageType(kStore[k.storage]); w->MaxLength((uint32_t)Limit(k.storage)); w->CompressData(k.zip); w->MandatoryMembersOnly(k.mandatory); w->PreTrigTime(0);
  EXPECT(c, w->CreateBusLogConfiguration(), "config", "");
  auto* dg = w->Header()->LastDataGroup();
  EXPECT(c, w->InitMeasurement(), "initmeas", "");
  w->StartMeasurement(kStart);
  for (size_t n = 0; n < frames.size(); ++n) {
    auto& f = frames[n];
    f.time = kStart + n * 1000000;
    auto* cg = dg->GetChannelGroup(kGroup[f.kind]);
    EXPECT(c, cg != nullptr, "group", kGroup[f.kind]);
    auto m = Make(f);
    if (k.old_api) w->SaveCanMessage(*cg, f.time, m); else w->SaveCanMessage(*dg, *cg, f.time, m);
    if (k.flush && n == frames.size() / 2) flushctl::Flush();
    c.step();
  }
  w->StopMeasurement(kStart + 1000000000);
  EXPECT(c, w->FinalizeMeasurement(), "finalize", "");
  w.reset();
  uint64_t h = 0;
  for (int mode = 0; mode < 3; ++mode) {  // channels, decoder with callback, decoder with buffer
    MdfReader r(std::static_pointer_cast<std::streambuf>(std::make_shared<MemDev>(dev->data)));
    EXPECT(c, r.ReadEverythingButData(), "open", "");
    auto* rdg = r.GetHeader()->DataGroups()[0];
    for (int kind = 0; kind < 4; ++kind) {
      std::vector<const Frame*> want;
      for (auto& f : frames) if (f.kind == kind) want.push_back(&f);
      auto* cg = rdg->GetChannelGroup(kGroup[kind]);
      if (cg == nullptr) { EXPECT(c, want.empty() && kind == kOverload && k.mandatory, "group-read", kGroup[kind]); continue; }
      EXPECT(c, cg->NofSamples() == want.size(), "count", kGroup[kind] << " holds " << cg->NofSamples() << " frames, saved " << want.size());
      if (want.empty()) continue;
      if (mode == 0) {
        ChannelObserverList obs; std::vector<ChannelObserverPtr> own(fCount); ChannelObserverPtr bytes, time;
        for (int i = 0; i < fCount; ++i) {
          if (!Has((Kind)kind, k.mandatory, i)) continue;
          auto* cn = cg->GetChannel(std::string(kGroup[kind]) + "." + kName[i]);
          EXPECT(c, cn != nullptr, "channel-missing", kGroup[kind] << "." << kName[i]);
          own[i] = CreateChannelObserver(*rdg, *cg, *cn);
        }
        if (HasData((Kind)kind)) { auto* cn = cg->GetChannel(std::string(kGroup[kind]) + ".DataBytes"); EXPECT(c, cn != nullptr, "channel-missing", "DataBytes"); bytes = CreateChannelObserver(*rdg, *cg, *cn); }
        time = CreateChannelObserver(*rdg, *cg, *cg->GetChannel("t"));
        EXPECT(c, r.ReadData(*rdg), "read", "");
        for (size_t n = 0; n < want.size(); ++n) {
          auto& f = *want[n];
          for (int i = 0; i < fCount; ++i) {
            if (!own[i]) continue;
            uint64_t u = 0; bool ok = own[i]->GetChannelValue(n, u);
            EXPECT(c, ok && u == f.v[i], std::string("channel-") + kName[i], "frame " << n << " " << f.Text() << ": " << kName[i] << " reads " << u << " valid=" << ok);
            h = mc::Hash(&u, 8, h);
          }
          if (bytes) { Bytes b; bool ok = bytes->GetChannelValue(n, b); EXPECT(c, ok && b == f.data, "channel-data", "frame " << n << " " << f.Text() << ": data " << HexOf(b) << " expected " << HexOf(f.data)); h = mc::Hash(b.data(), b.size(), h); }
          double t = -1; time->GetEngValue(n, t);
          EXPECT(c, std::fabs(t - (double)(f.time - kStart) / 1e9) < 1e-9, "channel-time", "frame " << n << ": time " << t);
        }
      } else {
        CanBusObserver o(*rdg, *cg);
        std::vector<std::pair<uint64_t, CanMessage>> got;
        if (mode == 1) o.OnCanMessage = [&](uint64_t s, const CanMessage& m) { got.emplace_back(s, m); return true; };
        EXPECT(c, r.ReadData(*rdg), "read", "");
        EXPECT(c, o.NofSamples() == want.size(), "message-count", "");
        if (mode == 1) {
          EXPECT(c, got.size() == want.size(), "message-callbacks", kGroup[kind] << ": " << got.size() << " messages delivered, " << want.size() << " saved");
          for (size_t n = 0; n < got.size(); ++n) { EXPECT(c, got[n].first == n, "message-order", "callback " << n << " names sample " << got[n].first); CheckMsg(c, got[n].second, *want[n], k.mandatory, "callback", n); }
        } else {
          for (size_t n = 0; n < want.size(); ++n) {
            auto* m = o.GetCanMessage(n);
            EXPECT(c, m != nullptr, "message-missing", kGroup[kind] << ": message " << n << " of " << want.size() << " is missing");
            CheckMsg(c, *m, *want[n], k.mandatory, "buffered", n);
          }
        }
      }
    }
  }
  c.outcome(h);
}
static std::string Text(const Conf& k) { std::ostringstream o; o << "storage=" << k.storage << " mandatory=" << k.mandatory << " zip=" << k.zip << " flush=" << k.flush << " old=" << k.old_api << " "; return o.str(); }
static Conf PickConf(mc::Ctx& c, bool api = false) { Conf k; k.storage = c.choose(4); k.mandatory = c.flag(); k.zip = false; k.flush = false; k.old_api = api || c.thorough ? c.flag() : false; return k; }
static Frame Base(Kind kind, bool ones, uint64_t seed) {
  Frame f; f.kind = kind;
  if (ones) for (int i = 0; i < fCount; ++i) if (i != fLen && i != fDlc) f.v[i] = kTop[i];
  if (ones && f.v[fErr] > 5) f.v[fErr] = 5;
  SetLen(f, ones ? 8 : 0, seed);
  return f;
}

// Every set of at most two (thorough: three) attributes deviating from the all-zero and the all-ones frame, between two opposite frames.
static void Fields(mc::Ctx& c) {
  Conf k = PickConf(c, true);
  Kind kind = (Kind)c.choose(4); bool ones = c.flag();
  Frame f = Base(kind, ones, 3);
  static const std::vector<uint64_t> none{};
  static const std::vector<uint64_t> vals[] = {{1, 0x7F, 0x80, 0xFE, 0xFF, 0}, {1, 0x7FF, 0x800, 0x10000000, 0x1FFFFFFE, 0x1FFFFFFF, 0x0AAAAAAA, 0}, {0, 1}, {1, 7, 8, 0}, {1, 8, 9, 15, 0},
      {0, 1}, {0, 1}, {0, 1}, {0, 1}, {0, 1}, {0, 1}, {0, 1}, {0, 1}, {0, 1}, {1, 0x80000000, 0x01020304, 0xFFFFFFFF, 0}, {1, 0x80000000, 0x05060708, 0xFFFFFFFF, 0}, {1, 2, 3, 4, 5, 0}, {1, 0xFF, 0x100, 0x8000, 0xFFFF, 0}};
  // The deviating attributes; one file holds the product of their values.
  std::vector<int> dv;
  for (int i = 0; i < fCount; ++i) if (Has(kind, false, i) && c.dev(2)) dv.push_back(i);
  if (!c.mine()) return;
  if (k.mandatory && kind == kOverload) { c.outcome(0); return; }
  std::string t = Text(k) + f.Text() + " varying"; for (auto i : dv) t += std::string(" ") + kName[i]; c.describe(t);
  std::vector<Frame> fr{Base(kind, !ones, 7)};
  std::vector<size_t> at(dv.size(), 0);
  for (bool more = true; more;) {
    Frame g = f;
    for (size_t x = 0; x < dv.size(); ++x) if (dv[x] == fLen) SetLen(g, vals[fLen][at[x]], fr.size());
    for (size_t x = 0; x < dv.size(); ++x) if (dv[x] != fLen) g.v[dv[x]] = vals[dv[x]][at[x]];
    if (g.v[fId] > 0x7FF) g.v[fExt] = 1;   // identifiers above 11 bits are extended
    fr.push_back(g);
    if (fr.size() % 5 == 0) fr.push_back(Base(kind, !ones, 9));
    more = false;
    for (size_t x = 0; x < dv.size(); ++x) { if (++at[x] < vals[dv[x]].size()) { more = true; break; } at[x] = 0; }
  }
  Run(c, k, fr);
}
// Every sequence of payload lengths.
static void Lengths(mc::Ctx& c) {
  Conf k = PickConf(c); k.zip = c.thorough && c.flag();
  Kind kind = c.flag() ? kError : kData;
  size_t n = 1 + c.choose(c.thorough ? 3 : 2);
  std::vector<size_t> ls;
  static const std::vector<size_t> all = [] { std::vector<size_t> v; for (size_t i = 0; i <= 64; ++i) v.push_back(i); return v; }();
  static const std::vector<size_t> few = {0, 1, 7, 8, 9, 12, 13, 32, 33, 63, 64};
  for (size_t i = 0; i < n; ++i) ls.push_back(i == 0 ? all[c.choose(all.size())] : few[c.choose(few.size())]);
  for (auto l : ls) if (l > Limit(k.storage)) return;
  if (!c.mine()) return;
  std::ostringstream t; t << Text(k) << kGroup[kind] << " lengths"; for (auto l : ls) t << " " << l; c.describe(t.str());
  std::vector<Frame> fr;
  for (size_t i = 0; i < n; ++i) { Frame f; f.kind = kind; f.v[fId] = 100 + i; SetLen(f, ls[i], i + 20); fr.push_back(f); }
  Run(c, k, fr);
}
// Every sequence of frame kinds.
static void Kinds(mc::Ctx& c) {
  Conf k = PickConf(c); k.zip = c.flag(); k.flush = c.flag();
  size_t n = 1 + c.choose(c.thorough ? 6 : 4);
  std::vector<Kind> ks;
  for (size_t i = 0; i < n; ++i) ks.push_back((Kind)c.choose(k.mandatory ? 3 : 4));
  if (!c.mine()) return;
  std::ostringstream t; t << Text(k) << "kinds"; for (auto x : ks) t << " " << x; c.describe(t.str());
  std::vector<Frame> fr;
  for (size_t i = 0; i < n; ++i) {
    Frame f; f.kind = ks[i];
    for (int a = 0; a < fCount; ++a) f.v[a] = a == fErr ? Mix(i + 1) % 6 : Mix(i * 100 + a) & kTop[a];
    if (f.v[fId] > 0x7FF) f.v[fExt] = 1;
    SetLen(f, (i * 3 + (size_t)ks[i]) % 9, i + 40); fr.push_back(f);
  }
  Run(c, k, fr);
}

int main(int argc, char** argv) { return mc::Main(argc, argv, "C15", {{"kinds", Kinds}, {"lengths", Lengths}, {"fields", Fields, 2, 3}}); }
