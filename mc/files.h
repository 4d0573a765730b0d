// Recordings of every storage form and generic snapshots of what a subscription received (C12, C13).
#pragma once
#include <map>
#include "rec.h"
#include "flushctl.h"
#include "mdf/canmessage.h"
#include "mdf/isampleobserver.h"

namespace rec {
constexpr size_t kFileKinds = 12;

inline std::string OneValue(const IChannelObserver& ob, uint64_t n) {
  const auto& cn = ob.Channel();
  std::string out;
  uint64_t as = cn.ArraySize();
  for (uint64_t a = 0; a < as; ++a) {
    bool v = false; std::ostringstream o;
    auto dt = cn.DataType();
    if (IsBytes(dt)) { Bytes b; v = ob.GetChannelValue(n, b); o << b.size() << ":" << mc::Hex(b.data(), b.size()); }
    else if (IsFloat(dt)) { double d = 0; v = ob.GetChannelValue(n, d, a); uint64_t u; memcpy(&u, &d, 8); o << std::hex << u; }
    else if (IsSigned(dt)) { int64_t i = 0; v = ob.GetChannelValue(n, i, a); o << i; }
    else if (IsText(dt)) { std::string s; v = ob.GetChannelValue(n, s, a); o << s; }
    else { uint64_t u = 0; v = ob.GetChannelValue(n, u, a); o << u; }
    out += (v ? "V" : "I") + o.str() + ";";
  }
  return out;
}
inline bool AnyValid(const std::string& s) { return s[0] == 'V' || s.find(";V") != std::string::npos; }
inline std::vector<std::string> Snapshot(const IChannelObserver& ob) {
  std::vector<std::string> v;
  for (uint64_t n = 0; n < ob.NofSamples(); ++n) v.push_back(OneValue(ob, n));
  return v;
}

struct Place { size_t d, g, k; };  // data group, channel group, channel

inline std::vector<Place> AllChannels(const MdfReader& r) {
  std::vector<Place> v;
  auto dgs = r.GetHeader()->DataGroups();
  for (size_t d = 0; d < dgs.size(); ++d) {
    auto cgs = dgs[d]->ChannelGroups();
    for (size_t g = 0; g < cgs.size(); ++g) { if (cgs[g]->Flags() & CgFlag::VlsdChannel) continue; auto n = cgs[g]->Channels().size(); for (size_t k = 0; k < n; ++k) v.push_back({d, g, k}); }
  }
  return v;
}
inline ChannelObserverPtr Observe(const MdfReader& r, const Place& p) {
  auto* dg = r.GetHeader()->DataGroups()[p.d]; auto* cg = dg->ChannelGroups()[p.g];
  return CreateChannelObserver(*dg, *cg, *cg->Channels()[p.k]);
}

// Number of groups that kind has (the alphabet of the save order).
inline size_t KindGroups(size_t kind) { static const size_t n[kFileKinds] = {1, 2, 3, 1, 2, 1, 2, 1, 2, 2, 2, 2}; return n[kind]; }
inline const char* KindName(size_t kind) {
  static const char* n[kFileKinds] = {"mdf4-1", "mdf4-2", "mdf4-3", "mdf4-vlsd", "mdf4-2dg", "mdf3-1", "mdf3-2", "converter", "can-vlsd", "can-mlsd", "can-sd", "mdf4-vlsd-2"};
  return n[kind];
}
inline Spec KindSpec(size_t kind, bool zip) {
  Spec s; s.compress = zip;
  Group a; a.ch = {MasterTime(), Ch(ChannelDataType::UnsignedIntegerBe, 2), Ch(ChannelDataType::StringAscii, 5, true), Ch(ChannelDataType::FloatLe, 4)};
  Group b; b.ch = {MasterTime(), Ch(ChannelDataType::ByteArray, 3), Ch(ChannelDataType::SignedIntegerLe, 8, true)};
  Group d; d.ch = {Ch(ChannelDataType::UnsignedIntegerLe, 1)};
  Group v; v.ch = {MasterTime(), Vlsd(ChannelDataType::StringUTF8), Ch(ChannelDataType::SignedIntegerBe, 4), Vlsd(ChannelDataType::ByteArray, true)};
  Group m3; m3.ch = {MasterTime(), Ch(ChannelDataType::UnsignedIntegerBe, 2), Ch(ChannelDataType::StringAscii, 5), Ch(ChannelDataType::FloatLe, 4)};
  Group m3b; m3b.ch = {MasterTime(), Ch(ChannelDataType::ByteArray, 3), Ch(ChannelDataType::SignedIntegerLe, 8)};
  switch (kind) {
    case 0: s.dgs = {{a}}; break;
    case 1: s.dgs = {{a, b}}; break;
    case 2: s.dgs = {{a, d, b}}; break;
    case 3: s.dgs = {{v}}; break;
    case 4: s.dgs = {{a}, {v}}; break;
    case 5: s.writer = MdfWriterType::Mdf3Basic; s.dgs = {{m3}}; break;
    case 6: s.writer = MdfWriterType::Mdf3Basic; s.dgs = {{m3, m3b}}; break;
    case 7: s.writer = MdfWriterType::MdfConverter; s.dgs = {{b}}; break;
    case 11: s.dgs = {{v, a}}; break;
    default: break;
  }
  return s;
}
inline bool KindBus(size_t kind) { return kind >= 8 && kind <= 10; }

// order: per sample the flat group number.  hook(i): i = -1 after InitMeasurement, n after sample n, -2 after StopMeasurement,
// -3 after FinalizeMeasurement.
inline void KindRecord(mc::Ctx& c, size_t kind, bool zip, const std::vector<size_t>& order, const std::shared_ptr<MemDev>& dev, const std::function<void(int)>& hook) {
  if (!KindBus(kind)) {
    Spec s = KindSpec(kind, zip);
    ValidFn f = [&](size_t d, size_t g, size_t k, uint64_t n) { return s.dgs[d][g].ch[k].inval ? !((n + k + g) % 3 == 1) : true; };
    auto w = NewWriter(s);
    EXPECT(c, w->Init(std::static_pointer_cast<std::streambuf>(dev)), "file-init", "Init failed");
    auto l = Configure(*w, s);
    EXPECT(c, w->InitMeasurement(), "file-initmeas", "InitMeasurement failed");
    hook(-1);
    w->StartMeasurement(kStart);
    auto steps = MakeSteps(s, order);
    for (size_t i = 0; i < steps.size(); ++i) { Put(*w, s, l, steps[i], 0, f); hook((int)i); }
    w->StopMeasurement(kStart + 3600'000'000'000ull);
    hook(-2);
    EXPECT(c, w->FinalizeMeasurement(), "file-finalize", "FinalizeMeasurement failed");
    hook(-3);
    return;
  }
  auto w = MdfFactory::CreateMdfWriter(MdfWriterType::MdfBusLogger);
  EXPECT(c, w->Init(std::static_pointer_cast<std::streambuf>(dev)), "file-init", "");
  w->BusType(MdfBusType::CAN); w->StorageType(kind == 8 ? MdfStorageType::VlsdStorage : kind == 9 ? MdfStorageType::MlsdStorage : MdfStorageType::FixedLengthStorage);
  w->MaxLength(12); w->CompressData(zip); w->MandatoryMembersOnly(true); w->PreTrigTime(0);
  EXPECT(c, w->CreateBusLogConfiguration(), "file-config", "");
  auto* dg = w->Header()->LastDataGroup();
  IChannelGroup* cg[2] = {dg->GetChannelGroup("CAN_DataFrame"), dg->GetChannelGroup("CAN_RemoteFrame")};
  EXPECT(c, w->InitMeasurement(), "file-initmeas", "");
  hook(-1);
  w->StartMeasurement(kStart);
  size_t n = 0;
  for (auto o : order) {
    CanMessage m; m.MessageId((uint32_t)(0x100 + n)); m.BusChannel((uint16_t)(1 + n % 3));
    Bytes p; for (size_t k = 0; k < (n * 5) % 13; ++k) p.push_back((uint8_t)Mix(n * 100 + k));
    m.DataBytes(p);
    w->SaveCanMessage(*dg, *cg[o], kStart + n * 1000, m);
    hook((int)n);
    ++n;
  }
  w->StopMeasurement(kStart + 1000000);
  hook(-2);
  EXPECT(c, w->FinalizeMeasurement(), "file-finalize", "");
  hook(-3);
}
inline Bytes KindFile(mc::Ctx& c, size_t kind, bool zip, const std::vector<size_t>& order, int flush_after) {
  auto dev = std::make_shared<MemDev>();
  KindRecord(c, kind, zip, order, dev, [&](int i) { if (i >= 0 && i == flush_after) flushctl::Flush(); });
  return dev->data;
}

inline std::unique_ptr<MdfReader> OpenBytes(mc::Ctx& c, const Bytes& f) {
  auto r = std::make_unique<MdfReader>(std::static_pointer_cast<std::streambuf>(std::make_shared<MemDev>(f)));
  EXPECT(c, r->IsOk() && r->ReadEverythingButData(), "open", "file cannot be opened");
  return r;
}

// What a single complete read with every channel subscribed delivers, per channel.
inline std::map<std::string, std::vector<std::string>> FullRead(mc::Ctx& c, const Bytes& f) {
  auto r = OpenBytes(c, f);
  auto all = AllChannels(*r);
  std::vector<ChannelObserverPtr> ob;
  for (auto& p : all) ob.push_back(Observe(*r, p));
  for (auto* dg : r->GetHeader()->DataGroups()) EXPECT(c, r->ReadData(*dg), "full-read", "ReadData failed");
  std::map<std::string, std::vector<std::string>> m;
  for (size_t k = 0; k < all.size(); ++k) m[std::to_string(all[k].d) + "." + std::to_string(all[k].g) + "." + std::to_string(all[k].k)] = Snapshot(*ob[k]);
  return m;
}
inline std::string Key(const Place& p) { return std::to_string(p.d) + "." + std::to_string(p.g) + "." + std::to_string(p.k); }
}  // namespace rec
