// Builds MDF 4 recordings that use an arbitrary combination of format features.
#pragma once
#include <array>
#include <fstream>
#include "flushctl.h"
#include "rec.h"
#include "mdf/iattachment.h"
#include "mdf/ichannelarray.h"
#include "mdf/ichannelconversion.h"
#include "mdf/ichannelhierarchy.h"
#include "mdf/ievent.h"
#include "mdf/ifilehistory.h"
#include "mdf/imetadata.h"
#include "mdf/isourceinformation.h"

namespace rich {
using namespace mdf;
using rec::kStart;

enum Feat { kFh, kHd, kAt, kEv, kCh, kDgMd, kCgMd, kCnMd, kUnit, kSi, kCc, kCa, kComp, kVl, kInval, kCg2, kDg2, kZip, kPeriodic, kFlush, kSamples, kDefX, kCnAt, kWriter, kName, kNof };
// number of alternatives per feature (0 = feature off)
inline const std::array<size_t, kNof>& Alternatives() {
  static const std::array<size_t, kNof> a = {3, 4, 6, 7, 6, 3, 3, 4, 3, 4, 14, 12, 3, 6, 4, 4, 3, 2, 2, 4, 5, 3, 3, 2, 3};
  return a;
}
inline const char* FeatName(size_t f) {
  static const char* n[] = {"fh", "hd", "at", "ev", "ch", "dgmd", "cgmd", "cnmd", "unit", "si", "cc", "ca", "comp", "vl", "inval", "cg2", "dg2", "zip", "periodic", "flush", "samples", "defx", "cnat", "writer", "name"};
  return n[f];
}
using Opt = std::array<size_t, kNof>;
inline Opt ChooseDev(mc::Ctx& c) { Opt o; for (size_t f = 0; f < kNof; ++f) o[f] = c.dev(Alternatives()[f]); return o; }
inline std::string Text(const Opt& o) { std::ostringstream s; for (size_t f = 0; f < kNof; ++f) if (o[f]) s << FeatName(f) << "=" << o[f] << " "; return s.str(); }

inline std::string AttachFile() {
  std::string p = mc::Scratch() + "/attach.bin";
  std::ofstream f(p, std::ios::binary);
  for (int k = 0; k < 3000; ++k) f.put((char)(k % 7 ? k * k : 65));
  return p;
}

inline const std::string kOdd = "a<b>&\"c' \xC3\xA5\xE2\x82\xAC";

inline void MakeConversion(IChannel* cn, size_t kind) {
  if (!kind) return;
  auto* cc = cn->CreateChannelConversion();
  cc->Name("conv"); cc->Unit("km/h"); cc->Description("a conversion");
  switch (kind) {
    case 1: cc->Type(ConversionType::Linear); cc->Parameter(0, 1.5); cc->Parameter(1, 0.25); cc->Decimals(2); cc->Range(-1, 1); break;
    case 2: cc->Type(ConversionType::Rational); for (int k = 0; k < 6; ++k) cc->Parameter(k, k + 1.0); break;
    case 3: cc->Type(ConversionType::Algebraic); cc->Formula("X*2"); break;
    case 4: cc->Type(ConversionType::ValueToValueInterpolation); for (int k = 0; k < 6; ++k) cc->Parameter(k, k); break;
    case 5: cc->Type(ConversionType::ValueToValue); for (int k = 0; k < 6; ++k) cc->Parameter(k, k); break;
    case 6: cc->Type(ConversionType::ValueRangeToValue); for (int k = 0; k < 7; ++k) cc->Parameter(k, k); break;
    case 7: cc->Type(ConversionType::ValueToText); for (int k = 0; k < 3; ++k) { cc->Parameter(k, k); cc->Reference(k, "t" + std::to_string(k)); } cc->Reference(3, "def"); break;
    case 8: cc->Type(ConversionType::ValueRangeToText); for (int k = 0; k < 2; ++k) { cc->Parameter(2 * k, 2 * k); cc->Parameter(2 * k + 1, 2 * k + 1); cc->Reference(k, "t" + std::to_string(k)); } cc->Reference(2, "def"); break;
    case 9: cc->Type(ConversionType::TextToValue); for (int k = 0; k < 2; ++k) { cc->Parameter(k, k); cc->Reference(k, "t" + std::to_string(k)); } cc->Parameter(2, 9); break;
    case 10: cc->Type(ConversionType::TextToTranslation); for (int k = 0; k < 4; ++k) cc->Reference(k, "t" + std::to_string(k)); cc->Reference(4, "def"); break;
    case 11: cc->Type(ConversionType::NoConversion); break;
    case 12: { cc->Type(ConversionType::Linear); cc->Parameter(0, 0); cc->Parameter(1, 2); auto* inv = cc->CreateInverse(); inv->Type(ConversionType::Linear); inv->Parameter(0, 0); inv->Parameter(1, 0.5); inv->Name("inv"); inv->Unit("x"); break; }
    case 13: cc->Type(ConversionType::ValueToText); cc->Parameter(0, 1); cc->Reference(0, ""); cc->Reference(1, ""); break;
    default: break;
  }
}

inline void MakeArray(IChannelGroup* cg, IDataGroup* dg, IChannel* ref, size_t kind) {
  if (!kind) return;
  auto* cn = cg->CreateChannel("Array");
  cn->Type(ChannelType::FixedLength); cn->DataType(ChannelDataType::UnsignedIntegerLe); cn->DataBytes(2);
  auto* ca = cn->CreateChannelArray();
  ca->Type(ArrayType::Array); ca->Storage(ArrayStorage::CnTemplate);
  std::vector<uint64_t> shape = {3};
  if (kind == 2) shape = {2, 3};
  if (kind == 3) shape = {1};
  ca->Shape(shape);
  CaTripleReference r; r.DataGroup = dg; r.ChannelGroup = cg; r.Channel = ref;
  switch (kind) {
    case 4: ca->Flags(CaFlag::DynamicSize); ca->DynamicSizeList()[0] = r; break;
    case 5: ca->Flags(CaFlag::InputQuantity); ca->InputQuantityList()[0] = r; break;
    case 6: ca->Flags(CaFlag::OutputQuantity); ca->OutputQuantity() = r; break;
    case 7: ca->Flags(CaFlag::ComparisonQuantity); ca->ComparisonQuantity() = r; break;
    case 8: ca->Type(ArrayType::LookUp); ca->Flags(CaFlag::Axis); ca->AxisList()[0] = r; break;
    case 9: ca->Type(ArrayType::LookUp); ca->Shape({2, 2}); ca->Flags(CaFlag::Axis | CaFlag::FixedAxis); ca->ResizeArrays(); for (size_t k = 0; k < ca->AxisValues().size(); ++k) ca->AxisValues()[k] = k * 1.5; break;
    case 10: ca->Flags(CaFlag::InputQuantity | CaFlag::OutputQuantity | CaFlag::ComparisonQuantity | CaFlag::Axis | CaFlag::DynamicSize); ca->DynamicSizeList()[0] = r; ca->InputQuantityList()[0] = r; ca->OutputQuantity() = r; ca->ComparisonQuantity() = r; ca->AxisList()[0] = r; break;
    case 11: cn->Flags(CnFlag::InvalidValid); break;
    default: break;
  }
}

struct Model {
  std::vector<std::vector<IChannelGroup*>> cg;
  std::vector<IDataGroup*> dg;
  std::vector<std::vector<std::vector<IChannel*>>> cn;  // simple U32 channels and VLSD channels that get values
};

inline void SetAll(IChannelGroup* cg, uint64_t n, uint64_t salt) {
  for (auto* cn : cg->Channels()) {
    if (cn->Type() == ChannelType::Master || cn->Type() == ChannelType::VirtualData) continue;
    bool valid = (n + salt) % 3 != 0;
    switch (cn->DataType()) {
      case ChannelDataType::StringUTF8: case ChannelDataType::StringAscii: {
        std::string s((n * 7 + salt) % 40, (char)('a' + n % 26));
        cn->SetChannelValue(s, valid);
        break;
      }
      case ChannelDataType::ByteArray: {
        std::vector<uint8_t> b(cn->Type() == ChannelType::VariableLength ? (n * 5 + salt) % 50 : cn->DataBytes(), (uint8_t)(n + 1));
        cn->SetChannelValue(b, valid);
        break;
      }
      default:
        for (uint64_t e = 0; e < std::max<uint64_t>(1, cn->ArraySize()); ++e) cn->SetChannelValue((uint64_t)(n * 3 + e + salt), valid, e);
        break;
    }
  }
}

// Records the file; returns the finished device.
inline std::shared_ptr<MemDev> Build(mc::Ctx& c, const Opt& o, const std::string& key, bool log = false, std::vector<size_t>* marks = nullptr) {
  rec::Spec s;
  s.writer = o[kWriter] == 1 ? MdfWriterType::MdfConverter : MdfWriterType::Mdf4Basic;
  s.compress = o[kZip];
  s.periodic = o[kPeriodic] == 0;
  auto w = rec::NewWriter(s);
  auto dev = std::make_shared<MemDev>();
  dev->logging = log;
  EXPECT(c, w->Init(std::static_pointer_cast<std::streambuf>(dev)), key + "-init", "Init failed");
  auto* hd = w->Header();
  for (size_t k = 0; k < o[kFh]; ++k) { auto* fh = hd->CreateFileHistory(); fh->Description("Created " + kOdd); fh->ToolName("t"); fh->ToolVendor("v"); fh->ToolVersion("1"); fh->UserName("u"); fh->Time(kStart + k); }
  if (o[kHd] == 1) hd->Description(kOdd);
  if (o[kHd] == 2) { hd->Author("A"); hd->Project("P"); hd->Department("D"); hd->Subject("S"); hd->MeasurementId("m"); hd->RecorderIndex(3); }
  if (o[kHd] == 3) { hd->StartAngle(1.25); hd->StartDistance(-2.5); hd->Author(kOdd); hd->Description(kOdd); }
  std::vector<IAttachment*> at;
  std::string file = o[kAt] ? AttachFile() : "";
  size_t nat = o[kAt] == 0 ? 0 : o[kAt] == 4 ? 2 : 1;
  for (size_t k = 0; k < nat; ++k) {
    auto* a = hd->CreateAttachment();
    a->FileName(file); a->FileType("application/x");
    if (o[kAt] != 3) a->IsEmbedded(true);
    if (o[kAt] == 2 || (o[kAt] == 4 && k == 1)) a->IsCompressed(true);
    if (o[kAt] == 5) a->CreateMetaData()->StringProperty("TX", "att");
    at.push_back(a);
  }
  Model m;
  size_t ndg = 1 + (o[kDg2] > 0);
  for (size_t d = 0; d < ndg; ++d) {
    auto* dg = w->CreateDataGroup();
    m.dg.push_back(dg); m.cg.emplace_back();
    if (o[kDgMd] == 1) dg->Description(kOdd);
    if (o[kDgMd] == 2) dg->CreateMetaData()->StringProperty("TX", "x");
    size_t ncg = 1 + (d == 0 ? o[kCg2] : o[kDg2] - 1);
    for (size_t g = 0; g < ncg; ++g) {
      auto* cg = MdfWriter::CreateChannelGroup(dg);
      if (o[kName] != 1) cg->Name("G" + std::to_string(d) + std::to_string(g));
      if (o[kCgMd] == 1) cg->Description(kOdd);
      if (o[kCgMd] == 2) { cg->CreateMetaData()->StringProperty("TX", kOdd); cg->PathSeparator(u'/'); }
      if (o[kSi] & 1) { auto* si = cg->CreateSourceInformation(); si->Name("src"); si->Path("p/q"); si->Type(SourceType::Bus); si->Bus(BusType::Can); si->Description(kOdd); }
      m.cg[d].push_back(cg);
      auto* t = cg->CreateChannel("Time");
      t->Type(ChannelType::Master); t->Sync(ChannelSyncType::Time); t->DataType(ChannelDataType::FloatLe); t->DataBytes(8); t->Unit("s");
      auto* a = cg->CreateChannel(o[kName] == 2 ? std::string(200, 'n') : "A");
      a->Type(ChannelType::FixedLength); a->DataType(ChannelDataType::UnsignedIntegerLe); a->DataBytes(4);
      if (d == 0 && g == 0) {
        if (o[kCnMd] & 1) { a->Description(kOdd); a->DisplayName("disp"); }
        if (o[kCnMd] & 2) { a->Range(-1, 1); a->Limit(-2, 2); a->ExtLimit(-3, 3); a->Decimals(3); }
        if (o[kUnit] == 1) a->Unit("m/s");
        if (o[kUnit] == 2) a->Unit(kOdd);
        if (o[kSi] & 2) { auto* si = a->CreateSourceInformation(); si->Name("src2"); si->Path("p2"); si->Type(SourceType::Ecu); si->CreateMetaData()->StringProperty("TX", "y"); }
        MakeConversion(a, o[kCc]);
        MakeArray(cg, dg, a, o[kCa]);
        for (size_t k = 0; k < o[kComp]; ++k) { auto* x = a->CreateChannelComposition("Sub" + std::to_string(k)); x->Type(ChannelType::FixedLength); x->DataType(ChannelDataType::UnsignedIntegerLe); x->ByteOffset(8 + k); x->BitOffset(k); x->BitCount(3); }
        if (o[kVl] == 1 || o[kVl] == 3 || o[kVl] == 5) { auto* v = cg->CreateChannel("VText"); v->Type(ChannelType::VariableLength); v->DataType(ChannelDataType::StringUTF8); }
        if (o[kVl] == 2 || o[kVl] == 3) { auto* v = cg->CreateChannel("VBytes"); v->Type(ChannelType::VariableLength); v->DataType(ChannelDataType::ByteArray); }
        if (o[kVl] == 4) { auto* v = cg->CreateChannel("Fixed"); v->Type(ChannelType::FixedLength); v->DataType(ChannelDataType::StringUTF8); v->DataBytes(41); }
        static const size_t nin[] = {0, 1, 8, 9};
        for (size_t k = 0; k < nin[o[kInval]]; ++k) { auto* v = cg->CreateChannel("I" + std::to_string(k)); v->Type(ChannelType::FixedLength); v->DataType(ChannelDataType::UnsignedIntegerLe); v->DataBytes(1); v->Flags(CnFlag::InvalidValid); }
        if (o[kDefX] == 1) { ElementLink e; e.data_group = dg; e.channel_group = cg; e.channel = t; a->DefaultX(e); }
        if (o[kCnAt] > 0) for (size_t k = 0; k < o[kCnAt] && k < at.size(); ++k) a->AddAttachmentReference(at[k]);
      }
      if (o[kDefX] == 2 && (d > 0 || g > 0)) { ElementLink e; e.data_group = m.dg[0]; e.channel_group = m.cg[0][0]; e.channel = m.cg[0][0]->Channels()[0]; a->DefaultX(e); }
    }
  }
  auto events = [&](bool after) {
    if (o[kEv] == 0 || (o[kEv] == 4 || o[kEv] == 5) != after) return;
    auto* e1 = hd->CreateEvent();
    e1->Name("ev1"); e1->Type(EventType::Trigger); e1->Sync(SyncType::SyncTime); e1->Cause(EventCause::CauseUser); e1->SyncValue(5); e1->SyncFactor(0.5); e1->Description(kOdd); e1->Range(RangeType::RangeStart);
    if (o[kEv] >= 2) { auto* e2 = hd->CreateEvent(); e2->Name("ev2"); e2->ParentEvent(e1); e2->Range(RangeType::RangeEnd); e2->RangeEvent(e1); if (o[kEv] == 3 || o[kEv] == 5) e2->GroupName("grp"); for (auto* a : at) e2->AddAttachment(a);
      if (o[kEv] >= 4) { e2->AddScope(m.cg[0][0]); e2->AddScope(m.cg[0][0]->Channels()[1]); } }
  };
  auto hier = [&](bool after) {
    if (o[kCh] == 0 || (o[kCh] == 3 || o[kCh] == 4) != after) return;
    auto* h = hd->CreateChannelHierarchy();
    h->Name("top"); h->Type(ChType::Function); h->Description(kOdd);
    if (o[kCh] % 2 == 0) { auto* s1 = h->CreateChannelHierarchy(); s1->Name("sub1"); auto* s2 = h->CreateChannelHierarchy(); s2->Name("sub2"); auto* h2 = hd->CreateChannelHierarchy(); h2->Name("top2"); }
    if (o[kCh] >= 3) for (size_t k = 0; k < 2; ++k) { ElementLink e; e.data_group = m.dg[0]; e.channel_group = m.cg[0][0]; e.channel = m.cg[0][0]->Channels()[k]; h->AddElementLink(e); }
  };
  events(false); hier(false);
  if (marks) marks->push_back(dev->log.size());
  EXPECT(c, w->InitMeasurement(), key + "-initmeas", "InitMeasurement failed");
  if (marks) marks->push_back(dev->log.size());
  events(true); hier(true);
  w->StartMeasurement(kStart);
  static const size_t ns[] = {3, 0, 1, 12, 60};
  for (size_t n = 0; n < ns[o[kSamples]]; ++n) {
    for (size_t d = 0; d < m.dg.size(); ++d) for (size_t g = 0; g < m.cg[d].size(); ++g) {
      if (o[kVl] == 5 && n % 2) {} // repeated text values
      SetAll(m.cg[d][g], o[kVl] == 5 ? n % 2 : n, d * 10 + g);
      w->SaveSample(*m.dg[d], *m.cg[d][g], kStart + n * 1000000 + d * 10 + g);
    }
    if ((o[kFlush] & 1) && n == 0) flushctl::Flush();
    if ((o[kFlush] & 2) && n == 1) flushctl::Flush();
    if (marks) marks->push_back(dev->log.size());
  }
  w->StopMeasurement(kStart + 3600'000'000'000ull);
  if (marks) marks->push_back(dev->log.size());
  EXPECT(c, w->FinalizeMeasurement(), key + "-finalize", "FinalizeMeasurement failed");
  return dev;
}
}  // namespace rich
