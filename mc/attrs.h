// Every descriptive attribute of a recording with its boundary values (C17, C22).
#pragma once
#include <filesystem>
#include <fstream>
#include "mc.h"
#include "rec.h"
#include "mdf4parse.h"
#include "mdf/etag.h"
#include "mdf/iattachment.h"
#include "mdf/ichannelconversion.h"
#include "mdf/ifilehistory.h"
#include "mdf/imetadata.h"
#include "mdf/isourceinformation.h"
#include "mdf/mdflogstream.h"
namespace attrs {
using namespace mdf; using namespace rec;
using Str = std::string;
using Map = std::map<Str, Str>;
static Str Num(double d) { char b[40]; snprintf(b, sizeof b, "%.17g", d); return b; }
static Str Num(uint64_t d) { return std::to_string(d); }
static Str Pair(const std::optional<std::pair<double, double>>& p) { return p ? Num(p->first) + ".." + Num(p->second) : "-"; }
static Str Diff(const Map& a, const Map& b) {
  for (auto& [k, v] : a) { auto it = b.find(k); if (it == b.end()) return k + " = \"" + v.substr(0, 80) + "\" is missing"; if (it->second != v) return k + " = \"" + v.substr(0, 80) + "\" became \"" + it->second.substr(0, 80) + "\""; }
  for (auto& [k, v] : b) if (!a.count(k)) return k + " = \"" + v.substr(0, 80) + "\" appeared";
  return "";
}
static Str Kind(const Str& d) { Str s = d.substr(0, d.find(' ')); Str o; for (char ch : s) if (!isdigit((unsigned char)ch)) o += ch; return o; }

static const std::vector<Str> kStr = {"", "<", "a&b", "x'y\"z", "]]>", "p\nq", "p\rq", "p\tq", "a  b", "\xC3\xA4\xE2\x82\xAC\xF0\x9F\x98\x80", "<TX>t</TX>", "<CNcomment><TX>t</TX></CNcomment>", "&amp;", "0", "%s", Str(7, 'w'), Str(8, 'x'), Str(300, 'y'), Str(9000, 'L')};
static const std::vector<double> kNum = {0, 1, -1, 1e-9, 1.0 / 3, 123456789.123456789, 1.7976931348623157e308, -2.5e-300};

struct AttrVal { Str want; std::function<void(IHeader&)> set; };
struct Attr { Str key; std::vector<AttrVal> v; size_t base = 0; };  // base: the value used in a full file
struct Env { std::vector<Attr> attrs; };

constexpr uint32_t kCnFlags = CnFlag::Discrete | CnFlag::Calibration | CnFlag::Calculated | CnFlag::BusEvent | CnFlag::StrictlyMonotonous | CnFlag::EventSignal;
static IChannelGroup* Cg(IHeader& h, size_t d, size_t g) { return h.DataGroups()[d]->ChannelGroups()[g]; }
static IChannel* Cn(IHeader& h, size_t d, size_t g, size_t k) { return Cg(h, d, g)->Channels()[k]; }

static void Layout(IHeader& h, bool mdf3) {
  if (!mdf3) {
    for (int k = 0; k < 2; ++k) { auto* f = h.CreateFileHistory(); f->Time(kStart + k); }
    for (int k = 0; k < 2; ++k) { auto* a = h.CreateAttachment(); a->FileName("a" + std::to_string(k) + ".txt"); }
  }
  for (int d = 0; d < 2; ++d) {
    auto* dg = h.CreateDataGroup();
    for (int g = 0; g < (d ? 1 : 2) && !(mdf3 && g); ++g) {
      auto* cg = dg->CreateChannelGroup(); Str n = std::to_string(d) + std::to_string(g); cg->Name("G" + n); if (!mdf3) cg->CreateSourceInformation();
      auto* t = cg->CreateChannel("t" + n); t->Type(ChannelType::Master); t->Sync(ChannelSyncType::Time); t->DataType(ChannelDataType::FloatLe); t->DataBytes(8);
      for (Str x : {"a", "b"}) { auto* c = cg->CreateChannel(x + n); c->DataType(ChannelDataType::UnsignedIntegerLe); c->DataBytes(4); auto* cc = c->CreateChannelConversion(); cc->Type(ConversionType::Linear); cc->Parameter(0, 1); cc->Parameter(1, 2); if (!mdf3) c->CreateSourceInformation(); }
    }
  }
}
static Map Obs(const IHeader& h, bool mdf3) {
  Map m;
  auto md = [&](const Str& p, const IMetaData* x) { for (Str n : {"prop", "Other.Prop"}) m[p + "." + n] = x ? x->CommonProperty(n).Value<Str>() : ""; };
  m["hd.author"] = h.Author(); m["hd.dep"] = h.Department(); m["hd.project"] = h.Project(); m["hd.subject"] = h.Subject(); m["hd.desc"] = h.Description();
  if (!mdf3) {
    m["hd.mid"] = h.MeasurementId(); m["hd.rid"] = h.RecorderId(); m["hd.rix"] = std::to_string(h.RecorderIndex()); m["hd.angle"] = h.StartAngle() ? Num(*h.StartAngle()) : "-"; m["hd.dist"] = h.StartDistance() ? Num(*h.StartDistance()) : "-";
    md("hd", h.MetaData());
    size_t k = 0;
    for (auto* f : h.FileHistories()) { Str p = "fh" + std::to_string(k++); m[p + ".time"] = Num(f->Time()); m[p + ".desc"] = f->Description(); m[p + ".tool"] = f->ToolName(); m[p + ".vendor"] = f->ToolVendor(); m[p + ".ver"] = f->ToolVersion(); m[p + ".user"] = f->UserName(); md(p, f->MetaData()); }
    k = 0;
    for (auto* a : h.Attachments()) { Str p = "at" + std::to_string(k++); m[p + ".file"] = a->FileName(); m[p + ".type"] = a->FileType(); m[p + ".creator"] = Num((uint64_t)a->CreatorIndex()); m[p + ".emb"] = a->IsEmbedded() ? "1" : "0"; m[p + ".desc"] = a->MetaData() ? a->MetaData()->StringProperty("TX") : ""; md(p, a->MetaData()); }
  }
  auto si = [&](const Str& p, const ISourceInformation* s) { m[p] = s ? "si" : "none"; if (!s) return; m[p + ".name"] = s->Name(); m[p + ".path"] = s->Path(); m[p + ".desc"] = s->Description(); m[p + ".type"] = Num((uint64_t)s->Type()); m[p + ".bus"] = Num((uint64_t)s->Bus()); m[p + ".flags"] = Num((uint64_t)s->Flags()); md(p, s->MetaData()); };
  auto dgs = h.DataGroups();
  for (size_t d = 0; d < dgs.size(); ++d) {
    Str pd = "dg" + std::to_string(d); if (!mdf3) { m[pd + ".desc"] = dgs[d]->Description(); md(pd, dgs[d]->MetaData()); }
    auto cgs = dgs[d]->ChannelGroups();
    for (size_t g = 0; g < cgs.size(); ++g) {
      Str pg = pd + ".cg" + std::to_string(g); auto* cg = cgs[g]; m[pg + ".desc"] = cg->Description();
      if (!mdf3) { m[pg + ".name"] = cg->Name(); m[pg + ".sep"] = Num((uint64_t)cg->PathSeparator()); si(pg + ".si", cg->SourceInformation()); md(pg, cg->MetaData()); m[pg + ".flags"] = Num((uint64_t)(cg->Flags() & (CgFlag::BusEvent | CgFlag::PlainBusEvent))); }
      auto cns = cg->Channels();
      for (size_t k = 0; k < cns.size(); ++k) {
        Str p = pg + ".cn" + std::to_string(k); auto* n = cns[k]; m[p + ".name"] = n->Name(); m[p + ".desc"] = n->Description(); m[p + ".unit"] = n->Unit(); m[p + ".range"] = Pair(n->Range());
        if (mdf3) { m[p + ".disp"] = n->DisplayName(); m[p + ".rate"] = Num(n->SamplingRate()); }
        else { m[p + ".flags"] = Num((uint64_t)(n->Flags() & kCnFlags)); m[p + ".dec"] = n->IsDecimalUsed() ? Num((uint64_t)n->Decimals()) : "-"; m[p + ".limit"] = Pair(n->Limit()); m[p + ".ext"] = Pair(n->ExtLimit()); si(p + ".si", n->SourceInformation()); md(p, n->MetaData()); }
        auto* c = n->ChannelConversion(); p += ".cc"; m[p] = c ? "cc" : "none"; if (!c) continue;
        m[p + ".range"] = Pair(c->Range()); if (!mdf3) m[p + ".unit"] = c->Unit(); m[p + ".type"] = Num((uint64_t)c->Type()); m[p + ".p0"] = c->NofParameters() > 0 ? Num(c->Parameter(0)) : "-"; m[p + ".p1"] = c->NofParameters() > 1 ? Num(c->Parameter(1)) : "-";
        if (!mdf3) { m[p + ".name"] = c->Name(); m[p + ".desc"] = c->Description(); m[p + ".dec"] = c->IsDecimalUsed() ? Num((uint64_t)c->Decimals()) : "-"; m[p + ".flags"] = Num((uint64_t)(c->Flags() & CcFlag::StatusString)); md(p, c->MetaData()); }
      }
    }
  }
  return m;
}
using H = IHeader&;
static std::vector<Attr> MakeAttrs(bool mdf3) {
  std::vector<Attr> r;
  auto str = [&](const Str& key, std::function<void(H, const Str&)> f, const std::vector<Str>& vals = kStr) { Attr a; a.key = key; for (auto& s : vals) a.v.push_back({s, [f, s](H h) { f(h, s); }}); a.v.push_back({"B_" + key, [f, key](H h) { f(h, "B_" + key); }}); a.base = a.v.size() - 1; r.push_back(a); };
  auto nonempty = [&](std::vector<Str> v) { v.erase(v.begin()); return v; };
  auto uns = [&](const Str& key, std::vector<uint64_t> vals, std::function<void(H, uint64_t)> f) { Attr a; a.key = key; for (auto s : vals) a.v.push_back({Num(s), [f, s](H h) { f(h, s); }}); a.base = a.v.size() - 1; r.push_back(a); };
  auto dbl = [&](const Str& key, std::function<void(H, double)> f) { Attr a; a.key = key; for (auto s : kNum) a.v.push_back({Num(s), [f, s](H h) { f(h, s); }}); a.base = 4; r.push_back(a); };
  auto rng = [&](const Str& key, std::function<void(H, double, double)> f) { Attr a; a.key = key; for (auto [x, y] : std::vector<std::pair<double, double>>{{-1, 1}, {0, 1}, {1, 2}, {-1e300, 1e-300}, {1.0 / 3, 1e10}}) a.v.push_back({Pair(std::make_pair(x, y)), [f, x = x, y = y](H h) { f(h, x, y); }}); a.base = 4; r.push_back(a); };
  auto md = [&](const Str& p, std::function<IMetaData*(H)> get) { for (Str n : {"prop", "Other.Prop"}) str(p + "." + n, [get, n](H h, const Str& s) { ETag e; e.Name(n); e.DataType(ETagDataType::StringType); e.Value(s); get(h)->CommonProperty(e); }, n == "prop" ? kStr : std::vector<Str>{"<&>"}); };
  if (!mdf3) {
    str("hd.author", [](H h, const Str& s) { h.Author(s); }); str("hd.dep", [](H h, const Str& s) { h.Department(s); }); str("hd.project", [](H h, const Str& s) { h.Project(s); }); str("hd.subject", [](H h, const Str& s) { h.Subject(s); });
    str("hd.desc", [](H h, const Str& s) { h.Description(s); }); str("hd.mid", [](H h, const Str& s) { h.MeasurementId(s); }); str("hd.rid", [](H h, const Str& s) { h.RecorderId(s); });
    { Attr a; a.key = "hd.rix"; for (int64_t x : {(int64_t)0, (int64_t)1, (int64_t)-1, INT64_MAX, INT64_MIN, (int64_t)4294967296}) a.v.push_back({std::to_string(x), [x](H h) { h.RecorderIndex(x); }}); a.base = 5; r.push_back(a); }
    dbl("hd.angle", [](H h, double s) { h.StartAngle(s); }); dbl("hd.dist", [](H h, double s) { h.StartDistance(s); });
    md("hd", [](H h) { return h.CreateMetaData(); });
    for (size_t k = 0; k < 2; ++k) {
      Str p = "fh" + std::to_string(k); auto f = [k](H h) { return h.FileHistories()[k]; };
      str(p + ".desc", [f](H h, const Str& s) { f(h)->Description(s); }); str(p + ".tool", [f](H h, const Str& s) { f(h)->ToolName(s); }); str(p + ".vendor", [f](H h, const Str& s) { f(h)->ToolVendor(s); }); str(p + ".ver", [f](H h, const Str& s) { f(h)->ToolVersion(s); }); str(p + ".user", [f](H h, const Str& s) { f(h)->UserName(s); });
      uns(p + ".time", {1, 1000000000, kStart + 123456789, 4102444800000000001ull}, [f](H h, uint64_t t) { f(h)->Time(t); });
      md(p, [f](H h) { return f(h)->CreateMetaData(); });
      p = "at" + std::to_string(k); auto a = [k](H h) { return h.Attachments()[k]; };
      str(p + ".file", [a](H h, const Str& s) { a(h)->FileName(s); }, std::vector<Str>(kStr.begin() + 1, kStr.end() - 2)); str(p + ".type", [a](H h, const Str& s) { a(h)->FileType(s); }); uns(p + ".creator", {0, 1, 256, 65535}, [a](H h, uint64_t s) { a(h)->CreatorIndex((uint16_t)s); });
      str(p + ".desc", [a](H h, const Str& s) { a(h)->CreateMetaData()->StringProperty("TX", s); }); md(p, [a](H h) { return a(h)->CreateMetaData(); });
    }
  } else {
    std::vector<Str> t31 = {"", "<", "\xC3\xA4", "x'y\"z", "a  b", "0", Str(30, 'x'), Str(31, 'y')}; std::vector<Str> free = {"", "<", "\xC3\xA4", "x'y\"z", "p\r\nq", "0", Str(127, 'x'), Str(500, 'y'), Str(9000, 'z')};
    str("hd.author", [](H h, const Str& s) { h.Author(s); }, t31); str("hd.dep", [](H h, const Str& s) { h.Department(s); }, t31); str("hd.project", [](H h, const Str& s) { h.Project(s); }, t31); str("hd.subject", [](H h, const Str& s) { h.Subject(s); }, t31); str("hd.desc", [](H h, const Str& s) { h.Description(s); }, free);
  }
  auto si = [&](const Str& p, std::function<ISourceInformation*(H)> s) {
    str(p + ".name", [s](H h, const Str& v) { s(h)->Name(v); }); str(p + ".path", [s](H h, const Str& v) { s(h)->Path(v); }); str(p + ".desc", [s](H h, const Str& v) { s(h)->Description(v); });
    uns(p + ".type", {0, 1, 2, 3, 4, 5}, [s](H h, uint64_t v) { s(h)->Type((SourceType)v); }); uns(p + ".bus", {0, 1, 2, 3, 4, 5, 6, 7, 8}, [s](H h, uint64_t v) { s(h)->Bus((BusType)v); }); uns(p + ".flags", {0, 1}, [s](H h, uint64_t v) { s(h)->Flags((uint8_t)v); });
    md(p, [s](H h) { return s(h)->CreateMetaData(); });
  };
  for (size_t d = 0; d < 2; ++d) {
    Str pd = "dg" + std::to_string(d);
    if (!mdf3) { str(pd + ".desc", [d](H h, const Str& s) { h.DataGroups()[d]->Description(s); }); md(pd, [d](H h) { return h.DataGroups()[d]->CreateMetaData(); }); }
    for (size_t g = 0; g < (d == 0 && !mdf3 ? 2 : 1); ++g) {
      Str pg = pd + ".cg" + std::to_string(g); auto cg = [d, g](H h) { return Cg(h, d, g); };
      str(pg + ".desc", [cg](H h, const Str& s) { cg(h)->Description(s); }, mdf3 ? std::vector<Str>{"", "<", "0", "p\r\nq", Str(500, 'q')} : kStr);
      if (!mdf3) {
        str(pg + ".name", [cg](H h, const Str& s) { cg(h)->Name(s); }); uns(pg + ".sep", {'/', '\\', '.', 0x20AC}, [cg](H h, uint64_t v) { cg(h)->PathSeparator((char16_t)v); }); md(pg, [cg](H h) { return cg(h)->CreateMetaData(); });
        si(pg + ".si", [cg](H h) { return cg(h)->SourceInformation(); });
      }
      for (size_t k = 0; k < 3; ++k) {
        if (k != 1 && (d || g)) continue;
        Str p = pg + ".cn" + std::to_string(k); auto n = [d, g, k](H h) { return Cn(h, d, g, k); };
        str(p + ".name", [n](H h, const Str& s) { n(h)->Name(s); }, mdf3 ? std::vector<Str>{"<", "\xC3\xA4", "0", "x'y", "a b", Str(31, 'x'), Str(32, 'y'), Str(33, 'z'), Str(700, 'w')} : nonempty(kStr));
        str(p + ".desc", [n](H h, const Str& s) { n(h)->Description(s); }, mdf3 ? std::vector<Str>{"", "<", "\xC3\xA4", "0", "x'y", Str(126, 'x'), Str(127, 'y')} : kStr);
        if (k) str(p + ".unit", [n](H h, const Str& s) { n(h)->Unit(s); }, mdf3 ? std::vector<Str>{"", "<", "\xC3\xA4", "km/h", Str(19, 'x')} : kStr);
        if (mdf3) { str(p + ".disp", [n](H h, const Str& s) { n(h)->DisplayName(s); }, {"", "<", "d n", Str(300, 'x')}); dbl(p + ".rate", [n](H h, double v) { n(h)->SamplingRate(v); }); }
        if (!mdf3) rng(p + ".range", [n](H h, double a, double b) { n(h)->Range(a, b); });
        if (!mdf3) {
          rng(p + ".limit", [n](H h, double a, double b) { n(h)->Limit(a, b); }); rng(p + ".ext", [n](H h, double a, double b) { n(h)->ExtLimit(a, b); });
          uns(p + ".dec", {0, 1, 7, 254}, [n](H h, uint64_t v) { n(h)->Decimals((uint8_t)v); });
          { Attr a; a.key = p + ".flags"; for (uint32_t bit : {CnFlag::Discrete, CnFlag::Calibration, CnFlag::Calculated, CnFlag::StrictlyMonotonous, CnFlag::EventSignal, kCnFlags}) a.v.push_back({Num((uint64_t)bit), [n, bit](H h) { n(h)->Flags((n(h)->Flags() & ~kCnFlags) | bit); }}); a.base = 0; r.push_back(a); }
          md(p, [n](H h) { return n(h)->CreateMetaData(); });
          if (k) si(p + ".si", [n](H h) { return n(h)->SourceInformation(); });
        }
        if (!k) continue;
        p += ".cc"; auto cc = [n](H h) { return n(h)->ChannelConversion(); };
        if (!mdf3) str(p + ".unit", [cc](H h, const Str& s) { cc(h)->Unit(s); });  // MDF3 has one unit for both
        if (!mdf3) rng(p + ".range", [cc](H h, double a, double b) { cc(h)->Range(a, b); });
        dbl(p + ".p0", [cc](H h, double v) { cc(h)->Parameter(0, v); }); dbl(p + ".p1", [cc](H h, double v) { cc(h)->Parameter(1, v); });
        if (!mdf3) {
          str(p + ".name", [cc](H h, const Str& s) { cc(h)->Name(s); }); str(p + ".desc", [cc](H h, const Str& s) { cc(h)->Description(s); }); uns(p + ".dec", {0, 1, 7, 254}, [cc](H h, uint64_t v) { cc(h)->Decimals((uint8_t)v); });
          uns(p + ".flags", {0, 4}, [cc](H h, uint64_t v) { cc(h)->Flags((uint16_t)((cc(h)->Flags() & ~CcFlag::StatusString) | v)); });
          md(p, [cc](H h) { return cc(h)->CreateMetaData(); });
        }
      }
    }
  }
  return r;
}
static const std::vector<Attr>& Attrs(bool mdf3) { static const auto a4 = MakeAttrs(false), a3 = MakeAttrs(true); return mdf3 ? a3 : a4; }

struct Set { size_t attr, val; };
// records a file with the attributes set in the order given; returns the bytes and what the writer says before finishing
static std::vector<uint8_t> Make(mc::Ctx& c, bool mdf3, bool full, const std::vector<Set>& sets, Map* live, bool samples, const Str& fn) {
  auto dev = std::make_shared<MemDev>();
  auto w = MdfFactory::CreateMdfWriter(mdf3 ? MdfWriterType::Mdf3Basic : MdfWriterType::Mdf4Basic); w->PreTrigTime(0);
  std::error_code ec; if (!fn.empty()) std::filesystem::remove(fn, ec);
  EXPECT(c, fn.empty() ? w->Init(std::static_pointer_cast<std::streambuf>(dev)) : w->Init(fn), "init", "Init failed");
  auto& h = *w->Header(); Layout(h, mdf3); auto& at = Attrs(mdf3);
  if (full) for (auto& a : at) a.v[a.base].set(h);
  for (auto& s : sets) at[s.attr].v[s.val].set(h);
  EXPECT(c, w->InitMeasurement(), "init", "InitMeasurement failed");
  w->StartMeasurement(kStart);
  if (samples) for (auto* d : h.DataGroups()) for (auto* g : d->ChannelGroups()) { g->Channels()[1]->SetChannelValue((uint32_t)7); w->SaveSample(*d, *g, kStart + 5); }
  w->StopMeasurement(kStart + 1000);
  if (live) *live = Obs(h, mdf3);
  EXPECT(c, w->FinalizeMeasurement(), "finalize", "FinalizeMeasurement failed");
  w.reset();
  if (fn.empty()) return dev->data;
  std::ifstream f(fn, std::ios::binary); return std::vector<uint8_t>((std::istreambuf_iterator<char>(f)), {});
}
static Map ReadBack(mc::Ctx& c, const std::vector<uint8_t>& b, bool mdf3) {
  MdfReader r(std::static_pointer_cast<std::streambuf>(std::make_shared<MemDev>(b)));
  EXPECT(c, r.IsOk() && r.ReadEverythingButData() && r.GetHeader(), "open", "the file cannot be read");
  return Obs(*r.GetHeader(), mdf3);
}
}  // namespace attrs
