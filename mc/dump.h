// Every observable descriptive attribute of a file as path -> value; references are printed as the path of the object they name.
#pragma once
#include <map>
#include "rec.h"
#include "mdf/iattachment.h"
#include "mdf/ichannelarray.h"
#include "mdf/ichannelconversion.h"
#include "mdf/ichannelhierarchy.h"
#include "mdf/ievent.h"
#include "mdf/ifilehistory.h"
#include "mdf/imetadata.h"
#include "mdf/isourceinformation.h"

namespace dump {
using namespace mdf;
using Map = std::map<std::string, std::string>;

struct D {
  Map m;
  std::map<const void*, std::string> names;
  bool blocks = false;  // also counters that a recording changes

  static std::string Num(double d) { std::ostringstream o; o.precision(17); o << d; return o.str(); }
  static std::string Num(uint64_t d) { return std::to_string(d); }
  static std::string Pair(const std::optional<std::pair<double, double>>& p) { return p ? Num(p->first) + ".." + Num(p->second) : "-"; }
  std::string Ref(const void* p) const { if (!p) return "-"; auto it = names.find(p); return it == names.end() ? "?" : it->second; }
  std::string Link(const ElementLink& e) const { return Ref(e.data_group) + "|" + Ref(e.channel_group) + "|" + Ref(e.channel); }
  std::string Link(const CaTripleReference& e) const { return Ref(e.DataGroup) + "|" + Ref(e.ChannelGroup) + "|" + Ref(e.Channel); }
  void Put(const std::string& k, const std::string& v) { m[k] = v; }

  void Md(const std::string& p, const IMetaData* md) {
    if (!md) return;
    for (auto& t : md->Properties()) Put(p + ".md." + t.Name(), t.Value<std::string>());
    int n = 0;
    for (auto& t : md->CommonProperties()) Put(p + ".mdc" + std::to_string(n++) + "." + t.Name(), t.Value<std::string>());
  }
  void Si(const std::string& p, const ISourceInformation* s) {
    if (!s) return;
    Put(p + ".name", s->Name()); Put(p + ".path", s->Path()); Put(p + ".desc", s->Description());
    Put(p + ".type", Num((uint64_t)s->Type())); Put(p + ".bus", Num((uint64_t)s->Bus())); Put(p + ".flags", Num((uint64_t)s->Flags()));
    Md(p, s->MetaData());
  }
  void Cc(const std::string& p, const IChannelConversion* c) {
    if (!c) return;
    Put(p + ".name", c->Name()); Put(p + ".desc", c->Description()); Put(p + ".unit", c->IsUnitValid() ? c->Unit() : "-");
    Put(p + ".type", Num((uint64_t)c->Type())); Put(p + ".dec", c->IsDecimalUsed() ? Num((uint64_t)c->Decimals()) : "-");
    Put(p + ".range", Pair(c->Range())); Put(p + ".flags", Num((uint64_t)c->Flags())); Put(p + ".formula", c->Formula());
    Put(p + ".npar", Num((uint64_t)c->NofParameters())); Put(p + ".nref", Num((uint64_t)c->NofReferences()));
    for (uint16_t k = 0; k < c->NofParameters(); ++k) Put(p + ".par" + std::to_string(k), Num(c->Parameter(k)));
    for (uint16_t k = 0; k < c->NofReferences(); ++k) Put(p + ".ref" + std::to_string(k), c->Reference(k));
    Md(p, c->MetaData());
    Cc(p + ".inv", c->Inverse());
  }
  void Ca(const std::string& p, const IChannelArray* a) {
    if (!a) return;
    Put(p + ".type", Num((uint64_t)a->Type())); Put(p + ".storage", Num((uint64_t)a->Storage())); Put(p + ".flags", Num((uint64_t)a->Flags()));
    std::string s; for (auto d : a->Shape()) s += Num(d) + ","; Put(p + ".shape", s);
    s.clear(); for (auto d : a->AxisValues()) s += Num(d) + ","; Put(p + ".axisvalues", s);
    s.clear(); for (auto& r : a->DynamicSizeList()) s += Link(r) + ","; Put(p + ".dyn", s);
    s.clear(); for (auto& r : a->InputQuantityList()) s += Link(r) + ","; Put(p + ".in", s);
    Put(p + ".out", Link(a->OutputQuantity())); Put(p + ".cmp", Link(a->ComparisonQuantity()));
    s.clear(); for (auto& r : a->AxisList()) s += Link(r) + ","; Put(p + ".axis", s);
  }
  void Cn(const std::string& p, const IChannel* n) {
    Put(p + ".name", n->Name()); Put(p + ".disp", n->DisplayName()); Put(p + ".desc", n->Description()); Put(p + ".unit", n->IsUnitValid() ? n->Unit() : "-");
    Put(p + ".flags", Num((uint64_t)n->Flags())); Put(p + ".type", Num((uint64_t)n->Type())); Put(p + ".sync", Num((uint64_t)n->Sync())); Put(p + ".dt", Num((uint64_t)n->DataType()));
    Put(p + ".bytes", Num(n->DataBytes())); Put(p + ".dec", n->IsDecimalUsed() ? Num((uint64_t)n->Decimals()) : "-");
    Put(p + ".range", Pair(n->Range())); Put(p + ".limit", Pair(n->Limit())); Put(p + ".ext", Pair(n->ExtLimit())); Put(p + ".rate", Num(n->SamplingRate()));
    Put(p + ".bits", Num((uint64_t)n->BitCount())); Put(p + ".bitoff", Num((uint64_t)n->BitOffset())); Put(p + ".byteoff", Num((uint64_t)n->ByteOffset()));
    Put(p + ".defx", Link(n->DefaultX()));
    std::string s; for (auto* a : n->AttachmentList()) s += Ref(a) + ","; Put(p + ".att", s);
    Si(p + ".si", n->SourceInformation()); Cc(p + ".cc", n->ChannelConversion());
    auto ca = n->ChannelArrays(); for (size_t k = 0; k < ca.size(); ++k) Ca(p + ".ca" + std::to_string(k), ca[k]);
    auto cp = n->ChannelCompositions(); Put(p + ".ncomp", Num((uint64_t)cp.size()));
    Md(p, n->MetaData());
  }
  void Ch(const std::string& p, const IChannelHierarchy* h) {
    Put(p + ".name", h->Name()); Put(p + ".type", Num((uint64_t)h->Type())); Put(p + ".desc", h->Description()); Md(p, h->MetaData());
    auto& el = h->ElementLinks(); for (size_t k = 0; k < el.size(); ++k) Put(p + ".el" + std::to_string(k), Link(el[k]));
    auto ch = h->ChannelHierarchies(); for (size_t k = 0; k < ch.size(); ++k) Ch(p + ".ch" + std::to_string(k), ch[k]);
  }
  void Header(const IHeader& h) {
    auto dgs = h.DataGroups(); auto ats = h.Attachments(); auto evs = h.Events();
    for (size_t k = 0; k < ats.size(); ++k) names[ats[k]] = "at" + std::to_string(k);
    for (size_t k = 0; k < evs.size(); ++k) names[evs[k]] = "ev" + std::to_string(k);
    for (size_t d = 0; d < dgs.size(); ++d) {
      std::string pd = "dg" + std::to_string(d); names[dgs[d]] = pd;
      auto cgs = dgs[d]->ChannelGroups();
      for (size_t g = 0; g < cgs.size(); ++g) {
        std::string pg = pd + ".cg" + std::to_string(g); names[cgs[g]] = pg;
        auto cns = cgs[g]->Channels();
        for (size_t k = 0; k < cns.size(); ++k) names[cns[k]] = pg + ".cn" + std::to_string(k);
      }
    }
    Put("hd.author", h.Author()); Put("hd.dep", h.Department()); Put("hd.project", h.Project()); Put("hd.subject", h.Subject()); Put("hd.desc", h.Description());
    Put("hd.mid", h.MeasurementId()); Put("hd.rid", h.RecorderId()); Put("hd.rix", std::to_string(h.RecorderIndex()));
    Put("hd.angle", h.StartAngle() ? Num(*h.StartAngle()) : "-"); Put("hd.dist", h.StartDistance() ? Num(*h.StartDistance()) : "-");
    Put("hd.time", Num(h.StartTime()));
    Md("hd", h.MetaData());
    auto fh = h.FileHistories();
    for (size_t k = 0; k < fh.size(); ++k) {
      std::string p = "fh" + std::to_string(k); Put(p + ".time", Num(fh[k]->Time())); Put(p + ".desc", fh[k]->Description()); Put(p + ".tool", fh[k]->ToolName());
      Put(p + ".vendor", fh[k]->ToolVendor()); Put(p + ".ver", fh[k]->ToolVersion()); Put(p + ".user", fh[k]->UserName()); Md(p, fh[k]->MetaData());
    }
    for (size_t k = 0; k < ats.size(); ++k) {
      std::string p = "at" + std::to_string(k); auto* a = ats[k];
      Put(p + ".file", a->FileName()); Put(p + ".ftype", a->FileType()); Put(p + ".emb", Num((uint64_t)a->IsEmbedded())); Put(p + ".zip", Num((uint64_t)a->IsCompressed()));
      Put(p + ".creator", Num((uint64_t)a->CreatorIndex())); Md(p, a->MetaData());
      if (blocks) { Put(p + ".md5", a->Md5() ? *a->Md5() : "-"); Put(p + ".size", Num(a->OriginalSize())); }
    }
    for (size_t k = 0; k < evs.size(); ++k) {
      std::string p = "ev" + std::to_string(k); auto* e = evs[k];
      Put(p + ".name", e->Name()); Put(p + ".group", e->GroupName()); Put(p + ".type", Num((uint64_t)e->Type())); Put(p + ".sync", Num((uint64_t)e->Sync()));
      Put(p + ".range", Num((uint64_t)e->Range())); Put(p + ".cause", Num((uint64_t)e->Cause())); Put(p + ".creator", Num((uint64_t)e->CreatorIndex()));
      Put(p + ".value", std::to_string(e->SyncValue())); Put(p + ".factor", Num(e->SyncFactor())); Put(p + ".parent", Ref(e->ParentEvent())); Put(p + ".rangeev", Ref(e->RangeEvent()));
      std::string s; for (auto* x : e->Scopes()) s += Ref(x) + ","; Put(p + ".scopes", s);
      s.clear(); for (auto* x : e->Attachments()) s += Ref(x) + ","; Put(p + ".att", s);
      Put(p + ".desc", e->Description()); Put(p + ".pre", Num(e->PreTrig())); Put(p + ".post", Num(e->PostTrig())); Md(p, e->MetaData());
    }
    auto chs = h.ChannelHierarchies(); for (size_t k = 0; k < chs.size(); ++k) Ch("ch" + std::to_string(k), chs[k]);
    for (size_t d = 0; d < dgs.size(); ++d) {
      std::string pd = "dg" + std::to_string(d);
      Put(pd + ".desc", dgs[d]->Description()); Put(pd + ".idsize", Num((uint64_t)dgs[d]->RecordIdSize())); Md(pd, dgs[d]->MetaData());
      auto cgs = dgs[d]->ChannelGroups();
      for (size_t g = 0; g < cgs.size(); ++g) {
        std::string pg = pd + ".cg" + std::to_string(g); auto* cg = cgs[g];
        Put(pg + ".name", cg->Name()); Put(pg + ".desc", cg->Description()); Put(pg + ".flags", Num((uint64_t)cg->Flags())); Put(pg + ".sep", Num((uint64_t)cg->PathSeparator()));
        Put(pg + ".rid", Num(cg->RecordId())); if (blocks) Put(pg + ".n", Num(cg->NofSamples()));
        Si(pg + ".si", cg->SourceInformation()); Md(pg, cg->MetaData());
        auto cns = cg->Channels(); for (size_t k = 0; k < cns.size(); ++k) Cn(pg + ".cn" + std::to_string(k), cns[k]);
      }
    }
  }
};

inline Map Of(const IHeader& h, bool blocks = true) { D d; d.blocks = blocks; d.Header(h); return d.m; }

// First difference between a and b ("" if none); keys present only in b and accepted by extra(key) are allowed.
inline std::string Diff(const Map& a, const Map& b, const std::function<bool(const std::string&)>& extra = {}) {
  for (auto& [k, v] : a) {
    auto it = b.find(k);
    if (it == b.end()) return k + ": '" + v + "' is missing";
    if (it->second != v) return k + ": '" + v + "' became '" + it->second + "'";
  }
  for (auto& [k, v] : b) if (!a.count(k) && !(extra && extra(k))) return k + ": '" + v + "' appeared";
  return "";
}
}  // namespace dump
