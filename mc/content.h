// What a file holds, per channel group (C22, C27).
#pragma once
#include <filesystem>
#include <fstream>
#include "files.h"
#include "dump.h"

namespace rec {
inline Bytes Load(const std::string& n) { std::ifstream f(n, std::ios::binary); return Bytes(std::istreambuf_iterator<char>(f), {}); }
inline void Save(const std::string& n, const Bytes& b) { std::ofstream f(n, std::ios::binary | std::ios::trunc); f.write((const char*)b.data(), (std::streamsize)b.size()); }

struct GroupContent {
  std::string name; uint64_t n = 0;
  dump::Map cfg;                                             // configuration of the group and its channels
  std::vector<std::pair<std::string, std::vector<std::string>>> val;  // per channel: channel values, engineering values
};

// without empty attributes; the order of the common properties is not significant
inline dump::Map Clean(const dump::Map& m) {
  dump::Map o;
  for (auto& [k, v] : m) {
    if (v.empty()) continue;
    std::string q = k; auto at = q.find(".mdc"); if (at != std::string::npos) { auto e = q.find('.', at + 1); q = q.substr(0, at) + ".mdc" + q.substr(e); }
    o[q] = v;
  }
  return o;
}
inline std::vector<std::string> Eng(const IChannelObserver& ob) {
  std::vector<std::string> v;
  for (uint64_t n = 0; n < ob.NofSamples(); ++n) { std::string s; bool ok = ob.GetEngValue(n, s); v.push_back((ok ? "V" : "I") + s); }
  return v;
}

// Everything the file holds per (non VLSD data) channel group, in file order.
inline std::vector<GroupContent> Content(mc::Ctx& c, const Bytes& f, const std::string& what, bool one_each) {
  std::vector<GroupContent> out;
  auto r = OpenBytes(c, f);
  auto dgs = r->GetHeader()->DataGroups();
  for (size_t d = 0; d < dgs.size(); ++d) {
    auto cgs = dgs[d]->ChannelGroups();
    size_t here = 0;
    std::vector<std::vector<ChannelObserverPtr>> obs;
    std::vector<GroupContent> mine;
    for (auto* cg : cgs) {
      if (cg->Flags() & CgFlag::VlsdChannel) continue;
      ++here;
      GroupContent g; g.name = cg->Name(); g.n = cg->NofSamples();
      dump::D dd;
      dd.Put("cg.name", cg->Name()); dd.Put("cg.desc", cg->Description()); dd.Put("cg.flags", std::to_string(cg->Flags())); dd.Put("cg.sep", std::to_string(cg->PathSeparator()));
      dd.Si("cg.si", cg->SourceInformation()); dd.Md("cg", cg->MetaData());
      auto cns = cg->Channels();
      obs.emplace_back();
      for (size_t k = 0; k < cns.size(); ++k) { dd.Cn("cn" + std::to_string(k), cns[k]); dd.Put("cn" + std::to_string(k) + ".unit", cns[k]->Unit()); obs.back().push_back(CreateChannelObserver(*dgs[d], *cg, *cns[k])); }
      g.cfg = Clean(dd.m);
      mine.push_back(g);
    }
    if (one_each) EXPECT(c, here == 1, "own-dg", what << ": data group " << d << " holds " << here << " channel groups");
    EXPECT(c, r->ReadData(*dgs[d]), "read", what << ": ReadData failed");
    for (size_t g = 0; g < mine.size(); ++g) {
      for (auto& ob : obs[g]) { mine[g].val.push_back({ob->Channel().Name(), Snapshot(*ob)}); mine[g].val.push_back({ob->Channel().Name() + " (eng)", Eng(*ob)}); }
      out.push_back(mine[g]);
    }
  }
  return out;
}

}  // namespace rec
