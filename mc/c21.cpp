// C21: reading a file that was cut anywhere, or that lost a link, terminates, stays inside its memory and delivers no value that was not written.
#include "mc.h"
#include <cstdio>
#include <fstream>
#include "files.h"
#include "rich.h"
#include "mdf/iattachment.h"
#include "mdf/mdflogstream.h"
using namespace mdf; using namespace rec;
using Str = std::string;
using Ref = std::map<Str, std::vector<Str>>;

static Bytes Slurp(const Str& p) { std::ifstream f(p, std::ios::binary); return Bytes(std::istreambuf_iterator<char>(f), {}); }
struct Src { Bytes f; Ref ref; std::map<Str, Str> names; std::vector<Bytes> att; };
static Src Prepare(mc::Ctx& c, const Bytes& f) {
  Src s; s.f = f; s.ref = FullRead(c, f);
  auto r = OpenBytes(c, f);
  for (auto& p : AllChannels(*r)) s.names[Key(p)] = r->GetHeader()->DataGroups()[p.d]->ChannelGroups()[p.g]->Channels()[p.k]->Name();
  for (auto* a : r->GetHeader()->Attachments()) if (a->IsEmbedded()) { Str out = mc::Scratch() + "/ref.bin"; Bytes b; if (r->ExportAttachmentData(*a, out)) b = Slurp(out); s.att.push_back(b); }
  return s;
}
// reads everything there is; every value reported as valid is the one that was written at that place
static void Check(mc::Ctx& c, const Src& s, const Bytes& f, size_t mode, bool values) {
  MdfReader r(std::static_pointer_cast<std::streambuf>(std::make_shared<MemDev>(f)));
  uint64_t valid = 0, seen = 0;
  if (r.IsOk()) {
    bool info = mode == 2 ? r.ReadMeasurementInfo() : r.ReadEverythingButData(); (void)info;
    auto* h = r.GetHeader();
    if (h) {
      auto all = AllChannels(r);
      std::vector<ChannelObserverPtr> ob; for (auto& p : all) ob.push_back(Observe(r, p));
      for (auto* dg : h->DataGroups()) { if (mode == 1) (void)r.ReadPartialData(*dg, 2, 3); else (void)r.ReadData(*dg); }
      for (size_t k = 0; k < all.size(); ++k) {
        Str key = Key(all[k]); auto it = s.ref.find(key);
        EXPECT(c, !values || it != s.ref.end(), "appeared", "a channel appeared at " << key);
        auto got = Snapshot(*ob[k]); ++seen;
        for (size_t n = 0; n < got.size(); ++n) {
          if (!AnyValid(got[n])) continue;
          ++valid;
          if (!values) continue;
          EXPECT(c, n < it->second.size() && it->second[n] == got[n], "value", "channel " << key << " (" << s.names.at(key) << ") sample " << n << " reads " << got[n].substr(0, 60) << ", written " << (n < it->second.size() ? it->second[n].substr(0, 60) : "nothing"));
        }
      }
      if (values) for (auto& p : all) {
        auto name = h->DataGroups()[p.d]->ChannelGroups()[p.g]->Channels()[p.k]->Name();
        EXPECT(c, name.empty() || name == s.names.at(Key(p)), "name", "channel " << Key(p) << " is called '" << name << "', written '" << s.names.at(Key(p)) << "'");
      }
      size_t n = 0;
      for (auto* a : h->Attachments()) if (a->IsEmbedded()) {
        Str out = mc::Scratch() + "/out.bin"; std::remove(out.c_str());
        bool ok = r.ExportAttachmentData(*a, out);
        if (values && ok) EXPECT(c, n < s.att.size() && Slurp(out) == s.att[n], "attachment", "exporting attachment " << n << " succeeds with " << Slurp(out).size() << " bytes, written " << (n < s.att.size() ? s.att[n].size() : 0));
        ++n;
      }
    }
  }
  c.step(seen); c.outcome(std::to_string(valid) + "/" + std::to_string(seen) + "/" + std::to_string(mode) + (r.IsOk() ? "" : "!"));
}
static uint64_t U(const Bytes& f, uint64_t p, int n) { uint64_t v = 0; for (int k = n - 1; k >= 0; --k) v = v << 8 | (p + k < f.size() ? f[p + k] : 0); return v; }
struct LinkAt { uint64_t pos; int size; Str what; };
// every link of the file that is not zero
static std::vector<LinkAt> Links(const Bytes& f) {
  std::vector<LinkAt> r;
  if (f.size() > 70 && f[64] == '#') {
    for (uint64_t p = 64; p + 24 <= f.size(); ++p) {
      if (f[p] != '#' || f[p + 1] != '#' || !isupper(f[p + 2]) || !isupper(f[p + 3])) continue;
      uint64_t len = U(f, p + 8, 8), n = U(f, p + 16, 8); if (len < 24 + n * 8 || p + len > f.size() || n > 1000) continue;
      Str t((const char*)&f[p + 2], 2);
      for (uint64_t k = 0; k < n; ++k) if (U(f, p + 24 + 8 * k, 8)) r.push_back({p + 24 + 8 * k, 8, t + "@" + std::to_string(p) + ".link" + std::to_string(k)});
    }
    return r;
  }
  std::vector<std::pair<uint64_t, Str>> todo = {{64, "HD"}}; std::map<uint64_t, bool> done;
  static const std::map<Str, std::vector<std::pair<int, Str>>> at = {{"HD", {{4, "DG"}, {8, "TX"}, {12, "PR"}}}, {"DG", {{4, "DG"}, {8, "CG"}, {12, "TR"}, {16, "--"}}}, {"CG", {{4, "CG"}, {8, "CN"}, {12, "TX"}}}, {"CN", {{4, "CN"}, {8, "CC"}, {12, "CE"}, {16, "CD"}, {20, "TX"}}}};
  while (!todo.empty()) {
    auto [p, t] = todo.back(); todo.pop_back(); if (done[p]) continue; done[p] = true;
    auto it = at.find(t); if (it == at.end()) continue;
    for (auto& [o, kind] : it->second) if (uint64_t l = U(f, p + o, 4)) { r.push_back({p + o, 4, t + "@" + std::to_string(p) + "+" + std::to_string(o)}); todo.push_back({l, kind}); }
    if (t == "CN") for (int o : {218, 222}) if (U(f, p + 2, 2) >= (uint64_t)o + 4 && U(f, p + o, 4)) r.push_back({p + (uint64_t)o, 4, "CN@" + std::to_string(p) + "+" + std::to_string(o)});
  }
  return r;
}
static const Src& Kind(mc::Ctx& c, size_t kind, bool zip, int variant) {
  static std::map<int, Src> m; auto& s = m[(int)kind * 16 + zip * 8 + variant];
  if (s.f.empty()) { std::vector<size_t> order; size_t g = KindGroups(kind); for (size_t k = 0; k < (variant ? 7 : 4) * (g > 1 ? 1 : 1); ++k) order.push_back(k % g); s = Prepare(c, KindFile(c, kind, zip, order, variant ? 2 : -1)); }
  return s;
}
static const Src& Rich(mc::Ctx& c, size_t level, bool zip) {
  static std::map<int, Src> m; auto& s = m[(int)level * 2 + zip];
  if (s.f.empty()) {
    rich::Opt o{}; for (size_t f = 0; f < rich::kNof; ++f) { size_t a = rich::Alternatives()[f]; o[f] = std::min(level + 1, a - 1); if (level == 3) o[f] = a - 1; }
    o[rich::kZip] = zip; o[rich::kWriter] = 0; o[rich::kPeriodic] = 0; o[rich::kName] = 0; if (o[rich::kSamples] == 0) o[rich::kSamples] = 1;
    s = Prepare(c, rich::Build(c, o, "rich")->data);
  }
  return s;
}
static const Src& Choose(mc::Ctx& c, Str& text) {
  size_t what = c.choose(kFileKinds + 4); bool zip = c.flag();
  if (what < kFileKinds) { int v = c.thorough ? (int)c.choose(2) : (int)(what % 2); text = Str(KindName(what)) + (zip ? " z" : "") + (v ? " flushed" : ""); return Kind(c, what, zip, v); }
  text = "rich" + std::to_string(what - kFileKinds) + (zip ? " z" : ""); return Rich(c, what - kFileKinds, zip);
}
// cut after every byte
static void Cut(mc::Ctx& c) {
  Str t; auto& s = Choose(c, t); size_t n = c.choose(s.f.size() + 1);
  size_t mode = c.choose(3);
  if (!c.mine()) return;
  c.describe(t + " cut at " + std::to_string(n) + " of " + std::to_string(s.f.size()) + " mode " + std::to_string(mode));
  Check(c, s, Bytes(s.f.begin(), s.f.begin() + n), mode, true);
}
// one link zero
static void Zero(mc::Ctx& c) {
  Str t; auto& s = Choose(c, t); auto links = Links(s.f); size_t k = c.choose(links.size()), mode = c.choose(3);
  if (!c.mine()) return;
  c.describe(t + " " + links[k].what + " = 0 mode " + std::to_string(mode));
  Bytes f = s.f; for (int i = 0; i < links[k].size; ++i) f[links[k].pos + i] = 0;
  Check(c, s, f, mode, false);
}
// one link zero and the file cut at the end of its data
static void Both(mc::Ctx& c) {
  Str t; auto& s = Choose(c, t); auto links = Links(s.f); size_t k = c.choose(links.size()), n = c.choose(c.thorough ? 64 : 8);
  if (!c.mine()) return;
  size_t cut = s.f.size() - std::min<size_t>(s.f.size(), (n + 1) * s.f.size() / 70);
  c.describe(t + " " + links[k].what + " = 0 cut at " + std::to_string(cut));
  Bytes f = s.f; for (int i = 0; i < links[k].size; ++i) f[links[k].pos + i] = 0;
  f.resize(cut);
  Check(c, s, f, 0, false);
}
int main(int argc, char** argv) {
  MdfLogStream::SetLogFunction1([](const MdfLocation&, MdfLogSeverity, const std::string&) {});
  return mc::Main(argc, argv, "C21", {{"cut", Cut, 2, 3, 10}, {"zero", Zero, 2, 3, 10}, {"both", Both, 2, 3, 10}});
}
