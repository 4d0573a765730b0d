// C30: what is read does not depend on the order in which the reading steps are made.
#include "content.h"
#include "rich.h"
#include "build4.h"
#include "mdf/mdflogstream.h"
using namespace rec;

struct Fix { Bytes f; dump::Map full; std::map<std::string, std::vector<std::string>> values; std::string text; };

static dump::Map Part(const dump::Map& m, const std::string& prefix) { dump::Map o; for (auto& kv : m) if (kv.first.rfind(prefix, 0) == 0) o.insert(kv); return o; }
static const char* kOps = "HMEDOCX";  // header, measurement info, everything but data, data, open, close, clear data

static void Play(mc::Ctx& c, const Fix& x, const std::string& ops, size_t how) {
  std::string path;
  std::unique_ptr<MdfReader> r;
  if (how == 0) r = std::make_unique<MdfReader>(std::static_pointer_cast<std::streambuf>(std::make_shared<MemDev>(x.f)));
  else {
    path = mc::Scratch() + "/r" + std::to_string(mc::Worker()) + ".mf4"; Save(path, x.f);
    if (how == 1) r = std::make_unique<MdfReader>(path); else if (how == 2) r = std::make_unique<MdfReader>(std::string_view(path)); else r = std::make_unique<MdfReader>(std::wstring(path.begin(), path.end()));
  }
  EXPECT(c, r->IsOk(), "open", "the file cannot be opened");
  const bool mdf3 = !r->GetFile()->IsMdf4();
  bool header = false, info = false, all = false, data = false;
  std::map<std::string, ChannelObserverPtr> ob;
  auto check = [&](const std::string& when) {
    auto* hd = r->GetHeader();
    if (!header && !info && !all) return;
    EXPECT(c, hd != nullptr, "no-header", when << ": no header");
    if (all) {
      auto diff = dump::Diff(x.full, dump::Of(*hd)); EXPECT(c, diff.empty(), "config", when << ": " << diff);
    } else {
      auto m = dump::Of(*hd);
      auto diff = dump::Diff(Part(x.full, "hd."), Part(m, "hd.")); EXPECT(c, diff.empty(), "header", when << ": " << diff);
      if (info) {
        size_t want = 0, got = 0; for (auto& kv : x.full) want += kv.first.size() > 8 && kv.first.find(".cg") != std::string::npos && kv.first.find(".cn") == std::string::npos;
        for (auto& kv : m) got += kv.first.size() > 8 && kv.first.find(".cg") != std::string::npos && kv.first.find(".cn") == std::string::npos;
        EXPECT(c, got == want, "groups", when << ": " << got << " attributes of channel groups, " << want << " in the file");
      }
    }
    for (auto& [k, o] : ob) {
      auto got = Snapshot(*o);
      if (data) { auto it = x.values.find(k); EXPECT(c, it != x.values.end() && it->second == got, "values", when << ": the values of channel " << k << " differ from a plain read"); }
    }
  };
  std::string done;
  for (char op : ops) {
    done += op; c.step();
    if (mdf3 && strchr("HME", op)) { ob.clear(); data = all = info = header = false; }  // MDF 3: a later step reads the blocks anew
    if (op == 'H') { EXPECT(c, r->ReadHeader(), "read", done << ": ReadHeader failed"); header = true; }
    else if (op == 'M') { EXPECT(c, r->ReadMeasurementInfo(), "read", done << ": ReadMeasurementInfo failed"); info = true; }
    else if (op == 'E') { EXPECT(c, r->ReadEverythingButData(), "read", done << ": ReadEverythingButData failed"); all = true; }
    else if (op == 'D') {
      if (!all) continue;
      if (ob.empty()) for (auto& p : AllChannels(*r)) ob[Key(p)] = Observe(*r, p);
      for (auto* dg : r->GetHeader()->DataGroups()) EXPECT(c, r->ReadData(*dg), "read-data", done << ": ReadData failed");
      data = true;
    } else if (op == 'O') EXPECT(c, r->Open(), "reopen", done << ": Open failed");
    else if (op == 'C') r->Close();
    else if (op == 'X') { if (r->GetHeader()) for (auto* dg : r->GetHeader()->DataGroups()) dg->ClearData(); ob.clear(); data = false; }
    check(done);
  }
  if (mdf3) ob.clear();
  EXPECT(c, r->ReadEverythingButData(), "read", "ReadEverythingButData failed at the end"); all = true; check(done + "|E");
  ob.clear();
  for (auto& p : AllChannels(*r)) ob[Key(p)] = Observe(*r, p);
  EXPECT(c, ob.size() == x.values.size(), "channels", done << ": " << ob.size() << " channels, " << x.values.size() << " in the file");
  for (auto* dg : r->GetHeader()->DataGroups()) EXPECT(c, r->ReadData(*dg), "read-data", done << "|: ReadData failed");
  data = true; check(done + "|ED");
  ob.clear(); r.reset();
  if (!path.empty()) { EXPECT(c, Load(path) == x.f, "changed", "reading changed the file"); std::filesystem::remove(path); }
  c.outcome(x.text + ops);
}

static Fix Make(mc::Ctx& c, const Bytes& f, const std::string& text) { Fix x; x.f = f; x.text = text; auto r = OpenBytes(c, f); x.full = dump::Of(*r->GetHeader()); x.values = FullRead(c, f); return x; }

static void Steps(mc::Ctx& c) {
  size_t how = c.choose(4), kind = how && !c.thorough ? c.pick(std::vector<size_t>{0, 4, 6, 8}) : c.choose(kFileKinds), len = c.thorough ? (how ? 5 : 6) : (how ? 3 : 4);
  std::string ops; for (size_t k = 0; k < len; ++k) ops += kOps[c.choose(7)];
  if (!c.mine()) return;
  c.describe(std::string(KindName(kind)) + " how=" + std::to_string(how) + " " + ops);
  static std::map<size_t, Fix> cache;
  if (!cache.count(kind)) { std::vector<size_t> order; for (size_t k = 0; k < 5; ++k) order.push_back((k * k + k / 2) % KindGroups(kind)); cache[kind] = Make(c, KindFile(c, kind, false, order, -1), KindName(kind)); }
  Play(c, cache[kind], ops, how);
}

// the same on recordings with every combination of up to two (three) format features
static void Rich(mc::Ctx& c) {
  static const std::vector<std::string> seq = {"HMEE", "MHDE", "EDXED"};
  auto r = rich::ChooseDev(c); auto ops = c.pick(seq);
  if (!c.mine()) return;
  c.describe(rich::Text(r) + ops);
  Play(c, Make(c, rich::Build(c, r, "rich")->data, rich::Text(r)), ops, 0);
}

int main(int argc, char** argv) {
  MdfLogStream::SetLogFunction1([](const MdfLocation&, MdfLogSeverity, const std::string&) {});
  return mc::Main(argc, argv, "C30", {{"steps", Steps}, {"rich", Rich}});
}
