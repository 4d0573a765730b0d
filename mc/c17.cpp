// C17: the descriptive attributes of a recording read back as they were set; setting one never changes another.
#include "attrs.h"
using namespace mdf; using namespace rec; using namespace attrs;

// an attribute that was never set reads as in a file in which nothing was set
static const Map& Base(mc::Ctx& c, bool mdf3, bool full) {
  static std::map<int, Map> m; auto& r = m[mdf3 * 2 + full];
  if (r.empty()) { Map b = ReadBack(c, Make(c, mdf3, false, {}, nullptr, true, ""), mdf3); if (full) for (auto& a : Attrs(mdf3)) { EXPECT(c, b.count(a.key), "harness", a.key << " is not observed"); b[a.key] = a.v[a.base].want; } r = b; }
  return r;
}
static void Run(mc::Ctx& c, bool mdf3, bool full, const std::vector<Set>& sets, bool append) {
  Map want = Base(c, mdf3, full); Str text = mdf3 ? "mdf3 " : ""; text += full ? "full" : "bare";
  for (auto& s : sets) { auto& a = Attrs(mdf3)[s.attr]; want[a.key] = a.v[s.val].want; text += " " + a.key + "=" + a.v[s.val].want.substr(0, 30); }
  // a channel without a unit shows the unit of its conversion
  for (auto& [k, v] : want) if (v.empty() && k.size() > 5 && k.compare(k.size() - 5, 5, ".unit") == 0 && k.find(".cc.") == Str::npos) { auto it = want.find(k.substr(0, k.size() - 5) + ".cc.unit"); if (it != want.end()) v = it->second; }
  c.describe(text + (append ? " append" : ""));
  Map live; Str fn = append ? mc::Scratch() + "/c17.mdf" : "";
  auto bytes = Make(c, mdf3, full, sets, &live, true, fn);
  Str d = Diff(want, live); EXPECT(c, d.empty() || full == false, "writer:" + Kind(d), "the writer's own objects: " << d);
  Map got = ReadBack(c, bytes, mdf3);
  d = Diff(want, got); EXPECT(c, d.empty(), Kind(d), d);
  if (!mdf3) { uint64_t n = 0; auto e = m4::CheckFile(bytes, &n); EXPECT(c, e.empty(), "structure", e); }
  if (append) {
    auto w = MdfFactory::CreateMdfWriter(mdf3 ? MdfWriterType::Mdf3Basic : MdfWriterType::Mdf4Basic); EXPECT(c, w->Init(fn) && w->InitMeasurement() && w->FinalizeMeasurement(), "append", "reopening failed"); w.reset();
    std::ifstream f(fn, std::ios::binary); std::vector<uint8_t> b2((std::istreambuf_iterator<char>(f)), {});
    d = Diff(want, ReadBack(c, b2, mdf3)); EXPECT(c, d.empty(), "append:" + Kind(d), "after reopening: " << d);
  }
  c.step(got.size()); Str all; for (auto& [k, v] : got) all += v + "|"; c.outcome(mc::Hash(all.data(), all.size(), mdf3));
}
// every attribute with every value
static void Singles(mc::Ctx& c) {
  bool mdf3 = c.flag(), full = c.flag(); auto& at = Attrs(mdf3); size_t i = c.choose(at.size()), v = c.choose(at[i].v.size()); bool app = !full && c.flag();
  if (!c.mine()) return;
  Run(c, mdf3, full, {{i, v}}, app);
}
static Str Object(const Str& key) { auto p = key.rfind('.'); Str o = key.substr(0, p); if (key.find("Other.Prop") != Str::npos) o = key.substr(0, key.find(".Other")); return o; }
// every ordered pair of attributes; within one object also set twice
static void Pairs(mc::Ctx& c) {
  bool mdf3 = c.flag(), full = c.flag(); auto& at = Attrs(mdf3);
  size_t i = c.choose(at.size()), j = c.choose(at.size());
  bool same = Object(at[i].key) == Object(at[j].key);
  if (!same && (i > j || (!c.thorough && (i + j) % 9 != full))) return;
  size_t twice = same ? c.choose(c.thorough ? 6 : 3) : 0;
  if (!c.mine()) return;
  size_t vi = 1 % at[i].v.size(), vj = at[j].v.size() > 2 ? 2 : 1;
  std::vector<Set> s = {{i, vi}, {j, vj}};
  if (twice == 1) s = {{i, at[i].base}, {j, vj}, {i, vi}};
  if (twice == 2) s = {{i, vi}, {j, at[j].base}, {i, at[i].base}, {j, vj}};
  if (twice >= 3) s = {{i, 0}, {j, vj}, {j, (size_t)(twice - 3) % at[j].v.size()}, {i, vi}};
  Run(c, mdf3, full, s, false);
}
// every number of list items, in the order of their creation
static void Lists(mc::Ctx& c) {
  bool mdf3 = c.flag(); size_t top = c.thorough ? 5 : 4;
  size_t fh = mdf3 ? 0 : c.choose(top), at = mdf3 ? 0 : c.choose(top), dg = 1 + c.choose(top - 1), cg = 1 + (mdf3 ? 0 : c.choose(top - 1)), cn = c.choose(top); bool append = c.flag();
  if (!c.mine()) return;
  std::ostringstream t; t << (mdf3 ? "mdf3 " : "") << fh << " histories " << at << " attachments " << dg << " x " << cg << " x " << cn << " groups and channels" << (append ? " append" : ""); c.describe(t.str());
  Str fn = mc::Scratch() + "/c17l.mdf"; std::error_code ec; std::filesystem::remove(fn, ec);
  auto w = MdfFactory::CreateMdfWriter(mdf3 ? MdfWriterType::Mdf3Basic : MdfWriterType::Mdf4Basic); EXPECT(c, w->Init(fn), "init", "Init failed"); auto& h = *w->Header();
  Map want;
  for (size_t k = 0; k < fh; ++k) { auto* f = h.CreateFileHistory(); f->Description("fh" + Num(k)); f->Time(kStart + k); want["fh" + Num(k)] = "fh" + Num(k); }
  for (size_t k = 0; k < at; ++k) { auto* f = h.CreateAttachment(); f->FileName("at" + Num(k)); want["at" + Num(k)] = "at" + Num(k); }
  for (size_t d = 0; d < dg; ++d) { auto* x = h.CreateDataGroup(); for (size_t g = 0; g < cg; ++g) { auto* y = x->CreateChannelGroup(); Str n = "g" + Num(d) + Num(g); y->Name(n); y->Description(n); want["dg" + Num(d) + "." + Num(g)] = n;
    auto* m = y->CreateChannel("t"); m->Type(ChannelType::Master); m->Sync(ChannelSyncType::Time); m->DataType(ChannelDataType::FloatLe); m->DataBytes(8); want["dg" + Num(d) + "." + Num(g) + ".0"] = "t";
    for (size_t k = 0; k < cn; ++k) { auto* z = y->CreateChannel("c" + n + Num(k)); z->DataType(ChannelDataType::UnsignedIntegerLe); z->DataBytes(1); want["dg" + Num(d) + "." + Num(g) + "." + Num(k + 1)] = "c" + n + Num(k); } } }
  EXPECT(c, w->InitMeasurement(), "init", "InitMeasurement failed"); w->StartMeasurement(kStart); w->StopMeasurement(kStart + 1); EXPECT(c, w->FinalizeMeasurement(), "finalize", "FinalizeMeasurement failed"); w.reset();
  for (int round = 0; round < (append ? 2 : 1); ++round) {
    if (round) { auto a = MdfFactory::CreateMdfWriter(mdf3 ? MdfWriterType::Mdf3Basic : MdfWriterType::Mdf4Basic); EXPECT(c, a->Init(fn) && a->InitMeasurement() && a->FinalizeMeasurement(), "append", "reopening failed"); }
    MdfReader r(fn); EXPECT(c, r.IsOk() && r.ReadEverythingButData(), "open", "the file cannot be read"); auto& q = *r.GetHeader(); Map got; size_t k = 0;
    for (auto* f : q.FileHistories()) { got["fh" + Num(k)] = f->Description(); EXPECT(c, f->Time() == kStart + k, "fhtime", "time of history " << k); ++k; }
    k = 0; for (auto* f : q.Attachments()) { got["at" + Num(k)] = f->FileName(); ++k; }
    k = 0; for (auto* d : q.DataGroups()) { size_t g = 0; for (auto* y : d->ChannelGroups()) { got["dg" + Num(k) + "." + Num(g)] = mdf3 ? y->Description() : y->Name(); size_t z = 0; for (auto* n : y->Channels()) got["dg" + Num(k) + "." + Num(g) + "." + Num(z++)] = n->Name(); ++g; } ++k; }
    Str d = Diff(want, got); EXPECT(c, d.empty(), "lists", (round ? "after reopening: " : "") << d); c.step(got.size()); c.outcome(t.str());
  }
}
int main(int argc, char** argv) {
  MdfLogStream::SetLogFunction1([](const MdfLocation&, MdfLogSeverity, const std::string&) {});
  return mc::Main(argc, argv, "C17", {{"singles", Singles}, {"pairs", Pairs}, {"lists", Lists}});
}
