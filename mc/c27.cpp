// C27: the validating task reports exactly whether a file holds invalid values and leaves the content as it was.
#include <set>
#include "content.h"
#include "build4.h"
#include "rich.h"
#include "mdf4parse.h"
#include "mdf/mdflogstream.h"
#include "mdf/fhcomment.h"
#include "mdf/ifilehistory.h"
#include "validatingtask.h"
using namespace rec;
namespace fs = std::filesystem;

struct Opt {
  int dest = 0;          // 0 none, 1 a new file, 2 an existing file, 3 the source itself, 4 a new file in a folder that does not exist
  bool overwrite = false;
  std::string Text() const { return "dest=" + std::to_string(dest) + " overwrite=" + std::to_string(overwrite); }
};

struct Dir {
  std::string base, src, dst, tmp;
  explicit Dir(const std::string& name = "source.mf4") {
    base = mc::Scratch() + "/w" + std::to_string(mc::Worker()); fs::remove_all(base); fs::create_directories(base + "/tmp");
    src = base + "/" + name; dst = base + "/dest.mf4"; tmp = base + "/tmp";
    setenv("TMPDIR", tmp.c_str(), 1);
  }
  ~Dir() { fs::remove_all(base); }
  size_t Temp() const { size_t n = 0; for (auto& e : fs::directory_iterator(tmp)) { (void)e; ++n; } return n; }
  std::set<std::string> Files() const { std::set<std::string> s; for (auto& e : fs::recursive_directory_iterator(base)) if (e.is_regular_file()) s.insert(fs::relative(e.path(), base).string()); return s; }
};

// (group, channel) of every channel that has an invalid value, found by reading value by value
static std::vector<std::pair<std::string, std::string>> Invalid(mc::Ctx& c, const Bytes& f) {
  std::vector<std::pair<std::string, std::string>> out;
  auto r = OpenBytes(c, f);
  for (auto* dg : r->GetHeader()->DataGroups()) {
    std::vector<std::pair<IChannelGroup*, ChannelObserverPtr>> ob;
    for (auto* cg : dg->ChannelGroups()) for (auto* cn : cg->Channels()) ob.push_back({cg, CreateChannelObserver(*dg, *cg, *cn)});
    EXPECT(c, r->ReadData(*dg), "read", "ReadData failed");
    for (auto& [cg, o] : ob) {
      bool bad = false;
      for (uint64_t n = 0; n < cg->NofSamples(); ++n) for (uint64_t a = 0; a < o->Channel().ArraySize(); ++a) { Bytes b; std::string t; bad |= !(IsBytes(o->Channel().DataType()) ? o->GetChannelValue(n, b) : o->GetChannelValue(n, t, a)); c.step(); }
      if (bad) out.push_back({cg->Name(), o->Channel().Name()});
    }
  }
  return out;
}

static void SameContent(mc::Ctx& c, const Bytes& f, const Bytes& g, size_t added) {
  auto want = Content(c, f, "source", false), got = Content(c, g, "validated", false);
  EXPECT(c, got.size() == want.size(), "groups", "the validated file has " << got.size() << " channel groups, the source " << want.size());
  for (size_t k = 0; k < want.size(); ++k) {
    auto& a = want[k]; auto& b = got[k];
    auto diff = dump::Diff(a.cfg, b.cfg);
    EXPECT(c, diff.empty(), "config", "group '" << a.name << "': " << diff);
    EXPECT(c, a.n == b.n, "count", "group '" << a.name << "' has " << b.n << " samples, source " << a.n);
    EXPECT(c, a.val == b.val, "value", "the values of group '" << a.name << "' changed");
  }
  auto a = OpenBytes(c, f), b = OpenBytes(c, g);
  auto ha = a->GetHeader()->FileHistories(), hb = b->GetHeader()->FileHistories();
  EXPECT(c, hb.size() == ha.size() + added, "history", "the validated file has " << hb.size() << " file histories, the source " << ha.size());
  for (size_t k = ha.size(); k < hb.size(); ++k) {
    FhComment fc; hb[k]->GetFhComment(fc);
    EXPECT(c, fc.Comment().Text() == "Valid", "history-text", "the comment of the new file history is '" << fc.Comment().Text() << "'");
  }
  // everything else, with the new histories left out
  dump::Map ma = dump::Of(*a->GetHeader()), mb = dump::Of(*b->GetHeader());
  auto fresh = [&](const std::string& k) { return k.rfind("fh", 0) == 0 && k.size() > 2 && isdigit((unsigned char)k[2]) && (size_t)atoi(k.c_str() + 2) >= ha.size(); };
  dump::Map mm; for (auto& kv : mb) if (!fresh(kv.first)) mm.insert(kv);
  auto diff = dump::Diff(ma, mm);
  EXPECT(c, diff.empty(), "header", diff);
}

// the channels named by the messages of one run, as many times as they are named
static void CheckMessages(mc::Ctx& c, const std::vector<std::string>& msg, const std::vector<std::pair<std::string, std::string>>& bad) {
  EXPECT(c, msg.size() == bad.size(), "messages", msg.size() << " messages for " << bad.size() << " channels with invalid values" << (msg.empty() ? "" : ", the first: " + msg[0]));
  std::multiset<size_t> used;
  for (auto& [g, n] : bad) {
    bool found = false;
    for (size_t k = 0; k < msg.size() && !found; ++k) if (!used.count(k) && msg[k].find(g) != std::string::npos && msg[k].size() >= n.size() && msg[k].compare(msg[k].size() - n.size(), n.size(), n) == 0) { used.insert(k); found = true; }
    EXPECT(c, found, "message", "no message names group '" << g << "', channel '" << n << "'");
  }
}

static void Setup(ValidatingTask& t, const Dir& d, const Opt& o) {
  t.SourceFile(d.src); t.OverwriteFile(o.overwrite);
  if (o.dest == 1 || o.dest == 2) t.DestinationFile(d.dst);
  if (o.dest == 3) t.DestinationFile(d.src);
}

static void Validate(mc::Ctx& c, const Bytes& f, const Opt& o, bool mdf4, int runs = 1, const std::optional<bool>& known = {}) {
  auto bad = Invalid(c, f);
  if (known) EXPECT(c, bad.empty() == *known, "oracle", "the file holds " << bad.size() << " channels with invalid values, expected " << (*known ? "none" : "some"));
  Dir d; Save(d.src, f);
  Bytes old = {'o', 'l', 'd'};
  if (o.dest == 2) Save(d.dst, old);
  {
    ValidatingTask t; Setup(t, d, o);
    size_t before = 0;
    for (int k = 0; k < runs; ++k) {
      t.Run();
      std::vector<std::string> msg(t.MessageList().begin() + (std::ptrdiff_t)before, t.MessageList().end()); before = t.MessageList().size();
      EXPECT(c, !t.Error(), "error", "the validating task failed: " << (msg.empty() ? "" : msg[0]));
      EXPECT(c, t.Result() == bad.empty(), "result", "the task reports " << (t.Result() ? "valid" : "invalid") << ", the file holds " << bad.size() << " channels with invalid values");
      CheckMessages(c, msg, bad);
      EXPECT(c, d.Temp() == 0, "temp", "a temporary file is left");
    }
  }
  EXPECT(c, d.Temp() == 0, "temp", "a temporary file is left");
  bool write = bad.empty() && mdf4;
  bool to_src = o.dest == 0 || o.dest == 3, exists = o.dest != 1;
  std::set<std::string> want = {"source.mf4"};
  if (o.dest == 2 || (o.dest == 1 && write)) want.insert("dest.mf4");
  auto files = d.Files();
  EXPECT(c, files == want, "files", files.size() << " files exist after the run, expected " << want.size());
  bool written = write && (!exists || o.overwrite);
  if (!(written && to_src)) EXPECT(c, Load(d.src) == f, "source", "the source file was changed");
  if (o.dest == 2 && !written) EXPECT(c, Load(d.dst) == old, "dest", "the existing destination file was changed");
  if (written) {
    auto g = Load(to_src ? d.src : d.dst);
    SameContent(c, f, g, to_src ? (size_t)runs : 1);
    auto e = m4::CheckFile(g); EXPECT(c, e.empty(), "format", e);
  }
  std::ostringstream s; for (auto& b : bad) s << b.first << "." << b.second << " "; s << written << mc::Hash(f.data(), f.size()); c.outcome(s.str());
}

static Opt Options(mc::Ctx& c) { Opt o; o.dest = (int)c.choose(4); o.overwrite = c.flag(); return o; }

// every pattern of valid and invalid values of every storage form of MDF 4, every destination
static void Patterns(mc::Ctx& c) {
  static const std::vector<size_t> kinds = {0, 1, 2, 3, 4, 7, 11};
  size_t kind = c.pick(kinds); bool zip = c.flag();
  Spec s = KindSpec(kind, zip);
  size_t n = c.choose(c.thorough ? 5 : 4);
  std::vector<size_t> order; for (size_t k = 0; k < n; ++k) order.push_back(c.choose(KindGroups(kind)));
  auto steps = MakeSteps(s, order);
  std::map<std::array<uint64_t, 4>, bool> valid; bool all = true;
  for (auto& st : steps) for (size_t k = 0; k < s.dgs[st.d][st.g].ch.size(); ++k) if (s.dgs[st.d][st.g].ch[k].inval) { bool v = !c.flag(); valid[{st.d, st.g, k, st.n}] = v; all &= v; }
  Opt o = Options(c);
  if (!c.mine()) return;
  std::ostringstream t; t << KindName(kind) << " zip=" << zip << " " << o.Text() << " order="; for (auto x : order) t << x; t << " valid="; for (auto& [k, v] : valid) t << v; c.describe(t.str());
  auto dev = Record(c, s, steps, 0, [&](size_t d, size_t g, size_t k, uint64_t m) { auto it = valid.find({d, g, k, m}); return it == valid.end() || it->second; });
  Validate(c, dev->data, o, true, 1, all);
}

// one invalid value anywhere among many (more values than one word, a cache line or a data block hold)
static void One(mc::Ctx& c) {
  static const std::vector<size_t> sizes = {1, 2, 31, 32, 33, 63, 64, 65, 127, 128, 129, 300};
  size_t n = c.pick(sizes); size_t where = c.choose(6); bool zip = c.flag(); size_t form = c.choose(3); bool flush = c.flag();
  size_t at = where == 0 ? 0 : where == 1 ? n - 1 : where == 2 ? n / 2 : where == 3 ? n - 2 : where == 4 ? 1 : n;
  if (where != 5 && at >= n) return;
  Opt o; o.dest = (int)c.choose(2); o.overwrite = c.flag();
  if (!c.mine()) return;
  c.describe("n=" + std::to_string(n) + " invalid=" + std::to_string(at) + " form=" + std::to_string(form) + " zip=" + std::to_string(zip) + " flush=" + std::to_string(flush) + " " + o.Text());
  Spec s; s.compress = zip;
  Group g; g.ch = {MasterTime(), form == 0 ? Ch(ChannelDataType::UnsignedIntegerLe, 2, true) : form == 1 ? Vlsd(ChannelDataType::StringUTF8, true) : Ch(ChannelDataType::FloatBe, 8, true), Ch(ChannelDataType::SignedIntegerBe, 4, true)};
  s.dgs = {{g}};
  auto steps = MakeSteps(s, std::vector<size_t>(n, 0));
  auto dev = Record(c, s, steps, 0, [&](size_t, size_t, size_t k, uint64_t m) { return !(k == 1 && m == at); }, "value", [&](size_t i) { if (flush && i == n / 2) flushctl::Flush(); });
  Validate(c, dev->data, o, true, 1, at == n);
}

// array channels: one invalid element anywhere
static void Arrays(mc::Ctx& c) {
  size_t size = 1 + c.choose(c.thorough ? 8 : 5), n = 1 + c.choose(3), pos = c.choose(size * n + 1); bool zip = c.flag(), second = c.flag(); Opt o = Options(c);
  if (!c.mine()) return;
  c.describe("size=" + std::to_string(size) + " n=" + std::to_string(n) + " pos=" + std::to_string(pos) + " second=" + std::to_string(second) + " " + o.Text());
  auto dev = std::make_shared<MemDev>();
  auto w = MdfFactory::CreateMdfWriter(MdfWriterType::Mdf4Basic); w->CompressData(zip);
  EXPECT(c, w->Init(std::static_pointer_cast<std::streambuf>(dev)), "init", "");
  auto* dg = w->CreateDataGroup(); auto* cg = MdfWriter::CreateChannelGroup(dg); cg->Name("G");
  auto* tm = MdfWriter::CreateChannel(cg); tm->Name("Time"); tm->Type(ChannelType::Master); tm->Sync(ChannelSyncType::Time); tm->DataType(ChannelDataType::FloatLe); tm->DataBytes(8);
  auto* a = MdfWriter::CreateChannel(cg); a->Name("Array"); a->DataType(ChannelDataType::UnsignedIntegerLe); a->DataBytes(2); a->Flags(CnFlag::InvalidValid);
  auto* ca = a->CreateChannelArray(); ca->Shape({size});
  auto* b = MdfWriter::CreateChannel(cg); b->Name("Plain"); b->DataType(ChannelDataType::UnsignedIntegerLe); b->DataBytes(1); b->Flags(CnFlag::InvalidValid);
  EXPECT(c, w->InitMeasurement(), "initmeas", "");
  w->StartMeasurement(kStart);
  for (size_t k = 0; k < n; ++k) {
    for (size_t e = 0; e < size; ++e) a->SetChannelValue((uint16_t)(k * 100 + e), second || k * size + e != pos, e);
    b->SetChannelValue((uint8_t)k, !(second && k * size == pos));
    w->SaveSample(*dg, *cg, kStart + k * 1000000);
  }
  w->StopMeasurement(kStart + 1000000000);
  EXPECT(c, w->FinalizeMeasurement(), "finalize", "");
  bool all = second ? pos % size != 0 || pos == size * n : pos == size * n;
  if (second && pos == size * n) all = true;
  Validate(c, dev->data, o, true, 1, all);
}

// MDF 3 and bus logger files, files with no samples, task objects that are run again
static void Kinds(mc::Ctx& c) {
  size_t kind = c.choose(kFileKinds); bool zip = c.flag(); int runs = 1 + (int)c.choose(2); size_t n = c.choose(4);
  std::vector<size_t> order; for (size_t k = 0; k < n; ++k) order.push_back(c.choose(KindGroups(kind)));
  Opt o = Options(c);
  bool mdf4 = kind != 5 && kind != 6;
  if (!mdf4 && zip) return;
  if (runs == 2 && o.dest == 1 && !o.overwrite) {}  // the second run must leave the result of the first
  if (!c.mine()) return;
  std::ostringstream t; t << KindName(kind) << " zip=" << zip << " runs=" << runs << " " << o.Text() << " order="; for (auto x : order) t << x; c.describe(t.str());
  Validate(c, KindFile(c, kind, zip, order, -1), o, mdf4, runs);
}

// recordings with every combination of up to two (three) format features
static void Rich(mc::Ctx& c) {
  Opt o; o.dest = (int)c.choose(2); o.overwrite = true;
  auto r = rich::ChooseDev(c);
  if (!c.mine()) return;
  c.describe(rich::Text(r) + o.Text());
  Validate(c, rich::Build(c, r, "rich")->data, o, true);
}

// what cannot be validated is reported as an error and changes nothing; the task can be used again afterwards
static void Errors(mc::Ctx& c) {
  size_t what = c.choose(7), cut = c.choose(6); Opt o = Options(c); bool again = c.flag();
  if (what != 3 && cut) return;
  if (!c.mine()) return;
  static const char* names[] = {"empty name", "missing", "folder", "cut", "not MDF", "no data group", "in the temporary folder"};
  c.describe(std::string(names[what]) + " cut=" + std::to_string(cut) + " " + o.Text() + " again=" + std::to_string(again));
  Bytes good = KindFile(c, 0, false, {0}, -1), f = good;
  static const size_t cuts[] = {0, 1, 63, 64, 100, 168};
  Dir d(what == 6 ? "tmp/source.mf4" : "source.mf4");
  if (what == 3) f.resize(cuts[cut]);
  if (what == 4) f = Bytes(500, 'x');
  if (what == 5) { b4::File e; e.Hd(kStart); f = e.f; }
  if (what == 2) fs::create_directories(d.src); else if (what != 1) Save(d.src, f);
  Bytes old = {'o', 'l', 'd'}; if (o.dest == 2) Save(d.dst, old);
  auto before = d.Files();
  {
    ValidatingTask t; Setup(t, d, o);
    if (what == 0) t.SourceFile("");
    t.Run();
    EXPECT(c, t.Error(), "no-error", "the task reports no error");
    EXPECT(c, !t.Result(), "false-valid", "the task reports a valid file");
    EXPECT(c, !t.MessageList().empty(), "no-message", "the task gives no message");
    if (again && what != 2) {
      std::string src = d.src; if (what == 6) { src = d.base + "/other.mf4"; }
      Save(src, good); t.SourceFile(src); t.DestinationFile(d.base + "/again.mf4");
      t.Run();
      EXPECT(c, !t.Error() && t.Result() == Invalid(c, good).empty(), "again", "error=" << t.Error() << " result=" << t.Result() << " after a failed run");
      fs::remove(d.base + "/again.mf4"); if (what == 6) fs::remove(src); else if (what == 1) fs::remove(src); else Save(src, f);
    }
  }
  auto after = d.Files();
  EXPECT(c, before == after, "files", "files were left or lost: " << before.size() << " before, " << after.size() << " after");
  if (what != 1 && what != 2) EXPECT(c, Load(d.src) == f, "source", "the source file was changed");
  if (o.dest == 2) EXPECT(c, Load(d.dst) == old, "dest", "the destination file was changed");
  c.outcome(names[what] + std::to_string(cut));
}

int main(int argc, char** argv) {
  MdfLogStream::SetLogFunction1([](const MdfLocation&, MdfLogSeverity, const std::string&) {});
  return mc::Main(argc, argv, "C27", {{"patterns", Patterns}, {"one", One}, {"arrays", Arrays}, {"kinds", Kinds}, {"rich", Rich}, {"errors", Errors}});
}
