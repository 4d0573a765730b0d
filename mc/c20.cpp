// C20: events and channel hierarchies read back with their content and with references that name the same objects.
#include <filesystem>
#include <fstream>
#include "mc.h"
#include "rec.h"
#include "mdf4parse.h"
#include "mdf/evcomment.h"
#include "mdf/iattachment.h"
#include "mdf/ichannelhierarchy.h"
#include "mdf/ievent.h"
#include "mdf/mdflogstream.h"
using namespace mdf; using namespace rec;
using Str = std::string;
using Map = std::map<Str, Str>;

static Str Num(double d) { char b[40]; snprintf(b, sizeof b, "%.17g", d); return b; }
// every object of a file by a name that is unique in it
struct Names {
  std::map<const void*, Str> n;
  void Cn(const IChannel* c) { n[c] = c->Name(); for (auto* k : c->ChannelCompositions()) Cn(k); }
  explicit Names(const IHeader& h) {
    for (auto* e : h.Events()) n[e] = e->Name();
    for (auto* a : h.Attachments()) n[a] = a->FileName();
    for (auto* d : h.DataGroups()) { n[d] = d->Description(); for (auto* g : d->ChannelGroups()) { n[g] = g->Name(); for (auto* c : g->Channels()) Cn(c); } }
  }
  Str operator()(const void* p) const { if (!p) return "-"; auto it = n.find(p); return it == n.end() ? "?" : it->second; }
};
static void ShowCh(const Names& nm, const IChannelHierarchy* h, const Str& p, Map& m) {
  m[p + "name"] = h->Name(); m[p + "type"] = std::to_string((int)h->Type()); m[p + "desc"] = h->Description();
  int i = 0; for (auto& e : h->ElementLinks()) m[p + "el" + std::to_string(i++)] = nm(e.data_group) + "|" + nm(e.channel_group) + "|" + nm(e.channel);
  i = 0; for (auto* k : h->ChannelHierarchies()) ShowCh(nm, k, p + std::to_string(i++) + "/", m);
}
static Map Show(const IHeader& h) {
  Names nm(h); Map m; size_t k = 0;
  for (auto* e : h.Events()) {
    Str p = "ev" + std::to_string(k++) + ".";
    m[p + "name"] = e->Name(); m[p + "group"] = e->GroupName(); m[p + "type"] = std::to_string((int)e->Type()); m[p + "sync"] = std::to_string((int)e->Sync()); m[p + "range"] = std::to_string((int)e->Range());
    m[p + "cause"] = std::to_string((int)e->Cause()); m[p + "creator"] = std::to_string(e->CreatorIndex()); m[p + "value"] = std::to_string(e->SyncValue()); m[p + "factor"] = Num(e->SyncFactor());
    m[p + "parent"] = nm(e->ParentEvent()); m[p + "rangeev"] = nm(e->RangeEvent()); m[p + "desc"] = e->Description(); m[p + "pre"] = Num(e->PreTrig()); m[p + "post"] = Num(e->PostTrig());
    Str s; for (auto* x : e->Scopes()) s += nm(x) + ","; m[p + "scopes"] = s;
    s.clear(); for (auto* x : e->Attachments()) s += nm(x) + ","; m[p + "att"] = s;
    EvComment ec; e->GetEvComment(ec); m[p + "timeout"] = ec.Timeout().IsActive() ? Num(ec.Timeout().Number<double>()) : "-";
  }
  k = 0; for (auto* c : h.ChannelHierarchies()) ShowCh(nm, c, "ch" + std::to_string(k++) + "/", m);
  return m;
}
static Str Diff(const Map& a, const Map& b) {
  for (auto& [k, v] : a) { auto it = b.find(k); if (it == b.end()) return k + " = \"" + v.substr(0, 80) + "\" is missing"; if (it->second != v) return k + " = \"" + v.substr(0, 80) + "\" became \"" + it->second.substr(0, 80) + "\""; }
  for (auto& [k, v] : b) if (!a.count(k)) return k + " = \"" + v.substr(0, 80) + "\" appeared";
  return "";
}
static Str Kind(const Str& d) { Str s = d.substr(0, d.find(' ')); Str o; for (char ch : s) if (!isdigit((unsigned char)ch)) o += ch; return o; }

struct Ev { int when = 0; Str name, group; EventType type = EventType::Trigger; SyncType sync = SyncType::SyncTime; RangeType range = RangeType::RangePoint; EventCause cause = EventCause::CauseOther; size_t creator = 0;
  int64_t value = 0; double factor = 1; int parent = -1, rangeev = -1; std::vector<Str> scopes, atts; Str desc; std::optional<double> pre, post, timeout; };
struct Hi { int when = 0, parent = -1; Str name; ChType type = ChType::Group; Str desc; std::vector<Str> el; };
struct Model { std::vector<Ev> ev; std::vector<Hi> ch; bool compress = false; bool later_dg = false; };

static const Str kAll[] = {"D0|-|-", "D0|G0|-", "D0|G0|c0", "D1|G1|c1", "D1|G2|m2", "D0|G0|comp", "D1|G2|-"};

static Map Want(const Model& m) {
  Map w; size_t k = 0;
  // events and the top hierarchies in the order of their creation: by phase
  auto order = [&](auto& v, auto ok) { std::vector<size_t> o; for (int t = 0; t < 4; ++t) for (size_t i = 0; i < v.size(); ++i) if (v[i].when == t && ok(v[i])) o.push_back(i); return o; };
  for (size_t i : order(m.ev, [](auto&) { return true; })) {
    auto& e = m.ev[i]; Str p = "ev" + std::to_string(k++) + ".";
    w[p + "name"] = e.name; w[p + "group"] = e.group; w[p + "type"] = std::to_string((int)e.type); w[p + "sync"] = std::to_string((int)e.sync); w[p + "range"] = std::to_string((int)e.range); w[p + "cause"] = std::to_string((int)e.cause);
    w[p + "creator"] = std::to_string(e.creator); w[p + "value"] = std::to_string(e.value); w[p + "factor"] = Num(e.factor); w[p + "parent"] = e.parent < 0 ? "-" : m.ev[e.parent].name; w[p + "rangeev"] = e.rangeev < 0 ? "-" : m.ev[e.rangeev].name;
    w[p + "desc"] = e.desc; w[p + "pre"] = Num(e.pre.value_or(0)); w[p + "post"] = Num(e.post.value_or(0)); w[p + "timeout"] = e.timeout ? Num(*e.timeout) : "-";
    Str s; for (auto& x : e.scopes) s += x + ","; w[p + "scopes"] = s; s.clear(); for (auto& x : e.atts) s += x + ","; w[p + "att"] = s;
  }
  std::function<void(int, const Str&)> put = [&](int parent, const Str& p) {
    size_t n = 0;
    for (size_t i : order(m.ch, [&](auto& x) { return x.parent == parent; })) {
      auto& h = m.ch[i]; Str q = (parent < 0 ? "ch" : p) + std::to_string(n++) + "/";
      w[q + "name"] = h.name; w[q + "type"] = std::to_string((int)h.type); w[q + "desc"] = h.desc;
      for (size_t j = 0; j < h.el.size(); ++j) w[q + "el" + std::to_string(j)] = h.el[j];
      put((int)i, q);
    }
  };
  put(-1, "");
  return w;
}
static void Layout(MdfWriter& w, bool second) {
  auto group = [&](const Str& d, const Str& g, const Str& tag, IDataGroup* dg) {
    dg->Description(d); auto* cg = dg->CreateChannelGroup(g);
    auto* t = cg->CreateChannel("m" + tag); t->Type(ChannelType::Master); t->Sync(ChannelSyncType::Time); t->DataType(ChannelDataType::FloatLe); t->DataBytes(8);
    auto* c = cg->CreateChannel("c" + tag); c->DataType(ChannelDataType::UnsignedIntegerLe); c->DataBytes(4);
    if (tag == "0") { auto* k = c->CreateChannelComposition("comp"); k->DataType(ChannelDataType::UnsignedIntegerLe); k->DataBytes(2); }
  };
  if (!second) group("D0", "G0", "0", w.CreateDataGroup());
  else { auto* d = w.CreateDataGroup(); group("D1", "G1", "1", d); group("D1", "G2", "2", d); }
}
static std::map<Str, const void*> ByName(const IHeader& h) { std::map<Str, const void*> r; Names n(h); for (auto& [p, s] : n.n) r[s] = p; return r; }
static ElementLink LinkOf(const IHeader& h, const Str& text) {
  auto by = ByName(h); ElementLink e; auto a = text.find('|'), b = text.rfind('|'); Str d = text.substr(0, a), g = text.substr(a + 1, b - a - 1), n = text.substr(b + 1);
  if (d != "-") e.data_group = static_cast<const IDataGroup*>(by.at(d)); if (g != "-") e.channel_group = static_cast<const IChannelGroup*>(by.at(g)); if (n != "-") e.channel = static_cast<const IChannel*>(by.at(n));
  return e;
}
// creates what belongs to the phase
struct Builder {
  const Model& m; std::vector<IEvent*> ev; std::vector<IChannelHierarchy*> ch;
  explicit Builder(const Model& mm) : m(mm), ev(mm.ev.size()), ch(mm.ch.size()) {}
  void Phase(IHeader& h, int t) {
    for (size_t i = 0; i < m.ev.size(); ++i) {
      auto& s = m.ev[i]; if (s.when != t) continue;
      auto by = ByName(h);
      auto* e = ev[i] = h.CreateEvent(); e->Name(s.name); if (!s.group.empty()) e->GroupName(s.group); e->Type(s.type); e->Sync(s.sync); e->Range(s.range); e->Cause(s.cause); e->CreatorIndex(s.creator); e->SyncValue(s.value); e->SyncFactor(s.factor);
      if (s.timeout) { EvComment ec(s.desc); ec.Timeout(MdNumber(*s.timeout)); if (s.pre) ec.PreTriggerInterval(MdNumber(*s.pre)); if (s.post) ec.PostTriggerInterval(MdNumber(*s.post)); e->SetEvComment(ec); }
      else { if (!s.desc.empty()) e->Description(s.desc); if (s.pre) e->PreTrig(*s.pre); if (s.post) e->PostTrig(*s.post); }
      for (auto& x : s.scopes) e->AddScope(by.at(x));
      for (auto& x : s.atts) e->AddAttachment(static_cast<const IAttachment*>(by.at(x)));
    }
    // references as soon as both ends exist
    for (size_t i = 0; i < m.ev.size(); ++i) if (ev[i]) { auto& s = m.ev[i]; if (s.parent >= 0 && ev[s.parent]) ev[i]->ParentEvent(ev[s.parent]); if (s.rangeev >= 0 && ev[s.rangeev]) ev[i]->RangeEvent(ev[s.rangeev]); }
    for (size_t i = 0; i < m.ch.size(); ++i) {
      auto& s = m.ch[i]; if (s.when != t) continue;
      auto* k = ch[i] = s.parent < 0 ? h.CreateChannelHierarchy() : ch[s.parent]->CreateChannelHierarchy(); k->Name(s.name); k->Type(s.type); if (!s.desc.empty()) k->Description(s.desc);
      for (auto& x : s.el) k->AddElementLink(LinkOf(h, x));
    }
  }
};
static void Attach(IHeader& h) { for (auto* n : {"a0.txt", "a1.txt"}) { auto* a = h.CreateAttachment(); a->FileName(n); a->FileType("t/x"); } }
static void Read(mc::Ctx& c, const std::vector<uint8_t>& bytes, const Map& want, const Str& what) {
  MdfReader r(std::static_pointer_cast<std::streambuf>(std::make_shared<MemDev>(bytes)));
  EXPECT(c, r.IsOk() && r.ReadEverythingButData() && r.GetHeader(), "open", what << ": the file cannot be read");
  Map got = Show(*r.GetHeader()); Str d = Diff(want, got);
  EXPECT(c, d.empty(), Kind(d), what << ": " << d);
  c.step(got.size()); Str all; for (auto& [k, v] : got) all += k + v; c.outcome(mc::Hash(all.data(), all.size(), 1));
  uint64_t n = 0; auto e = m4::CheckFile(bytes, &n); EXPECT(c, e.empty(), "structure", what << ": " << e);
}
static void Run(mc::Ctx& c, const Model& m, size_t append) {
  Map want = Want(m);
  Str fn = mc::Scratch() + "/c20.mf4"; std::error_code ec; std::filesystem::remove(fn, ec);
  auto dev = std::make_shared<MemDev>();
  auto w = MdfFactory::CreateMdfWriter(MdfWriterType::Mdf4Basic); w->CompressData(m.compress); w->PreTrigTime(0);
  EXPECT(c, append ? w->Init(fn) : w->Init(std::static_pointer_cast<std::streambuf>(dev)), "init", "Init failed");
  auto& h = *w->Header(); Builder b(m);
  Layout(*w, false); Layout(*w, true);
  Attach(h);
  b.Phase(h, 0);
  EXPECT(c, w->InitMeasurement(), "init", "InitMeasurement failed");
  b.Phase(h, 1);
  w->StartMeasurement(kStart);
  for (auto* d : h.DataGroups()) for (auto* g : d->ChannelGroups()) { g->Channels()[1]->SetChannelValue((uint32_t)7); w->SaveSample(*d, *g, kStart + 5); }
  b.Phase(h, 2);
  w->StopMeasurement(kStart + 1000000);
  b.Phase(h, 3);
  Str d = Diff(want, Show(h)); EXPECT(c, d.empty(), "writer:" + Kind(d), "the writer's header: " << d);
  EXPECT(c, w->FinalizeMeasurement(), "finalize", "FinalizeMeasurement failed");
  w.reset();
  auto load = [&] { std::ifstream f(fn, std::ios::binary); return std::vector<uint8_t>((std::istreambuf_iterator<char>(f)), {}); };
  Read(c, append ? load() : dev->data, want, "read");
  if (!append) return;
  // reopened for appending: nothing changes, then one more event / hierarchy that refers to what is there
  w = MdfFactory::CreateMdfWriter(MdfWriterType::Mdf4Basic); EXPECT(c, w->Init(fn), "append", "Init failed"); auto& h2 = *w->Header();
  if (append >= 2) {
    auto by = ByName(h2); Str p = "ev" + std::to_string(m.ev.size()) + ".";
    auto* e = h2.CreateEvent(); e->Name("new"); e->SyncValue(4711); e->Type(EventType::Marker); e->Description("added");
    if (!m.ev.empty()) { e->ParentEvent(h2.Events()[0]); e->RangeEvent(h2.Events()[m.ev.size() - 1]); } e->AddScope(by.at("c1")); e->AddScope(by.at("G0")); e->AddAttachment(static_cast<const IAttachment*>(by.at("a1.txt")));
    Map x = {{"name", "new"}, {"group", ""}, {"type", "6"}, {"sync", "1"}, {"range", "0"}, {"cause", "0"}, {"creator", "0"}, {"value", "4711"}, {"factor", "1"}, {"parent", "-"}, {"rangeev", "-"}, {"desc", "added"}, {"pre", "0"}, {"post", "0"}, {"timeout", "-"}, {"scopes", "c1,G0,"}, {"att", "a1.txt,"}};
    Map dflt = Show(h2); for (Str k : {"sync", "factor", "cause", "range"}) x[k] = dflt.at(p + k);  // defaults of the library
    if (!m.ev.empty()) { x["parent"] = want.at("ev0.name"); x["rangeev"] = want.at("ev" + std::to_string(m.ev.size() - 1) + ".name"); }
    size_t tops = 0; for (auto& k : m.ch) tops += k.parent < 0;
    auto* k = h2.CreateChannelHierarchy(); k->Name("newch"); k->Type(ChType::MapList); k->AddElementLink(LinkOf(h2, "D1|G2|m2")); Str q = "ch" + std::to_string(tops) + "/";
    want[q + "name"] = "newch"; want[q + "type"] = "3"; want[q + "desc"] = ""; want[q + "el0"] = "D1|G2|m2";
    for (auto& [kk, v] : x) want[p + kk] = v;
  }
  EXPECT(c, w->InitMeasurement() && w->FinalizeMeasurement(), "append", "append failed"); w.reset();
  Read(c, load(), want, append >= 2 ? "appended" : "reopened");
}

static const std::vector<std::vector<Str>> kScopes = {{}, {"G0"}, {"G2"}, {"c0"}, {"comp"}, {"G1", "c0"}, {"m2", "G0", "c1"}, {"c1", "c0", "m0", "m1"}};
static const std::vector<std::vector<Str>> kAtts = {{}, {"a0.txt"}, {"a1.txt"}, {"a1.txt", "a0.txt"}};
static Str Text(const Model& m) {
  std::ostringstream o; o << (m.compress ? "z " : "");
  for (auto& e : m.ev) { o << "[" << e.name.substr(0, 20) << " @" << e.when << " p" << e.parent << " r" << e.rangeev << " s"; for (auto& x : e.scopes) o << x << ","; o << " a" << e.atts.size() << "]"; }
  for (auto& h : m.ch) { o << "{" << h.name.substr(0, 20) << " @" << h.when << " p" << h.parent; for (auto& x : h.el) o << " " << x; o << "}"; }
  return o.str();
}
// every graph of parent and range references over the events
static void Graph(mc::Ctx& c) {
  Model m; size_t n = 1 + c.choose(c.thorough ? 4 : 3); bool full = c.flag();
  for (size_t i = 0; i < n; ++i) { Ev e; e.name = "E" + std::to_string(i); e.value = (int64_t)i + 1; e.group = full && i % 2 ? "grp" : ""; e.desc = full ? "d<" + std::to_string(i) : ""; m.ev.push_back(e); }
  for (size_t i = 0; i < n; ++i) {
    size_t p = c.choose(n); m.ev[i].parent = p == 0 ? -1 : (int)(p - 1 < i ? p - 1 : p);
    size_t r = n < 4 ? c.choose(n) : c.devpick(std::vector<size_t>{0, 1, 2, 3}); m.ev[i].rangeev = r == 0 ? -1 : (int)(r - 1 < i ? r - 1 : r);
    m.ev[i].when = (int)c.dev(4);
    size_t s = c.dev(kScopes.size()); m.ev[i].scopes = kScopes[full ? (s + 5) % kScopes.size() : s];
    size_t a = c.dev(kAtts.size()); m.ev[i].atts = kAtts[full ? (a + 3) % kAtts.size() : a];
  }
  m.compress = c.dev(2); size_t append = c.dev(3);
  if (!c.mine()) return;
  c.describe(Text(m) + (append ? " append" : ""));
  Run(c, m, append);
}
static const std::vector<Str> kStr = {"", "<", "a&b", "x'y\"z", "]]>", "p\nq", "p\rq", "a  b", "\xC3\xA4\xE2\x82\xAC\xF0\x9F\x98\x80", "<TX>t</TX>", "0", Str(23, 'x'), Str(24, 'y'), Str(3000, 'L')};
// every attribute with every value, alone and in pairs
static void Attributes(mc::Ctx& c) {
  Model m; Ev a, e, z; a.name = "first"; z.name = "last"; a.value = -5; z.value = 6; z.desc = "zd";
  bool full = c.flag();
  e.name = "mid"; if (full) { e.group = "grp"; e.type = EventType::Marker; e.sync = SyncType::SyncDistance; e.range = RangeType::RangeEnd; e.cause = EventCause::CauseTool; e.creator = 3; e.value = -77; e.factor = 0.125; e.parent = 0; e.rangeev = 2; e.scopes = kScopes[6]; e.atts = kAtts[3]; e.desc = "desc"; e.pre = 1.5; e.post = 2.5; e.timeout = 9; }
  auto str = [&](Str& s) { size_t k = c.dev(kStr.size() + 1); if (k) s = kStr[k - 1]; };
  size_t nk = c.dev(kStr.size()); if (nk) e.name = kStr[nk];
  str(e.group); str(e.desc);
  size_t t = c.dev(8); if (t) e.type = (EventType)(t - 1);
  t = c.dev(5); if (t) e.sync = (SyncType)t;
  t = c.dev(4); if (t) e.range = (RangeType)(t - 1);
  t = c.dev(6); if (t) e.cause = (EventCause)(t - 1);
  static const size_t cr[] = {0, 1, 255, 256, 65535}; t = c.dev(6); if (t) e.creator = cr[t - 1];
  static const int64_t sv[] = {0, 1, -1, 2147483648ll, -4294967297ll, INT64_MAX, INT64_MIN}; t = c.dev(8); if (t) e.value = sv[t - 1];
  static const double sf[] = {0, 1, -1, 1e-9, 1.0 / 3, 1e300, 123456789.123456789}; t = c.dev(8); if (t) e.factor = sf[t - 1];
  static const double tr[] = {1e-9, 1.0 / 3, 123456789.125, 1e22}; 
  t = c.dev(6); if (t) e.pre = t == 1 ? std::optional<double>() : tr[t - 2];
  t = c.dev(6); if (t) e.post = t == 1 ? std::optional<double>() : tr[t - 2];
  t = c.dev(6); if (t) e.timeout = t == 1 ? std::optional<double>() : tr[t - 2];
  t = c.dev(kScopes.size() + 1); if (t) e.scopes = kScopes[t - 1];
  t = c.dev(kAtts.size() + 1); if (t) e.atts = kAtts[t - 1];
  t = c.dev(4); if (t) e.parent = (int)t - 2 == 1 ? 2 : (int)t - 2;
  t = c.dev(3); if (t) e.rangeev = t == 1 ? -1 : 0;
  e.when = (int)c.dev(4);
  size_t append = c.dev(3);
  m.ev = {a, e, z};
  if (!c.mine()) return;
  c.describe(Text(m) + (append ? " append" : ""));
  Run(c, m, append);
}
// every forest of hierarchies
static void Hierarchy(mc::Ctx& c) {
  Model m; size_t n = 1 + c.choose(c.thorough ? 5 : 4); bool full = c.flag();
  for (size_t i = 0; i < n; ++i) {
    Hi h; h.name = "H" + std::to_string(i); h.parent = i == 0 ? -1 : (int)c.choose(i + 1) - 1; h.type = full ? (ChType)((i + 2) % 9) : ChType::Group; if (full) h.desc = "d&" + std::to_string(i);
    static const std::vector<std::vector<Str>> base = {{}, {"D1|G1|c1", "D0|G0|-"}};
    h.el = base[full];
    size_t e = c.dev(std::size(kAll) + 3);
    if (e) { if (e <= std::size(kAll)) h.el = {kAll[e - 1]}; else if (e == std::size(kAll) + 1) h.el = {"D0|G0|c0", "D1|G2|c2", "D1|G1|m1"}; else h.el = {"D1|-|-", "D0|G0|comp"}; }
    size_t t = c.dev(10); if (t) h.type = (ChType)(t - 1);
    size_t s = c.dev(kStr.size()); if (s) h.name = kStr[s]; s = c.dev(kStr.size() + 1); if (s) h.desc = kStr[s - 1];
    int least = h.parent < 0 ? 0 : m.ch[h.parent].when; int late = (int)c.dev(4); h.when = std::max(least, late);
    m.ch.push_back(h);
  }
  // the position in the list follows the creation, phase by phase
  m.compress = c.dev(2); size_t append = c.dev(3);
  if (!c.mine()) return;
  c.describe(Text(m) + (append ? " append" : ""));
  Run(c, m, append);
}
// events together with hierarchies, with every pair of phases
static void Both(mc::Ctx& c) {
  Model m; size_t we[3], wh[3];
  for (int i = 0; i < 3; ++i) { we[i] = i ? c.choose(4) : 0; wh[i] = i ? c.choose(4) : c.choose(2) * 2; }
  for (int i = 0; i < 3; ++i) { Ev e; e.name = "E" + std::to_string(i); e.when = (int)we[i]; e.scopes = kScopes[4 + i]; e.atts = kAtts[i + 1]; e.value = 100 + i; e.parent = i == 0 ? 2 : i - 1; e.rangeev = i == 2 ? 0 : 2; if (i == 2) e.parent = 1; m.ev.push_back(e); }
  m.ev[1].group = "g"; m.ev[2].desc = "d";
  for (int i = 0; i < 3; ++i) { Hi h; h.name = "H" + std::to_string(i); h.parent = i == 2 ? 0 : -1; h.when = std::max((int)wh[i], h.parent < 0 ? 0 : (int)wh[0]); h.el = {kAll[2 * i], kAll[2 * i + 1]}; h.type = (ChType)(i + 1); m.ch.push_back(h); }
  m.compress = c.flag(); size_t append = c.choose(3);
  if (!c.mine()) return;
  c.describe(Text(m) + (append ? " append" : ""));
  Run(c, m, append);
}
int main(int argc, char** argv) {
  MdfLogStream::SetLogFunction1([](const MdfLocation&, MdfLogSeverity, const std::string&) {});
  return mc::Main(argc, argv, "C20", {{"graph", Graph, 1, 2}, {"attributes", Attributes, 2, 2}, {"hierarchy", Hierarchy, 1, 2}, {"both", Both}});
}
