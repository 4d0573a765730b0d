// C22: the sorting task preserves the content of a file.
#include "content.h"
#include "attrs.h"
#include "build4.h"
#include "rich.h"
#include "mdf4parse.h"
#include "mdf/mdflogstream.h"
#include "sortingtask.h"
using namespace rec;

struct Opt { bool zip = false, skip = false; int storage = 0; };

static void Sort(mc::Ctx& c, const Bytes& f, const Opt& o) {
  std::string base = mc::Scratch() + "/w" + std::to_string(mc::Worker()); std::filesystem::create_directories(base);
  std::string src = base + "/source.mf4", dir = base + "/sorted", dst = dir + "/dest" + std::to_string(mc::Worker()) + ".mf4";
  std::filesystem::remove_all(dir); std::filesystem::remove(src);
  Save(src, f);
  auto want = Content(c, f, "source", false);
  bool ok; std::string msg;
  {
    SortingTask t; t.SourceFile(src); t.DestinationFile(dst); t.CompressData(o.zip); t.SkipIfNoSamples(o.skip);
    t.StorageType(o.storage == 0 ? MdfStorageType::FixedLengthStorage : o.storage == 1 ? MdfStorageType::VlsdStorage : MdfStorageType::MlsdStorage);
    t.Run(); ok = t.Result(); for (auto& m : t.MessageList()) msg += m + " ";
  }
  EXPECT(c, ok, "result", "the sorting task failed: " << msg);
  EXPECT(c, Load(src) == f, "source", "the source file was changed");
  auto g = Load(dst);
  EXPECT(c, !g.empty(), "dest", "no destination file");
  { uint64_t n = 0; auto e = m4::CheckFile(g, &n); EXPECT(c, e.empty(), "structure", "the sorted file: " << e); }
  auto got = Content(c, g, "sorted", true);
  if (o.skip) { std::vector<GroupContent> w; for (auto& x : want) if (x.n > 0) w.push_back(x); want = w; }
  EXPECT(c, got.size() == want.size(), "groups", "the sorted file has " << got.size() << " channel groups, the source " << want.size());
  for (size_t k = 0; k < want.size(); ++k) {
    auto& a = want[k]; auto& b = got[k];
    EXPECT(c, a.name == b.name, "name", "group " << k << " '" << a.name << "' became '" << b.name << "'");
    auto text = [](const std::string& k) { return k.size() > 6 && k.compare(k.size() - 6, 6, ".md.TX") == 0; };  // a plain text comment may become the TX tag of a meta data comment
    auto diff = dump::Diff(a.cfg, b.cfg, text);
    EXPECT(c, diff.empty(), "config", "group '" << a.name << "': " << diff);
    EXPECT(c, a.n == b.n, "count", "group '" << a.name << "' has " << b.n << " samples, source " << a.n);
    EXPECT(c, a.val.size() == b.val.size(), "channels", "group '" << a.name << "' has another number of channels");
    for (size_t m = 0; m < a.val.size(); ++m) {
      EXPECT(c, a.val[m].second.size() == b.val[m].second.size(), "count", "channel " << a.val[m].first << " of '" << a.name << "' has " << b.val[m].second.size() << " samples, source " << a.val[m].second.size());
      for (size_t n = 0; n < a.val[m].second.size(); ++n) { c.step(); EXPECT(c, a.val[m].second[n] == b.val[m].second[n], "value", "channel " << a.val[m].first << "[" << n << "] of '" << a.name << "' = " << b.val[m].second[n] << ", source " << a.val[m].second[n]); }
    }
  }
  {
    auto a = OpenBytes(c, f), b = OpenBytes(c, g);
    dump::Map ma, mb;
    auto keep = [](const std::string& k) { return k.rfind("hd.", 0) == 0 || k.rfind("fh", 0) == 0 || k.rfind("at", 0) == 0; };
    for (auto& kv : Clean(dump::Of(*a->GetHeader()))) if (keep(kv.first)) ma.insert(kv);
    for (auto& kv : Clean(dump::Of(*b->GetHeader()))) if (keep(kv.first)) mb.insert(kv);
    auto diff = dump::Diff(ma, mb, [](const std::string& k) { return k.rfind("fh", 0) == 0 || (k.size() > 6 && k.compare(k.size() - 6, 6, ".md.TX") == 0); });
    EXPECT(c, diff.empty(), "header", diff);
    auto aa = a->GetHeader()->Attachments(), ab = b->GetHeader()->Attachments();
    for (size_t k = 0; k < aa.size(); ++k) {
      std::string fa = base + "/at_a", fb = base + "/at_b";
      bool ea = a->ExportAttachmentData(*aa[k], fa), eb = b->ExportAttachmentData(*ab[k], fb);
      EXPECT(c, ea == eb && (!ea || Load(fa) == Load(fb)), "attachment", "the content of attachment " << k << " differs");
      std::filesystem::remove(fa); std::filesystem::remove(fb);
    }
  }
  std::string s; for (auto& x : got) for (auto& v : x.val) for (auto& y : v.second) s += y; c.outcome(s);
}

static std::vector<size_t> Order(mc::Ctx& c, size_t kind, size_t n) { std::vector<size_t> o; for (size_t k = 0; k < n; ++k) o.push_back(c.choose(KindGroups(kind))); return o; }

// every storage form of MDF 4, every interleaving of its groups, every option of the task
static void Kinds(mc::Ctx& c) {
  size_t kind = c.pick(std::vector<size_t>{0, 1, 2, 3, 4, 7, 8, 9, 10, 11}); bool zip = c.flag();
  Opt o; o.zip = c.flag(); o.skip = c.flag(); o.storage = c.choose(3);
  size_t n = c.choose(c.thorough ? 6 : 5);
  auto order = Order(c, kind, n);
  if (!c.mine()) return;
  std::ostringstream t; t << KindName(kind) << " zip=" << zip << " -> zip=" << o.zip << " skip=" << o.skip << " storage=" << o.storage << " order="; for (auto x : order) t << x;
  c.describe(t.str());
  Sort(c, KindFile(c, kind, zip, order, -1), o);
}

// record streams built by hand -----------------------------------------------------------------------------------------------
struct Stream {
  b4::File f; uint64_t hd, dg; std::vector<uint64_t> cg; uint64_t last = 0; Bytes data; size_t id_size; std::vector<uint64_t> count, vl;
  Stream(size_t ids, uint64_t start) : id_size(ids) { hd = f.Hd(start); dg = f.Dg((uint8_t)ids); f.Link(hd, 0, dg); }
  size_t Group(uint64_t id, uint16_t flags, uint32_t bytes, uint32_t inval, const std::string& name) {
    uint64_t g = f.Cg(id, 0, flags, bytes, inval, name);
    if (last) f.Link(last, 0, g); else f.Link(dg, 1, g);
    last = g; cg.push_back(g); count.push_back(0); vl.push_back(0); return cg.size() - 1;
  }
  void Id(uint64_t id) { for (size_t k = 0; k < id_size; ++k) data.push_back((uint8_t)(id >> (8 * k))); }
  void Put64(uint64_t pos, uint64_t v) { for (int k = 0; k < 8; ++k) f.f[pos + k] = (uint8_t)(v >> (8 * k)); }
  Bytes Done(const b4::Layout* l = nullptr) {
    for (size_t k = 0; k < cg.size(); ++k) { Put64(cg[k] + 24 + 6 * 8 + 8, count[k]); if (vl[k]) for (int b = 0; b < 8; ++b) f.f[cg[k] + 24 + 6 * 8 + 24 + b] = (uint8_t)(vl[k] >> (8 * b)); }
    uint64_t d = l ? b4::PutData(f, data, "DT", *l) : f.Block("DT", {}, data);
    f.Link(dg, 2, d); return f.f;
  }
};
static void Chain(b4::File& f, uint64_t cg, const std::vector<uint64_t>& cn) { uint64_t prev = 0; for (auto n : cn) { if (!prev) f.Link(cg, 1, n); else f.Link(prev, 0, n); prev = n; } }

// variable length values in a group of their own: every order of the records and their values, every place of the offset in the record
static void VlsdGroup(mc::Ctx& c) {
  size_t layout = c.choose(5), n = 1 + c.choose(3), m = c.choose(2);
  bool two = layout == 3;
  // remaining records per source: 0 records, 1 values, 2 values of the second group, 3 another group
  std::vector<size_t> left = {n, n, two ? n : 0, m}; std::vector<size_t> order;
  while (left[0] + left[1] + left[2] + left[3]) { std::vector<size_t> av; for (size_t k = 0; k < 4; ++k) if (left[k]) av.push_back(k); size_t x = c.pick(av); --left[x]; order.push_back(x); }
  Opt o; o.zip = c.dev(2); o.skip = c.dev(2); o.storage = c.dev(3);
  size_t start = c.dev(2); bool text = c.dev(2); size_t sizes = c.dev(3); bool idcase = c.dev(2); bool inval = c.dev(2);
  static const size_t idsizes[] = {1, 2, 8}; size_t ids = idsizes[c.dev(3)];
  if (n > 2 && (two || m) && !c.thorough) return;
  if (!c.mine()) return;
  std::ostringstream t; t << "layout=" << layout << " n=" << n << " ids=" << ids << " text=" << text << " sizes=" << sizes << " idcase=" << idcase << " inval=" << inval << " start=" << start << " zip=" << o.zip << " skip=" << o.skip << " storage=" << o.storage << " order=";
  for (auto x : order) t << "RVWB"[x]; c.describe(t.str());
  Stream s(ids, start ? 1 : kStart);
  uint64_t idR = idcase ? 7 : 1, idV = idcase ? 3 : 2, idW = idcase ? 9 : 3, idB = idcase ? 2 : 4;
  uint32_t offT = layout == 1 ? 8 : 0, offI = layout == 1 ? 0 : 8, offJ = 16, bytes = two ? 24 : layout == 2 ? 18 : layout == 4 ? 12 : 16, ibits = layout == 4 ? 32 : 64;
  size_t R = s.Group(idR, 0, bytes, inval ? 1 : 0, "Rec"), B = s.Group(idB, 0, 4, 0, "Other");
  size_t V = s.Group(idV, 1, 0, 0, ""), W = two ? s.Group(idW, 1, 0, 0, "") : 0;
  uint64_t ct = s.f.Cn(2, 1, 4, 0, offT, 64, 0, 0, "Time"), ci = s.f.Cn(1, 0, text ? 7 : 10, 0, offI, ibits, inval ? 2 : 0, 0, "Value");
  s.f.Link(ci, 5, s.cg[V]);
  std::vector<uint64_t> cn = {ct, ci};
  if (two) { uint64_t cj = s.f.Cn(1, 0, 10, 0, offJ, 64, 0, 0, "Second"); s.f.Link(cj, 5, s.cg[W]); cn.push_back(cj); }
  if (layout == 2) cn.push_back(s.f.Cn(0, 0, 0, 0, 16, 16, 0, 0, "Tail"));
  Chain(s.f, s.cg[R], cn);
  Chain(s.f, s.cg[B], {s.f.Cn(0, 0, 0, 0, 0, 32, 0, 0, "Count")});
  auto value = [&](size_t g, size_t k) { Bytes b; size_t len = sizes == 0 ? 1 + (k * 3 + g) % 5 : sizes == 1 ? (k + g) % 2 * 4 : 40 + k; for (size_t j = 0; j < len; ++j) b.push_back((uint8_t)('A' + (k * 7 + g * 11 + j) % 26)); if (text && g == 0) b.push_back(0); return b; };
  std::vector<uint64_t> offV(n + 1, 0), offW(n + 1, 0);
  for (size_t k = 0; k < n; ++k) { offV[k + 1] = offV[k] + 4 + value(0, k).size(); offW[k + 1] = offW[k] + 4 + value(1, k).size(); }
  std::vector<size_t> cnt(4, 0);
  for (auto x : order) {
    size_t k = cnt[x]++;
    if (x == 0) {
      s.Id(idR); Bytes r(bytes + (inval ? 1 : 0), 0);
      double tm = 0.0015 * (double)(k + 1); memcpy(&r[offT], &tm, 8);
      memcpy(&r[offI], &offV[k], ibits / 8); if (two) memcpy(&r[offJ], &offW[k], 8);
      if (layout == 2) { r[16] = (uint8_t)(k + 1); r[17] = 0x5A; }
      if (inval) r[bytes] = (uint8_t)(k % 2);
      s.data.insert(s.data.end(), r.begin(), r.end()); ++s.count[R];
    } else if (x == 3) { s.Id(idB); b4::Le<uint32_t>(s.data, (uint32_t)(k + 100)); ++s.count[B]; }
    else { auto v = value(x - 1, k); s.Id(x == 1 ? idV : idW); b4::Le<uint32_t>(s.data, (uint32_t)v.size()); s.data.insert(s.data.end(), v.begin(), v.end()); size_t g = x == 1 ? V : W; ++s.count[g]; s.vl[g] += 4 + v.size(); }
  }
  Sort(c, s.Done(), o);
}

// master channels of every type: the stored times are kept to the last bit
static void Masters(mc::Ctx& c) {
  size_t kind = c.choose(12); size_t sync = c.choose(5); size_t scale = c.choose(4); size_t nval = c.thorough ? 3 : 2;
  std::vector<size_t> raw; for (size_t k = 0; k < nval; ++k) raw.push_back(c.choose(6));
  if (!c.thorough && sync > 1 && scale) return;
  Opt o; o.zip = c.dev(2); bool two = c.dev(2); size_t start = c.dev(2);
  if (!c.mine()) return;
  // kind: f64, f64be, f32, u8 u16 u32 u64 (le), u32be, i32, i64be, virtual master, no master
  static const uint8_t dts[] = {4, 5, 4, 0, 0, 0, 0, 1, 2, 3, 0, 0}; static const uint32_t bits[] = {64, 64, 32, 8, 16, 32, 64, 32, 32, 64, 0, 32};
  std::ostringstream t; t << "kind=" << kind << " sync=" << sync << " scale=" << scale << " two=" << two << " start=" << start << " zip=" << o.zip << " raw="; for (auto x : raw) t << x; c.describe(t.str());
  Stream s(two ? 1 : 0, start ? 1 : kStart);
  uint32_t mb = bits[kind] / 8;
  size_t G = s.Group(two ? 1 : 0, 0, mb + 4, 0, "G");
  uint64_t cm = s.f.Cn(kind == 11 ? 0 : kind == 10 ? 3 : 2, kind == 11 ? 0 : (uint8_t)sync, dts[kind], 0, 0, bits[kind], 0, 0, "Master"), cv = s.f.Cn(0, 0, 0, 0, mb, 32, 0, 0, "Value");
  if (scale) {
    Bytes b{1, 0}; b4::Le<uint16_t>(b, 0); b4::Le<uint16_t>(b, 0); b4::Le<uint16_t>(b, 2); b4::Dbl(b, 0); b4::Dbl(b, 0); b4::Dbl(b, scale == 2 ? -0.5 : 0); b4::Dbl(b, scale == 1 ? 1e-6 : scale == 2 ? 0.001 : 1e-9);
    s.f.Link(cm, 4, s.f.Block("CC", {0, 0, 0, 0}, b));
  }
  Chain(s.f, s.cg[G], {cm, cv});
  size_t H = 0;
  if (two) { H = s.Group(2, 0, 8, 0, "H"); Chain(s.f, s.cg[H], {s.f.Cn(2, 1, 4, 0, 0, 64, 0, 0, "T2")}); }
  static const double fv[] = {0.1, 1.0 / 3, 0.0123456789012345, 1234.567890123456, 1e-12, -0.7};
  static const uint64_t iv[] = {1, 0, 0x7B, 0xFEDCBA9876543210ull, 0x8000000080000080ull, 77777};
  for (size_t k = 0; k < nval; ++k) {
    if (two) s.Id(1);
    if (kind <= 2) { double d = fv[raw[k]]; float f = (float)d; Bytes b(mb); if (mb == 4) memcpy(b.data(), &f, 4); else memcpy(b.data(), &d, 8); if (dts[kind] & 1) std::reverse(b.begin(), b.end()); s.data.insert(s.data.end(), b.begin(), b.end()); }
    else { uint64_t v = iv[raw[k]]; Bytes b(8); memcpy(b.data(), &v, 8); b.resize(mb); if (dts[kind] & 1) std::reverse(b.begin(), b.end()); s.data.insert(s.data.end(), b.begin(), b.end()); }
    b4::Le<uint32_t>(s.data, (uint32_t)(k + 10)); ++s.count[G];
    if (two) { s.Id(2); b4::Dbl(s.data, fv[(raw[k] + 1) % 6]); ++s.count[H]; }
  }
  Sort(c, s.Done(), o);
}

// recordings with every combination of up to two (three) format features
static void Rich(mc::Ctx& c) {
  Opt o; o.zip = c.flag();
  auto r = rich::ChooseDev(c);
  // links between objects are not part of the sorted file; an array that refers to other objects cannot be kept
  if (r[rich::kDefX] || r[rich::kCnAt] || r[rich::kEv] || r[rich::kCh] || (r[rich::kCa] >= 4 && r[rich::kCa] <= 8) || r[rich::kCa] == 10) return;
  if (!c.mine()) return;
  c.describe(rich::Text(r) + " -> zip=" + std::to_string(o.zip));
  Sort(c, rich::Build(c, r, "rich")->data, o);
}

// every descriptive attribute with its boundary values, alone and in a fully described file
static void Attributes(mc::Ctx& c) {
  bool full = c.flag(); Opt o; o.zip = c.dev(2);
  auto& at = attrs::Attrs(false);
  size_t i = c.choose(at.size()), v = c.choose(at[i].v.size());
  if (!c.thorough && v > 1 && v != at[i].base && (v + i) % 5 != full) return;
  if (!c.mine()) return;
  c.describe(std::string(full ? "full " : "bare ") + at[i].key + "=" + at[i].v[v].want.substr(0, 30) + " -> zip=" + std::to_string(o.zip));
  Sort(c, attrs::Make(c, false, full, {{i, v}}, nullptr, true, ""), o);
}

int main(int argc, char** argv) {
  MdfLogStream::SetLogFunction1([](const MdfLocation&, MdfLogSeverity, const std::string&) {});
  return mc::Main(argc, argv, "C22", {{"kinds", Kinds}, {"vlsdgroup", VlsdGroup, 1, 2}, {"masters", Masters, 1, 2}, {"rich", Rich}, {"attributes", Attributes, 0, 1}});
}
