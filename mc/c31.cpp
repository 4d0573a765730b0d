// C31: every finalized MDF 3 file is well-formed and another tool decodes exactly what was recorded
// (checked by an independent MDF 3.3 parser and decoder).
#include <algorithm>
#include "mdf3parse.h"
#include "files.h"
using namespace rec;
using DT = ChannelDataType;
using CT = ConversionType;

static Chan M3() { Chan m = MasterTime(); m.sync = ChannelSyncType::None; return m; }
static m3::File Parsed(mc::Ctx& c, const Bytes& d, const std::string& key) {
  m3::File f(d);
  std::string e;
  try { f.Parse(); } catch (const std::exception& x) { e = x.what(); }
  if (c.verbose && !e.empty()) { FILE* o = fopen("/tmp/mc_bad.mdf", "wb"); if (o) { fwrite(d.data(), 1, d.size(), o); fclose(o); } }
  EXPECT(c, e.empty(), key, e);
  c.step(f.nof_records);
  return f;
}

// Decodes one channel of one record.
static bool Decode(const m3::Cn& cn, const Bytes& r, Val& v, std::string& cls) {
  uint64_t bit = (uint64_t)cn.add * 8 + cn.start;
  size_t at = (size_t)(bit / 8), n = cn.bits / 8;
  if (bit % 8 || cn.bits % 8) return false;
  Bytes b(r.begin() + (long)at, r.begin() + (long)(at + n));
  bool be = cn.signal >= 9 && cn.signal <= 12;
  uint64_t raw = 0;
  if (n <= 8) for (size_t k = 0; k < n; ++k) raw |= (uint64_t)b[be ? n - 1 - k : k] << (8 * k);
  switch (cn.signal) {
    case 0: case 9: case 13: cls = "u"; v.u = raw; return true;
    case 1: case 10: case 14: cls = "i"; v.i = cn.bits == 64 ? (int64_t)raw : (int64_t)(raw << (64 - cn.bits)) >> (64 - cn.bits); return true;
    case 2: case 11: case 15: { if (n != 4) return false; float f; uint32_t u = (uint32_t)raw; memcpy(&f, &u, 4); v.f = f; cls = "f"; return true; }
    case 3: case 12: case 16: if (n != 8) return false; memcpy(&v.f, &raw, 8); cls = "f"; return true;
    case 7: cls = "s"; for (auto x : b) { if (!x) break; v.s += (char)x; } return true;
    case 8: cls = cn.conv == 132 ? "date" : cn.conv == 133 ? "time" : "b"; v.b = b; return true;
    default: return false;
  }
}
static std::string Class(DT d) { return IsInt(d) ? (IsSigned(d) ? "i" : "u") : IsFloat(d) ? "f" : IsText(d) ? "s" : d == DT::CanOpenDate ? "date" : d == DT::CanOpenTime ? "time" : "b"; }

static void Compare(mc::Ctx& c, const m3::File& f, const Spec& s, const std::vector<Step>& steps, size_t first_dg, const std::string& key) {
  EXPECT(c, f.dgs.size() >= first_dg + s.dgs.size(), key + "-dg", f.dgs.size() << " data groups");
  for (size_t d = 0; d < s.dgs.size(); ++d) {
    auto& dg = f.dgs[first_dg + d];
    EXPECT(c, dg.cg.size() == s.dgs[d].size(), key + "-cg", dg.cg.size() << " channel groups, expected " << s.dgs[d].size());
    for (size_t g = 0; g < dg.cg.size(); ++g) {
      std::vector<const Step*> mine;
      for (auto& st : steps) if (st.d == d && st.g == g) mine.push_back(&st);
      auto& cg = dg.cg[g]; auto& gs = s.dgs[d][g];
      EXPECT(c, cg.records == mine.size(), key + "-count", "group " << d << "." << g << ": " << cg.records << " records, expected " << mine.size());
      EXPECT(c, cg.cn.size() == gs.ch.size(), key + "-cn", cg.cn.size() << " channels, expected " << gs.ch.size());
      for (size_t k = 0; k < gs.ch.size(); ++k) {
        auto& cn = cg.cn[k]; auto& ch = gs.ch[k];
        std::string name = ch.name.empty() ? CName(k) : ch.name;
        EXPECT(c, (cn.long_name.empty() ? cn.name : cn.long_name) == name, key + "-name", "channel " << cn.name << "/" << cn.long_name << ", expected " << name);
        EXPECT(c, (cn.type == 1) == (ch.type == ChannelType::Master), key + "-type", name << ": channel type " << cn.type);
        EXPECT(c, cn.bits == ch.bytes * 8, key + "-bits", name << ": " << cn.bits << " bits, expected " << ch.bytes * 8);
        for (size_t n = 0; n < mine.size(); ++n) {
          Val got; std::string cls;
          EXPECT(c, Decode(cn, cg.data[n], got, cls), key + "-decode", name << ": not decodable (signal type " << cn.signal << ", " << cn.bits << " bits)");
          EXPECT(c, cls == Class(ch.dt), key + "-class", name << ": stored as " << cls << ", declared " << Class(ch.dt));
          std::ostringstream where; where << d << "." << g << "." << name << "[" << n << "]";
          if (ch.type == ChannelType::Master) { CheckMaster(c, key + "-master", got.f, mine[n]->time, kStart, where.str()); continue; }
          if (IsDate(ch.dt)) continue;
          Val want = Gen(ch, Salt(d, g, k), mine[n]->n);
          EXPECT(c, SameValue(ch, got, want), key, where.str() << " = " << Show(ch, got) << ", expected " << Show(ch, want));
        }
      }
    }
  }
}

static void Run(mc::Ctx& c, const Spec& s, const std::vector<Step>& steps, int mode, const std::vector<size_t>& flush_after, const std::string& key,
                const std::function<void(MdfWriter&, Live&)>& conf = {}, const std::function<void(const m3::File&)>& check = {}) {
  auto dev = std::make_shared<MemDev>();
  auto w = NewWriter(s);
  EXPECT(c, w->Init(std::static_pointer_cast<std::streambuf>(dev)), key + "-init", "Init failed");
  auto l = Configure(*w, s);
  if (conf) conf(*w, l);
  EXPECT(c, w->InitMeasurement(), key + "-initmeas", "InitMeasurement failed");
  w->StartMeasurement(kStart);
  for (size_t i = 0; i < steps.size(); ++i) {
    Put(*w, s, l, steps[i], mode);
    for (auto f : flush_after) if (f == i) EXPECT(c, flushctl::Flush(), key + "-flush", "no background flush");
  }
  w->StopMeasurement(kStart + 3600'000'000'000ull);
  EXPECT(c, w->FinalizeMeasurement(), key + "-finalize", "FinalizeMeasurement failed");
  auto f = Parsed(c, dev->data, key);
  EXPECT(c, f.dgs.size() == s.dgs.size(), key + "-dgs", f.dgs.size() << " data groups, expected " << s.dgs.size());
  Compare(c, f, s, steps, 0, key);
  if (check) check(f);
  c.outcome(mc::Hash(dev->data.data(), dev->data.size()));
}

static std::vector<Chan> Alphabet() {
  std::vector<Chan> a;
  for (auto dt : {DT::UnsignedIntegerLe, DT::UnsignedIntegerBe, DT::SignedIntegerLe, DT::SignedIntegerBe}) for (uint32_t b : {1u, 2u, 4u, 8u}) a.push_back(Ch(dt, b));
  for (auto dt : {DT::FloatLe, DT::FloatBe}) for (uint32_t b : {4u, 8u}) a.push_back(Ch(dt, b));
  for (uint32_t b : {1u, 5u, 12u}) a.push_back(Ch(DT::StringAscii, b));
  for (uint32_t b : {1u, 3u, 9u}) a.push_back(Ch(DT::ByteArray, b));
  a.push_back(Ch(DT::CanOpenDate, 7)); a.push_back(Ch(DT::CanOpenTime, 6));
  return a;
}
static const std::vector<Chan> A = Alphabet();

// every pair (thorough: triple) of channel types, with and without a master channel
static void Types(mc::Ctx& c) {
  Spec s; s.writer = MdfWriterType::Mdf3Basic;
  Group g;
  if (c.choose(2)) g.ch.push_back(M3());
  for (size_t k = 0; k < (c.thorough ? 3u : 2u); ++k) g.ch.push_back(c.pick(A));
  s.dgs = {{g}};
  if (!c.mine()) return;
  c.describe(s.Text());
  Run(c, s, MakeSteps(s, {0, 0, 0, 0}), 0, {}, "types");
}

// the order in which type and size of a channel are given, also when they are changed again
static void CallOrder(mc::Ctx& c) {
  auto& x = c.pick(A); auto& y = c.pick(A);
  size_t order = c.choose(3);
  if (IsDate(x.dt) || IsDate(y.dt)) return;
  if (order == 1 && &x != &A[0]) return;  // x is used by order 0 and 2 only
  if (!c.mine()) return;
  Spec s; s.writer = MdfWriterType::Mdf3Basic; Group g; g.ch = {Ch(DT::UnsignedIntegerLe, 2), y, Ch(DT::UnsignedIntegerLe, 2)}; s.dgs = {{g}};
  c.describe("first " + Show(x) + " then " + Show(y) + " order=" + std::to_string(order));
  Run(c, s, MakeSteps(s, {0, 0, 0}), 0, {}, "callorder", [&](MdfWriter&, Live& l) {
    auto* cn = l.cn[0][0][1];
    if (order == 0) { cn->DataType(x.dt); cn->DataBytes(x.bytes); cn->DataType(y.dt); cn->DataBytes(y.bytes); }
    else if (order == 1) { cn->DataBytes(y.bytes); cn->DataType(y.dt); }
    else { cn->DataBytes(x.bytes); cn->DataType(x.dt); cn->DataBytes(y.bytes); cn->DataType(y.dt); }
  });
}

static const std::vector<std::vector<Chan>> kLayouts = {
    {Ch(DT::UnsignedIntegerLe, 2), Ch(DT::FloatBe, 8)}, {M3(), Ch(DT::SignedIntegerBe, 4), Ch(DT::StringAscii, 6)}, {Ch(DT::ByteArray, 5)}};
static void Groups(mc::Ctx& c) {
  Spec s; s.writer = MdfWriterType::Mdf3Basic;
  size_t nd = 1 + c.choose(3), total = 0;
  for (size_t d = 0; d < nd; ++d) {
    size_t ng = 1 + c.choose(3);
    if (total + ng > 4) return;
    Dg dg;
    for (size_t g = 0; g < ng; ++g) { Group gr; gr.ch = kLayouts[(d + g) % 3]; dg.push_back(gr); }
    total += ng;
    s.dgs.push_back(dg);
  }
  size_t len = c.choose(c.thorough ? 6 : 5);
  std::vector<size_t> order, fl;
  for (size_t i = 0; i < len; ++i) { order.push_back(c.choose(total)); if (c.dev(2)) fl.push_back(i); }
  if (!c.mine()) return;
  std::ostringstream o; o << s.Text() << " order="; for (auto x : order) o << x; o << " flush="; for (auto x : fl) o << x;
  c.describe(o.str());
  Run(c, s, MakeSteps(s, order), 0, fl, "groups");
}

static void Counts(mc::Ctx& c) {
  Spec s; s.writer = MdfWriterType::Mdf3Basic;
  size_t n = c.pick(std::vector<size_t>{0, 1, 2, 255, 256, 257, 5000, 66000});
  size_t ng = c.pick(std::vector<size_t>{1, 2, 3, 127, 128, 254, 255});
  size_t nd = 1 + c.choose(2);
  bool flush = c.flag();
  if (ng > 3 && n > 300) return;
  if (!c.mine()) return;
  for (size_t d = 0; d < nd; ++d) { Dg dg; for (size_t g = 0; g < ng; ++g) { Group gr; gr.ch = {M3(), Ch(DT::UnsignedIntegerLe, 4), A[g % A.size()]}; dg.push_back(gr); } s.dgs.push_back(dg); }
  std::ostringstream o; o << "groups=" << ng << " dgs=" << nd << " n=" << n << " flush=" << flush; c.describe(o.str());
  std::vector<size_t> order; size_t total = ng * nd;
  for (size_t i = 0; i < n; ++i) order.push_back((i * 7 + i / 5) % total);
  std::vector<size_t> fl; if (flush && n > 0) fl = {n / 3, n / 2, n - 1};
  Run(c, s, MakeSteps(s, order), 0, fl, "counts");
}

static void Offsets(mc::Ctx& c) {
  Spec s; s.writer = MdfWriterType::Mdf3Basic;
  uint32_t pad = c.pick(std::vector<uint32_t>{1, 4095, 8000, 8150, 8160});
  size_t npad = 1 + c.choose(7);
  Chan x = c.pick(std::vector<Chan>{Ch(DT::UnsignedIntegerLe, 2), Ch(DT::FloatLe, 8), Ch(DT::StringAscii, 5)});
  uint32_t fill = (uint32_t)c.choose(35);
  if (!c.mine()) return;
  Group g;
  for (size_t i = 0; i < npad; ++i) g.ch.push_back(Ch(DT::ByteArray, pad));
  if (fill) g.ch.push_back(Ch(DT::ByteArray, fill));
  g.ch.push_back(x); g.ch.push_back(Ch(DT::SignedIntegerLe, 4));
  s.dgs = {{g}};
  c.describe("pad=" + std::to_string(pad) + "x" + std::to_string(npad) + "+" + std::to_string(fill) + " " + Show(x));
  Run(c, s, MakeSteps(s, {0, 0}), 0, {}, "offset");
}

static std::string Str(size_t n, char base) { std::string s; for (size_t i = 0; i < n; ++i) s += (char)(base + i % 26); return s; }

static void Texts(mc::Ctx& c) {
  size_t nl = c.pick(std::vector<size_t>{1, 30, 31, 32, 33, 200});
  size_t dl = c.pick(std::vector<size_t>{0, 1, 126, 127});
  size_t ul = c.pick(std::vector<size_t>{0, 1, 18, 19});
  size_t pl = c.pick(std::vector<size_t>{0, 1, 40});
  size_t gl = c.pick(std::vector<size_t>{0, 1, 100, 60000});
  size_t hl = c.pick(std::vector<size_t>{0, 1, 31});
  size_t k = c.choose(2);
  if (!c.mine()) return;
  Spec s; s.writer = MdfWriterType::Mdf3Basic;
  Group g; g.ch = {Ch(DT::UnsignedIntegerLe, 2), Ch(DT::FloatLe, 4)};
  g.ch[k].name = Str(nl, 'A');
  s.dgs = {{g, g}};
  s.dgs[0][1].ch[k].name = "Other";
  std::ostringstream o; o << "name=" << nl << " desc=" << dl << " unit=" << ul << " disp=" << pl << " group=" << gl << " header=" << hl << " k=" << k;
  c.describe(o.str());
  Run(c, s, MakeSteps(s, {0, 1, 0}), 0, {}, "texts",
    [&](MdfWriter& w, Live& l) {
      auto* cn = l.cn[0][0][k];
      cn->Description(Str(dl, 'a')); if (ul) cn->Unit(Str(ul, 'k')); cn->DisplayName(Str(pl, 'P'));
      l.cg[0][0]->Description(Str(gl, 'g'));
      auto* h = w.Header(); h->Author(Str(hl, 'H')); h->Department(Str(hl, 'D')); h->Project(Str(hl, 'p')); h->Subject(Str(hl, 's')); h->Description(Str(gl, 'c'));
    },
    [&](const m3::File& f) {
      auto& cg = f.dgs[0].cg[0]; auto& cn = cg.cn[k];
      EXPECT(c, cn.description == Str(dl, 'a'), "texts-desc", cn.description);
      EXPECT(c, cn.unit == Str(ul, 'k'), "texts-unit", cn.unit);
      EXPECT(c, cn.display == Str(pl, 'P'), "texts-display", cn.display);
      EXPECT(c, cg.comment == Str(gl, 'g'), "texts-group", cg.comment.substr(0, 100));
      auto& oc = f.dgs[0].cg[1].cn[k];
      EXPECT(c, oc.description.empty() && oc.unit.empty() && oc.display.empty() && f.dgs[0].cg[1].comment.empty(), "texts-other", "texts leaked into another channel or group");
      EXPECT(c, f.author == Str(hl, 'H') && f.organisation == Str(hl, 'D') && f.project == Str(hl, 'p') && f.subject == Str(hl, 's'), "texts-header", f.author << "/" << f.organisation << "/" << f.project << "/" << f.subject);
      EXPECT(c, f.comment == Str(gl, 'c'), "texts-comment", f.comment.substr(0, 100));
    });
}

// every pair of conversions on neighbouring channels
struct Cv { CT type; std::vector<double> par; std::string formula; uint16_t code; };
static const std::vector<Cv>& Convs() {
  static const std::vector<Cv> v = [] {
    std::vector<Cv> a = {{CT::NoConversion, {}, "", 65535}, {CT::Linear, {1.5, -2.0}, "", 0}, {CT::Polynomial, {1, 2, 3, 4, 5, 6}, "", 6},
      {CT::Exponential, {1, 2, 3, 4, 5, 6, 7}, "", 7}, {CT::Logarithmic, {7, 6, 5, 4, 3, 2, 1}, "", 8}, {CT::Rational, {0, 1, 2, 0, 0, 1}, "", 9}};
    for (size_t n : {1u, 2u, 7u, 100u, 1000u}) { std::vector<double> p; for (size_t k = 0; k < 2 * n; ++k) p.push_back((double)k * 0.5); a.push_back({CT::ValueToValueInterpolation, p, "", 1}); a.push_back({CT::ValueToValue, p, "", 2}); }
    for (size_t n : {1u, 2u, 7u, 8u, 255u, 256u}) a.push_back({CT::Algebraic, {}, "X1+" + Str(n, '0'), 10});
    return a;
  }();
  return v;
}
static void Conversions(mc::Ctx& c) {
  auto& v = Convs();
  size_t a = c.choose(v.size() + 1), b = c.choose(v.size() + 1);
  size_t unit = c.choose(2), two = c.choose(2);
  if (!c.mine()) return;
  Spec s; s.writer = MdfWriterType::Mdf3Basic;
  Group g; g.ch = {Ch(DT::UnsignedIntegerLe, 2), Ch(DT::SignedIntegerBe, 4), Ch(DT::FloatLe, 8)};
  s.dgs = {{g}}; if (two) s.dgs[0].push_back(g);
  std::ostringstream o; o << "conversions " << a << "," << b << " unit=" << unit << " groups=" << 1 + two; c.describe(o.str());
  Run(c, s, MakeSteps(s, two ? std::vector<size_t>{0, 1, 0, 1} : std::vector<size_t>{0, 0}), 0, {}, "conversion",
    [&](MdfWriter&, Live& l) {
      for (size_t k = 0; k < 2; ++k) {
        size_t x = k ? b : a;
        if (x == v.size()) continue;
        auto* cc = l.cn[0][two][k]->CreateChannelConversion();
        cc->Type(v[x].type);
        if (unit) cc->Unit("unit" + std::to_string(k));
        for (size_t n = 0; n < v[x].par.size(); ++n) cc->Parameter((uint16_t)n, v[x].par[n]);
        if (!v[x].formula.empty()) cc->Formula(v[x].formula);
      }
    },
    [&](const m3::File& f) {
      for (size_t k = 0; k < 2; ++k) {
        size_t x = k ? b : a; auto& cn = f.dgs[0].cg[two].cn[k];
        if (x == v.size()) { EXPECT(c, cn.conv == 0xFFFF && cn.unit.empty(), "conversion-none", "channel without conversion has one"); continue; }
        EXPECT(c, cn.conv == v[x].code, "conversion-type", "conversion type " << cn.conv << ", expected " << v[x].code);
        EXPECT(c, cn.par == v[x].par, "conversion-par", "conversion type " << cn.conv << ": the parameters differ");
        EXPECT(c, cn.formula == v[x].formula, "conversion-formula", cn.formula << ", expected " << v[x].formula);
        EXPECT(c, cn.unit == (unit ? "unit" + std::to_string(k) : ""), "conversion-unit", cn.unit);
      }
    });
}

// several measurements in one file, in one session and appended in later sessions
static void Append(mc::Ctx& c) {
  size_t n = 1 + c.choose(c.thorough ? 4 : 3);
  std::vector<size_t> lay, cnt, how, fl;
  for (size_t k = 0; k < n; ++k) { lay.push_back(c.choose(4)); cnt.push_back(c.pick(std::vector<size_t>{0, 1, 3})); how.push_back(k ? c.choose(2) : 1); fl.push_back(c.choose(2)); if (!cnt.back() && fl.back()) return; }
  if (!c.mine()) return;
  std::ostringstream o; o << "measurements="; for (size_t k = 0; k < n; ++k) o << (how[k] ? "|" : "+") << lay[k] << "x" << cnt[k] << (fl[k] ? "f" : ""); c.describe(o.str());
  std::string fn = mc::Scratch() + "/a.mdf";
  remove(fn.c_str());
  std::unique_ptr<MdfWriter> w;
  std::vector<Spec> specs; std::vector<std::vector<Step>> all;
  for (size_t k = 0; k < n; ++k) {
    Spec s; s.writer = MdfWriterType::Mdf3Basic;
    Group a, b; a.ch = kLayouts[lay[k] % 3]; b.ch = kLayouts[(lay[k] + 1) % 3];
    s.dgs = {{a}}; if (lay[k] == 3) s.dgs = {{a, b}};
    if (how[k]) { w = NewWriter(s); EXPECT(c, w->Init(fn), "append-init", "Init failed"); }
    auto l = Configure(*w, s);
    EXPECT(c, w->InitMeasurement(), "append-initmeas", "InitMeasurement failed");
    w->StartMeasurement(kStart);
    std::vector<size_t> order; for (size_t i = 0; i < cnt[k]; ++i) order.push_back(i % s.dgs[0].size());
    auto steps = MakeSteps(s, order);
    for (size_t i = 0; i < steps.size(); ++i) { Put(*w, s, l, steps[i], 0); if (fl[k] && i == 0) flushctl::Flush(); }
    w->StopMeasurement(kStart + 3600'000'000'000ull);
    EXPECT(c, w->FinalizeMeasurement(), "append-finalize", "FinalizeMeasurement failed");
    specs.push_back(s); all.push_back(steps);
  }
  w.reset();
  Bytes d; { FILE* f = fopen(fn.c_str(), "rb"); EXPECT(c, f, "append-file", "no file"); uint8_t buf[4096]; size_t r; while ((r = fread(buf, 1, sizeof buf, f)) > 0) d.insert(d.end(), buf, buf + r); fclose(f); }
  auto f = Parsed(c, d, "append");
  EXPECT(c, f.dgs.size() == n, "append-dgs", f.dgs.size() << " data groups, expected " << n);
  for (size_t k = 0; k < n; ++k) Compare(c, f, specs[k], all[k], k, "append");
  c.outcome(mc::Hash(d.data(), d.size()));
}

int main(int argc, char** argv) {
  return mc::Main(argc, argv, "C31", {{"types", Types}, {"callorder", CallOrder}, {"groups", Groups}, {"counts", Counts}, {"offsets", Offsets}, {"texts", Texts}, {"conversions", Conversions}, {"append", Append}});
}
