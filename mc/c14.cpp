// C14: engineering values are the documented function of the channel value for every conversion type, also after a round trip.
#include <optional>
#include "build3.h"
#include "build4.h"
#include "rec.h"
using namespace rec;
using CT = ConversionType;

struct Conv {
  CT type = CT::NoConversion;
  std::vector<double> par;
  std::vector<std::string> ref;
  int decimals = -1;
  bool none = false;  // no conversion block at all
  std::string Text() const {
    std::ostringstream o; o << "conv=" << (none ? -1 : (int)type) << " par=[";
    for (auto p : par) o << p << " ";
    o << "] ref=[";
    for (auto& r : ref) o << "'" << r << "' ";
    o << "] dec=" << decimals; return o.str();
  }
};
static bool ToText(CT t) { return t == CT::ValueToText || t == CT::ValueRangeToText; }

// --- reference definition of the conversion rules
static std::optional<double> Num(const Conv& k, double x, bool is_int) {
  const auto& p = k.par;
  switch (k.type) {
    case CT::NoConversion: return x;
    case CT::Linear: return p.size() == 1 ? p[0] : p[0] + p[1] * x;
    case CT::Rational: { double n = p[0] * x * x + p[1] * x + p[2], d = p[3] * x * x + p[4] * x + p[5]; if (d == 0) return {}; return n / d; }
    case CT::Polynomial: { double t = x - p[4] - p[5]; double d = p[2] * t - p[0]; if (d == 0) return {}; return (p[1] - p[3] * t) / d; }
    case CT::ValueToValueInterpolation:
    case CT::ValueToValue: {
      size_t n = p.size() / 2;
      if (x <= p[0]) return p[1];
      if (x >= p[2 * (n - 1)]) return p[2 * n - 1];
      size_t i = 0;
      while (x >= p[2 * (i + 1)]) ++i;
      double k0 = p[2 * i], v0 = p[2 * i + 1], k1 = p[2 * i + 2], v1 = p[2 * i + 3];
      if (k.type == CT::ValueToValueInterpolation) return v0 + (v1 - v0) * (x - k0) / (k1 - k0);
      return x - k0 <= k1 - x ? v0 : v1;
    }
    case CT::ValueRangeToValue: {
      size_t n = p.size() / 3;
      for (size_t i = 0; i < n; ++i) if (x >= p[3 * i] && (is_int ? x <= p[3 * i + 1] : x < p[3 * i + 1])) return p[3 * i + 2];
      return p.back();
    }
    default: return {};
  }
}
static std::string Txt(const Conv& k, double x, bool is_int) {
  const auto& p = k.par;
  if (k.type == CT::ValueToText) { for (size_t i = 0; i < p.size(); ++i) if (p[i] == x) return k.ref[i]; return k.ref.back(); }
  for (size_t i = 0; i < p.size() / 2; ++i) if (x >= p[2 * i] && (is_int ? x <= p[2 * i + 1] : x < p[2 * i + 1])) return k.ref[i];
  return k.ref.back();
}
static bool Close(double a, double b) { return a == b || std::fabs(a - b) <= 1e-11 * (std::fabs(a) + std::fabs(b)) + 1e-300; }

static void Check(mc::Ctx& c, const IChannelObserver& ob, const Conv& k, size_t n, double x, bool is_int, bool valid, size_t index, std::ostringstream& out) {
  c.step();
  std::ostringstream w; w << k.Text() << " sample " << n << " element " << index << " channel value " << x << ": ";
  double d = -77; std::string s = "?"; float f = 0;
  bool ok_d = ob.GetEngValue(n, d, index), ok_s = ob.GetEngValue(n, s, index), ok_f = ob.GetEngValue(n, f, index);
  if (!valid) { EXPECT(c, !ok_d && !ok_s && !ok_f, "eng-invalid", w.str() << "an invalid sample has a valid engineering value"); return; }
  if (!k.none && ToText(k.type)) {
    auto t = Txt(k, x, is_int);
    EXPECT(c, ok_s, "eng-text-valid", w.str() << "text reported invalid");
    EXPECT(c, s == t, "eng-text", w.str() << "text '" << s << "' expected '" << t << "'");
    out << s << ";";
    return;
  }
  auto want = k.none ? std::optional<double>(x) : Num(k, x, is_int);
  EXPECT(c, ok_d == want.has_value() && ok_s == ok_d && ok_f == ok_d, "eng-valid", w.str() << "valid=" << ok_d << "/" << ok_s << "/" << ok_f << " expected " << want.has_value());
  if (!want) return;
  EXPECT(c, Close(d, *want), "eng-value", w.str() << "engineering value " << d << " expected " << *want);
  EXPECT(c, Close(f, (float)*want) || std::fabs(f - *want) <= 1e-6 * std::fabs(*want), "eng-float", w.str() << "engineering value as float " << f << " expected " << *want);
  double back = atof(s.c_str());
  double dec = k.none ? 6 : k.decimals >= 0 ? k.decimals : 6;
  EXPECT(c, !s.empty() && std::fabs(back - *want) <= 0.5000001 * std::pow(10.0, -dec) + 1e-5 * std::fabs(*want), "eng-string", w.str() << "as text '" << s << "' expected " << *want);
  if (std::fabs(*want) < 1e15 && *want == std::floor(*want)) {
    int64_t i = 0; bool ok_i = ob.GetEngValue(n, i, index);
    EXPECT(c, ok_i && std::llabs(i - (int64_t)*want) <= 1, "eng-int", w.str() << "as integer " << i << " expected " << *want);
  }
  out << d << ";";
}

static void Apply(IChannel& cn, const Conv& k) {
  if (k.none) return;
  auto* cc = cn.CreateChannelConversion();
  cc->Type(k.type);
  for (size_t i = 0; i < k.par.size(); ++i) cc->Parameter((uint16_t)i, k.par[i]);
  for (size_t i = 0; i < k.ref.size(); ++i) cc->Reference((uint16_t)i, k.ref[i]);
  if (k.decimals >= 0) cc->Decimals((uint8_t)k.decimals);
}
static void Persist(mc::Ctx& c, const IChannel& cn, const Conv& k) {
  auto* cc = cn.ChannelConversion();
  if (k.none) { EXPECT(c, cc == nullptr, "conv-persist", "a conversion appeared"); return; }
  EXPECT(c, cc != nullptr, "conv-persist", k.Text() << ": conversion lost");
  EXPECT(c, cc->Type() == k.type, "conv-persist", k.Text() << ": type " << (int)cc->Type());
  for (size_t i = 0; i < k.par.size(); ++i) EXPECT(c, cc->Parameter((uint16_t)i) == k.par[i], "conv-persist", k.Text() << ": parameter " << i << " is " << cc->Parameter((uint16_t)i));
  for (size_t i = 0; i < k.ref.size(); ++i) EXPECT(c, cc->Reference((uint16_t)i) == k.ref[i], "conv-persist", k.Text() << ": reference " << i << " is " << cc->Reference((uint16_t)i));
}

struct Num_ { ChannelDataType dt; uint32_t bytes; };
static const std::vector<Num_> kTypes = {{ChannelDataType::SignedIntegerLe, 2}, {ChannelDataType::FloatBe, 8}, {ChannelDataType::UnsignedIntegerLe, 1},
                                         {ChannelDataType::FloatLe, 4}, {ChannelDataType::UnsignedIntegerBe, 8}, {ChannelDataType::SignedIntegerBe, 4}};
static std::vector<double> Values(const Num_& t) {
  std::vector<double> v;
  if (IsFloat(t.dt)) { for (double x = -5; x <= 8; x += 0.25) v.push_back(x); v.push_back(1e9); v.push_back(-1e9); v.push_back(-0.0); }
  else { for (int x = IsSigned(t.dt) ? -5 : 0; x <= 8; ++x) v.push_back(x); v.push_back(IsSigned(t.dt) ? 32767 : 255); if (IsSigned(t.dt)) v.push_back(-32768); }
  return v;
}
static void PutNum(IChannel& cn, const Num_& t, double x, bool valid, uint64_t index) {
  if (IsFloat(t.dt)) cn.SetChannelValue(x, valid, index);
  else if (IsSigned(t.dt)) cn.SetChannelValue((int64_t)x, valid, index);
  else cn.SetChannelValue((uint64_t)x, valid, index);
}

// One recording: an unconverted neighbour, the converted channel, another converted neighbour.
static void Run(mc::Ctx& c, bool mdf3, const Num_& t, const Conv& k, bool inval, uint64_t array, bool compress) {
  std::ostringstream d; d << (mdf3 ? "mdf3 " : "mdf4 ") << TypeName(t.dt) << t.bytes << " " << k.Text() << " inval=" << inval << " array=" << array << " compress=" << compress; c.describe(d.str());
  auto dev = std::make_shared<MemDev>();
  auto vals = Values(t);
  Conv other; other.type = CT::Linear; other.par = {1, 2};
  const size_t elems = array ? array : 1;
  {
    auto w = MdfFactory::CreateMdfWriter(mdf3 ? MdfWriterType::Mdf3Basic : MdfWriterType::Mdf4Basic);
    w->CompressData(compress);
    EXPECT(c, w->Init(std::static_pointer_cast<std::streambuf>(dev)), "init", "Init failed");
    auto* dg = w->CreateDataGroup(); auto* cg = MdfWriter::CreateChannelGroup(dg); cg->Name("g");
    auto* tm = MdfWriter::CreateChannel(cg); tm->Name("t"); tm->Type(ChannelType::Master); if (!mdf3) tm->Sync(ChannelSyncType::Time); tm->DataType(ChannelDataType::FloatLe); tm->DataBytes(8);
    auto* a = MdfWriter::CreateChannel(cg); a->Name("a"); a->Type(ChannelType::FixedLength); a->DataType(ChannelDataType::UnsignedIntegerLe); a->DataBytes(1);
    auto* x = MdfWriter::CreateChannel(cg); x->Name("x"); x->Type(ChannelType::FixedLength); x->DataType(t.dt); x->DataBytes(t.bytes);
    if (inval) x->Flags(CnFlag::InvalidValid);
    if (array) { auto* ca = x->CreateChannelArray(); ca->Shape({array}); }
    Apply(*x, k);
    auto* b = MdfWriter::CreateChannel(cg); b->Name("b"); b->Type(ChannelType::FixedLength); b->DataType(ChannelDataType::UnsignedIntegerLe); b->DataBytes(1);
    Apply(*b, other);
    EXPECT(c, w->InitMeasurement(), "initmeas", "InitMeasurement failed");
    w->StartMeasurement(kStart);
    for (size_t n = 0; n < vals.size(); ++n) {
      a->SetChannelValue((uint8_t)n); b->SetChannelValue((uint8_t)(n + 1));
      for (size_t e = 0; e < elems; ++e) PutNum(*x, t, vals[(n + e) % vals.size()], !inval || n % 3 != 1, e);
      w->SaveSample(*dg, *cg, kStart + n * 1000000);
    }
    w->StopMeasurement(kStart + 1000000000);
    EXPECT(c, w->FinalizeMeasurement(), "finalize", "FinalizeMeasurement failed");
  }
  MdfReader r(std::static_pointer_cast<std::streambuf>(std::make_shared<MemDev>(dev->data)));
  EXPECT(c, r.IsOk() && r.ReadEverythingButData(), "open", "the file cannot be read");
  auto* dg = r.GetDataGroup(0); EXPECT(c, dg && dg->ChannelGroups().size() == 1, "structure", "groups lost");
  auto* cg = dg->ChannelGroups()[0]; auto cns = cg->Channels(); EXPECT(c, cns.size() == 4, "structure", "channels " << cns.size());
  Persist(c, *cns[2], k); Persist(c, *cns[3], other);
  std::vector<ChannelObserverPtr> ob; for (auto* cn : cns) ob.push_back(CreateChannelObserver(*dg, *cg, *cn));
  EXPECT(c, r.ReadData(*dg), "read", "ReadData failed");
  EXPECT(c, ob[2]->NofSamples() == vals.size(), "samples", "samples " << ob[2]->NofSamples());
  std::ostringstream out;
  Conv plain; plain.none = true;
  for (size_t n = 0; n < vals.size(); ++n) {
    if (!mdf3) Check(c, *ob[1], plain, n, (double)n, true, true, 0, out);
    for (size_t e = 0; e < elems; ++e) Check(c, *ob[2], k, n, vals[(n + e) % vals.size()], IsInt(t.dt), !inval || n % 3 != 1, e, out);
    Check(c, *ob[3], other, n, (double)(n + 1), true, true, 0, out);
  }
  if (!array) {
    std::vector<double> all; auto ok = ob[2]->GetEngSamples(all);
    EXPECT(c, all.size() == vals.size() && ok.size() == vals.size(), "eng-samples", "GetEngSamples delivers " << all.size());
    for (size_t n = 0; n < vals.size(); ++n) {
      double d1 = 0; bool v1 = ob[2]->GetEngValue(n, d1);
      EXPECT(c, v1 == ok[n] && (!v1 || d1 == all[n]), "eng-samples", "GetEngSamples differs from GetEngValue at " << n);
      std::string s1; bool v2 = ob[2]->GetEngValue(n, s1);
      EXPECT(c, ob[2]->EngValueToString(n) == (v2 ? s1 : "*"), "eng-tostring", "EngValueToString differs from GetEngValue at " << n);
    }
  } else {
    for (size_t n = 0; n < vals.size(); ++n) {
      std::vector<double> all; auto ok = ob[2]->GetEngValues(n, all);
      EXPECT(c, all.size() == elems && ok.size() == elems, "eng-values", "GetEngValues delivers " << all.size());
      for (size_t e = 0; e < elems; ++e) { double d1 = 0; bool v1 = ob[2]->GetEngValue(n, d1, e); EXPECT(c, v1 == ok[e] && (!v1 || d1 == all[e]), "eng-values", "GetEngValues differs at " << n); }
    }
  }
  c.outcome(out.str() + d.str());
}

static void Subset(mc::Ctx& c, const std::vector<double>& grid, size_t max, std::vector<double>& out) {
  for (auto g : grid) if (out.size() < max && c.flag()) out.push_back(g);
}
static const std::vector<double> kVal = {7, -4.5, 0};
static const std::vector<std::string> kTxt = {"on", "two words", "", "in\tner  gap", "\xC3\xA5\xC3\xA4", "<a & b>", "12.5"};

// dimension shared by all: type (all), writer, invalidation, array and compression as deviations
static void Common(mc::Ctx& c, const Conv& k, bool mdf3_possible) {
  bool mdf3 = k.type == CT::Polynomial ? true : mdf3_possible && c.flag();
  auto t = kTypes[c.choose(c.thorough ? kTypes.size() : 2) ];
  if (!c.thorough) { size_t alt = c.dev(5); if (alt) t = kTypes[1 + alt]; }
  bool inval = !mdf3 && c.dev(2), compress = !mdf3 && c.dev(2);
  uint64_t array = mdf3 ? 0 : c.devpick(std::vector<uint64_t>{0, 1, 3});
  Conv kk = k;
  if (!mdf3 && !ToText(k.type)) kk.decimals = c.devpick(std::vector<int>{-1, 0, 1, 3, 9});
  if (!c.mine()) return;
  Run(c, mdf3, t, kk, inval, array, compress);
}
static void Simple(mc::Ctx& c) {
  Conv k;
  size_t which = c.choose(4);
  if (which == 0) k.none = true;
  else if (which == 1) k.type = CT::NoConversion;
  else { k.type = CT::Linear; k.par.push_back(c.pick(std::vector<double>{0, -2, 0.1, 1e6})); if (which == 3) k.par.push_back(c.pick(std::vector<double>{1, 0, -1.5, 1e-3, 100})); }
  Common(c, k, which != 0);
}
static void Rational(mc::Ctx& c) {
  Conv k; k.type = CT::Rational;
  for (int i = 0; i < 6; ++i) k.par.push_back(c.pick(std::vector<double>{0, 1, -2}));
  bool mdf3 = c.flag(); auto t = kTypes[c.choose(2)];
  if (!c.mine()) return;
  Run(c, mdf3, t, k, false, 0, false);
}
static void Polynomial(mc::Ctx& c) {
  Conv k; k.type = CT::Polynomial;
  for (int i = 0; i < 6; ++i) k.par.push_back(c.pick(std::vector<double>{0, 1, -2}));
  auto t = kTypes[c.choose(2)];
  if (!c.mine()) return;
  Run(c, true, t, k, false, 0, false);
}
static void Tables(mc::Ctx& c) {
  Conv k; k.type = c.flag() ? CT::ValueToValue : CT::ValueToValueInterpolation;
  std::vector<double> keys; Subset(c, c.thorough ? std::vector<double>{-3, -1, 0, 2, 2.5, 6} : std::vector<double>{-3, 0, 1, 6}, c.thorough ? 4 : 3, keys);
  if (keys.empty()) return;
  for (auto x : keys) { k.par.push_back(x); k.par.push_back(kVal[c.choose(c.thorough ? 2 : 3)]); }
  Common(c, k, true);
}
static void Ranges(mc::Ctx& c, bool text) {
  Conv k; k.type = text ? CT::ValueRangeToText : CT::ValueRangeToValue;
  size_t n = 1 + c.choose(c.thorough ? 3 : 2);
  static const std::vector<double> grid = {-2, 0, 1, 4};
  for (size_t i = 0; i < n; ++i) {
    size_t a = c.choose(4), b = a + c.choose(4 - a);
    k.par.push_back(grid[a]); k.par.push_back(grid[b]);
    if (text) k.ref.push_back(kTxt[(i + a) % kTxt.size()]); else k.par.push_back(kVal[i] + (double)a);
  }
  if (text) k.ref.push_back(kTxt[n + 2]); else k.par.push_back(99);
  Common(c, k, false);
}
static void ValueText(mc::Ctx& c) {
  Conv k; k.type = CT::ValueToText;
  std::vector<double> keys; Subset(c, {-1, 0, 1, 3, 5}, c.thorough ? 4 : 3, keys);
  size_t rot = c.choose(kTxt.size());
  if (c.flag()) std::reverse(keys.begin(), keys.end());
  for (size_t i = 0; i < keys.size(); ++i) { k.par.push_back(keys[i]); k.ref.push_back(kTxt[(i + rot) % kTxt.size()]); }
  k.ref.push_back(kTxt[(keys.size() + rot) % kTxt.size()]);
  Common(c, k, false);
}

// --- conversions of text channels
static void TextChannels(mc::Ctx& c) {
  bool to_value = c.flag(); bool vlsd = c.flag(); size_t n = c.choose(c.thorough ? 5 : 4), rot = c.choose(kTxt.size()); auto dt = c.pick(std::vector<ChannelDataType>{ChannelDataType::StringAscii, ChannelDataType::StringUTF8});
  bool inval = c.dev(2); size_t step = 1 + c.dev(3);
  if (!c.mine()) return;
  Conv k; k.type = to_value ? CT::TextToValue : CT::TextToTranslation;
  for (size_t i = 0; i < n; ++i) {
    k.ref.push_back(kTxt[(rot + i) % kTxt.size()]);
    if (to_value) k.par.push_back(3.25 * (double)i - 2); else k.ref.push_back(kTxt[(rot + i * step + 2) % kTxt.size()] + (i % 2 ? "_x y" : ""));
  }
  if (dt == ChannelDataType::StringAscii) for (auto& r : k.ref) if ((uint8_t)r[0] == 0xC3) r = "latin" + r.substr(4);
  auto text_of = [&](size_t i) { auto v = i < kTxt.size() ? kTxt[i] : std::string("unlisted"); return dt == ChannelDataType::StringAscii && (uint8_t)v[0] == 0xC3 ? std::string("latin") : v; };
  if (to_value) k.par.push_back(1234.5); else k.ref.push_back("default text");
  std::ostringstream d; d << TypeName(dt) << (vlsd ? " vlsd " : " fixed ") << k.Text() << " inval=" << inval; c.describe(d.str());
  auto dev = std::make_shared<MemDev>();
  {
    auto w = MdfFactory::CreateMdfWriter(MdfWriterType::Mdf4Basic);
    EXPECT(c, w->Init(std::static_pointer_cast<std::streambuf>(dev)), "init", "Init failed");
    auto* dg = w->CreateDataGroup(); auto* cg = MdfWriter::CreateChannelGroup(dg); cg->Name("g");
    auto* x = MdfWriter::CreateChannel(cg); x->Name("x"); x->DataType(dt); x->Type(vlsd ? ChannelType::VariableLength : ChannelType::FixedLength); if (!vlsd) x->DataBytes(16);
    if (inval) x->Flags(CnFlag::InvalidValid);
    Apply(*x, k);
    EXPECT(c, w->InitMeasurement(), "initmeas", "InitMeasurement failed");
    w->StartMeasurement(kStart);
    for (size_t i = 0; i <= kTxt.size(); ++i) { x->SetChannelValue(text_of(i), !inval || i % 3 != 1); w->SaveSample(*dg, *cg, kStart + i); }
    w->StopMeasurement(kStart + 1000000000);
    EXPECT(c, w->FinalizeMeasurement(), "finalize", "FinalizeMeasurement failed");
  }
  MdfReader r(std::static_pointer_cast<std::streambuf>(std::make_shared<MemDev>(dev->data)));
  EXPECT(c, r.IsOk() && r.ReadEverythingButData(), "open", "the file cannot be read");
  auto* dg = r.GetDataGroup(0); auto* cg = dg->ChannelGroups()[0]; auto* cn = cg->Channels()[0];
  Persist(c, *cn, k);
  auto ob = CreateChannelObserver(*dg, *cg, *cn);
  EXPECT(c, r.ReadData(*dg), "read", "ReadData failed");
  std::ostringstream out;
  for (size_t i = 0; i <= kTxt.size(); ++i) {
    c.step();
    std::string v = text_of(i); bool valid = !inval || i % 3 != 1;
    std::string s; double e = -1; bool ok_s = ob->GetEngValue(i, s), ok_d = ob->GetEngValue(i, e);
    if (!valid) { EXPECT(c, !ok_s && !ok_d, "text-invalid", k.Text() << ": invalid sample '" << v << "' has a valid engineering value"); continue; }
    size_t hit = n;
    for (size_t q = 0; q < n; ++q) if (k.ref[to_value ? q : 2 * q] == v) { hit = q; break; }
    if (to_value) {
      EXPECT(c, ok_d && e == k.par[hit], "text-to-value", k.Text() << ": '" << v << "' converts to " << e << " (valid " << ok_d << ") expected " << k.par[hit]);
      EXPECT(c, ok_s && atof(s.c_str()) == k.par[hit], "text-to-value-string", k.Text() << ": '" << v << "' as text '" << s << "' expected " << k.par[hit]);
    } else {
      auto want = hit < n ? k.ref[2 * hit + 1] : k.ref.back();
      EXPECT(c, ok_s && s == want, "text-to-text", k.Text() << ": '" << v << "' converts to '" << s << "' (valid " << ok_s << ") expected '" << want << "'");
    }
    out << s << ";" << e << ";";
  }
  c.outcome(out.str());
}

// --- files of other tools: nested conversions, missing references (MDF 4)
static uint64_t Cc4(b4::File& f, uint8_t type, const std::vector<uint64_t>& refs, const std::vector<double>& par) {
  std::vector<uint64_t> links{0, 0, 0, 0}; links.insert(links.end(), refs.begin(), refs.end());
  b4::Bytes b{type, 0, 0, 0}; b4::Le<uint16_t>(b, (uint16_t)refs.size()); b4::Le<uint16_t>(b, (uint16_t)par.size()); b4::Dbl(b, 0); b4::Dbl(b, 0);
  for (auto p : par) b4::Dbl(b, p);
  return f.Block("CC", links, b);
}
static const std::vector<double> kForeign = {-3, -2, -1.5, -1, 0, 0.5, 1, 1.5, 2, 3, 4, 7};
static std::string RefText(int kind, double x, bool is_int) {  // "" = empty text, '#' = numeric text follows
  std::ostringstream o; o.precision(12);
  switch (kind) {
    case 0: return "plain text";
    case 1: return "";
    case 2: o << "#" << 1 + 2 * x; return o.str();
    case 3: return x == 1 ? "inner one" : "inner other";
    default: return x >= -1 && (is_int ? x <= 2 : x < 2) ? "inner range" : "inner outside";
  }
}
static void Foreign4(mc::Ctx& c) {
  bool range = c.flag(), flt = c.flag(); size_t n = c.choose(3); std::vector<int> kind;
  for (size_t i = 0; i <= n; ++i) kind.push_back((int)c.choose(5));
  if (!c.mine()) return;
  std::ostringstream d; d << (range ? "range" : "value") << " to text, " << (flt ? "float" : "signed") << " refs"; for (auto k : kind) d << " " << k; c.describe(d.str());
  b4::File f; uint64_t hd = f.Hd(kStart), dg = f.Dg(0), cg = f.Cg(0, kForeign.size(), 0, 8, 0, "g");
  uint64_t cn = f.Cn(0, 0, flt ? 4 : 2, 0, 0, 64, 0, 0, "x");
  std::vector<uint64_t> refs; std::vector<double> par;
  for (auto k : kind) {
    if (k == 0) refs.push_back(f.Tx("plain text"));
    else if (k == 1) refs.push_back(0);
    else if (k == 2) refs.push_back(Cc4(f, 1, {}, {1, 2}));
    else if (k == 3) { uint64_t a = f.Tx("inner one"), b = f.Tx("inner other"); refs.push_back(Cc4(f, 7, {a, b}, {1})); }
    else { uint64_t a = f.Tx("inner range"), b = f.Tx("inner outside"); refs.push_back(Cc4(f, 8, {a, b}, {-1, 2})); }
  }
  for (size_t i = 0; i < n; ++i) { double lo = i == 0 ? -2 : 1; par.push_back(lo); if (range) par.push_back(lo + 3); }
  uint64_t cc = Cc4(f, range ? 8 : 7, refs, par);
  b4::Bytes s; for (auto x : kForeign) { if (flt) b4::Dbl(s, x); else b4::Le<uint64_t>(s, (uint64_t)(int64_t)x); }
  uint64_t dt = f.Block("DT", {}, s);
  f.Link(hd, 0, dg); f.Link(dg, 1, cg); f.Link(dg, 2, dt); f.Link(cg, 1, cn); f.Link(cn, 4, cc);
  MdfReader r(std::static_pointer_cast<std::streambuf>(std::make_shared<MemDev>(f.f)));
  EXPECT(c, r.IsOk() && r.ReadEverythingButData(), "foreign-open", "the file cannot be read");
  auto* g = r.GetDataGroup(0); auto* group = g->ChannelGroups()[0]; auto ob = CreateChannelObserver(*g, *group, *group->Channels()[0]);
  EXPECT(c, r.ReadData(*g) && ob->NofSamples() == kForeign.size(), "foreign-read", "ReadData failed");
  std::ostringstream out;
  for (size_t i = 0; i < kForeign.size(); ++i) {
    c.step();
    double x = flt ? kForeign[i] : (double)(int64_t)kForeign[i];
    size_t hit = n;
    for (size_t q = 0; q < n; ++q) { double lo = q == 0 ? -2 : 1, hi = lo + 3; if (range ? x >= lo && (flt ? x < hi : x <= hi) : x == lo) { hit = q; break; } }
    std::string want = RefText(kind[hit], x, !flt), got; bool ok = ob->GetEngValue(i, got);
    bool same = !want.empty() && want[0] == '#' ? std::fabs(atof(got.c_str()) - atof(want.c_str() + 1)) < 1e-5 : got == want;
    EXPECT(c, ok && same, "foreign-text", "channel value " << x << " converts to '" << got << "' (valid " << ok << ") expected '" << want << "'");
    out << got << ";";
  }
  c.outcome(out.str() + d.str());
}
// --- MDF 3 text tables of other tools
static void Foreign3(mc::Ctx& c) {
  bool range = c.flag(), flt = c.flag(); size_t n = c.choose(4); size_t rot = c.choose(3); size_t order = c.choose(2);
  if (!c.mine()) return;
  std::ostringstream d; d << (range ? "text range table" : "text table") << (flt ? " double" : " signed") << " entries=" << n << " rot=" << rot << " order=" << order; c.describe(d.str());
  static const std::vector<std::string> txt = {"on", "two words", "x"};
  b3::File f; auto hd = f.Hd(1), dg = f.Dg(1, 0), cg = f.Cg(0, 1, 8, (uint32_t)kForeign.size()), cn = f.Cn(0, "x", 0, 64, flt ? 3 : 1);
  struct E { double lo, hi; std::string t; };
  std::vector<E> e;
  for (size_t i = 0; i < n; ++i) { double lo = order ? 2.0 - 2 * (double)i : -2 + 2 * (double)i; e.push_back({lo, lo + 2, txt[(i + rot) % 3]}); }
  std::vector<uint32_t> tx; uint32_t def = range ? f.Tx("the default") : 0;
  if (range) for (auto& x : e) tx.push_back(f.Tx(x.t));
  b3::Bytes b; b3::Le<uint16_t>(b, 0); b3::Dbl(b, 0); b3::Dbl(b, 0); b3::Str(b, "V", 20); b3::Le<uint16_t>(b, range ? 12 : 11); b3::Le<uint16_t>(b, (uint16_t)(e.size() + range));
  if (range) { b3::Dbl(b, 0); b3::Dbl(b, 0); b3::Le<uint32_t>(b, def); for (size_t i = 0; i < e.size(); ++i) { b3::Dbl(b, e[i].lo); b3::Dbl(b, e[i].hi); b3::Le<uint32_t>(b, tx[i]); } }
  else for (auto& x : e) { b3::Dbl(b, x.lo); b3::Str(b, x.t, 32); }
  auto cc = f.Block("CC", {}, b);
  uint32_t data = (uint32_t)f.f.size();
  for (auto x : kForeign) { if (flt) b3::Dbl(f.f, x); else b3::Le<uint64_t>(f.f, (uint64_t)(int64_t)x); }
  f.Link(hd, 0, dg); f.Link(dg, 1, cg); f.Link(dg, 3, data); f.Link(cg, 1, cn); f.Link(cn, 1, cc);
  MdfReader r(std::static_pointer_cast<std::streambuf>(std::make_shared<MemDev>(f.f)));
  EXPECT(c, r.IsOk() && r.ReadEverythingButData(), "foreign3-open", "the file cannot be read");
  auto* g = r.GetDataGroup(0); EXPECT(c, g && g->ChannelGroups().size() == 1 && g->ChannelGroups()[0]->Channels().size() == 1, "foreign3-structure", "structure lost");
  auto* group = g->ChannelGroups()[0]; auto ob = CreateChannelObserver(*g, *group, *group->Channels()[0]);
  EXPECT(c, r.ReadData(*g) && ob->NofSamples() == kForeign.size(), "foreign3-read", "ReadData failed");
  EXPECT(c, ob->Unit() == "V", "foreign3-unit", "unit '" << ob->Unit() << "'");
  std::ostringstream out;
  for (size_t i = 0; i < kForeign.size(); ++i) {
    c.step();
    double x = flt ? kForeign[i] : (double)(int64_t)kForeign[i];
    size_t hit = n;
    for (size_t q = 0; q < n; ++q) if (range ? x >= e[q].lo && (flt ? x < e[q].hi : x <= e[q].hi) : x == e[q].lo) { hit = q; break; }
    std::string got; bool ok = ob->GetEngValue(i, got);
    if (hit == n && !range) { EXPECT(c, !ok, "foreign3-text", "channel value " << x << " has no entry but converts to '" << got << "'"); continue; }
    std::string want = hit == n ? "the default" : e[hit].t;
    EXPECT(c, ok && got == want, "foreign3-text", "channel value " << x << " converts to '" << got << "' (valid " << ok << ") expected '" << want << "'");
    out << got << ";";
  }
  c.outcome(out.str() + d.str());
}

int main(int argc, char** argv) {
  return mc::Main(argc, argv, "C14", {{"simple", Simple, 2, 3}, {"rational", Rational}, {"polynomial", Polynomial}, {"tables", Tables, 1, 1}, {"range-value", [](mc::Ctx& c) { Ranges(c, false); }, 1, 2},
                                      {"range-text", [](mc::Ctx& c) { Ranges(c, true); }, 1, 2}, {"value-text", ValueText, 1, 2}, {"text-channels", TextChannels}, {"foreign4", Foreign4}, {"foreign3", Foreign3}});
}
