// C18: comments, their properties and generic XML nodes survive serialization.
#include <expat.h>
#include <algorithm>
#include <cmath>
#include <cstring>
#include <fstream>
#include <functional>
#include <map>
#include <memory>
#include "mc.h"
#include "ixmlfile.h"
#include "md4block.h"
#include "mdf/atcomment.h"
#include "mdf/cccomment.h"
#include "mdf/ccunit.h"
#include "mdf/cgcomment.h"
#include "mdf/chcomment.h"
#include "mdf/cncomment.h"
#include "mdf/cnunit.h"
#include "mdf/dgcomment.h"
#include "mdf/evcomment.h"
#include "mdf/fhcomment.h"
#include "mdf/hdcomment.h"
#include "mdf/mdflogstream.h"
#include "mdf/sicomment.h"
using namespace mdf;
using Str = std::string;

// --- the strings and numbers -------------------------------------------------------------------------------------------------
// outer white space is trimmed on purpose by the library; control characters do not exist in XML 1.0
static const std::vector<Str> kStr = {"<", "a&b", "&amp;", "x'y\"z", "]]>", "p\nq", "p\tq", "p\rq", "p\r\nq", "a  b", "\xC3\xA4\xE2\x82\xAC\xF0\x9F\x98\x80", "\xC2\xA0n\xC2\x85", "<TX>t</TX>",
                                      "&#10;", "0", "%s\\n", "<!-- c -->", "</e>", "name", Str(3000, 'L'), "\xEF\xBB\xBF" "b"};
static const std::vector<Str> kStrSmall = {"<'&\"\n>", "\xC3\xA4 b"};
static const std::vector<double> kNum = {0.1, -0.0, 1e-9, 123456789.125, 1.0 / 3, 2.2250738585072014e-308, 1.7976931348623157e308, -2.5e-300, 4294967296.5, 100000000};
static const std::vector<double> kNumSmall = {1.0 / 3, 123456789.125};
static const std::vector<uint64_t> kInt = {1, 255, 4294967296ull, 9223372036854775807ull, 9223372036854775808ull, 18446744073709551615ull};
static const std::vector<uint64_t> kIntSmall = {18446744073709551615ull};

// Answers every attribute of a comment: a base content (bare or full) with a bounded number of deviations.
struct P {
  mc::Ctx& c; bool full; bool small;
  std::ostringstream d;  // description of the deviations
  bool on = true;        // inside an object that exists
  int uid = 0;
  size_t dev(const Str& n, size_t k) { if (!on) return 0; size_t v = c.dev(k); if (v) d << n << "#" << v << " "; return v; }
  Str s(const Str& n, bool need = false) {
    auto& a = small ? kStrSmall : kStr;
    Str def = full || need ? n + (need ? std::to_string(uid++) : "") : "";
    bool swap = !need;  // the other of absent / present
    size_t v = dev(n, 1 + (swap ? 1 : 0) + a.size());
    if (v == 0) return def;
    if (swap && v == 1) return def.empty() ? n : "";
    return a[v - 1 - (swap ? 1 : 0)];
  }
  template <class T> std::optional<T> num(const Str& n, T def, const std::vector<T>& a) {
    size_t v = dev(n, 2 + a.size());
    if (v == 0) return full ? std::optional<T>(def) : std::nullopt;
    if (v == 1) return full ? std::nullopt : std::optional<T>(def);
    return a[v - 2];
  }
  std::optional<double> f(const Str& n, double def) { return num<double>(n, def, small ? kNumSmall : kNum); }
  std::optional<uint64_t> i(const Str& n, uint64_t def) { return num<uint64_t>(n, def, small ? kIntSmall : kInt); }
  bool b(const Str& n) { return (dev(n, 2) != 0) != full; }
  size_t e(const Str& n, size_t k) { size_t v = dev(n, k); return full ? (v + 1) % k : v; }
  size_t cnt(const Str& n, size_t deflt, size_t max) {  // a list of 0..max items
    size_t v = dev(n, max + 1); size_t def = full ? deflt : 0;
    if (v == 0) return def; return v - 1 < def ? v - 1 : v;
  }
};

// --- builders ------------------------------------------------------------------------------------------------------------------
static void Std(P& p, const Str& n, MdStandardAttribute& a, bool lang = true) {
  if (auto v = p.i(n + ".ci", 3)) a.HistoryIndex(*v);
  if (lang) a.Language(p.s(n + ".lang"));
  Str cu = p.s(n + ".custom"); if (!cu.empty()) a.AddCustomAttribute("c_1", cu);
}
static MdString MakeStr(P& p, const Str& n, bool need = false) { MdString s(p.s(n, need)); Std(p, n, s); return s; }
static MdNumber MakeNum(P& p, const Str& n) {
  MdNumber m;
  switch (p.e(n + ".kind", 4)) {
    case 0: return m;
    case 1: m = MdNumber(p.f(n, 1.5).value_or(2.25)); break;
    case 2: m = MdNumber(p.i(n, 7).value_or(8), MdDataType::MdHex); break;
    default: m = MdNumber(p.i(n, 9).value_or(10), MdDataType::MdInteger); break;
  }
  Std(p, n, m);
  if (auto v = p.i(n + ".bytes", 4)) m.ByteCount(*v);
  if (auto v = p.i(n + ".mask", 15)) m.BitMask(*v);
  if (p.b(n + ".order")) m.ByteOrder(MdByteOrder::BigEndian);
  if (auto v = p.f(n + ".min", -1)) m.Min(*v);
  if (auto v = p.f(n + ".max", 2)) m.Max(*v);
  if (auto v = p.f(n + ".avg", 1.25)) m.Average(*v);
  m.Unit(p.s(n + ".unit")); m.UnitRef(p.s(n + ".uref")); m.Triggered(p.b(n + ".trig"));
  return m;
}
static MdProperty MakeProp(P& p, const Str& n, const Str& name) {
  MdProperty e(name.empty() ? p.s(n + ".name", true) : name, "");
  static const uint64_t kT = 1700000000123456789ull;
  switch (p.e(n + ".type", 9)) {
    case 0: e.Value(p.s(n + ".v")); break;
    case 1: e.DataType(MdDataType::MdFloat); e.Value(p.f(n + ".f", 0.5).value_or(1.0)); break;
    case 2: e.DataType(MdDataType::MdInteger); e.Value(p.i(n + ".i", 5).value_or(6)); break;
    case 3: e.DataType(MdDataType::MdHex); e.Value(p.i(n + ".x", 5).value_or(6)); break;
    case 4: e.DataType(MdDataType::MdBoolean); e.Value(true); break;
    case 5: e.DataType(MdDataType::MdDateTime); e.Value(kT); break;
    case 6: e.DataType(MdDataType::MdDate); e.Value(kT); break;
    case 7: e.DataType(MdDataType::MdTime); e.Value(kT); break;
    default: e.DataType(MdDataType::MdDecimal); e.Value(int64_t(-12345678901ll)); break;
  }
  e.Description(p.s(n + ".desc")); e.Unit(p.s(n + ".unit")); e.UnitReference(p.s(n + ".uref")); e.ReadOnly(p.b(n + ".ro"));
  Std(p, n, e);
  return e;
}
static MdEnumerate MakeEnum(P& p, const Str& n, const Str& name) {
  MdEnumerate e; e.Name(name); e.Description(p.s(n + ".desc")); e.Unit(p.s(n + ".unit")); Std(p, n, e);
  size_t k = p.cnt(n + ".n", 2, 3);
  for (size_t x = 0; x < k; ++x) e.AddValue(MakeStr(p, n + ".eli" + std::to_string(x), true));
  return e;
}
static void Fill(P& p, const Str& n, int depth, const std::function<void(MdProperty)>& prop, const std::function<void(MdList)>& tree, const std::function<void(MdList)>& list, const std::function<void(MdEnumerate)>& en);
static MdList MakeList(P& p, const Str& n, const Str& name, int depth) {
  MdList l; l.Name(name); l.Description(p.s(n + ".desc")); Std(p, n, l);
  Fill(p, n, depth, [&](MdProperty x) { l.AddProperty(std::move(x)); }, [&](MdList x) { l.AddTree(std::move(x)); }, [&](MdList x) { l.AddList(std::move(x)); }, [&](MdEnumerate x) { l.AddEnumerate(std::move(x)); });
  return l;
}
static void Fill(P& p, const Str& n, int depth, const std::function<void(MdProperty)>& prop, const std::function<void(MdList)>& tree, const std::function<void(MdList)>& list, const std::function<void(MdEnumerate)>& en) {
  size_t k = p.cnt(n + ".e", 2, 3);
  for (size_t x = 0; x < k; ++x) prop(MakeProp(p, n + ".e" + std::to_string(x), x == 0 ? "" : "e" + std::to_string(x)));
  if (depth <= 0) return;
  k = p.cnt(n + ".tree", 1, 2);
  for (size_t x = 0; x < k; ++x) tree(MakeList(p, n + ".t" + std::to_string(x), "t" + std::to_string(x), depth - 1));
  k = p.cnt(n + ".list", 1, 2);
  for (size_t x = 0; x < k; ++x) list(MakeList(p, n + ".l" + std::to_string(x), "l" + std::to_string(x), depth - 1));
  k = p.cnt(n + ".enum", 1, 2);
  for (size_t x = 0; x < k; ++x) en(MakeEnum(p, n + ".en" + std::to_string(x), "en" + std::to_string(x)));
}
static void MakeCommon(P& p, MdComment& m, int depth) {
  m.Comment(MakeStr(p, "tx"));
  Fill(p, "cp", depth, [&](MdProperty x) { m.AddProperty(std::move(x)); }, [&](MdList x) { m.AddTree(std::move(x)); }, [&](MdList x) { m.AddList(std::move(x)); }, [&](MdEnumerate x) { m.AddEnumerate(std::move(x)); });
}
static void MakeNames(P& p, const Str& n, MdAlternativeName& a) {
  size_t k = p.cnt(n + ".n", 1, 2); for (size_t x = 0; x < k; ++x) a.AddAlternativeName(MakeStr(p, n + ".name" + std::to_string(x), true));
  k = p.cnt(n + ".d", 1, 2); for (size_t x = 0; x < k; ++x) a.AddDisplayName(MakeStr(p, n + ".disp" + std::to_string(x), true));
  k = p.cnt(n + ".v", 1, 2); for (size_t x = 0; x < k; ++x) a.AddVendor(MakeStr(p, n + ".vend" + std::to_string(x), true));
  k = p.cnt(n + ".ds", 1, 2); for (size_t x = 0; x < k; ++x) a.AddDescription(MakeStr(p, n + ".desc" + std::to_string(x), true));
  if (a.IsActive()) { a.DefaultName(p.s(n + ".def")); Std(p, n, a); }
}
static void MakeFormula(P& p, const Str& n, MdFormula& f) {
  if (p.b(n + ".none") == p.full) return;
  MdSyntax s; s.Syntax(p.s(n + ".syn", true)); s.Version(p.s(n + ".ver")); Std(p, n + ".syn", s); f.Syntax(s);
  size_t k = p.cnt(n + ".cs", 1, 2);
  for (size_t x = 0; x < k; ++x) { Str q = n + ".cs" + std::to_string(x); MdSyntax t; t.Syntax(x ? "cust1" : p.s(q, true)); t.Version(p.s(q + ".ver")); t.Source(p.s(q + ".src")); Std(p, q, t); f.AddCustomSyntax(t); }
  k = p.cnt(n + ".var", 1, 2);
  for (size_t x = 0; x < k; ++x) {
    Str q = n + ".var" + std::to_string(x);
    MdVariable v; v.Variable(x ? "var1" : p.s(q, true)); v.CnBlockName(p.s(q + ".cn")); v.CnSourceName(p.s(q + ".cs")); v.CnSourcePath(p.s(q + ".cp"));
    v.CgBlockName(p.s(q + ".gn")); v.CgSourceName(p.s(q + ".gs")); v.CgSourcePath(p.s(q + ".gp")); v.Raw(p.b(q + ".raw"));
    size_t ni = p.cnt(q + ".idx", 2, 3); for (size_t y = 0; y < ni; ++y) v.AddArrayIndex(y == 1 ? 12345678901ull : y * 7);
    Std(p, q, v); f.AddVariable(v);
  }
  Std(p, n, f);
}
static void MakeHoName(P& p, const Str& n, HoNameDetails& h) {
  h.ShortName(p.s(n + ".short", true));
  size_t k = p.cnt(n + ".long", 1, 2); for (size_t x = 0; x < k; ++x) h.AddLongName(MakeStr(p, n + ".long" + std::to_string(x), true));
  k = p.cnt(n + ".desc", 1, 2); for (size_t x = 0; x < k; ++x) h.AddDescription(MakeStr(p, n + ".desc" + std::to_string(x), true));
}
static HoInterval MakeLimit(P& p, const Str& n, double def) { HoInterval l; if (auto v = p.f(n, def)) { l.Limit(*v); l.Type((HoIntervalType)((p.e(n + ".type", 3) + 1) % 3)); } return l; }
static HoScaleConstraint MakeConstr(P& p, const Str& n) {
  HoScaleConstraint s; s.LowerLimit(MakeLimit(p, n + ".low", -1)); s.UpperLimit(MakeLimit(p, n + ".up", 1));
  if (!s.IsActive()) { HoInterval l; l.Limit(0.5); s.LowerLimit(l); }
  s.Validity((HoValidity)p.e(n + ".valid", 6)); return s;
}
static void MakeMethod(P& p, HoCompuMethod& m) {
  if (p.b("cm.none") == p.full) return;
  MakeHoName(p, "cm", m); m.Category((HoComputationMethodCategory)p.e("cm.cat", 6)); m.UnitReference(p.s("cm.uref"));
  size_t k = p.cnt("cm.pc", 1, 2); for (size_t x = 0; x < k; ++x) m.AddPhysicalConstraint(MakeConstr(p, "cm.pc" + std::to_string(x)));
  k = p.cnt("cm.ic", 1, 2); for (size_t x = 0; x < k; ++x) m.AddInternalConstraint(MakeConstr(p, "cm.ic" + std::to_string(x)));
  k = p.cnt("cm.sc", 1, 2);
  for (size_t x = 0; x < k; ++x) {
    Str n = "cm.sc" + std::to_string(x); HoCompuScale s;
    size_t nd = p.cnt(n + ".desc", 1, 2); for (size_t y = 0; y < nd; ++y) s.AddDescription(MakeStr(p, n + ".desc" + std::to_string(y), true));
    s.LowerLimit(MakeLimit(p, n + ".low", -3)); s.UpperLimit(MakeLimit(p, n + ".up", 3));
    if (auto v = p.f(n + ".cf", 4)) s.ConstFloatValue(*v);
    Str t = p.s(n + ".ct"); if (!t.empty()) s.ConstTextValue(t);
    nd = p.cnt(n + ".num", 2, 3); for (size_t y = 0; y < nd; ++y) s.AddNumerator(p.f(n + ".num" + std::to_string(y), 0.25 + (double)y).value_or(0));
    nd = p.cnt(n + ".den", 2, 3); for (size_t y = 0; y < nd; ++y) s.AddDenominator(p.f(n + ".den" + std::to_string(y), 8.25 + (double)y).value_or(0));
    s.GenericMath(p.s(n + ".math")); m.AddCompuScale(s);
  }
  if (auto v = p.f("cm.df", 7)) m.DefaultFloatValue(*v);
  Str t = p.s("cm.dt"); if (!t.empty()) m.DefaultTextValue(t);
}
static void MakeUnits(P& p, HoUnitSpecification& u) {
  size_t k = p.cnt("us.rev", 1, 2);
  for (size_t x = 0; x < k; ++x) {
    Str n = "us.rev" + std::to_string(x); HoRevision r; r.TeamMemberReference(p.s(n + ".team")); r.RevisionLabel(p.s(n + ".label")); r.State(p.s(n + ".state")); r.Date(p.s(n + ".date"));
    size_t y = p.cnt(n + ".co", 1, 2); for (size_t z = 0; z < y; ++z) r.AddCompanyRevision({p.s(n + ".cref"), p.s(n + ".clabel"), p.s(n + ".cstate")});
    y = p.cnt(n + ".mod", 1, 2); for (size_t z = 0; z < y; ++z) r.AddModification({p.s(n + ".change"), p.s(n + ".reason")});
    u.AdminData().AddRevision(r);
  }
  k = p.cnt("us.dim", 1, 2);
  for (size_t x = 0; x < k; ++x) {
    Str n = "us.dim" + std::to_string(x); HoPhysicalDimension h; h.Identity(x ? "id1" : p.s(n + ".id", true)); MakeHoName(p, n, h);
    h.LengthExponent(p.f(n + ".len", 1).value_or(0)); h.MassExponent(p.f(n + ".mass", 2).value_or(0)); h.TimeExponent(p.f(n + ".time", 3).value_or(0)); h.CurrentExponent(p.f(n + ".cur", 4).value_or(0));
    h.TemperatureExponent(p.f(n + ".temp", 5).value_or(0)); h.MolarExponent(p.f(n + ".molar", 6).value_or(0)); h.LuminousExponent(p.f(n + ".lum", 7).value_or(0));
    u.AddPhysicalDimension(h);
  }
  k = p.cnt("us.grp", 1, 2);
  for (size_t x = 0; x < k; ++x) {
    Str n = "us.grp" + std::to_string(x); HoUnitGroup g; MakeHoName(p, n, g); if (x) g.ShortName("grp1"); g.Category((HoUnitGroupCategory)p.e(n + ".cat", 2));
    size_t y = p.cnt(n + ".ref", 2, 3); for (size_t z = 0; z < y; ++z) g.AddUnitReference(z ? "uref" + std::to_string(z) : p.s(n + ".ref", true));
    u.AddUnitGroup(g);
  }
  k = p.cnt("us.unit", 1, 2);
  for (size_t x = 0; x < k; ++x) {
    Str n = "us.unit" + std::to_string(x); HoUnit h; h.Identity(x ? "uid1" : p.s(n + ".id", true)); MakeHoName(p, n, h); h.DisplayName(p.s(n + ".disp"));
    h.Factor(p.f(n + ".fac", 2.5).value_or(1)); h.Offset(p.f(n + ".off", -3).value_or(0)); h.PhysicalDimensionRef(p.s(n + ".pref")); u.AddUnit(h);
  }
}

// --- everything that can be read from a comment ----------------------------------------------------------------------------------
using Map = std::map<Str, Str>;
struct Dump {
  Map m;
  static Str N(double d) { if (d == 0) return "0"; char b[40]; snprintf(b, sizeof b, "%.17g", d); return b; }
  void Put(const Str& k, const Str& v) { if (!v.empty()) m[k] = v; }
  void Std(const Str& n, const MdStandardAttribute& a) {
    if (a.HistoryIndex()) Put(n + ".ci", std::to_string(a.HistoryIndex()));
    Put(n + ".lang", a.Language());
    for (auto& [k, v] : a.CustomAttributes()) Put(n + ".custom." + k, v);
  }
  void S(const Str& n, const MdString& s) { Put(n, s.Text()); if (s.Text().empty() && n != "tx") return; if (s.Offset()) Put(n + ".offset", std::to_string(s.Offset())); Std(n, s); }
  void L(const Str& n, const MdStringList& l) { int k = 0; for (auto& s : l) if (!s.Text().empty()) S(n + std::to_string(k++), s); }
  void Num(const Str& n, const MdNumber& m) {
    if (!m.IsActive()) return;
    Put(n, "active"); Put(n + ".f", N(m.Number<double>())); Put(n + ".u", std::to_string(m.Number<uint64_t>())); Put(n + ".s", m.Number<Str>());
    Put(n + ".bytes", std::to_string(m.ByteCount())); Put(n + ".mask", std::to_string(m.BitMask())); Put(n + ".be", m.ByteOrder() == MdByteOrder::BigEndian ? "1" : "");
    if (m.Min()) Put(n + ".min", N(*m.Min())); if (m.Max()) Put(n + ".max", N(*m.Max())); if (m.Average()) Put(n + ".avg", N(*m.Average()));
    Put(n + ".unit", m.Unit()); Put(n + ".uref", m.UnitRef()); Put(n + ".trig", m.Triggered() ? "1" : ""); Std(n, m);
  }
  void E(const Str& n, const MdProperty& e, bool value = true) {
    Put(n, "e"); Put(n + ".name", e.Name()); Put(n + ".desc", e.Description()); Put(n + ".unit", e.Unit()); Put(n + ".uref", e.UnitReference()); Put(n + ".ro", e.ReadOnly() ? "1" : "");
    auto t = e.DataType() == MdDataType::MdHex ? MdDataType::MdInteger : e.DataType();  // hex is only another notation of an integer
    Put(n + ".type", std::to_string((int)t)); Std(n, e);
    if (value) { Put(n + ".v", e.Value<Str>()); Put(n + ".vf", N(e.Value<double>())); Put(n + ".vu", std::to_string(e.Value<uint64_t>())); Put(n + ".vi", std::to_string(e.Value<int64_t>())); Put(n + ".vb", e.Value<bool>() ? "1" : ""); }
  }
  void En(const Str& n, const MdEnumerate& e) { E(n, e, false); L(n + ".eli", e.ValueList()); }
  template <class T> void Props(const Str& n, const T& l) {
    for (auto& [k, e] : l.Properties()) E(n + ".e[" + k + "]", e);
    for (auto& [k, t] : l.Trees()) List(n + ".tree[" + k + "]", t);
    for (auto& [k, t] : l.Lists()) List(n + ".list[" + k + "]", t);
    for (auto& [k, e] : l.Enumerates()) En(n + ".enum[" + k + "]", e);
  }
  void List(const Str& n, const MdList& l) { Put(n, "l"); Put(n + ".name", l.Name()); Put(n + ".desc", l.Description()); Std(n, l); Props(n, l); }
  void Names(const Str& n, const MdAlternativeName& a) { Put(n + ".def", a.DefaultName()); Std(n, a); L(n + ".name", a.AlternativeNames()); L(n + ".disp", a.DisplayNames()); L(n + ".vend", a.Vendors()); L(n + ".desc", a.Descriptions()); }
  void Syn(const Str& n, const MdSyntax& s) { S(n, s); Put(n + ".ver", s.Version()); Put(n + ".src", s.Source()); }
  void Formula(const Str& n, const MdFormula& f) {
    if (!f.IsActive()) return;
    Syn(n + ".syn", f.Syntax()); Std(n, f);
    for (auto& [k, s] : f.CustomSyntaxes()) Syn(n + ".cs[" + k + "]", s);
    for (auto& [k, v] : f.Variables()) {
      Str q = n + ".var[" + k + "]"; S(q, v); Put(q + ".cn", v.CnBlockName()); Put(q + ".cs", v.CnSourceName()); Put(q + ".cp", v.CnSourcePath()); Put(q + ".gn", v.CgBlockName()); Put(q + ".gs", v.CgSourceName()); Put(q + ".gp", v.CgSourcePath());
      Put(q + ".raw", v.Raw() ? "1" : ""); Str i; for (auto x : v.ArrayIndexes()) i += std::to_string(x) + ","; Put(q + ".idx", i);
    }
  }
  void Ho(const Str& n, const HoNameDetails& h) { Put(n + ".short", h.ShortName()); L(n + ".long", h.LongNames()); L(n + ".desc", h.Descriptions()); }
  void Lim(const Str& n, const HoInterval& l) { if (l.IsActive()) { Put(n, N(l.Limit())); Put(n + ".type", std::to_string((int)l.Type())); } }
  void Con(const Str& n, const HoScaleConstraint& s, bool validity) { Put(n, "con"); Lim(n + ".low", s.LowerLimit()); Lim(n + ".up", s.UpperLimit()); if (validity) Put(n + ".valid", std::to_string((int)s.Validity())); }
  void Method(const HoCompuMethod& m) {
    if (!m.IsActive()) return;
    Ho("cm", m); Put("cm.cat", std::to_string((int)m.Category())); Put("cm.uref", m.UnitReference()); Put("cm.df", N(m.DefaultFloatValue())); Put("cm.dt", m.DefaultTextValue());
    int k = 0; for (auto& s : m.PhysicalConstraints()) Con("cm.pc" + std::to_string(k++), s, true);
    k = 0; for (auto& s : m.InternalConstraints()) Con("cm.ic" + std::to_string(k++), s, true);
    k = 0;
    for (auto& s : m.CompuScales()) {
      Str n = "cm.sc" + std::to_string(k++); Con(n, s, false); L(n + ".desc", s.Descriptions()); Put(n + ".cf", N(s.ConstFloatValue())); Put(n + ".ct", s.ConstTextValue()); Put(n + ".math", s.GenericMath());
      Str x; for (auto v : s.Numerators()) x += N(v) + ","; Put(n + ".num", x); x.clear(); for (auto v : s.Denominators()) x += N(v) + ","; Put(n + ".den", x);
    }
  }
  void Units(const HoUnitSpecification& u) {
    int k = 0;
    for (auto& r : u.AdminData().Revisions()) {
      Str n = "us.rev" + std::to_string(k++); Put(n, "rev"); Put(n + ".team", r.TeamMemberReference()); Put(n + ".label", r.RevisionLabel()); Put(n + ".state", r.State()); Put(n + ".date", r.Date());
      int y = 0; for (auto& c : r.CompanyRevisions()) { Str q = n + ".co" + std::to_string(y++); Put(q, "co"); Put(q + ".ref", c.DataReference); Put(q + ".label", c.Label); Put(q + ".state", c.State); }
      y = 0; for (auto& c : r.Modifications()) { Str q = n + ".mod" + std::to_string(y++); Put(q, "mod"); Put(q + ".change", c.Change); Put(q + ".reason", c.Reason); }
    }
    for (auto& [id, h] : u.PhysicalDimensions()) {
      Str n = "us.dim[" + id + "]"; Put(n + ".id", h.Identity()); Ho(n, h);
      Put(n + ".exp", N(h.LengthExponent()) + "," + N(h.MassExponent()) + "," + N(h.TimeExponent()) + "," + N(h.CurrentExponent()) + "," + N(h.TemperatureExponent()) + "," + N(h.MolarExponent()) + "," + N(h.LuminousExponent()));
    }
    for (auto& [id, g] : u.UnitGroups()) { Str n = "us.grp[" + id + "]"; Ho(n, g); Put(n + ".cat", std::to_string((int)g.Category())); for (auto& r : g.UnitRefs()) Put(n + ".ref[" + r + "]", "1"); }
    for (auto& [id, h] : u.Units()) { Str n = "us.unit[" + id + "]"; Put(n + ".id", h.Identity()); Ho(n, h); Put(n + ".disp", h.DisplayName()); Put(n + ".fac", N(h.Factor())); Put(n + ".off", N(h.Offset())); Put(n + ".pref", h.PhysicalDimensionRef()); }
  }
};
// negative zero is the same number
static Map Norm(Map m) { for (auto& [k, v] : m) { size_t at = 0; while ((at = v.find("-0,", at)) != Str::npos && (at == 0 || v[at - 1] == ',')) v.erase(at, 1); if (v == "-0") v = "0"; } return m; }
static Str Diff(const Map& a, const Map& b) {
  auto cut = [](const Str& s) { return s.size() > 60 ? s.substr(0, 60) + "..." : s; };
  for (auto& [k, v] : a) { auto it = b.find(k); if (it == b.end()) return k + " = \"" + cut(v) + "\" is lost"; if (it->second != v) return k + " was \"" + cut(v) + "\" is \"" + cut(it->second) + "\""; }
  for (auto& [k, v] : b) if (!a.count(k)) return k + " = \"" + cut(v) + "\" was never set";
  return "";
}
static Str Kind(const Str& diff) { Str k = diff.substr(0, diff.find(' ')); Str o; for (char ch : k) { if (isdigit((unsigned char)ch)) continue; if (ch == '[') break; o += ch; } return o; }

// --- the comment classes -----------------------------------------------------------------------------------------------------------
struct Cls {
  Str name, root;
  std::function<std::unique_ptr<MdComment>()> make;
  std::function<void(P&, MdComment&, int)> fill;
  std::function<void(Dump&, const MdComment&)> dump;
};
template <class T> static Cls Make(const Str& name, const Str& root, std::function<void(P&, T&)> f, std::function<void(Dump&, const T&)> d, std::function<std::unique_ptr<MdComment>()> mk = nullptr) {
  Cls c; c.name = name; c.root = root;
  c.make = mk;
  if constexpr (std::is_default_constructible_v<T>) if (!mk) c.make = [] { return std::unique_ptr<MdComment>(new T); };
  c.fill = [f](P& p, MdComment& m, int depth) { MakeCommon(p, m, depth); f(p, static_cast<T&>(m)); };
  c.dump = [d](Dump& x, const MdComment& m) { x.S("tx", m.Comment()); x.Props("cp", m); d(x, static_cast<const T&>(m)); };
  return c;
}
static const std::vector<Cls>& Classes() {
  static const std::vector<Cls> v = {
      Make<MdComment>("md", "MDcomment", [](P& p, MdComment& m) { MakeNames(p, "nm", m.Names()); MakeFormula(p, "fo", m.Formula()); }, [](Dump& d, const MdComment& m) { d.Names("nm", m.Names()); d.Formula("fo", m.Formula()); },
                      [] { return std::make_unique<MdComment>("MD"); }),
      Make<HdComment>("hd", "HDcomment",
                      [](P& p, HdComment& m) {
                        Str s; if (!(s = p.s("author")).empty()) m.Author(s); if (!(s = p.s("department")).empty()) m.Department(s); if (!(s = p.s("project")).empty()) m.Project(s); if (!(s = p.s("subject")).empty()) m.Subject(s);
                        if (!(s = p.s("muuid")).empty()) m.MeasurementUuid(s); if (!(s = p.s("ruuid")).empty()) m.RecorderUuid(s);
                        switch (p.e("fidx", 5)) { case 1: m.RecorderFileIndex(0); break; case 2: m.RecorderFileIndex(123456789012ll); break; case 3: m.RecorderFileIndex(-5); break; case 4: m.RecorderFileIndex(INT64_MAX); break; default: break; }
                        m.TimeSource(MakeStr(p, "ts"));
                        size_t k = p.cnt("const", 1, 2); for (size_t x = 0; x < k; ++x) { MdString n(x ? "k1" : p.s("const.name", true)); Std(p, "const", n); m.AddConstant(n, p.s("const.expr")); }
                      },
                      [](Dump& d, const HdComment& m) {
                        d.Put("author", m.Author()); d.Put("department", m.Department()); d.Put("project", m.Project()); d.Put("subject", m.Subject()); d.Put("muuid", m.MeasurementUuid()); d.Put("ruuid", m.RecorderUuid());
                        d.Put("fidx", std::to_string(m.RecorderFileIndex())); d.S("ts", m.TimeSource());
                        for (auto& [k, v] : m.Constants()) { d.S("const[" + k.Text() + "]", k); d.Put("const[" + k.Text() + "].expr", v); }
                      }),
      Make<HdComment>("units", "HDcomment", [](P& p, HdComment& m) { MakeUnits(p, m.UnitSpecification()); }, [](Dump& d, const HdComment& m) { d.Units(m.UnitSpecification()); }),
      Make<FhComment>("fh", "FHcomment", [](P& p, FhComment& m) { m.ToolId(MakeStr(p, "id", true)); m.ToolVendor(MakeStr(p, "vendor", true)); m.ToolVersion(MakeStr(p, "version", true)); m.UserName(MakeStr(p, "user")); },
                      [](Dump& d, const FhComment& m) { d.S("id", m.ToolId()); d.S("vendor", m.ToolVendor()); d.S("version", m.ToolVersion()); d.S("user", m.UserName()); }),
      Make<CnComment>("cn", "CNcomment",
                      [](P& p, CnComment& m) {
                        MakeNames(p, "nm", m.Names()); MakeFormula(p, "fo", m.Formula());
                        MdString ln = MakeStr(p, "ln"); if (auto v = p.i("ln.offset", 12)) ln.Offset(*v); m.LinkerName(ln);
                        if (size_t k = p.e("mono", 8)) m.AxisMonotony((MdMonotony)(k - 1));
                      },
                      [](Dump& d, const CnComment& m) { d.Names("nm", m.Names()); d.Formula("fo", m.Formula()); d.S("ln", m.LinkerName()); d.Put("mono", std::to_string((int)m.AxisMonotony())); }),
      Make<CnComment>("cnnum", "CNcomment", [](P& p, CnComment& m) { m.LinkerAddress(MakeNum(p, "la")); m.Raster(MakeNum(p, "ra")); m.Address(MakeNum(p, "ad")); },
                      [](Dump& d, const CnComment& m) { d.Num("la", m.LinkerAddress()); d.Num("ra", m.Raster()); d.Num("ad", m.Address()); }),
      Make<SiComment>("si", "SIcomment", [](P& p, SiComment& m) { MakeNames(p, "nm", m.Names()); MakeNames(p, "path", m.Path()); MakeNames(p, "bus", m.Bus()); m.Protocol(MakeStr(p, "prot")); },
                      [](Dump& d, const SiComment& m) { d.Names("nm", m.Names()); d.Names("path", m.Path()); d.Names("bus", m.Bus()); d.S("prot", m.Protocol()); }),
      Make<EvComment>("ev", "EVcomment", [](P& p, EvComment& m) { m.PreTriggerInterval(MakeNum(p, "pre")); m.PostTriggerInterval(MakeNum(p, "post")); m.Timeout(MakeNum(p, "to")); MakeFormula(p, "fo", m.Formula()); },
                      [](Dump& d, const EvComment& m) { d.Num("pre", m.PreTriggerInterval()); d.Num("post", m.PostTriggerInterval()); d.Num("to", m.Timeout()); d.Formula("fo", m.Formula()); }),
      Make<CcComment>("cc", "CCcomment", [](P& p, CcComment& m) { MakeMethod(p, m.CompuMethod()); }, [](Dump& d, const CcComment& m) { d.Method(m.CompuMethod()); }),
      Make<CcComment>("ccn", "CCcomment", [](P& p, CcComment& m) { MakeNames(p, "nm", m.Names()); MakeFormula(p, "fo", m.Formula()); }, [](Dump& d, const CcComment& m) { d.Names("nm", m.Names()); d.Formula("fo", m.Formula()); }),
      Make<CnUnit>("cnunit", "CNunit", [](P& p, CnUnit& m) { m.UnitRef(MakeStr(p, "uref")); }, [](Dump& d, const CnUnit& m) { d.S("uref", m.UnitRef()); }),
      Make<CcUnit>("ccunit", "CCunit", [](P& p, CcUnit& m) { m.UnitRef(MakeStr(p, "uref")); }, [](Dump& d, const CcUnit& m) { d.S("uref", m.UnitRef()); }),
      Make<CgComment>("cg", "CGcomment", [](P& p, CgComment& m) { MakeNames(p, "nm", m.Names()); }, [](Dump& d, const CgComment& m) { d.Names("nm", m.Names()); }),
      Make<DgComment>("dg", "DGcomment", [](P&, DgComment&) {}, [](Dump&, const DgComment&) {}),
      Make<AtComment>("at", "ATcomment", [](P&, AtComment&) {}, [](Dump&, const AtComment&) {}),
      Make<ChComment>("ch", "CHcomment", [](P&, ChComment&) {}, [](Dump&, const ChComment&) {})};
  return v;
}

// an independent look at a document: well formed, name of the root, text of its TX element
struct Look { bool ok = false; Str root, tx; int depth = 0; bool in_tx = false; };
static Look LookAt(const Str& xml) {
  Look l; XML_Parser p = XML_ParserCreate("UTF-8"); XML_SetUserData(p, &l);
  XML_SetElementHandler(p, [](void* u, const char* n, const char**) { auto* l = (Look*)u; if (l->depth++ == 0) l->root = n; if (l->depth == 2 && !strcmp(n, "TX")) l->in_tx = true; },
                        [](void* u, const char*) { auto* l = (Look*)u; --l->depth; l->in_tx = false; });
  XML_SetCharacterDataHandler(p, [](void* u, const char* s, int n) { auto* l = (Look*)u; if (l->in_tx) l->tx.append(s, (size_t)n); });
  l.ok = XML_Parse(p, xml.data(), (int)xml.size(), 1) == XML_STATUS_OK; XML_ParserFree(p); return l;
}

static Map DumpOf(const Cls& k, const MdComment& m) { Dump d; k.dump(d, m); return Norm(d.m); }
static void Check(mc::Ctx& c, const Cls& k, const MdComment& m, const Map& want, const Str& what) {
  Str xml = m.ToXml();
  auto look = LookAt(xml);
  EXPECT(c, look.ok, "wellformed", what << k.name << ": the document is not well-formed XML: " << xml.substr(0, 300));
  EXPECT(c, look.root == k.root, "root", what << k.name << ": root element " << look.root);
  EXPECT(c, look.tx == m.Comment().Text(), "tx", what << k.name << ": TX element holds \"" << look.tx.substr(0, 80) << "\"");
  auto r = k.make(); r->FromXml(xml);
  auto got = DumpOf(k, *r);
  Str d = Diff(want, got);
  EXPECT(c, d.empty(), k.name + ":" + Kind(d), what << k.name << ": " << d);
  c.outcome(mc::Hash(xml.data(), xml.size(), 1)); c.step(got.size());
  // once more from what was read
  auto r2 = k.make(); r2->FromXml(r->ToXml());
  d = Diff(want, DumpOf(k, *r2));
  EXPECT(c, d.empty(), k.name + ":again:" + Kind(d), what << k.name << " second round: " << d);
}
static void Body(mc::Ctx& c, bool small, bool only_full, int depth) {
  const Cls& k = Classes()[c.choose(Classes().size())];
  bool full = only_full || (depth > 0 && c.flag());
  P p{c, full, small};
  auto m = k.make(); k.fill(p, *m, depth);
  if (!c.mine()) return;
  c.describe(k.name + (full ? " full " : " bare ") + p.d.str());
  Check(c, k, *m, DumpOf(k, *m), "");
}
// every attribute of every comment with every string / number, in a bare and in a full comment
static void Singles(mc::Ctx& c) { Body(c, false, false, 1); }
// every pair (triple) of attributes
static void Pairs(mc::Ctx& c) { Body(c, true, false, c.thorough ? 1 : 0); }
// trees in trees
static void Deep(mc::Ctx& c) {
  P p{c, false, true}; MdComment m("MD");
  // every tree shape: each level holds any subset of {property, tree, list, enumeration}
  std::function<MdList(const Str&, int)> gen = [&](const Str& n, int depth) {
    MdList l; l.Name(n); l.Description("d<" + n);
    size_t set = depth > 0 ? c.choose(16) : c.thorough ? c.choose(4) : c.flag() * 3;
    if (set & 1) { l.AddProperty({"p" + n, "v&" + n}); l.AddProperty({"q", "second"}); }
    if (set & 2) { MdEnumerate e; e.Name("en" + n); e.AddValue(MdString("'" + n)); e.AddValue(MdString("b")); l.AddEnumerate(e); }
    if (set & 4) l.AddTree(gen(n + "t", depth - 1));
    if (set & 8) l.AddList(gen(n + "l", depth - 1));
    return l;
  };
  size_t kind = c.choose(3);
  if (kind != 1) m.AddTree(gen("a", kind == 2 ? 1 : 2));
  if (kind != 0) m.AddList(gen("b", kind == 2 ? 1 : 2));
  if (!c.mine()) return;
  Check(c, Classes()[0], m, DumpOf(Classes()[0], m), "tree ");
}
// a comment that was read can be edited and written again
static void Edit(mc::Ctx& c) {
  const Cls& k = Classes()[c.choose(Classes().size())];
  using Ed = std::pair<Str, std::function<void(MdComment&)>>;
  static const std::vector<Ed> eds = {
      {"comment", [](MdComment& m) { m.Comment("new"); }},
      {"prop name", [](MdComment& m) { for (auto& [k, e] : m.Properties()) e.Name("n" + e.Name()); }},
      {"prop desc", [](MdComment& m) { for (auto& [k, e] : m.Properties()) e.Description("nd"); }},
      {"prop no desc", [](MdComment& m) { for (auto& [k, e] : m.Properties()) e.Description(""); }},
      {"prop unit", [](MdComment& m) { for (auto& [k, e] : m.Properties()) e.Unit("nu"); }},
      {"prop no unit", [](MdComment& m) { for (auto& [k, e] : m.Properties()) { e.Unit(""); e.UnitReference(""); } }},
      {"prop value", [](MdComment& m) { for (auto& [k, e] : m.Properties()) { e.DataType(MdDataType::MdString); e.Value(Str("nv")); } }},
      {"prop writable", [](MdComment& m) { for (auto& [k, e] : m.Properties()) e.ReadOnly(false); }},
      {"prop lang", [](MdComment& m) { for (auto& [k, e] : m.Properties()) e.Language("sv"); }},
      {"prop custom", [](MdComment& m) { for (auto& [k, e] : m.Properties()) e.CustomAttributes().clear(); }},
      {"tree", [](MdComment& m) { for (auto& [k, t] : m.Trees()) { t.Description("td"); t.HistoryIndex(9); } }},
      {"tree no desc", [](MdComment& m) { for (auto& [k, t] : m.Trees()) t.Description(""); }},
      {"list", [](MdComment& m) { for (auto& [k, t] : m.Lists()) { t.Description("ld"); t.Name("l_new"); } }},
      {"enum", [](MdComment& m) { for (auto& [k, t] : m.Enumerates()) { t.Unit("eu"); t.AddValue(MdString("more")); } }},
      {"names", [](MdComment& m) { if (m.Names().IsActive()) { m.Names().DefaultName("dn"); m.Names().AddVendor(MdString("vv")); } }},
      {"names no default", [](MdComment& m) { m.Names().DefaultName(""); }},
      {"formula", [](MdComment& m) { auto s = m.Formula().Syntax(); if (!s.Text().empty()) { s.Version("9"); m.Formula().Syntax(s); } for (auto& [k, v] : m.Formula().Variables()) { v.CnBlockName("ncn"); v.Raw(false); v.ArrayIndexes() = {4, 5}; } }},
      {"add", [](MdComment& m) { m.AddProperty("zzz", "add<ed"); }},
      {"units", [](MdComment& m) { if (auto* h = dynamic_cast<HdComment*>(&m)) { for (auto& [k, u] : h->UnitSpecification().Units()) u.Factor(0.125); } if (auto* u = dynamic_cast<CcUnit*>(&m)) u->UnitRef(MdString("nref")); }}};
  size_t e1 = c.choose(eds.size()), e2 = c.choose(eds.size() + 1);
  P p{c, true, true};
  auto m = k.make(); k.fill(p, *m, 1);
  if (!c.mine()) return;
  c.describe(k.name + " edit " + eds[e1].first + (e2 ? " + " + eds[e2 - 1].first : ""));
  auto r = k.make(); r->FromXml(m->ToXml());
  for (auto* x : {m.get(), r.get()}) { eds[e1].second(*x); if (e2) eds[e2 - 1].second(*x); }
  auto re = k.make(); re->FromXml(m->ToXml());  // the map keys follow the new names
  Map want = DumpOf(k, *re);
  Check(c, k, *r, want, "edited: ");
  // the edit itself is in the text
  Str d = Diff(DumpOf(k, *m), DumpOf(k, *r));
  EXPECT(c, d.empty(), "edit:" + Kind(d), k.name << ": reading and editing differs from editing: " << d);
}
// looking up properties and enumerations by name and by path
static void Lookup(mc::Ctx& c) {
  // where: 0 nowhere 1 root 2 tree T1 3 tree T2 4 list L1 5 both T1 and T2 6 root and T2 7 tree T1/U
  size_t where = c.choose(8); bool en = c.flag(); bool file = c.flag();
  if (!c.mine()) return;
  MdComment m("MD");
  auto put = [&](auto& to, const Str& v) { if (en) { MdEnumerate e; e.Name("x"); e.AddValue(MdString(v)); to.AddEnumerate(e); } else to.AddProperty(MdProperty("x", v)); };
  std::map<Str, Str> want;  // path -> value
  MdList t1, t2, l1, u; t1.Name("T1"); t2.Name("T2"); l1.Name("L1"); u.Name("U"); t1.AddProperty({"y", "y1"}); t2.AddProperty({"y2", "y2"}); l1.AddProperty({"z", "z1"});
  if (where == 1 || where == 6) { put(m, "root"); want["x"] = "root"; }
  if (where == 2 || where == 5) { put(t1, "in1"); want["T1/x"] = "in1"; }
  if (where == 3 || where == 5 || where == 6) { put(t2, "in2"); want["T2/x"] = "in2"; }
  if (where == 4) { put(l1, "inl"); want["L1/x"] = "inl"; }
  if (where == 7) { put(u, "inu"); t1.AddTree(u); want["T1/U/x"] = "inu"; }
  m.AddTree(t1); m.AddTree(t2); m.AddList(l1);
  MdComment r("MD"); if (file) r.FromXml(m.ToXml());
  const MdComment& q = file ? r : m;
  auto get = [&](const Str& path) -> Str { if (en) { auto* e = q.GetEnumerate(path); return e ? e->ValueList().at(0).Text() : "-"; } auto* e = q.GetProperty(path); return e ? e->Value<Str>() : "-"; };
  for (Str path : {"T1/x", "T2/x", "L1/x", "T1/U/x", "T2/U/x", "T3/x"}) {
    if (where == 7 && path == Str("T1/x")) continue;  // below T1: found or not
    Str w = want.count(path) ? want[path] : "-"; Str g = get(path);
    EXPECT(c, g == w, "path", path << " is " << g << " instead of " << w << " (x in place " << where << ")");
  }
  Str g = get("x");  // without a path: the nearest one
  if (want.count("x")) { EXPECT(c, g == "root", "name", "x is " << g); }
  else if (want.empty()) { EXPECT(c, g == "-", "name", "x is " << g << " but does not exist"); }
  else { bool any = false; for (auto& [pp, v] : want) any |= v == g; EXPECT(c, any, "name", "x is " << g); }
  c.outcome(Str(std::to_string(where)) + g);
}

// --- generic nodes -------------------------------------------------------------------------------------------------------------------
struct N { Str tag, value; std::map<Str, Str> attr; std::vector<N> kids; };
static void Put(const N& n, IXmlNode& x) {
  for (auto& [k, v] : n.attr) x.SetAttribute(k, v);
  if (!n.value.empty()) x.Value(n.value);
  for (auto& k : n.kids) Put(k, x.AddNode(k.tag));
}
static void Show(const N& n, const Str& p, Map& m) { m[p] = n.tag + "=" + (n.kids.empty() ? n.value : ""); for (auto& [k, v] : n.attr) m[p + "@" + k] = v; int i = 0; for (auto& k : n.kids) Show(k, p + "/" + std::to_string(i++), m); }
static void Show(const IXmlNode& n, const Str& p, Map& m) {
  m[p] = Str(n.TagName()) + "=" + (n.HasChildren() ? "" : n.Value<Str>());
  for (auto& [k, v] : n.GetAttributeList()) { m[p + "@" + k] = v; if (n.Attribute<Str>(k) != v) m[p + "@" + k] = v + " (Attribute() differs)"; }
  IXmlNode::ChildList l; n.GetChildList(l); int i = 0; for (auto* k : l) Show(*k, p + "/" + std::to_string(i++), m);
}
static void Doc(mc::Ctx& c, const N& n) {
  auto w = CreateXmlFile("FileWriter"); Put(n, w->RootName(n.tag));
  Map want, got; Show(n, "", want);
  Str xml = w->WriteString(c.verbose);
  EXPECT(c, LookAt(xml).ok, "wellformed", "not well-formed: " << xml.substr(0, 300));
  auto r = CreateXmlFile(); EXPECT(c, r->ParseString(xml), "parse", "ParseString refuses " << xml.substr(0, 300));
  Show(*r->RootNode(), "", got);
  Str d = Diff(want, got); EXPECT(c, d.empty(), "node", d);
  Str fn = mc::Scratch() + "/d.xml"; w->FileName(fn); EXPECT(c, w->WriteFile(), "writefile", "WriteFile failed");
  auto rf = CreateXmlFile(); rf->FileName(fn); EXPECT(c, rf->ParseFile(), "parsefile", "ParseFile refuses the file written, " << xml.size() << " bytes");
  got.clear(); Show(*rf->RootNode(), "", got);
  d = Diff(want, got); EXPECT(c, d.empty(), "nodefile", d);
  c.outcome(mc::Hash(xml.data(), xml.size(), 3)); c.step(got.size());
}
static const std::vector<Str> kTag = {"a", "ns:b", "c.d-e_1", "\xC3\xA4" "g"};
static void Nodes(mc::Ctx& c) {
  // every shape of up to 4 nodes, one deviating tag / attribute / value each
  std::function<void(N&, int&, int)> grow = [&](N& n, int& left, int depth) {
    while (left > 0 && depth > 0 && c.flag()) { --left; N k; k.tag = c.devpick(kTag); size_t v = c.dev(kStr.size() + 1); if (v) k.value = kStr[v - 1]; size_t a = c.dev(kStr.size() + 1); if (a) k.attr["k"] = kStr[a - 1]; grow(k, left, depth - 1); if (!k.kids.empty()) k.value.clear(); n.kids.push_back(k); }
  };
  N root; root.tag = c.devpick(kTag); size_t a = c.dev(kStr.size() + 1); if (a) { root.attr["k"] = kStr[a - 1]; root.attr["other"] = "o"; }
  int left = 4; grow(root, left, 3);
  if (root.kids.empty()) { size_t v = c.dev(kStr.size() + 1); if (v) root.value = kStr[v - 1]; }
  if (!c.mine()) return;
  Doc(c, root);
}
// documents of every length around the size of the read buffer, with characters of 1 to 4 bytes across its edge
static void Sizes(mc::Ctx& c) {
  static const std::vector<Str> ch = {"x", "\xC3\xA4", "\xE2\x82\xAC", "\xF0\x9F\x98\x80", "&"};
  size_t base = c.pick(std::vector<size_t>{0, 940, 1960}); size_t n = c.choose(120); const Str& g = c.pick(ch); bool attr = c.flag();
  if (!c.mine()) return;
  N r; r.tag = "root"; N k; k.tag = "k"; Str t(base + n, 'f'); for (int i = 0; i < 12; ++i) t += g; t += "end"; if (attr) k.attr["v"] = t; else k.value = t; r.kids.push_back(k); k.value = "last"; k.attr.clear(); r.kids.push_back(k);
  Doc(c, r);
}
// a document that ends too early or holds an error is refused, from a string and from a file
static void Broken(mc::Ctx& c) {
  static const Str doc = "<?xml version='1.0' encoding='UTF-8'?>\n<root a='1'><k>text</k><l x=\"&amp;\"/><!-- c --><m><n>t</n></m></root>";
  static const std::vector<Str> bad = {"<a><b></a></b>", "<a x='1' x='2'/>", "<a>&nope;</a>", "<a>\x01</a>", "<a>\xC3</a>", "<a/><b/>", "", "text", "<a x=1/>", "<a><b/></a>junk"};
  size_t n = c.choose(doc.size() + bad.size()); size_t pad = c.pick(std::vector<size_t>{0, 900, 1010, 3000});
  if (!c.mine()) return;
  Str s; if (n < doc.size()) { s = doc.substr(0, n); auto at = s.find("<k>"); if (at != Str::npos) s.insert(at, Str(pad, ' ')); } else s = bad[n - doc.size()] ;
  if (LookAt(s).ok) c.fail("self", "the document is valid: " + s);
  auto r = CreateXmlFile(); EXPECT(c, !r->ParseString(s), "string", "ParseString accepts " << s);
  Str fn = mc::Scratch() + "/b.xml"; { std::ofstream f(fn, std::ios::binary | std::ios::trunc); f << s; }
  auto rf = CreateXmlFile(); rf->FileName(fn); EXPECT(c, !rf->ParseFile(), "file", "ParseFile accepts the incomplete document " << s.substr(0, 200));
  // nor does it disturb a comment
  for (auto& k : Classes()) { auto m = k.make(); m->FromXml(s); c.step(); }
  c.outcome(s);
}

// --- the property interface of meta data blocks ------------------------------------------------------------------------------------------
// every sequence of settings; afterwards each property holds what was set last and nothing else changed
static void Props(mc::Ctx& c) {
  struct M { Str value, desc, unit; bool ro = false; };
  static const std::vector<Str> names = {"Name", "nAme", "x<y", "TX"};
  size_t depth = c.thorough ? 4 : 3;
  struct Op { int kind; size_t name, val, desc; };
  std::vector<Op> ops;
  size_t n = 1 + c.choose(depth);
  for (size_t i = 0; i < n; ++i) { Op o{}; size_t k = c.choose(9); o.kind = k < 6 ? 0 : (int)k - 5; o.name = k < 6 ? k / 2 : 0; o.val = i; o.desc = k < 6 ? k % 2 : 0; ops.push_back(o); }
  if (!c.mine()) return;
  detail::Md4Block b; b.XmlSnippet("<CNcomment/>");
  std::map<Str, M> model; Str tx; bool has_tx = false; std::map<Str, Str> sp; std::map<Str, double> fp;
  for (auto& o : ops) {
    Str v = "v" + std::to_string(o.val) + "<&>";
    switch (o.kind) {
      case 0: { ETag e; e.Name(names[o.name]); e.Value(v); M m; m.value = v; if (o.desc) { m.desc = "d'" + std::to_string(o.val); m.unit = "u" + std::to_string(o.val); m.ro = true; e.Description(m.desc); e.Unit(m.unit); e.ReadOnly(true); } b.CommonProperty(e); model[names[o.name]] = m; break; }
      case 1: b.StringProperty("tool_id", v); sp["tool_id"] = v; break;
      case 2: b.FloatProperty("timeout", 0.1 + 1e-9 * (double)o.val); fp["timeout"] = 0.1 + 1e-9 * (double)o.val; break;
      default: b.TxComment(v); tx = v; has_tx = true; break;
    }
    c.step();
    for (auto& [k, m] : model) {
      ETag e = b.CommonProperty(k);
      EXPECT(c, e.Name() == k, "etag-name", "property " << k << " is found as " << e.Name());
      EXPECT(c, e.Value<Str>() == m.value, "etag-value", "property " << k << " is " << e.Value<Str>() << " instead of " << m.value);
      EXPECT(c, e.Description() == m.desc && e.Unit() == m.unit && e.ReadOnly() == m.ro, "etag-attr", "property " << k << ": description \"" << e.Description() << "\" instead of \"" << m.desc << "\", unit \"" << e.Unit() << "\" instead of \"" << m.unit << "\" read-only " << e.ReadOnly());
    }
    auto all = b.CommonProperties();
    EXPECT(c, all.size() == model.size(), "etag-count", all.size() << " properties instead of " << model.size());
    for (auto& [k, w] : sp) EXPECT(c, b.StringProperty(k) == w, "string", k << " is " << b.StringProperty(k) << " instead of " << w);
    for (auto& [k, w] : fp) EXPECT(c, b.FloatProperty(k) == w, "float", k << " is " << Dump::N(b.FloatProperty(k)) << " instead of " << Dump::N(w));
    if (has_tx) EXPECT(c, b.TxComment() == tx, "txcomment", "comment is " << b.TxComment() << " instead of " << tx);
  }
  c.outcome(b.XmlSnippet());
}
// property trees through the interface
static void ETags(mc::Ctx& c) {
  std::function<ETag(const Str&, int)> gen = [&](const Str& n, int depth) {
    ETag e; e.Name(n); size_t k = depth > 0 ? c.choose(c.thorough ? 4 : 3) : 0;
    size_t v = c.dev(kStr.size() + 1); Str sv = v ? kStr[v - 1] : "v" + n;
    size_t d = c.dev(kStr.size() + 2); if (d) e.Description(d == 1 ? "desc" : kStr[d - 2]);
    if (c.dev(2)) e.CreatorIndex(2);
    if (k == 0) {
      size_t t = c.dev(9); if (t) e.DataType((ETagDataType)(t - 1));
      size_t u = c.dev(kStr.size() + 1); if (u) e.Unit(kStr[u - 1]);
      if (c.dev(2)) e.UnitRef("ur"); if (c.dev(2)) e.Language("de"); if (c.dev(2)) e.ReadOnly(true);
      e.Value(sv);
    }
    for (size_t i = 0; i < k; ++i) e.AddTag(gen(n + (i == 1 ? "B" : i ? "c" : "b"), depth - 1));
    return e;
  };
  size_t n = 1 + c.choose(2); std::vector<ETag> tags; for (size_t i = 0; i < n; ++i) tags.push_back(gen(i ? "second" : "first", i ? 1 : 2));
  bool bulk = c.flag();
  if (!c.mine()) return;
  std::function<void(const ETag&, const Str&, Map&)> show = [&](const ETag& e, const Str& p, Map& m) {
    m[p] = e.Name(); if (e.TreeList().empty()) m[p + ".v"] = e.Value<Str>(); m[p + ".d"] = e.Description(); m[p + ".ci"] = std::to_string(e.CreatorIndex());
    m[p + ".t"] = std::to_string((int)e.DataType()); m[p + ".u"] = e.Unit(); m[p + ".ur"] = e.UnitRef(); m[p + ".l"] = e.Language(); m[p + ".ro"] = e.ReadOnly() ? "1" : "0";
    int i = 0; for (auto& k : e.TreeList()) show(k, p + "/" + std::to_string(i++), m);
  };
  Map want; int i = 0; for (auto& e : tags) show(e, std::to_string(i++), want);
  detail::Md4Block b; b.XmlSnippet("<HDcomment><TX>c</TX></HDcomment>");
  if (bulk) b.CommonProperties(tags); else for (auto& e : tags) b.CommonProperty(e);
  Map got; i = 0; for (auto& e : b.CommonProperties()) show(e, std::to_string(i++), got);
  Str d = Diff(want, got); EXPECT(c, d.empty(), "etags", d);
  for (auto& e : tags) { Map w, g; show(e, "", w); show(b.CommonProperty(e.Name()), "", g); d = Diff(w, g); EXPECT(c, d.empty(), "etag", e.Name() << ": " << d); }
  EXPECT(c, b.TxComment() == "c", "tx", "comment changed to " << b.TxComment());
  c.outcome(b.XmlSnippet()); c.step(got.size());
}

int main(int argc, char** argv) {
  MdfLogStream::SetLogFunction1([](const MdfLocation&, MdfLogSeverity, const std::string&) {});
  return mc::Main(argc, argv, "C18", {{"singles", Singles, 1, 1}, {"pairs", Pairs, 2, 2}, {"deep", Deep}, {"edit", Edit, 0, 1}, {"lookup", Lookup}, {"nodes", Nodes, 1, 2}, {"sizes", Sizes}, {"broken", Broken}, {"props", Props}, {"etags", ETags, 1, 1}});
}
