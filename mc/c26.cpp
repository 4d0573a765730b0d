// C26: text conversion between UTF-8, wide and Latin-1, and the decoding of text channels.
#include <clocale>
#include <filesystem>
#include <fstream>
#include "mdf/mdfhelper.h"
#include "mdf/mdflogstream.h"
#include "rec.h"
using namespace rec;
using Bytes = std::vector<uint8_t>;

// ---- reference encoders
static void Put8(std::string& s, uint32_t c) {
  if (c < 0x80) s += (char)c;
  else if (c < 0x800) { s += (char)(0xC0 | c >> 6); s += (char)(0x80 | (c & 63)); }
  else if (c < 0x10000) { s += (char)(0xE0 | c >> 12); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); }
  else { s += (char)(0xF0 | c >> 18); s += (char)(0x80 | (c >> 12 & 63)); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); }
}
static void PutUnits(std::vector<uint16_t>& u, uint32_t c) {
  if (c < 0x10000) u.push_back((uint16_t)c);
  else { c -= 0x10000; u.push_back((uint16_t)(0xD800 + (c >> 10))); u.push_back((uint16_t)(0xDC00 + (c & 0x3FF))); }
}
using Text = std::vector<uint32_t>;
static std::string Utf8(const Text& t) { std::string s; for (auto c : t) Put8(s, c); return s; }
static std::vector<uint16_t> Units(const Text& t) { std::vector<uint16_t> u; for (auto c : t) PutUnits(u, c); return u; }
static std::wstring Wide(const Text& t) {
  std::wstring w;
  if (sizeof(wchar_t) == 2) for (auto u : Units(t)) w += (wchar_t)u;
  else for (auto c : t) w += (wchar_t)c;
  return w;
}
static std::wstring WidePairs(const Text& t) { std::wstring w; for (auto u : Units(t)) w += (wchar_t)u; return w; }
static std::string HexS(const std::string& s) { return mc::Hex(s.data(), s.size()); }
static bool Valid(uint32_t c) { return c > 0 && c <= 0x10FFFF && !(c >= 0xD800 && c <= 0xDFFF); }
static std::string Show(const Text& t) { std::ostringstream o; o << std::hex; for (auto c : t) o << "U+" << c << " "; return o.str(); }

static void CheckText(mc::Ctx& c, const Text& t) {
  std::string u8 = Utf8(t); std::wstring w = Wide(t);
  std::wstring w2 = MdfHelper::Utf8ToUtf16(u8);
  EXPECT(c, w2 == w, "utf8-to-wide", Show(t) << ": " << w2.size() << " wide characters");
  std::string b = MdfHelper::Utf16ToUtf8(w);
  EXPECT(c, b == u8, "wide-to-utf8", Show(t) << ": " << HexS(b));
  std::string p = MdfHelper::Utf16ToUtf8(WidePairs(t));
  EXPECT(c, p == u8, "utf16-to-utf8", Show(t) << ": " << HexS(p));
  c.step(3);
}
// Every code point, alone, doubled and between neighbours of every length.
static void CodePoints(mc::Ctx& c) {
  const uint32_t n = 0x110000 / 1024;
  uint32_t block = (uint32_t)c.choose(n); size_t ctx = c.choose(c.thorough ? 6 : 3);
  if (!c.mine()) return;
  static const std::vector<std::pair<Text, Text>> around = {{{}, {}}, {{0x41}, {0x1F600}}, {{0x10FFFF}, {0xE9}}, {{0xFFFF}, {0x7F}}, {{0x20AC}, {0x800}}, {{0x80, 0xFEFF}, {0xD7FF}}};
  std::ostringstream o; o << "block " << block << " context " << ctx; c.describe(o.str());
  for (uint32_t k = block * 1024; k < (block + 1) * 1024; ++k) {
    if (!Valid(k)) continue;
    Text t = around[ctx].first; t.push_back(k); if (ctx) t.push_back(k); t.insert(t.end(), around[ctx].second.begin(), around[ctx].second.end());
    CheckText(c, t);
  }
  c.outcome(o.str());
}
static const std::vector<uint32_t>& Alphabet() {
  static const std::vector<uint32_t> a = {0x1, 0x20, 0x41, 0x7F, 0x80, 0xFF, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFEFF, 0xFFFD, 0xFFFF, 0x10000, 0x103FF, 0x10400, 0xFFFFF, 0x10FFFF};
  return a;
}
// Every text over the boundary code points, of length <= 4 (thorough: 5), also long.
static void Texts(mc::Ctx& c) {
  auto& a = Alphabet();
  size_t first = c.choose(a.size()), second = c.choose(a.size()); bool longer = c.flag();
  if (!c.mine()) return;
  std::ostringstream o; o << "texts starting " << std::hex << a[first] << " " << a[second] << (longer ? " long" : ""); c.describe(o.str());
  Text pre; if (longer) for (int i = 0; i < 40; ++i) pre.push_back(a[i % a.size()]);
  auto go = [&](Text t) { t.insert(t.begin(), pre.begin(), pre.end()); CheckText(c, t); };
  go({}); go({a[first]}); go({a[first], a[second]});
  for (auto x : a) { go({a[first], a[second], x}); for (auto y : a) { go({a[first], a[second], x, y}); if (c.thorough) for (auto z : a) go({a[first], a[second], x, y, z}); } }
  c.outcome(o.str());
}
static void Latin1(mc::Ctx& c) {
  uint32_t first = (uint32_t)c.choose(256); size_t pad = c.choose(2) * 30;
  if (!c.mine()) return;
  std::ostringstream o; o << "first " << first << " pad " << pad; c.describe(o.str());
  for (uint32_t b = 0; b < 256; ++b) for (uint32_t d : {0u, 1u, 0x7Fu, 0x80u, 0xBFu, 0xC0u, 0xFFu}) {
    std::string in(pad, 'x'), want(pad, 'x');
    for (uint32_t v : {first, b, d}) { in += (char)v; Put8(want, v); }
    std::string got = MdfHelper::Latin1ToUtf8(in);
    EXPECT(c, got == want, "latin1", "Latin-1 " << HexS(in) << " converts to " << HexS(got));
    c.step();
  }
  c.outcome(o.str());
}
// Malformed input: every sequence over lead/continuation bytes; memory errors are found by the sanitizer.
static void Malformed(mc::Ctx& c) {
  static const std::vector<uint8_t> a = {0x41, 0x80, 0xBF, 0xC0, 0xC3, 0xE0, 0xE2, 0xED, 0xF0, 0xF4, 0xF8, 0xFE, 0xFF};
  size_t x = c.choose(a.size()), y = c.choose(a.size());
  if (!c.mine()) return;
  std::ostringstream o; o << "malformed " << std::hex << (int)a[x] << " " << (int)a[y]; c.describe(o.str());
  uint64_t h = 0;
  auto go = [&](Bytes seq) {
    // longer than the in-object buffer and without slack, so that each byte past the end is outside the allocation
    std::string s(32, 'a'); s += std::string(seq.begin(), seq.end()); s.shrink_to_fit();
    std::wstring w = MdfHelper::Utf8ToUtf16(s);
    EXPECT(c, w.size() >= 32 && w.size() <= s.size() && w.substr(0, 32) == std::wstring(32, L'a'), "malformed-prefix", HexS(s) << ": " << w.size() << " characters");
    for (auto ch : w) h = mc::Hash(&ch, sizeof ch, h);
    std::string back = MdfHelper::Utf16ToUtf8(w);
    EXPECT(c, back.substr(0, 32) == std::string(32, 'a'), "malformed-prefix", HexS(back));
    std::string l = MdfHelper::Latin1ToUtf8(s); EXPECT(c, l.substr(0, 32) == std::string(32, 'a'), "malformed-prefix", HexS(l));
    c.step();
  };
  go({a[x]}); go({a[x], a[y]});
  for (auto p : a) { go({a[x], a[y], p}); for (auto q : a) { go({a[x], a[y], p, q}); if (c.thorough) for (auto r : a) go({a[x], a[y], p, q, r}); } }
  c.outcome(h);
}
static void MalformedWide(mc::Ctx& c) {
  static const std::vector<uint32_t> a = {0x41, 0xE9, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0x10000, 0x10FFFF, 0x110000, 0x7FFFFFFF, 0xFFFFFFFF};
  size_t x = c.choose(a.size()), y = c.choose(a.size());
  if (!c.mine()) return;
  std::ostringstream o; o << "malformed wide " << std::hex << a[x] << " " << a[y]; c.describe(o.str());
  uint64_t h = 0;
  auto go = [&](std::vector<uint32_t> seq) {
    std::wstring w(16, L'b'); for (auto u : seq) w += (wchar_t)u; w.shrink_to_fit();
    std::string s = MdfHelper::Utf16ToUtf8(w);
    EXPECT(c, s.size() >= 16 && s.substr(0, 16) == std::string(16, 'b'), "malformed-prefix", HexS(s));
    h = mc::Hash(s.data(), s.size(), h); c.step();
  };
  go({a[x]}); go({a[x], a[y]});
  for (auto p : a) { go({a[x], a[y], p}); for (auto q : a) go({a[x], a[y], p, q}); }
  c.outcome(h);
}

// Text channels: raw bytes in the channel's encoding are delivered as UTF-8.
struct Item { Bytes raw; std::string want; bool check = true; };
static void ChannelRead(mc::Ctx& c, ChannelDataType dt, bool vlsd, size_t field, const std::vector<Item>& items) {
  MemDev dev;
  std::shared_ptr<std::streambuf> buf(&dev, [](std::streambuf*) {});
  auto w = MdfFactory::CreateMdfWriter(MdfWriterType::Mdf4Basic);
  EXPECT(c, w->Init(buf), "write", "init failed");
  auto* dg = w->CreateDataGroup(); auto* cg = dg->CreateChannelGroup("g");
  auto* m = cg->CreateChannel("t"); m->Type(ChannelType::Master); m->Sync(ChannelSyncType::Time); m->DataType(ChannelDataType::FloatLe); m->DataBytes(8);
  auto* cn = cg->CreateChannel("s"); cn->DataType(dt); cn->Type(vlsd ? ChannelType::VariableLength : ChannelType::FixedLength); cn->DataBytes(vlsd ? 8 : field);
  auto* tail = cg->CreateChannel("z"); tail->Type(ChannelType::FixedLength); tail->DataType(ChannelDataType::UnsignedIntegerLe); tail->DataBytes(4);
  w->InitMeasurement(); w->StartMeasurement(1000000000ull);
  for (size_t i = 0; i < items.size(); ++i) {
    Bytes raw = items[i].raw; if (!vlsd) raw.resize(field, 0);
    cn->SetChannelValue(raw); tail->SetChannelValue((uint64_t)0x41424344u);
    w->SaveSample(*cg, 1000000000ull + i);
  }
  w->StopMeasurement(2000000000ull); EXPECT(c, w->FinalizeMeasurement(), "write", "finalize failed"); w.reset();
  MdfReader r(buf); EXPECT(c, r.IsOk() && r.ReadEverythingButData(), "read", "cannot open");
  auto* rdg = r.GetDataGroup(0); auto* rcg = rdg->ChannelGroups().at(0);
  auto ob = CreateChannelObserver(*rdg, *rcg, *rcg->GetChannel("s"));
  EXPECT(c, r.ReadData(*rdg), "read", "data not read");
  EXPECT(c, ob->NofSamples() == items.size(), "read", ob->NofSamples() << " samples");
  for (size_t i = 0; i < items.size(); ++i) {
    std::string s; bool ok = ob->GetChannelValue(i, s); c.step();
    if (!items[i].check) continue;
    EXPECT(c, ok && s == items[i].want, "channel-text", TypeName(dt) << (vlsd ? " VLSD" : " fixed") << " bytes " << mc::Hex(items[i].raw.data(), items[i].raw.size()) << " read as " << HexS(s) << ", is " << HexS(items[i].want));
    std::string e; ok = ob->GetEngValue(i, e);
    EXPECT(c, ok && e == items[i].want, "channel-text-eng", TypeName(dt) << " bytes " << mc::Hex(items[i].raw.data(), items[i].raw.size()) << " converted value " << HexS(e));
  }
  r.Close();
}
static Bytes Encode(ChannelDataType dt, const Text& t) {
  Bytes b;
  if (dt == ChannelDataType::StringAscii) for (auto x : t) b.push_back((uint8_t)x);
  else if (dt == ChannelDataType::StringUTF8) { auto s = Utf8(t); b.assign(s.begin(), s.end()); }
  else for (auto u : Units(t)) { if (dt == ChannelDataType::StringUTF16Le) { b.push_back((uint8_t)u); b.push_back((uint8_t)(u >> 8)); } else { b.push_back((uint8_t)(u >> 8)); b.push_back((uint8_t)u); } }
  return b;
}
static const std::vector<ChannelDataType> kTypes = {ChannelDataType::StringAscii, ChannelDataType::StringUTF8, ChannelDataType::StringUTF16Le, ChannelDataType::StringUTF16Be};
// Every code point through a channel of every text type.
static void Channels(mc::Ctx& c) {
  auto dt = c.pick(kTypes); bool vlsd = c.flag(); size_t form = c.choose(3);  // full field, null terminated, followed by rest after the null
  const uint32_t per = 8192, blocks = dt == ChannelDataType::StringAscii ? 1 : 0x110000 / per;
  uint32_t block = (uint32_t)c.choose(blocks);
  if (!c.thorough && block > 8 && block % 8 != 7 && block < blocks - 1) return;
  if (!c.mine()) return;
  std::ostringstream o; o << TypeName(dt) << (vlsd ? " vlsd" : " fixed") << " form " << form << " block " << block; c.describe(o.str());
  bool wide = dt == ChannelDataType::StringUTF16Le || dt == ChannelDataType::StringUTF16Be;
  std::vector<Item> items; size_t field = 0;
  uint32_t lo = block * per, hi = dt == ChannelDataType::StringAscii ? 256 : lo + per;
  for (uint32_t k = lo; k < hi; ++k) {
    if (!Valid(k)) continue;
    Text t{0x42, k, 0x43}; if (form == 0) t.push_back(k);
    Item it; it.raw = Encode(dt, t); it.want = Utf8(t);
    if (form >= 1) { it.raw.push_back(0); if (wide) it.raw.push_back(0); }
    if (form == 2) { auto more = Encode(dt, {0x58, 0x59}); it.raw.insert(it.raw.end(), more.begin(), more.end()); }
    field = std::max(field, it.raw.size());
    items.push_back(it);
  }
  if (items.empty()) return;
  // "full field": items of the longest encoding fill the field exactly
  ChannelRead(c, dt, vlsd, field, items);
  c.outcome(o.str());
}
// Malformed UTF-16 and odd sizes in channels terminate without memory errors and leave the other samples alone.
static void ChannelMalformed(mc::Ctx& c) {
  static const std::vector<uint16_t> a = {0x41, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xFFFF, 0x20AC};
  auto dt = c.pick(kTypes); bool vlsd = c.flag(); size_t x = c.choose(a.size()); size_t cut = c.choose(2);
  if (!c.mine()) return;
  std::ostringstream o; o << TypeName(dt) << (vlsd ? " vlsd" : " fixed") << " malformed first " << std::hex << a[x] << " cut " << cut; c.describe(o.str());
  std::vector<Item> items; size_t field = 6 - cut;
  Text good{0x61, dt == ChannelDataType::StringAscii ? 0xE9u : 0x20ACu};
  for (auto y : a) for (auto z : a) {
    Item it; it.check = false;
    for (uint16_t u : {a[x], y, z}) { if (dt == ChannelDataType::StringUTF16Be) { it.raw.push_back((uint8_t)(u >> 8)); it.raw.push_back((uint8_t)u); } else { it.raw.push_back((uint8_t)u); it.raw.push_back((uint8_t)(u >> 8)); } }
    it.raw.resize(field); items.push_back(it);
    items.push_back({Encode(dt, good), Utf8(good), true});
  }
  ChannelRead(c, dt, vlsd, field, items);
  c.outcome(o.str());
}
// File names in UTF-8: the file of exactly that name is created and opened.
static void FileNames(mc::Ctx& c) {
  static const std::vector<uint32_t> a = {0x41, 0x20, 0xE5, 0x7FF, 0x20AC, 0xFEFF, 0x1F600, 0x10FFFF};
  size_t n = 1 + c.choose(3); Text t; for (size_t i = 0; i < n; ++i) t.push_back(a[c.choose(a.size())]);
  bool mdf3 = c.flag();
  if (!c.mine()) return;
  c.describe(Show(t) + (mdf3 ? "mdf3" : "mdf4"));
  namespace fs = std::filesystem;
  std::string dir = mc::Scratch() + "/names"; fs::remove_all(dir); fs::create_directories(dir);
  std::string leaf = "x" + Utf8(t) + ".mf4", name = dir + "/" + leaf;
  {
    auto w = MdfFactory::CreateMdfWriter(mdf3 ? MdfWriterType::Mdf3Basic : MdfWriterType::Mdf4Basic);
    EXPECT(c, w->Init(name), "filename", "Init failed for " << HexS(leaf));
    auto* dg = w->CreateDataGroup(); auto* cg = dg->CreateChannelGroup("g"); auto* cn = cg->CreateChannel("s"); cn->DataType(ChannelDataType::UnsignedIntegerLe); cn->Type(ChannelType::FixedLength); cn->DataBytes(4);
    w->InitMeasurement(); w->StartMeasurement(1000000000ull); cn->SetChannelValue((uint64_t)42); w->SaveSample(*cg, 1000000001ull); w->StopMeasurement(2000000000ull);
    EXPECT(c, w->FinalizeMeasurement(), "filename", "Finalize failed for " << HexS(leaf));
  }
  std::vector<std::string> seen; for (auto& e : fs::directory_iterator(dir)) seen.push_back(e.path().filename().string());
  EXPECT(c, seen.size() == 1 && seen[0] == leaf, "filename", "the folder holds " << seen.size() << " files, first " << (seen.empty() ? "" : HexS(seen[0])) << " for the name " << HexS(leaf));
  MdfReader r(name); EXPECT(c, r.IsOk() && r.ReadEverythingButData(), "filename", "cannot open " << HexS(leaf));
  EXPECT(c, (r.ShortName() == "x" + Utf8(t) || r.ShortName() == leaf), "filename", "ShortName is " << HexS(r.ShortName()));
  auto* dg = r.GetDataGroup(0); auto* cg = dg->ChannelGroups().at(0); auto ob = CreateChannelObserver(*dg, *cg, *cg->Channels().at(0));
  EXPECT(c, r.ReadData(*dg), "filename", "no data"); uint64_t v = 0; EXPECT(c, ob->GetChannelValue(0, v) && v == 42, "filename", "value " << v);
  r.Close(); fs::remove_all(dir);
  c.outcome(leaf);
}
int main(int argc, char** argv) {
  MdfLogStream::SetLogFunction1([](const MdfLocation&, MdfLogSeverity, const std::string&) {});
  return mc::Main(argc, argv, "C26", {{"latin1", Latin1}, {"malformed", Malformed}, {"malformed-wide", MalformedWide}, {"codepoints", CodePoints}, {"texts", Texts}, {"channels", Channels}, {"channel-malformed", ChannelMalformed}, {"filenames", FileNames}});
}
