// C24: extraction of bit fields of every length at every position.
#include "build4.h"
#include "rec.h"
using namespace rec;
typedef unsigned __int128 u128;

// The value of a field by the definition of the format: Intel = bits numbered upwards from the start bit; Motorola = the bytes
// that hold the field read as one big endian number, shifted down by the bit offset.
static uint64_t Want(const Bytes& r, size_t byte, size_t bit, size_t n, bool be) {
  size_t nb = (bit + n + 7) / 8;
  u128 x = 0;
  for (size_t k = 0; k < nb; ++k) x |= (u128)r[byte + (be ? nb - 1 - k : k)] << (8 * k);
  x >>= bit;
  return (uint64_t)(n >= 64 ? x : x & (((u128)1 << n) - 1));
}
static int64_t Sign(uint64_t v, size_t n) { return n >= 64 ? (int64_t)v : (v >> (n - 1)) & 1 ? (int64_t)(v | ~((1ull << n) - 1)) : (int64_t)v; }

static std::vector<Bytes> Patterns(size_t size) {
  std::vector<Bytes> p;
  p.push_back(Bytes(size, 0)); p.push_back(Bytes(size, 0xFF)); p.push_back(Bytes(size, 0xA5));
  for (size_t b = 0; b < size * 8; ++b) { Bytes x(size, 0); x[b / 8] = (uint8_t)(1 << (b % 8)); p.push_back(x); Bytes y(size, 0xFF); y[b / 8] = (uint8_t)~(1 << (b % 8)); p.push_back(y); }
  for (size_t k = 0; k < 8; ++k) { Bytes x; for (size_t j = 0; j < size; ++j) x.push_back((uint8_t)Mix(k * 100 + j)); p.push_back(x); }
  return p;
}
static float Half(uint16_t h) {
  int s = h >> 15, e = (h >> 10) & 31, m = h & 1023;
  double v = e == 0 ? std::ldexp(m, -24) : e == 31 ? (m ? NAN : INFINITY) : std::ldexp(1024 + m, e - 25);
  return (float)(s ? -v : v);
}

struct Env { std::unique_ptr<MdfWriter> w; IChannel* cn; };
static Env NewChannel(bool mdf3) {
  Env e; e.w = MdfFactory::CreateMdfWriter(mdf3 ? MdfWriterType::Mdf3Basic : MdfWriterType::Mdf4Basic);
  e.w->Init(std::static_pointer_cast<std::streambuf>(std::make_shared<MemDev>()));
  auto* dg = e.w->CreateDataGroup(); auto* cg = MdfWriter::CreateChannelGroup(dg);
  e.cn = MdfWriter::CreateChannel(cg); e.cn->Name("f"); e.cn->Type(ChannelType::FixedLength);
  return e;
}

static void Integers(mc::Ctx& c) {
  bool mdf3 = c.flag(); size_t be = c.choose(2), sg = c.choose(2); size_t n = 1 + c.choose(64); size_t bit = c.choose(8);
  if (!c.mine()) return;
  std::ostringstream t; t << (mdf3 ? "mdf3" : "mdf4") << " " << (sg ? "signed" : "unsigned") << (be ? "-be" : "-le") << " bits=" << n << " bit offset=" << bit; c.describe(t.str());
  auto e = NewChannel(mdf3);
  e.cn->DataType((ChannelDataType)(2 * sg + be)); e.cn->BitCount((uint32_t)n); e.cn->BitOffset((uint16_t)bit);
  const size_t size = 16;
  uint64_t h = 0;
  static const auto pats = Patterns(size);
  for (size_t byte = 0; byte <= size; ++byte) {
    if (mdf3 && byte > 13) continue;
    e.cn->ByteOffset((uint32_t)byte);
    bool fits = byte * 8 + bit + n <= size * 8;
    for (auto& r : pats) {
      c.step();
      uint64_t u = 0; int64_t i = 0; double d = 0; std::string s;
      bool ok = e.cn->GetChannelValue(r, u);
      bool ok2 = e.cn->GetChannelValue(r, i), ok3 = e.cn->GetChannelValue(r, d), ok4 = e.cn->GetChannelValue(r, s);
      if (!fits) { EXPECT(c, !ok && !ok2 && !ok3 && !ok4, "field-outside", "byte " << byte << ": a field outside the record is delivered as valid"); continue; }
      uint64_t w = Want(r, byte, bit, n, be); int64_t wi = Sign(w, n);
      EXPECT(c, ok && ok2 && ok3 && ok4, "field-valid", "byte " << byte << ": field reported invalid");
      std::string ws = sg ? std::to_string(wi) : std::to_string(w); double wd = sg ? (double)wi : (double)w;
      EXPECT(c, (sg ? (uint64_t)wi : w) == u && (sg ? wi : (int64_t)w) == i && d == wd && s == ws, "field-value",
             "byte " << byte << " record " << mc::Hex(r.data(), r.size()) << ": value " << u << "/" << i << "/" << d << "/" << s << " expected " << ws);
      h = h * 31 + u;
    }
  }
  c.outcome(h ^ (n << 20) ^ (bit << 8) ^ (be << 4) ^ (sg << 5) ^ mdf3);
}

static void Floats(mc::Ctx& c) {
  bool mdf3 = c.flag(); size_t be = c.choose(2); size_t n = c.pick(std::vector<size_t>{16, 32, 64}); size_t bit = c.choose(8);
  if (!c.mine()) return;
  std::ostringstream t; t << (mdf3 ? "mdf3" : "mdf4") << " float" << (be ? "-be" : "-le") << " bits=" << n << " bit offset=" << bit; c.describe(t.str());
  auto e = NewChannel(mdf3);
  e.cn->DataType(be ? ChannelDataType::FloatBe : ChannelDataType::FloatLe); e.cn->BitCount((uint32_t)n); e.cn->BitOffset((uint16_t)bit);
  const size_t size = 12; uint64_t h = 0;
  static const auto pats = Patterns(size);
  for (size_t byte = 0; byte <= size; ++byte) {
    e.cn->ByteOffset((uint32_t)byte);
    bool fits = byte * 8 + bit + n <= size * 8;
    auto one = [&](const Bytes& r) {
      c.step();
      double d = 0; bool ok = e.cn->GetChannelValue(r, d);
      if (!fits) { EXPECT(c, !ok, "float-outside", "a field outside the record is delivered as valid"); return; }
      uint64_t w = Want(r, byte, bit, n, be); double want;
      if (n == 16) want = Half((uint16_t)w); else if (n == 32) { uint32_t x = (uint32_t)w; float f; memcpy(&f, &x, 4); want = f; } else memcpy(&want, &w, 8);
      EXPECT(c, ok && (d == want || (std::isnan(d) && std::isnan(want))) && std::signbit(d) == std::signbit(want), "float-value", "byte " << byte << " record " << mc::Hex(r.data(), r.size()) << ": " << d << " expected " << want);
      uint64_t u; memcpy(&u, &d, 8); h = h * 31 + u;
    };
    for (auto& r : pats) one(r);
    if (n == 16 && bit == 0 && byte < 3) for (uint32_t v = 0; v < 65536; ++v) { Bytes r(size, 0); r[byte + be] = (uint8_t)v; r[byte + 1 - be] = (uint8_t)(v >> 8); one(r); }  // every half float
  }
  c.outcome(h ^ n ^ (bit << 8) ^ (be << 7) ^ mdf3);
}

// Complete files: several fields share a record, made by the independent builder, read by the reader.
static void Files(mc::Ctx& c) {
  size_t n1 = c.pick(std::vector<size_t>{1, 3, 8, 13, 31, 33, 64}), n2 = c.pick(std::vector<size_t>{1, 5, 12, 16, 29, 63}); size_t gap = c.choose(9); size_t be = c.choose(2), sg = c.choose(4);
  if (!c.mine()) return;
  std::ostringstream t; t << "fields of " << n1 << " and " << n2 << " bits, gap " << gap << " be=" << be << " signed=" << sg; c.describe(t.str());
  size_t s1 = 3, s2 = s1 + n1 + gap;
  if (be) s2 = (s2 + 7) / 8 * 8 + gap % 8;  // Motorola fields of a record must not share a byte here
  size_t bytes = (s2 % 8 + n2 + 7) / 8 + s2 / 8;
  b4::File f; uint64_t hd = f.Hd(kStart), dg = f.Dg(0), cg = f.Cg(0, 5, 0, (uint32_t)bytes, 0, "g");
  f.Link(hd, 0, dg); f.Link(dg, 1, cg);
  uint64_t a = f.Cn(0, 0, (uint8_t)(2 * (sg & 1) + be), s1 % 8, (uint32_t)(s1 / 8), (uint32_t)n1, 0, 0, "a");
  uint64_t b = f.Cn(0, 0, (uint8_t)(2 * (sg >> 1) + be), (uint8_t)(s2 % 8), (uint32_t)(s2 / 8), (uint32_t)n2, 0, 0, "b");
  f.Link(cg, 1, a); f.Link(a, 0, b);
  Bytes stream; for (size_t k = 0; k < 5 * bytes; ++k) stream.push_back(k / bytes == 0 ? 0xFF : k / bytes == 1 ? 0 : (uint8_t)Mix(k + n1 * 77));
  f.Link(dg, 2, f.Block("DT", {}, stream));
  MdfReader r(std::static_pointer_cast<std::streambuf>(std::make_shared<MemDev>(f.f)));
  EXPECT(c, r.IsOk() && r.ReadEverythingButData(), "file-open", "file cannot be opened");
  auto* g = r.GetHeader()->DataGroups()[0]; auto* gr = g->ChannelGroups()[0];
  auto oa = CreateChannelObserver(*g, *gr, *gr->Channels()[0]), ob = CreateChannelObserver(*g, *gr, *gr->Channels()[1]);
  EXPECT(c, r.ReadData(*g), "file-read", "ReadData failed");
  uint64_t h = 0;
  for (size_t k = 0; k < 5; ++k) {
    Bytes rec(stream.begin() + (long)(k * bytes), stream.begin() + (long)((k + 1) * bytes));
    for (int ch = 0; ch < 2; ++ch) {
      size_t s = ch ? s2 : s1, n = ch ? n2 : n1; bool si = ch ? sg >> 1 : sg & 1;
      uint64_t w = Want(rec, s / 8, s % 8, n, be); int64_t wi = Sign(w, n);
      auto& o = ch ? *ob : *oa;
      uint64_t u = 0; int64_t i = 0;
      bool ok = si ? o.GetChannelValue(k, i) : o.GetChannelValue(k, u);
      EXPECT(c, ok && (si ? i == wi : u == w), "file-value", "field " << ch << " sample " << k << ": " << (si ? std::to_string(i) : std::to_string(u)) << " expected " << (si ? std::to_string(wi) : std::to_string(w)));
      h = h * 31 + (si ? (uint64_t)i : u); c.step();
    }
  }
  c.outcome(h);
}

int main(int argc, char** argv) { return mc::Main(argc, argv, "C24", {{"integers", Integers}, {"floats", Floats}, {"files", Files}}); }
