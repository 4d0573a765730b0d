// C11: compression is lossless and transparent.
#include <cstdio>
#include <fstream>
#include "rec.h"
#include "flushctl.h"
#include "mdf/zlibutil.h"
using namespace rec;

static Bytes Content(size_t n, size_t kind) {
  Bytes b(n);
  uint64_t x = 0x9E3779B97F4A7C15ull;
  for (size_t k = 0; k < n; ++k) {
    switch (kind) {
      case 0: b[k] = 0; break;
      case 1: b[k] = (uint8_t)(k % 7); break;
      case 2: x ^= x << 13; x ^= x >> 7; x ^= x << 17; b[k] = (uint8_t)(x >> 24); break;
      default: if (k % 50 < 25) { b[k] = (uint8_t)(k / 50); } else { x ^= x << 13; x ^= x >> 7; x ^= x << 17; b[k] = (uint8_t)(x >> 24); }
    }
  }
  return b;
}

static void Same(mc::Ctx& c, const Bytes& got, const Bytes& want, const char* how) {
  c.step();
  if (got == want) return;
  size_t k = 0;
  while (k < got.size() && k < want.size() && got[k] == want[k]) ++k;
  EXPECT(c, false, "zip-content", how << ": " << got.size() << " bytes expected " << want.size() << ", first difference at " << k);
}

static void AllWays(mc::Ctx& c, const Bytes& in, bool tail_all) {
  std::vector<std::pair<std::string, Bytes>> z;
  auto add = [&](const std::string& name, bool ok, const Bytes& b) { EXPECT(c, ok, "zip-deflate", name << ": returned false"); z.push_back({name, b}); };
  { Bytes o; bool ok = Deflate(in, o); add("Deflate(array)", ok, o); }
  { Bytes o(in.size(), 0xAA); bool ok = Deflate(in, o); add("Deflate(array, same size)", ok, o); }
  { Bytes o(in.size() + 1000, 0xAA); bool ok = Deflate(in, o); add("Deflate(array, larger)", ok, o); }
  { Bytes o(1, 0xAA); bool ok = Deflate(in, o); add("Deflate(array, 1 byte)", ok, o); }
  { MemDev i(in), o; bool ok = Deflate(i, o); add("Deflate(stream)", ok, o.data); }
  std::string fn = mc::Scratch() + "/zip.bin";
  { FILE* f = fopen(fn.c_str(), "wb"); EXPECT(c, f, "scratch", "cannot write " << fn); if (!in.empty()) fwrite(in.data(), 1, in.size(), f); fclose(f); }
  { Bytes o; bool ok = Deflate(fn, o); add("Deflate(file)", ok, o); }
  uint64_t h = 0;
  for (auto& [name, zb] : z) {
    h = mc::Hash(zb.data(), zb.size(), h + 1);
    if (!in.empty()) { Bytes o(in.size(), 0); EXPECT(c, Inflate(zb, o), "zip-inflate", name << " -> Inflate(array) returned false"); Same(c, o, in, (name + " -> Inflate(array)").c_str()); }
    { Bytes o(in.size() + 77, 0x55); EXPECT(c, Inflate(zb, o), "zip-inflate", name << " -> Inflate(larger array) returned false"); Same(c, o, in, (name + " -> Inflate(larger array)").c_str()); }
    { MemDev o; EXPECT(c, Inflate(zb, o), "zip-inflate", name << " -> Inflate(array, stream) returned false"); Same(c, o.data, in, (name + " -> Inflate(array, stream)").c_str()); }
    { MemDev i(zb), o; EXPECT(c, Inflate(i, o), "zip-inflate", name << " -> Inflate(stream, stream) returned false"); Same(c, o.data, in, (name + " -> Inflate(stream, stream)").c_str()); }
    for (size_t tail : tail_all ? std::vector<size_t>{0, 1, 40000} : std::vector<size_t>{0, 5}) {
      Bytes zt(zb);
      zt.insert(zt.begin(), 3, 0xEE);
      zt.resize(zt.size() + tail, 0x78);
      MemDev i(zt), o;
      i.pubseekpos(3);
      EXPECT(c, Inflate(i, o, zb.size()), "zip-inflate", name << " -> Inflate(part of stream) returned false");
      Same(c, o.data, in, (name + " -> Inflate(part of stream)").c_str());
    }
  }
  c.outcome(h);
}

static void Sizes(mc::Ctx& c) {
  std::vector<size_t> sz;
  for (size_t k = 0; k <= 140; ++k) sz.push_back(k);
  for (size_t m = 1; m <= (c.thorough ? 12u : 5u); ++m) for (int d = -3; d <= 3; ++d) sz.push_back(16384 * m + d);
  for (size_t m : {250u, 1000u, 4096u, 8192u, 10000u, 32768u, 65536u, 100000u}) for (int d = -1; d <= 1; ++d) sz.push_back(m + d);
  for (size_t k = 0; k < (c.thorough ? 2000u : 200u); ++k) sz.push_back(16384 - 400 + k * 2);
  sz.push_back(4000000); sz.push_back(4u << 20); sz.push_back((4u << 20) + 1);
  size_t n = c.pick(sz);
  size_t kind = c.choose(4);
  if (!c.mine()) return;
  c.describe("size=" + std::to_string(n) + " content=" + std::to_string(kind));
  AllWays(c, Content(n, kind), n < 100000);
}

static void Words(mc::Ctx& c) {
  static const std::vector<uint8_t> al = {0, 1, 0xFF};
  size_t n = c.choose(c.thorough ? 10 : 8);
  Bytes b;
  for (size_t k = 0; k < n; ++k) b.push_back(al[c.choose(al.size())]);
  if (!c.mine()) return;
  c.describe("bytes=" + mc::Hex(b.data(), b.size()));
  AllWays(c, b, false);
}

// transposition: definition, identity both ways
static void Transp(mc::Ctx& c) {
  size_t n = c.choose(c.thorough ? 200 : 90);
  if (!c.mine()) return;
  c.describe("size=" + std::to_string(n));
  Bytes in(n);
  for (size_t k = 0; k < n; ++k) in[k] = (uint8_t)(k * 167 + 13);
  for (size_t rs = 0; rs <= n + 2; ++rs) {
    Bytes want(in);
    if (rs > 0) { size_t rows = n / rs; for (size_t r = 0; r < rows; ++r) for (size_t k = 0; k < rs; ++k) want[k * rows + r] = in[r * rs + k]; }
    Bytes a(in); Transpose(a, rs);
    EXPECT(c, a == want, "transpose", "record size " << rs << ": not the column order");
    Bytes b(a); InvTranspose(b, rs);
    EXPECT(c, b == in, "transpose-inv", "record size " << rs << ": inverse differs");
    Bytes d(in); InvTranspose(d, rs); Transpose(d, rs);
    EXPECT(c, d == in, "transpose-inv2", "record size " << rs << ": transposing the inverse differs");
    c.step(3);
    c.outcome(mc::Hash(a.data(), a.size(), rs));
  }
}

// The same recording with and without compression
static void Recording(mc::Ctx& c) {
  size_t kind = c.choose(4);
  static const std::vector<size_t> recs = {1, 7, 100, 101, 5000, 60000};
  size_t rec_size = c.pick(recs);
  static const std::vector<size_t> totals = {0, 99, 100, 101, 4000, 3999900, 4000000, 4194304, 4200000, 8388608};
  size_t total = c.pick(totals);
  size_t n = (total + rec_size / 2) / rec_size;
  if (n > 60000) return;
  size_t flush = c.choose(2);
  size_t form = c.choose(3);  // fixed, fixed + second group, variable length
  if (form == 2 && total > 4200000 && !c.thorough) return;
  if (!c.thorough && total > 4000 && (kind == 1 || kind == 3)) return;
  if (!c.mine()) return;
  std::ostringstream t; t << "record=" << rec_size << " n=" << n << " content=" << kind << " flush=" << flush << " form=" << form; c.describe(t.str());
  Bytes pool = Content(rec_size * 3 + 1000, kind);
  std::vector<uint8_t> file[2];
  for (int zip = 0; zip < 2; ++zip) {
    Spec s; s.compress = zip != 0;
    Group g; g.ch = {MasterTime(), form == 2 ? Vlsd(ChannelDataType::ByteArray) : Ch(ChannelDataType::ByteArray, (uint32_t)rec_size)};
    Group h; h.ch = {Ch(ChannelDataType::UnsignedIntegerLe, 4)};
    s.dgs = {{g}};
    if (form == 1) s.dgs[0].push_back(h);
    auto w = NewWriter(s);
    auto dev = std::make_shared<MemDev>();
    EXPECT(c, w->Init(std::static_pointer_cast<std::streambuf>(dev)), "rec-init", "");
    auto l = Configure(*w, s);
    EXPECT(c, w->InitMeasurement(), "rec-initmeas", "");
    w->StartMeasurement(kStart);
    for (size_t k = 0; k < n; ++k) {
      size_t off = (k * 7) % (rec_size * 2 + 900);
      Bytes b(pool.begin() + off, pool.begin() + off + rec_size);
      l.cn[0][0][1]->SetChannelValue(b);
      w->SaveSample(*l.dg[0], *l.cg[0][0], kStart + k * 1000);
      if (form == 1 && k % 3 == 1) { l.cn[0][1][0]->SetChannelValue((uint32_t)k); w->SaveSample(*l.dg[0], *l.cg[0][1], kStart + k * 1000); }
      if (flush && k == n / 2) flushctl::Flush();
    }
    w->StopMeasurement(kStart + n * 1000);
    EXPECT(c, w->FinalizeMeasurement(), "rec-finalize", "");
    file[zip] = dev->data;
  }
  MdfReader r0(std::static_pointer_cast<std::streambuf>(std::make_shared<MemDev>(file[0]))), r1(std::static_pointer_cast<std::streambuf>(std::make_shared<MemDev>(file[1])));
  EXPECT(c, r0.ReadEverythingButData() && r1.ReadEverythingButData(), "rec-open", "");
  std::vector<ChannelObserverPtr> ob[2];
  for (int zip = 0; zip < 2; ++zip) {
    auto& r = zip ? r1 : r0;
    auto* dg = r.GetHeader()->DataGroups()[0];
    for (auto* cg : dg->ChannelGroups()) for (auto* cn : cg->Channels()) ob[zip].push_back(CreateChannelObserver(*dg, *cg, *cn));
    EXPECT(c, r.ReadData(*dg), "rec-read", "zip=" << zip << " ReadData failed");
  }
  EXPECT(c, ob[0].size() == ob[1].size(), "rec-channels", "");
  EXPECT(c, ob[0][1]->NofSamples() == n && ob[1][1]->NofSamples() == n, "rec-count", "samples " << ob[0][1]->NofSamples() << " / compressed " << ob[1][1]->NofSamples() << " expected " << n);
  uint64_t h = 0;
  for (size_t k = 0; k < n; ++k) {
    size_t off = (k * 7) % (rec_size * 2 + 900);
    Bytes v0, v1; double t0 = 0, t1 = 0;
    bool a = ob[0][1]->GetChannelValue(k, v0), b = ob[1][1]->GetChannelValue(k, v1);
    ob[0][0]->GetChannelValue(k, t0); ob[1][0]->GetChannelValue(k, t1);
    EXPECT(c, a && b && v0 == v1 && t0 == t1, "rec-value", "sample " << k << " differs between compressed and uncompressed");
    EXPECT(c, v0.size() == rec_size && memcmp(v0.data(), pool.data() + off, rec_size) == 0, "rec-value", "sample " << k << " wrong");
    if (form == 1 && k % 3 == 1) {
      uint64_t u0 = 0, u1 = 0;
      EXPECT(c, ob[0][2]->GetChannelValue(k / 3, u0) && ob[1][2]->GetChannelValue(k / 3, u1) && u0 == k && u1 == k, "rec-value", "second group sample " << k << ": " << u0 << " " << u1);
    }
    c.step();
    h = mc::Hash(v1.data(), v1.size(), h);
  }
  c.outcome(h + n);
}

int main(int argc, char** argv) {
  return mc::Main(argc, argv, "C11", {{"sizes", Sizes, 2, 3, 60}, {"words", Words}, {"transpose", Transp}, {"recording", Recording, 2, 3, 90}});
}
