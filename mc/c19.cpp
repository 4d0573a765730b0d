// C19: embedded attachments export byte-identically.
#include <cstdio>
#include <fstream>
#include <filesystem>
#include <sys/resource.h>
#include "rec.h"
#include "mdf/iattachment.h"
using namespace rec;
namespace fs = std::filesystem;

static Bytes Content(size_t n, size_t kind) {
  Bytes b(n);
  uint64_t x = 0x9E3779B97F4A7C15ull + n;
  for (size_t k = 0; k < n; ++k) {
    switch (kind) {
      case 0: b[k] = 0; break;
      case 1: b[k] = 0xFF; break;
      case 2: x ^= x << 13; x ^= x >> 7; x ^= x << 17; b[k] = (uint8_t)(x >> 24); break;
      default: b[k] = "line of text\r\n\x1a"[k % 15]; break;
    }
  }
  return b;
}
// independent MD5 (RFC 1321)
static std::string Md5(const Bytes& in) {
  static const uint32_t s[64] = {7,12,17,22,7,12,17,22,7,12,17,22,7,12,17,22,5,9,14,20,5,9,14,20,5,9,14,20,5,9,14,20,4,11,16,23,4,11,16,23,4,11,16,23,4,11,16,23,6,10,15,21,6,10,15,21,6,10,15,21,6,10,15,21};
  uint32_t K[64];
  for (int i = 0; i < 64; ++i) K[i] = (uint32_t)(fabs(sin((double)(i + 1))) * 4294967296.0);
  Bytes m(in);
  uint64_t bits = (uint64_t)in.size() * 8;
  m.push_back(0x80);
  while (m.size() % 64 != 56) m.push_back(0);
  for (int i = 0; i < 8; ++i) m.push_back((uint8_t)(bits >> (8 * i)));
  uint32_t a0 = 0x67452301, b0 = 0xefcdab89, c0 = 0x98badcfe, d0 = 0x10325476;
  for (size_t o = 0; o < m.size(); o += 64) {
    uint32_t M[16];
    memcpy(M, &m[o], 64);
    uint32_t A = a0, B = b0, C = c0, D = d0;
    for (int i = 0; i < 64; ++i) {
      uint32_t F; int g;
      if (i < 16) { F = (B & C) | (~B & D); g = i; }
      else if (i < 32) { F = (D & B) | (~D & C); g = (5 * i + 1) % 16; }
      else if (i < 48) { F = B ^ C ^ D; g = (3 * i + 5) % 16; }
      else { F = C ^ (B | ~D); g = (7 * i) % 16; }
      F += A + K[i] + M[g]; A = D; D = C; C = B; B += (F << s[i]) | (F >> (32 - s[i]));
    }
    a0 += A; b0 += B; c0 += C; d0 += D;
  }
  uint32_t r[4] = {a0, b0, c0, d0};
  std::string h = mc::Hex(r, 16);
  for (auto& ch : h) ch = (char)toupper(ch);
  h.erase(std::remove(h.begin(), h.end(), ' '), h.end());
  return h;
}

struct At { size_t size, kind; bool embed, zip; std::string name, type, comment; uint16_t creator = 0; };

static void WriteFile(const std::string& fn, const Bytes& b) { std::ofstream f(fn, std::ios::binary | std::ios::trunc); f.write((const char*)b.data(), (std::streamsize)b.size()); }
static Bytes ReadFile(const std::string& fn) { std::ifstream f(fn, std::ios::binary); return Bytes((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>()); }

static void Run(mc::Ctx& c, const std::vector<At>& ats, bool file_device, bool with_data) {
  std::string dir = mc::Scratch() + "/at";
  fs::remove_all(dir); fs::create_directories(dir);
  std::vector<Bytes> want; std::vector<std::string> names;
  for (size_t k = 0; k < ats.size(); ++k) {
    want.push_back(Content(ats[k].size, ats[k].kind));
    names.push_back(dir + "/" + (ats[k].name.empty() ? "src" + std::to_string(k) + ".bin" : ats[k].name));
    WriteFile(names.back(), want.back());
  }
  Spec s; Group g; g.ch = {MasterTime(), Ch(ChannelDataType::UnsignedIntegerLe, 4)}; if (with_data) s.dgs = {{g}};
  auto w = NewWriter(s);
  auto dev = std::make_shared<MemDev>();
  std::string mf = dir + "/file.mf4";
  if (file_device) EXPECT(c, w->Init(mf), "at-init", ""); else EXPECT(c, w->Init(std::static_pointer_cast<std::streambuf>(dev)), "at-init", "");
  auto l = Configure(*w, s);
  auto* hd = w->Header();
  for (size_t k = 0; k < ats.size(); ++k) {
    auto* a = hd->CreateAttachment();
    a->FileName(names[k]); a->IsEmbedded(ats[k].embed); a->IsCompressed(ats[k].zip); a->FileType(ats[k].type); a->CreatorIndex(ats[k].creator);
    if (!ats[k].comment.empty()) { AtComment cm; cm.Comment(MdString(ats[k].comment)); a->SetAtComment(cm); }
  }
  EXPECT(c, w->InitMeasurement(), "at-initmeas", "");
  w->StartMeasurement(kStart);
  if (with_data) for (size_t k = 0; k < 3; ++k) { l.cn[0][0][1]->SetChannelValue((uint32_t)(k + 1)); w->SaveSample(*l.dg[0], *l.cg[0][0], kStart + k); }
  w->StopMeasurement(kStart + 10);
  EXPECT(c, w->FinalizeMeasurement(), "at-finalize", "");
  w.reset();
  // the originals of the embedded files are not needed any more
  for (size_t k = 0; k < ats.size(); ++k) if (ats[k].embed) fs::remove(names[k]);
  std::unique_ptr<MdfReader> r;
  if (file_device) r = std::make_unique<MdfReader>(mf); else r = std::make_unique<MdfReader>(std::static_pointer_cast<std::streambuf>(std::make_shared<MemDev>(dev->data)));
  EXPECT(c, r->IsOk() && r->ReadEverythingButData(), "at-open", "could not read");
  auto list = r->GetHeader()->Attachments();
  EXPECT(c, list.size() == ats.size(), "at-count", "attachments " << list.size() << " expected " << ats.size());
  uint64_t h = 0;
  for (size_t i = 0; i < 2 * ats.size(); ++i) {  // forward to file, then backward to a stream
    size_t k = i < ats.size() ? i : 2 * ats.size() - 1 - i;
    const auto* a = list[k];
    auto w8 = [&](const char* f) { return std::string("attachment ") + std::to_string(k) + " " + f; };
    EXPECT(c, a->FileName() == names[k], "at-name", w8("name") << " " << a->FileName());
    EXPECT(c, a->FileType() == ats[k].type, "at-type", w8("type") << " " << a->FileType());
    EXPECT(c, a->IsEmbedded() == ats[k].embed && a->IsCompressed() == ats[k].zip, "at-flags", w8("flags"));
    EXPECT(c, a->CreatorIndex() == ats[k].creator, "at-creator", w8("creator index") << " " << a->CreatorIndex());
    EXPECT(c, a->OriginalSize() == want[k].size(), "at-size", w8("size") << " " << a->OriginalSize() << " expected " << want[k].size());
    auto md5 = a->Md5();
    EXPECT(c, md5.has_value() && *md5 == Md5(want[k]), "at-md5", w8("md5") << " " << md5.value_or("none") << " expected " << Md5(want[k]));
    if (!ats[k].comment.empty()) { AtComment cm; a->GetAtComment(cm); EXPECT(c, cm.Comment().Text() == ats[k].comment, "at-comment", w8("comment") << " '" << cm.Comment().Text() << "'"); }
    Bytes got;
    if (i < ats.size()) {
      std::string out = dir + "/out" + std::to_string(k);
      WriteFile(out, Bytes(50, 'x'));
      EXPECT(c, r->ExportAttachmentData(*a, out), "at-export", w8("export to file failed"));
      got = ReadFile(out);
    } else if (ats[k].embed) {
      MemDev out;
      EXPECT(c, r->ExportAttachmentData(*a, out), "at-export", w8("export to stream failed"));
      got = out.data;
    } else continue;
    c.step();
    size_t d = 0; while (d < got.size() && d < want[k].size() && got[d] == want[k][d]) ++d;
    EXPECT(c, got == want[k], "at-content", w8("content") << ": " << got.size() << " bytes expected " << want[k].size() << ", first difference at " << d);
    h = mc::Hash(got.data(), got.size(), h + ats[k].zip * 2 + ats[k].embed);
  }
  if (with_data) {
    auto* dg = r->GetHeader()->DataGroups()[0]; auto* cg = dg->ChannelGroups()[0];
    auto ob = CreateChannelObserver(*dg, *cg, *cg->Channels()[1]);
    EXPECT(c, r->ReadData(*dg) && ob->NofSamples() == 3, "at-data", "samples lost");
    for (size_t k = 0; k < 3; ++k) { uint32_t v = 0; ob->GetChannelValue(k, v); EXPECT(c, v == k + 1, "at-data", "sample wrong"); }
  }
  r.reset();
  fs::remove_all(dir);
  c.outcome(h);
}

static void Sizes(mc::Ctx& c) {
  std::vector<size_t> sz;
  for (size_t k = 0; k <= 130; ++k) sz.push_back(k);
  for (size_t m : {256u, 4096u, 8192u, 10000u, 16384u, 20000u, 32768u, 65536u}) for (int d = -2; d <= 2; ++d) sz.push_back(m + d);
  for (size_t m : {200000u, 300000u, 500000u, 1000000u, 3000000u, 5000000u}) sz.push_back(m);
  for (size_t b = 17; b <= 22; ++b) for (int d = -1; d <= 1; ++d) sz.push_back(((size_t)1 << b) + (size_t)d);
  size_t n = c.pick(sz);
  size_t kind = c.choose(4);
  if (!c.thorough && n > 100000 && (kind % 2 || (kind == 0 && n % 2))) return;
  bool zip = c.flag();
  bool file = n % 16 == 1;
  if (!c.mine()) return;
  c.describe("size=" + std::to_string(n) + " content=" + std::to_string(kind) + " compressed=" + std::to_string(zip));
  Run(c, {{n, kind, true, zip, "", "application/octet-stream", "comment"}}, file, true);
}

static void Lists(mc::Ctx& c) {
  static const std::vector<At> al = {{0, 2, true, false, "", "text/plain", ""}, {0, 2, true, true, "", "", "empty & <compressed>"}, {5, 3, true, false, "", "text/x", "c"}, {3000, 2, true, true, "", "application/x", ""},
                                     {700, 3, false, false, "", "", "external"}, {64, 1, true, true, "n\xC3\xA4me.txt", "a/b", ""}};
  size_t n = c.choose(c.thorough ? 5 : 4);
  std::vector<At> a;
  for (size_t k = 0; k < n; ++k) a.push_back(al[c.choose(al.size())]);
  bool file = c.flag(), data = c.flag();
  std::set<std::string> names;
  for (size_t k = 0; k < n; ++k) { a[k].creator = (uint16_t)(k * 300); if (!a[k].name.empty()) a[k].name = std::to_string(k) + a[k].name; }
  if (!c.mine()) return;
  std::ostringstream t; t << "file=" << file << " data=" << data << " list="; for (auto& x : a) t << x.size << (x.embed ? "e" : "x") << (x.zip ? "z" : "") << ","; c.describe(t.str());
  Run(c, a, file, data);
}

// more attachments than file handles
static void Many(mc::Ctx& c) {
  bool zip = c.flag(), embed = c.flag();
  size_t n = c.pick(std::vector<size_t>{1, 40, 200});
  if (!c.mine()) return;
  std::ostringstream t; t << "many attachments: n=" << n << " zip=" << zip << " embed=" << embed; c.describe(t.str());
  rlimit old{}, low{};
  getrlimit(RLIMIT_NOFILE, &old);
  low = old; low.rlim_cur = 100;
  setrlimit(RLIMIT_NOFILE, &low);
  std::vector<At> a;
  for (size_t k = 0; k < n; ++k) a.push_back({k % 9 + 1, k % 4, embed, zip && embed, "", "", ""});
  struct Restore { rlimit r; ~Restore() { setrlimit(RLIMIT_NOFILE, &r); } } restore{old};
  Run(c, a, false, false);
}

int main(int argc, char** argv) {
  return mc::Main(argc, argv, "C19", {{"sizes", Sizes, 2, 3, 60}, {"lists", Lists}, {"many", Many}});
}
