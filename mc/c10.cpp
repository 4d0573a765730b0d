// C10: reading does not depend on how the data section is split in blocks. The files are made by an independent builder.
#include <map>
#include "rec.h"
#include "build4.h"
using namespace rec;
using b4::Layout;

struct Group10 { std::vector<uint64_t> a; std::vector<uint64_t> b; std::vector<Bytes> v; bool vl = false; };

struct Image {
  std::vector<uint8_t> file;
  std::vector<Group10> g;
};

// record of group 0: u16 BE, u8 (, u64 offset of the variable-length value); group 1: u32 LE
static uint64_t A(size_t g, size_t n) { return g == 0 ? (0x1102 + n * 0x0D07) & 0xFFFF : (0xA1B20304 + n * 0x01010101) & 0xFFFFFFFF; }
static uint64_t B(size_t n) { return (0x35 + n * 29) & 0xFF; }
static Bytes V(size_t n, size_t len) { Bytes b; for (size_t k = 0; k < len; ++k) b.push_back((uint8_t)(0x40 + n * 16 + k)); return b; }

// vl: 0 none, 1 signal data, 2 own group (record id 3)
static Image Build(const std::vector<int>& order, size_t groups, uint8_t id_size, int vl, const std::vector<size_t>& lens, const std::function<Layout(size_t)>& data_layout,
                   const std::function<Layout(size_t)>& sd_layout, bool ld = false) {
  Image im; im.g.resize(groups);
  Bytes st, sd; uint64_t cg_off = 0; size_t nv = 0;
  auto id = [&](uint64_t r) { for (int k = 0; k < id_size; ++k) st.push_back((uint8_t)(r >> (8 * k))); };
  for (auto g : order) {
    auto& gr = im.g[(size_t)g];
    size_t n = gr.a.size();
    gr.a.push_back(A((size_t)g, n));
    if (g == 0) {
      gr.b.push_back(B(n));
      uint64_t off = 0;
      Bytes val;
      if (vl) { val = V(n, lens[n % lens.size()]); gr.v.push_back(val); gr.vl = true; }
      if (vl == 1) { off = sd.size(); b4::Le<uint32_t>(sd, (uint32_t)val.size()); sd.insert(sd.end(), val.begin(), val.end()); }
      if (vl == 2) { off = cg_off; }
      id(1);
      st.push_back((uint8_t)(gr.a.back() >> 8)); st.push_back((uint8_t)gr.a.back()); st.push_back((uint8_t)gr.b.back());
      if (vl) b4::Le<uint64_t>(st, off);
      if (vl == 2) { id(3); b4::Le<uint32_t>(st, (uint32_t)val.size()); st.insert(st.end(), val.begin(), val.end()); cg_off += 4 + val.size(); ++nv; }
    } else { id(2); b4::Le<uint32_t>(st, (uint32_t)gr.a.back()); }
  }
  b4::File f(ld ? 420 : 410);
  uint64_t hd = f.Hd(kStart);
  uint64_t dg = f.Dg(id_size);
  f.Link(hd, 0, dg);
  uint64_t cg0 = f.Cg(1, im.g[0].a.size(), 0, vl ? 11 : 3, 0, "G0");
  f.Link(dg, 1, cg0);
  uint64_t a = f.Cn(0, 0, 1, 0, 0, 16, 0, 0, "a"), b = f.Cn(0, 0, 0, 0, 2, 8, 0, 0, "b");
  f.Link(cg0, 1, a); f.Link(a, 0, b);
  uint64_t vc = 0, last = cg0;
  if (vl) { vc = f.Cn(1, 0, 10, 0, 3, 64, 0, 0, "v"); f.Link(b, 0, vc); }
  if (groups > 1) { uint64_t cg1 = f.Cg(2, im.g[1].a.size(), 0, 4, 0, "G1"); f.Link(last, 0, cg1); last = cg1; f.Link(cg1, 1, f.Cn(0, 0, 0, 0, 0, 32, 0, 0, "a")); }
  if (vl == 2) { uint64_t total = cg_off - 4 * nv; uint64_t cg2 = f.Cg(3, nv, 1, (uint32_t)total, (uint32_t)(total >> 32), ""); f.Link(last, 0, cg2); f.Link(vc, 5, cg2); }
  if (vl == 1 && !sd.empty()) f.Link(vc, 5, b4::PutData(f, sd, "SD", sd_layout(sd.size())));
  if (!st.empty()) f.Link(dg, 2, b4::PutData(f, st, ld ? "DV" : "DT", data_layout(st.size())));
  im.file = f.f;
  return im;
}

static size_t StreamSize(const std::vector<int>& order, uint8_t id_size, int vl, const std::vector<size_t>& lens, bool sd) {
  size_t n = 0, s = 0, k = 0;
  for (auto g : order) { if (g == 0) { size_t l = lens.empty() ? 0 : lens[k++ % lens.size()]; n += id_size + 3 + (vl ? 8 : 0) + (vl == 2 ? id_size + 4 + l : 0); s += 4 + l; } else n += id_size + 4; }
  return sd ? s : n;
}

// the range of a partial read counts samples from one (ReadPartialData(dg, 0, 1) and (1, 1) read the first sample)
// sub: bit mask of subscribed channels (0 a, 1 b, 2 v, 3 a of group 1); lo/hi: sample range or full read
static void CheckRead(mc::Ctx& c, MdfReader& r, const Image& im, unsigned sub, bool part, size_t lo, size_t hi, std::string& out) {
  auto* dg = r.GetHeader()->DataGroups()[0];
  std::vector<ChannelObserverPtr> ob(4);
  auto cgs = dg->ChannelGroups();
  for (size_t k = 0; k < 4; ++k) if (sub >> k & 1) {
    size_t g = k == 3 ? 1 : 0;
    if (g >= im.g.size() || (k == 2 && !im.g[0].vl)) continue;
    auto* cn = cgs[g]->GetChannel(k == 1 ? "b" : k == 2 ? "v" : "a");
    EXPECT(c, cn != nullptr, "channel", "channel missing");
    ob[k] = CreateChannelObserver(*dg, *cgs[g], *cn);
  }
  EXPECT(c, part ? r.ReadPartialData(*dg, lo + 1, hi + 1) : r.ReadData(*dg), "read", "read failed");
  for (size_t k = 0; k < 4; ++k) if (ob[k]) {
    auto& g = im.g[k == 3 ? 1 : 0];
    EXPECT(c, ob[k]->NofSamples() == g.a.size(), "count", "samples " << ob[k]->NofSamples() << " expected " << g.a.size());
    for (size_t n = 0; n < g.a.size(); ++n) {
      if (part && (n < lo || n > hi)) continue;
      c.step();
      if (k == 2) {
        Bytes got; bool ok = ob[k]->GetChannelValue(n, got);
        EXPECT(c, ok && got == g.v[n], "vlsd-value", "v[" << n << "] = " << mc::Hex(got.data(), got.size()) << " valid " << ok << " expected " << mc::Hex(g.v[n].data(), g.v[n].size()) << " sub " << sub << " partial " << part);
        out += (char)mc::Hash(got.data(), got.size());
      } else {
        uint64_t got = 0; bool ok = ob[k]->GetChannelValue(n, got); uint64_t want = k == 1 ? g.b[n] : g.a[n];
        EXPECT(c, ok && got == want, "value", (k == 3 ? "G1.a" : k == 1 ? "G0.b" : "G0.a") << "[" << n << "] = " << got << " valid " << ok << " expected " << want << " sub " << sub << " partial " << part << " " << lo << "-" << hi);
        out += std::to_string(got) + ",";
      }
    }
  }
}

static void CheckAll(mc::Ctx& c, const Image& im, const std::string& text) {
  c.describe(text);
  MdfReader r(std::static_pointer_cast<std::streambuf>(std::make_shared<MemDev>(im.file)));
  EXPECT(c, r.IsOk() && r.ReadEverythingButData(), "open", "cannot open");
  std::string out = text;
  CheckRead(c, r, im, 15, false, 0, 0, out);
  for (unsigned s : {1u, 2u, 4u, 8u}) { if ((s == 8 && im.g.size() < 2) || (s == 4 && !im.g[0].vl)) continue; CheckRead(c, r, im, s, false, 0, 0, out); }
  size_t n = im.g[0].a.size();
  if (n > 1) CheckRead(c, r, im, 15, true, n - 1, n - 1, out);
  if (n > 2) CheckRead(c, r, im, 15, true, 1, n - 2, out);
  if (im.g[0].vl && n) {
    auto* dg = r.GetHeader()->DataGroups()[0]; auto* cg = dg->ChannelGroups()[0]; auto* cn = cg->GetChannel("v");
    std::vector<uint64_t> off;
    { auto ob = CreateChannelObserver(*dg, *cg, *cn); ob->ReadVlsdData(false); EXPECT(c, r.ReadData(*dg), "read", "read failed"); off = ob->GetOffsetList(); }
    EXPECT(c, off.size() == n, "offsets", "offset list has " << off.size());
    for (size_t mask = 0; mask < ((size_t)1 << std::min<size_t>(n, 4)); ++mask) {
      std::map<uint64_t, Bytes> m; std::vector<uint64_t> list;
      for (size_t k = 0; k < n; ++k) if (mask >> k & 1) list.push_back(off[k]);
      std::function<void(uint64_t, const Bytes&)> cb = [&](uint64_t o, const Bytes& v) { m[o] = v; };
      EXPECT(c, r.ReadVlsdData(*dg, *cn, list, cb), "vlsd-read", "ReadVlsdData failed");
      for (size_t k = 0; k < n; ++k) if (mask == 0 || (mask >> k & 1)) EXPECT(c, m.count(off[k]) && m[off[k]] == im.g[0].v[k], "vlsd-offset", "value " << k << " by offset " << off[k] << " wrong or missing, requested " << mask);
    }
  }
  c.outcome(out);
}

static const std::vector<std::vector<int>>& Encs() {
  static const std::vector<std::vector<int>> e = {{0}, {1}, {3}, {0, 1}, {2, 0}, {1, 5}, {3, 0, 1}};
  return e;
}
static Layout PickForm(mc::Ctx& c, size_t size, Layout l) {
  l.enc = Encs()[c.choose(Encs().size())];
  size_t f = c.choose(5);  // DL, HL+DL, chained DLs of 1 / 2, HL + chained
  l.head = f == 1 || f == 4 ? 2 : 1; l.per_dl = f == 2 ? 1 : f == 3 || f == 4 ? 2 : 0;
  if (b4::EqualOk(size, l)) l.equal = c.flag();
  return l;
}
static Layout Direct(size_t = 0) { return Layout(); }

// every subset of cut positions of a short sorted stream
static void Subsets(mc::Ctx& c) {
  size_t recs = c.choose(c.thorough ? 5 : 4) + 1;
  size_t size = recs * 3;
  Layout l;
  for (size_t k = 1; k < size; ++k) if (c.choose(2)) l.cuts.push_back(k);
  l = PickForm(c, size, l);
  if (!c.mine()) return;
  CheckAll(c, Build(std::vector<int>(recs, 0), 1, 0, 0, {}, [&](size_t) { return l; }, Direct), "sorted records=" + std::to_string(recs) + " " + b4::Show(l));
}

// one direct block of every encoding, DZ directly under the data group, and empty data sections
static void Single(mc::Ctx& c) {
  size_t recs = c.choose(9); int enc = (int)c.choose(13); size_t head = c.choose(3); int vl = (int)c.choose(3); bool times = head && c.flag();
  uint8_t ids = vl == 2 ? 1 : (uint8_t)(c.choose(2));
  if (!c.mine()) return;
  Layout l; l.enc = {enc}; l.head = (int)head; l.times = times;
  CheckAll(c, Build(std::vector<int>(recs, 0), 1, ids, vl, {3, 0, 5}, [&](size_t) { return l; }, [&](size_t) { return l; }), "single records=" + std::to_string(recs) + " vl=" + std::to_string(vl) + " id=" + std::to_string(ids) + " " + b4::Show(l));
}

// unsorted stream: every set of <= 2 (3) cuts, every record id size, every interleaving of 4 records
static void Unsorted(mc::Ctx& c) {
  int vl = (int)c.choose(3); uint8_t ids = (uint8_t)(1u << c.choose(4));
  size_t n = c.thorough ? 4 : 3;
  std::vector<int> order;
  for (size_t k = 0; k < n; ++k) order.push_back((int)c.choose(2));
  std::vector<size_t> lens = {2, 0, 5};
  size_t size = StreamSize(order, ids, vl, lens, false);
  size_t ncut = c.choose(3);
  Layout l; size_t prev = 0;
  for (size_t k = 0; k < ncut; ++k) { if (prev + 1 >= size) return; size_t p = prev + 1 + c.choose(size - prev - 1); l.cuts.push_back(p); prev = p; }
  size_t e = c.choose(3); l.enc = e == 0 ? std::vector<int>{0} : e == 1 ? std::vector<int>{1} : std::vector<int>{7, 0};
  l.head = 1; l.per_dl = c.thorough ? c.choose(2) : ncut % 2;
  if (!c.mine()) return;
  std::ostringstream t; t << "unsorted vl=" << vl << " id=" << (int)ids << " order="; for (auto o : order) t << o; t << " " << b4::Show(l);
  CheckAll(c, Build(order, 2, ids, vl, lens, [&](size_t) { return l; }, Direct), t.str());
}

// signal data: every subset of cuts
static void Signal(mc::Ctx& c) {
  size_t pat = c.choose(4);
  static const std::vector<std::vector<size_t>> L = {{2, 0}, {0, 1}, {1, 3}, {0, 0}};
  std::vector<int> order(c.thorough ? 3 : 2, 0);
  size_t size = StreamSize(order, 0, 1, L[pat], true);
  Layout l;
  for (size_t k = 1; k < size; ++k) if (c.choose(2)) l.cuts.push_back(k);
  size_t e = c.choose(3); l.enc = e == 0 ? std::vector<int>{0} : e == 1 ? std::vector<int>{1} : std::vector<int>{0, 3, 1};
  size_t f = c.choose(3); l.head = f == 1 ? 2 : 1; l.per_dl = f == 2 ? 2 : 0;
  if (b4::EqualOk(size, l)) l.equal = true;
  if (!c.mine()) return;
  CheckAll(c, Build(order, 1, 0, 1, L[pat], Direct, [&](size_t) { return l; }), "signal pattern=" + std::to_string(pat) + " " + b4::Show(l));
}

// empty blocks anywhere in the list
static void Empty(mc::Ctx& c) {
  int vl = (int)c.choose(3); uint8_t ids = (uint8_t)(vl == 2 || c.flag() ? 1 : 0);
  std::vector<int> order = ids ? std::vector<int>{0, 1, 0} : std::vector<int>{0, 0};
  std::vector<size_t> lens = {2, 3, 0};
  bool on_sd = vl == 1 && c.flag();
  size_t size = StreamSize(order, ids, vl, lens, on_sd);
  size_t p = c.choose(size + 1), q = c.choose(2) ? p : size / 2;
  size_t times = 1 + c.choose(3), e = c.choose(3), f = c.choose(3);
  if (!c.mine()) return;
  Layout l;
  for (size_t k = 0; k < times + (q == p ? 1 : 0); ++k) l.cuts.push_back(p);
  if (q != p) l.cuts.push_back(q);
  std::sort(l.cuts.begin(), l.cuts.end());
  l.enc = e == 0 ? std::vector<int>{0} : e == 1 ? std::vector<int>{1} : std::vector<int>{0, 3};
  l.head = f == 1 ? 2 : 1; l.per_dl = f == 2 ? 1 : 0;
  CheckAll(c, Build(order, ids ? 2 : 1, ids, vl, lens, [&](size_t) { return on_sd ? Layout() : l; }, [&](size_t) { return on_sd ? l : Layout(); }),
           "empty vl=" + std::to_string(vl) + " sd=" + std::to_string(on_sd) + " " + b4::Show(l));
}

// longer streams, all block sizes as equal-length lists
static void Sizes(mc::Ctx& c) {
  size_t recs = c.pick(std::vector<size_t>{7, 50, c.thorough ? 400u : 120u});
  int vl = (int)c.choose(3); uint8_t ids = (uint8_t)(vl == 2 || c.flag() ? 2 : 0);
  bool on_sd = vl == 1 && c.flag();
  std::vector<int> order; for (size_t k = 0; k < recs; ++k) order.push_back(ids && k % 3 == 1 ? 1 : 0);
  std::vector<size_t> lens = {2, 0, 7, 1};
  size_t size = StreamSize(order, ids, vl, lens, on_sd);
  size_t step = 1 + c.choose(std::min<size_t>(size, c.thorough || recs == 7 ? 40 : recs == 50 ? 20 : 12));
  Layout l = PickForm(c, 0, Layout());
  if (!c.mine()) return;
  for (size_t p = step; p < size; p += step) l.cuts.push_back(p);
  l.equal = l.head == 2;
  CheckAll(c, Build(order, ids ? 2 : 1, ids, vl, lens, [&](size_t) { return on_sd ? Layout() : l; }, [&](size_t) { return on_sd ? l : Layout(); }),
           "sizes recs=" + std::to_string(recs) + " vl=" + std::to_string(vl) + " sd=" + std::to_string(on_sd) + " step=" + std::to_string(step) + " " + b4::Show(Layout{{}, l.enc, l.head, l.per_dl, l.equal}));
}

// list data (LD + DV) cut at records
static void ListData(mc::Ctx& c) {
  size_t recs = 1 + c.choose(6);
  Layout l; l.ld = true; l.rec = 3;
  for (size_t k = 1; k < recs; ++k) if (c.choose(2)) l.cuts.push_back(k * 3);
  l.enc = Encs()[c.choose(Encs().size())];
  size_t f = c.choose(3); l.head = f == 1 ? 2 : 1; l.per_dl = f == 2 ? 2 : 0;
  if (b4::EqualOk(recs * 3, l)) l.equal = c.flag();
  l.times = c.flag();
  if (!c.mine()) return;
  CheckAll(c, Build(std::vector<int>(recs, 0), 1, 0, 0, {}, [&](size_t) { return l; }, Direct, true), "ld records=" + std::to_string(recs) + " " + b4::Show(l));
}

int main(int argc, char** argv) {
  return mc::Main(argc, argv, "C10", {{"subsets", Subsets}, {"single", Single}, {"unsorted", Unsorted}, {"signal", Signal}, {"empty", Empty}, {"sizes", Sizes}, {"listdata", ListData}});
}
