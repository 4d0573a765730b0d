// C23: channel arrays keep every element.
#include "rec.h"
#include "mdf/ichannelarray.h"
#include "mdf/isampleobserver.h"
using namespace rec;
using Shape = std::vector<uint64_t>;

static std::vector<Shape> Shapes(size_t dims, uint64_t max) {
  std::vector<Shape> all, cur{{}};
  for (size_t d = 0; d < dims; ++d) {
    std::vector<Shape> next;
    for (auto& s : cur) for (uint64_t k = 1; k <= max; ++k) { auto t = s; t.push_back(k); next.push_back(t); }
    all.insert(all.end(), next.begin(), next.end()); cur = next;
  }
  return all;
}
static uint64_t Prod(const Shape& s) { uint64_t p = 1; for (auto x : s) p *= x; return p; }
static std::string Text(const std::vector<Shape>& v) { std::ostringstream o; for (auto& s : v) { o << "("; for (auto x : s) o << x << ","; o << ")"; } return o.str(); }

struct Ty { ChannelDataType dt; uint32_t bytes; };
static const std::vector<Ty> kTy = {{ChannelDataType::UnsignedIntegerLe, 2}, {ChannelDataType::FloatBe, 8}, {ChannelDataType::SignedIntegerBe, 4}, {ChannelDataType::UnsignedIntegerLe, 1}, {ChannelDataType::FloatLe, 4}, {ChannelDataType::SignedIntegerLe, 8},
                                    {ChannelDataType::UnsignedIntegerBe, 1}, {ChannelDataType::UnsignedIntegerBe, 2}, {ChannelDataType::UnsignedIntegerLe, 4}, {ChannelDataType::UnsignedIntegerBe, 4}, {ChannelDataType::UnsignedIntegerLe, 8}, {ChannelDataType::UnsignedIntegerBe, 8},
                                    {ChannelDataType::SignedIntegerLe, 1}, {ChannelDataType::SignedIntegerBe, 1}, {ChannelDataType::SignedIntegerLe, 2}, {ChannelDataType::SignedIntegerBe, 2}, {ChannelDataType::SignedIntegerLe, 4}, {ChannelDataType::SignedIntegerBe, 8},
                                    {ChannelDataType::FloatBe, 4}, {ChannelDataType::FloatLe, 8}};

struct Col { Ty t; std::vector<Shape> arrays; bool inval; uint64_t Size() const { uint64_t p = 1; for (auto& s : arrays) p *= Prod(s); return p; } };
static Val ValueOf(const Col& k, uint64_t chan, uint64_t n, uint64_t e) { Chan c = Ch(k.t.dt, k.t.bytes); return Gen(c, chan * 977 + e * 13 + 5, n * 3 + e); }
static bool ValidOf(const Col& k, uint64_t chan, uint64_t n, uint64_t e) { return !k.inval || Mix(chan * 77 + n * 7 + e) % 3 != 0; }

template <class F>
static void SetElem(const Col& k, IChannel& cn, const Val& v, bool valid, uint64_t e, F) {
  if (IsFloat(k.t.dt)) cn.SetChannelValue(v.f, valid, e); else if (IsSigned(k.t.dt)) cn.SetChannelValue(v.i, valid, e); else cn.SetChannelValue(v.u, valid, e);
}

// A group of up to three channels is recorded and read back element by element.
static void Run(mc::Ctx& c, const std::vector<Col>& cols, size_t mode, bool compress, size_t samples, bool second_group) {
  std::ostringstream d;
  for (auto& k : cols) d << TypeName(k.t.dt) << k.t.bytes << Text(k.arrays) << (k.inval ? "i " : " ");
  d << "mode=" << mode << " compress=" << compress << " second=" << second_group; c.describe(d.str());
  auto dev = std::make_shared<MemDev>();
  {
    auto w = MdfFactory::CreateMdfWriter(MdfWriterType::Mdf4Basic);
    w->CompressData(compress);
    EXPECT(c, w->Init(std::static_pointer_cast<std::streambuf>(dev)), "init", "Init failed");
    auto* dg = w->CreateDataGroup(); auto* cg = MdfWriter::CreateChannelGroup(dg); cg->Name("g");
    auto* t = MdfWriter::CreateChannel(cg); t->Name("t"); t->Type(ChannelType::Master); t->Sync(ChannelSyncType::Time); t->DataType(ChannelDataType::FloatLe); t->DataBytes(8);
    std::vector<IChannel*> cn;
    for (size_t q = 0; q < cols.size(); ++q) {
      auto* x = MdfWriter::CreateChannel(cg); x->Name("c" + std::to_string(q)); x->Type(ChannelType::FixedLength); x->DataType(cols[q].t.dt); x->DataBytes(cols[q].t.bytes);
      if (cols[q].inval) x->Flags(CnFlag::InvalidValid);
      for (auto& s : cols[q].arrays) x->CreateChannelArray()->Shape(s);
      cn.push_back(x);
    }
    IChannelGroup* cg2 = nullptr; IChannel* o = nullptr;
    if (second_group) { cg2 = MdfWriter::CreateChannelGroup(dg); cg2->Name("h"); o = MdfWriter::CreateChannel(cg2); o->Name("o"); o->Type(ChannelType::FixedLength); o->DataType(ChannelDataType::UnsignedIntegerLe); o->DataBytes(1); }
    EXPECT(c, w->InitMeasurement(), "initmeas", "InitMeasurement failed");
    w->StartMeasurement(kStart);
    for (size_t n = 0; n < samples; ++n) {
      for (size_t q = 0; q < cols.size(); ++q) {
        auto& k = cols[q]; uint64_t size = k.Size();
        bool all_valid = true; for (uint64_t e = 0; e < size; ++e) all_valid = all_valid && ValidOf(k, q, n, e);
        if (mode == 1 && all_valid) {
          std::vector<double> f; std::vector<int64_t> i; std::vector<uint64_t> u;
          for (uint64_t e = 0; e < size + 2; ++e) { auto v = ValueOf(k, q, n, e); f.push_back(v.f); i.push_back(v.i); u.push_back(v.u); }  // two more than there are elements
          if (IsFloat(k.t.dt)) cn[q]->SetChannelValues(f); else if (IsSigned(k.t.dt)) cn[q]->SetChannelValues(i); else cn[q]->SetChannelValues(u);
        } else {
          for (uint64_t j = 0; j < size; ++j) { uint64_t e = mode == 2 ? size - 1 - j : j; SetElem(k, *cn[q], ValueOf(k, q, n, e), ValidOf(k, q, n, e), e, 0); }
        }
      }
      if (mode == 3) for (size_t q = 0; q < cols.size(); ++q) {  // elements that do not exist
        uint64_t size = cols[q].Size();
        for (uint64_t e : {size, size + 1, size + 2, size + 7, size * 2 + 8, (uint64_t)1 << 33, ~(uint64_t)0}) { if (e == 0) continue; SetElem(cols[q], *cn[q], ValueOf(cols[q], q + 9, n + 1, e % 11), e % 2 == 0, e, 0); }
      }
      w->SaveSample(*dg, *cg, kStart + n * 1000000);
      if (o) { o->SetChannelValue((uint8_t)n); w->SaveSample(*dg, *cg2, kStart + n * 1000000 + 1); }
    }
    w->StopMeasurement(kStart + 1000000000);
    EXPECT(c, w->FinalizeMeasurement(), "finalize", "FinalizeMeasurement failed");
  }
  MdfReader r(std::static_pointer_cast<std::streambuf>(std::make_shared<MemDev>(dev->data)));
  EXPECT(c, r.IsOk() && r.ReadEverythingButData(), "open", "the file cannot be read");
  auto* dg = r.GetDataGroup(0); auto* cg = dg->ChannelGroups()[0]; auto cns = cg->Channels();
  EXPECT(c, cns.size() == cols.size() + 1, "structure", "channels " << cns.size());
  for (size_t q = 0; q < cols.size(); ++q) {
    auto arrays = cns[q + 1]->ChannelArrays();
    EXPECT(c, arrays.size() == cols[q].arrays.size(), "array-count", "channel " << q << " has " << arrays.size() << " arrays");
    for (size_t a = 0; a < arrays.size(); ++a) EXPECT(c, arrays[a] && arrays[a]->Shape() == cols[q].arrays[a] && arrays[a]->Dimensions() == cols[q].arrays[a].size(), "array-shape", "channel " << q << " array " << a << ": shape differs");
    EXPECT(c, cns[q + 1]->ArraySize() == cols[q].Size(), "array-size", "channel " << q << " size " << cns[q + 1]->ArraySize() << " expected " << cols[q].Size());
  }
  std::vector<ChannelObserverPtr> ob; for (auto* cn : cns) ob.push_back(CreateChannelObserver(*dg, *cg, *cn));
  ISampleObserver raw(*dg);
  std::string rawerr;
  raw.DoOnSample = [&](uint64_t n, uint64_t id, const std::vector<uint8_t>& rec) {
    if (id != cg->RecordId()) return true;
    for (size_t q = 0; q < cols.size() && rawerr.empty(); ++q) for (uint64_t e = 0; e < cols[q].Size() + 3; ++e) {
      c.step();
      double f = 0; bool ok = cns[q + 1]->GetChannelValue(rec, f, e);
      std::ostringstream o; o << "record " << n << " channel " << q << " element " << e << ": value " << f << " valid " << ok;
      if (e >= cols[q].Size()) { if (ok) rawerr = o.str() + " of an element that does not exist"; continue; }
      Val v = ValueOf(cols[q], q, n, e); double want = IsFloat(cols[q].t.dt) ? v.f : IsSigned(cols[q].t.dt) ? (double)v.i : (double)v.u;
      if (ok != ValidOf(cols[q], q, n, e) || f != want) { o << " expected " << want << " " << ValidOf(cols[q], q, n, e); rawerr = o.str(); break; }
    }
    return true;
  };
  EXPECT(c, r.ReadData(*dg), "read", "ReadData failed");
  EXPECT(c, rawerr.empty(), "array-record", rawerr);
  std::ostringstream out;
  for (size_t q = 0; q < cols.size(); ++q) {
    auto& k = cols[q]; auto& o = *ob[q + 1]; Chan ch = Ch(k.t.dt, k.t.bytes);
    EXPECT(c, o.NofSamples() == samples && o.ArraySize() == k.Size() && o.IsArray() == (k.arrays.size() > 0), "observer", "observer samples " << o.NofSamples() << " size " << o.ArraySize());
    if (k.arrays.size() == 1) EXPECT(c, o.Shape() == k.arrays[0], "observer-shape", "observer shape differs");
    for (size_t n = 0; n < samples; ++n) {
      for (uint64_t e = 0; e < k.Size() + 3; ++e) {
        c.step();
        Val g;
        if (IsFloat(k.t.dt)) g.valid = o.GetChannelValue(n, g.f, e); else if (IsSigned(k.t.dt)) g.valid = o.GetChannelValue(n, g.i, e); else g.valid = o.GetChannelValue(n, g.u, e);
        std::ostringstream w; w << "channel " << q << " sample " << n << " element " << e << ": " << Show(ch, g);
        if (e >= k.Size()) { EXPECT(c, !g.valid, "array-outside", w.str() << " delivered for an element that does not exist"); continue; }
        Val want = ValueOf(k, q, n, e); want.valid = ValidOf(k, q, n, e);
        EXPECT(c, g.valid == want.valid, "array-valid", w.str() << " expected " << Show(ch, want));
        EXPECT(c, SameValue(ch, g, want), "array-value", w.str() << " expected " << Show(ch, want));
        out << Show(ch, g) << ";";
      }
      std::vector<double> all, eng; auto ok = o.GetChannelValues(n, all); auto ok2 = o.GetEngValues(n, eng);
      EXPECT(c, all.size() == k.Size() && eng.size() == k.Size(), "array-values", "GetChannelValues delivers " << all.size());
      for (uint64_t e = 0; e < k.Size(); ++e) {
        Val v = ValueOf(k, q, n, e); double want = IsFloat(k.t.dt) ? v.f : IsSigned(k.t.dt) ? (double)v.i : (double)v.u;
        EXPECT(c, all[e] == want && eng[e] == want && ok[e] == ValidOf(k, q, n, e) && ok2[e] == ok[e], "array-values", "GetChannelValues sample " << n << " element " << e << ": " << all[e] << "/" << eng[e] << " expected " << want);
      }
    }
  }
  c.outcome(out.str() + d.str());
}

static void ShapesXTypes(mc::Ctx& c) {
  static const auto q = Shapes(3, 3), th = Shapes(3, 5);
  auto& s = c.pick(c.thorough ? th : q);
  auto& t = kTy[c.choose(c.thorough ? kTy.size() : 3)];
  size_t alt = c.thorough ? 0 : c.dev(kTy.size() - 2);
  bool inval = c.dev(2), compress = c.dev(2), second = c.dev(2); size_t mode = c.dev(4);
  Col x{alt ? kTy[2 + alt] : t, {s}, inval};
  size_t nb = c.dev(3);
  if (!c.mine()) return;
  Col a{kTy[3], {}, nb == 1}, b{kTy[7], {}, nb >= 1};
  if (nb == 2) b.arrays = {{3}};
  Run(c, {a, x, b}, mode, compress, 3, second);
}
// large one-dimensional arrays, sizes around the invalidation byte borders
static void Sizes(mc::Ctx& c) {
  uint64_t n = 1 + c.choose(c.thorough ? 300 : 70); bool inval = c.flag(); auto& t = kTy[c.choose(3)]; size_t mode = c.choose(4);
  if (!c.mine()) return;
  Run(c, {Col{kTy[3], {}, inval}, Col{t, {{n}}, inval}, Col{kTy[3], {}, true}}, mode, false, 2, false);
}
// several array blocks on one channel, several array channels in a group
static void Several(mc::Ctx& c) {
  static const auto q = Shapes(2, 3);
  std::vector<Col> cols;
  for (int k = 0; k < 2; ++k) { size_t n = c.choose(3); Col x{kTy[c.choose(c.thorough ? 3 : 2)], {}, c.flag()}; for (size_t a = 0; a < n; ++a) x.arrays.push_back(a == 0 ? q[c.choose(c.thorough || k == 0 ? q.size() : 5)] : q[1 + c.choose(c.thorough ? 3 : 2)]); cols.push_back(x); }
  size_t mode = c.thorough ? c.choose(4) : 3;
  if (!c.mine()) return;
  Run(c, cols, mode, false, 2, false);
}
// attributes of the array block
static void Attributes(mc::Ctx& c) {
  auto type = (ArrayType)c.choose(5); auto storage = (ArrayStorage)c.choose(3); uint32_t flags = 0;
  for (uint32_t b = 0; b < 9; ++b) if (c.dev(2)) flags |= 1u << b;
  auto shape = c.pick(std::vector<Shape>{{1}, {3}, {2, 2}, {3, 1, 2}});
  if (!c.mine()) return;
  std::ostringstream d; d << "type=" << (int)type << " storage=" << (int)storage << " flags=" << flags << " shape=" << Text({shape}); c.describe(d.str());
  auto dev = std::make_shared<MemDev>();
  std::vector<double> axis; std::vector<uint64_t> cycles;
  {
    auto w = MdfFactory::CreateMdfWriter(MdfWriterType::Mdf4Basic);
    EXPECT(c, w->Init(std::static_pointer_cast<std::streambuf>(dev)), "init", "Init failed");
    auto* dg = w->CreateDataGroup(); auto* cg = MdfWriter::CreateChannelGroup(dg); cg->Name("g");
    for (int k = 0; k < 2; ++k) {
      auto* x = MdfWriter::CreateChannel(cg); x->Name("c" + std::to_string(k)); x->Type(ChannelType::FixedLength); x->DataType(ChannelDataType::UnsignedIntegerLe); x->DataBytes(1);
      auto* a = x->CreateChannelArray(); a->Shape(k ? Shape{2} : shape); if (k) continue;
      a->Type(type); a->Storage(storage); a->Flags(flags);
      auto& av = a->AxisValues(); for (size_t i = 0; i < av.size(); ++i) av[i] = 1.5 * (double)i - 3; axis = av;
      auto& cy = a->CycleCounts(); for (size_t i = 0; i < cy.size(); ++i) cy[i] = i * 1000 + 7; cycles = cy;
    }
    EXPECT(c, w->InitMeasurement(), "initmeas", "InitMeasurement failed");
    w->StartMeasurement(kStart); w->StopMeasurement(kStart + 10);
    EXPECT(c, w->FinalizeMeasurement(), "finalize", "FinalizeMeasurement failed");
  }
  uint64_t sum = 0; for (auto x : shape) sum += x;
  EXPECT(c, axis.size() == (flags & CaFlag::FixedAxis ? sum : 0) && cycles.size() == (storage == ArrayStorage::CnTemplate ? 0 : Prod(shape)), "attr-size", "axis values " << axis.size() << " cycle counts " << cycles.size());
  MdfReader r(std::static_pointer_cast<std::streambuf>(std::make_shared<MemDev>(dev->data)));
  EXPECT(c, r.IsOk() && r.ReadEverythingButData(), "open", "the file cannot be read");
  auto cns = r.GetDataGroup(0)->ChannelGroups()[0]->Channels(); EXPECT(c, cns.size() == 2, "structure", "channels lost");
  auto* a = cns[0]->ChannelArray(0); auto* b = cns[1]->ChannelArray(0);
  EXPECT(c, a && b, "attr-lost", "an array is lost");
  EXPECT(c, a->Type() == type && a->Storage() == storage && a->Flags() == flags && a->Shape() == shape, "attr-value", "type " << (int)a->Type() << " storage " << (int)a->Storage() << " flags " << a->Flags());
  const auto* ca = a;
  EXPECT(c, ca->AxisValues() == axis, "attr-axis", "axis values differ");
  EXPECT(c, ca->CycleCounts() == cycles, "attr-cycles", "cycle counts differ");
  EXPECT(c, b->Shape() == Shape{2} && b->Flags() == 0 && b->Type() == ArrayType::Array, "attr-neighbour", "the other array is changed");
  EXPECT(c, cns[1]->ChannelConversion() == nullptr && cns[1]->Name() == "c1", "attr-neighbour", "the other channel is changed");
  c.outcome(d.str());
}

int main(int argc, char** argv) {
  return mc::Main(argc, argv, "C23", {{"shapes", ShapesXTypes, 2, 2}, {"sizes", Sizes}, {"several", Several}, {"attributes", Attributes, 2, 9}});
}
