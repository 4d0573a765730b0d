// C08: per-sample validity flags round trip for every channel.
#include "rec.h"
#include "flushctl.h"
using namespace rec;

static Chan Kind(size_t k) {
  switch (k % 9) {
    case 0: return Ch(ChannelDataType::UnsignedIntegerLe, 1);
    case 1: return Ch(ChannelDataType::FloatLe, 8);
    case 2: return Vlsd(ChannelDataType::StringUTF8);
    case 3: return Ch(ChannelDataType::SignedIntegerBe, 2);
    case 4: return Ch(ChannelDataType::StringAscii, 6);
    case 5: return Ch(ChannelDataType::ByteArray, 3);
    case 6: return Vlsd(ChannelDataType::ByteArray);
    case 7: return Ch(ChannelDataType::CanOpenDate, 7);
    default: return Ch(ChannelDataType::FloatBe, 4);
  }
}

// every subset of flagged channels x every validity pattern of the first sample (the second is its complement)
static void Subsets(mc::Ctx& c) {
  size_t n = 1 + c.choose(c.thorough ? 7 : 5);
  size_t rot = c.choose(9);
  size_t mask = c.choose((size_t)1 << n), pat = c.choose((size_t)1 << n);
  if (pat & ~mask) return;
  bool master = c.flag(), zip = c.flag();
  if (!c.mine()) return;
  std::ostringstream t; t << "n=" << n << " rot=" << rot << " flagged=" << mask << " invalid=" << pat << " master=" << master << " zip=" << zip; c.describe(t.str());
  Spec s; s.compress = zip;
  Group g;
  if (master) g.ch.push_back(MasterTime());
  for (size_t k = 0; k < n; ++k) { Chan ch = Kind(k + rot); ch.inval = mask >> k & 1; g.ch.push_back(ch); }
  s.dgs = {{g}};
  size_t off = master;
  ValidFn vf = [&](size_t, size_t, size_t k, uint64_t smp) -> bool {
    if (k < off) return true;
    k -= off;
    if (!(mask >> k & 1)) return true;
    bool inv = pat >> k & 1;
    return smp % 2 ? inv : !inv;
  };
  RoundTrip(c, s, MakeSteps(s, {0, 0, 0}), 0, vf, "validity");
}

// number of flagged channels (crossing byte borders of the invalidation bytes), one odd channel out
static void Counts(mc::Ctx& c) {
  size_t n = 1 + c.choose(c.thorough ? 70 : 34);
  size_t odd = c.choose(n);
  bool one_invalid = c.flag(), gaps = c.flag();
  size_t groups = 1 + c.choose(2);
  if (!c.mine()) return;
  std::ostringstream t; t << "n=" << n << " odd=" << odd << " invalid=" << one_invalid << " gaps=" << gaps << " groups=" << groups; c.describe(t.str());
  Spec s;
  Group g; std::vector<size_t> idx;
  for (size_t k = 0; k < n; ++k) {
    if (gaps && k % 3 == 1) { g.ch.push_back(Ch(ChannelDataType::UnsignedIntegerLe, 2)); idx.push_back(~0ull); }
    g.ch.push_back(Ch(ChannelDataType::UnsignedIntegerLe, 1, true)); idx.push_back(k);
  }
  s.dgs = {{g}};
  std::vector<size_t> order = {0, 0};
  if (groups == 2) { Group h; h.ch = {Ch(ChannelDataType::UnsignedIntegerLe, 4, true), Ch(ChannelDataType::UnsignedIntegerLe, 4)}; s.dgs[0].push_back(h); order = {0, 1, 0, 1}; }
  ValidFn vf = [&](size_t, size_t gg, size_t k, uint64_t smp) -> bool {
    if (gg == 1) return k == 1 || smp % 2;
    if (idx[k] == ~0ull) return true;
    bool is = idx[k] == odd;
    return (is == one_invalid) ? false ^ (smp % 2) : true ^ (smp % 2);
  };
  RoundTrip(c, s, MakeSteps(s, order), 0, vf, "validity");
}

// histories: every sequence of validity pairs over several samples, two groups sharing the data section
static void History(mc::Ctx& c) {
  size_t len = c.thorough ? 6 : 5;
  size_t n = 1 + c.choose(len);
  std::vector<size_t> pat;
  for (size_t k = 0; k < n; ++k) pat.push_back(c.choose(4));
  size_t kind = c.choose(3);
  bool zip = c.flag(), flush = c.flag();
  if (!c.mine()) return;
  std::ostringstream t; t << "kind=" << kind << " zip=" << zip << " flush=" << flush << " history="; for (auto p : pat) t << p; c.describe(t.str());
  Spec s; s.compress = zip;
  Group g, h;
  g.ch = {MasterTime(), Kind(kind * 2), Kind(kind * 2 + 3)};
  g.ch[1].inval = g.ch[2].inval = true;
  h.ch = {Kind(1), Kind(6)};
  h.ch[1].inval = true;
  s.dgs = {{g, h}};
  std::vector<size_t> order;
  for (size_t k = 0; k < n; ++k) { order.push_back(0); if (k % 2) order.push_back(1); }
  ValidFn vf = [&](size_t, size_t gg, size_t k, uint64_t smp) -> bool {
    if (gg == 1) return k == 0 || (pat[smp * 2 + 1] & 1);
    return k == 0 || (pat[smp] >> (k - 1) & 1);
  };
  RoundTrip(c, s, MakeSteps(s, order), 0, vf, "validity", [&](size_t i) { if (flush && i == 1) flushctl::Flush(); });
}

// validity of array elements: every shape x pattern of the first elements
static void Arrays(mc::Ctx& c) {
  size_t size = 1 + c.choose(10);
  size_t pat = c.choose((size_t)1 << std::min<size_t>(size, 8));
  size_t before = c.choose(3);
  bool after = c.flag();
  if (!c.mine()) return;
  std::ostringstream t; t << "elements=" << size << " invalid=" << pat << " before=" << before << " after=" << after; c.describe(t.str());
  auto w = MdfFactory::CreateMdfWriter(MdfWriterType::Mdf4Basic);
  auto dev = std::make_shared<MemDev>();
  w->PreTrigTime(0);
  EXPECT(c, w->Init(std::static_pointer_cast<std::streambuf>(dev)), "array-init", "");
  auto* dg = w->CreateDataGroup(); auto* cg = MdfWriter::CreateChannelGroup(dg); cg->Name("G");
  std::vector<IChannel*> cn;
  auto add = [&](const std::string& nm) { auto* x = cg->CreateChannel(nm); x->Type(ChannelType::FixedLength); x->DataType(ChannelDataType::UnsignedIntegerLe); x->DataBytes(2); x->Flags(CnFlag::InvalidValid); cn.push_back(x); return x; };
  for (size_t k = 0; k < before; ++k) add("B" + std::to_string(k));
  auto* a = add("A");
  { auto* ca = a->CreateChannelArray(); ca->Type(ArrayType::Array); ca->Storage(ArrayStorage::CnTemplate); ca->Shape({size}); }
  if (after) add("Z");
  EXPECT(c, w->InitMeasurement(), "array-initmeas", "");
  w->StartMeasurement(kStart);
  for (size_t smp = 0; smp < 2; ++smp) {
    for (size_t k = 0; k < cn.size(); ++k) {
      if (cn[k] == a) for (size_t e = 0; e < size; ++e) a->SetChannelValue((uint64_t)(100 * smp + e + 7), !((pat >> (e % 8) & 1) ^ smp), e);
      else cn[k]->SetChannelValue((uint64_t)(k + smp), (k + smp) % 2 == 0);
    }
    w->SaveSample(*dg, *cg, kStart + smp);
  }
  w->StopMeasurement(kStart + 10);
  EXPECT(c, w->FinalizeMeasurement(), "array-final", "");
  MdfReader r(std::static_pointer_cast<std::streambuf>(std::make_shared<MemDev>(dev->data)));
  EXPECT(c, r.ReadEverythingButData(), "array-read", "");
  auto* rdg = r.GetHeader()->DataGroups()[0];
  auto* rcg = rdg->ChannelGroups()[0];
  std::vector<ChannelObserverPtr> obs;
  for (auto* x : rcg->Channels()) obs.push_back(CreateChannelObserver(*rdg, *rcg, *x));
  EXPECT(c, r.ReadData(*rdg), "array-readdata", "");
  std::ostringstream out;
  for (size_t smp = 0; smp < 2; ++smp) for (size_t k = 0; k < obs.size(); ++k) {
    bool arr = k == before;
    for (size_t e = 0; e < (arr ? size : 1); ++e) {
      uint64_t v = 0; bool valid = obs[k]->GetChannelValue(smp, v, e);
      bool wv = arr ? !((pat >> (e % 8) & 1) ^ smp) : (k + smp) % 2 == 0;
      uint64_t want = arr ? 100 * smp + e + 7 : k + smp;
      c.step();
      EXPECT(c, valid == wv && v == want, "array-validity", "channel " << k << " element " << e << " sample " << smp << ": value " << v << " valid " << valid << " expected " << want << " " << wv);
      out << v << valid;
    }
  }
  c.outcome(out.str());
}

int main(int argc, char** argv) {
  return mc::Main(argc, argv, "C08", {{"subsets", Subsets}, {"counts", Counts}, {"history", History}, {"arrays", Arrays}});
}
