// C09: variable-length values round trip in every storage form.
#include <map>
#include "rec.h"
#include "flushctl.h"
#include "mdf/canmessage.h"
#include "mdf/ethmessage.h"
#include "mdf/mostmessage.h"
using namespace rec;

static std::vector<uint8_t> Payload(size_t len, uint64_t salt, int mode) {
  std::vector<uint8_t> b(len);
  for (size_t k = 0; k < len; ++k) b[k] = mode == 0 ? (uint8_t)Mix(salt * 131 + k) : mode == 1 ? (uint8_t)(k % 3) : (uint8_t)('!' + Mix(salt * 7 + k) % 90);
  return b;
}

struct Series {
  std::string name;
  bool text = false;
  std::vector<std::vector<uint8_t>> want;
};

// Compares a direct read, the offset list read and single-offset reads.
static void Check(mc::Ctx& c, const std::vector<uint8_t>& file, size_t group, const std::vector<Series>& all, const std::string& key) {
  std::ostringstream out;
  MdfReader r(std::static_pointer_cast<std::streambuf>(std::make_shared<MemDev>(file)));
  EXPECT(c, r.IsOk() && r.ReadEverythingButData(), key + "-open", "could not open");
  auto* dg = r.GetHeader()->DataGroups()[0];
  auto* cg = dg->ChannelGroups()[group];
  {
    std::vector<ChannelObserverPtr> obs;
    for (auto& s : all) {
      auto* cn = cg->GetChannel(s.name);
      EXPECT(c, cn != nullptr, key + "-channel", "channel " << s.name << " missing");
      obs.push_back(CreateChannelObserver(*dg, *cg, *cn));
    }
    EXPECT(c, r.ReadData(*dg), key + "-read", "ReadData failed");
    for (size_t k = 0; k < all.size(); ++k) {
      auto& s = all[k];
      EXPECT(c, obs[k]->NofSamples() == s.want.size(), key + "-count", s.name << " samples " << obs[k]->NofSamples() << " expected " << s.want.size());
      for (size_t n = 0; n < s.want.size(); ++n) {
        std::vector<uint8_t> got;
        bool valid;
        if (s.text) { std::string t; valid = obs[k]->GetChannelValue(n, t); got.assign(t.begin(), t.end()); }
        else valid = obs[k]->GetChannelValue(n, got);
        c.step();
        EXPECT(c, valid, key + "-valid", s.name << "[" << n << "] reported invalid");
        EXPECT(c, got == s.want[n], key + "-value", s.name << "[" << n << "] = " << mc::Hex(got.data(), std::min<size_t>(got.size(), 32)) << " (" << got.size() << " bytes) expected "
               << mc::Hex(s.want[n].data(), std::min<size_t>(s.want[n].size(), 32)) << " (" << s.want[n].size() << ")");
        out << mc::Hash(got.data(), got.size()) << ",";
      }
    }
  }
  // offsets only, then fetch by offset
  for (auto& s : all) {
    auto* cn = cg->GetChannel(s.name);
    if (cn->Type() != ChannelType::VariableLength) continue;
    std::vector<uint64_t> off;
    {
      auto ob = CreateChannelObserver(*dg, *cg, *cn);
      ob->ReadVlsdData(false);
      EXPECT(c, r.ReadData(*dg), key + "-readoff", "ReadData failed");
      off = ob->GetOffsetList();
    }
    EXPECT(c, off.size() == s.want.size(), key + "-offcount", s.name << " offsets " << off.size() << " expected " << s.want.size());
    auto fetch = [&](const std::vector<uint64_t>& list) {
      std::map<uint64_t, std::vector<uint8_t>> m;
      std::function<void(uint64_t, const std::vector<uint8_t>&)> cb = [&](uint64_t o, const std::vector<uint8_t>& b) { m[o] = b; };
      EXPECT(c, r.ReadVlsdData(*dg, *cn, list, cb), key + "-vlsd", "ReadVlsdData failed");
      return m;
    };
    auto same = [&](std::vector<uint8_t> b, size_t n) {
      if (s.text) while (!b.empty() && b.back() == 0) b.pop_back();
      return b == s.want[n];
    };
    auto verify = [&](const std::vector<size_t>& idx, const char* what) {
      std::vector<uint64_t> list;
      for (auto n : idx) list.push_back(off[n]);
      auto m = fetch(list);
      for (auto n : idx) {
        auto it = m.find(off[n]);
        c.step();
        EXPECT(c, it != m.end(), key + "-offmissing", what << ": " << s.name << " no value for sample " << n << " offset " << off[n]);
        EXPECT(c, same(it->second, n), key + "-offvalue", what << ": " << s.name << "[" << n << "] by offset " << off[n] << " has " << it->second.size() << " bytes " << mc::Hex(it->second.data(), std::min<size_t>(it->second.size(), 32))
               << " expected " << s.want[n].size() << " " << mc::Hex(s.want[n].data(), std::min<size_t>(s.want[n].size(), 32)));
      }
      std::set<uint64_t> uniq(list.begin(), list.end());
      EXPECT(c, m.size() == uniq.size() || list.empty(), key + "-offextra", what << ": " << s.name << " delivered " << m.size() << " values for " << uniq.size() << " offsets");
    };
    std::vector<size_t> every;
    for (size_t n = 0; n < off.size(); ++n) every.push_back(n);
    if (every.empty()) continue;
    verify(every, "all offsets");
    std::vector<size_t> rev(every.rbegin(), every.rend());
    verify(rev, "reversed offsets");
    if (off.size() <= 8) {
      for (size_t mask = 1; mask + 1 < ((size_t)1 << off.size()); ++mask) { std::vector<size_t> sub; for (auto n : every) if (mask >> n & 1) sub.push_back(n); verify(sub, "subset of offsets"); }
    } else {
      verify({0}, "first offset"); verify({off.size() - 1}, "last offset"); verify({off.size() / 2, off.size() / 2 + 1}, "middle offsets");
      std::vector<size_t> odd; for (auto n : every) if (n % 2) odd.push_back(n); verify(odd, "every second offset");
    }
    auto m = fetch({});
    for (size_t n = 0; n < off.size(); ++n) EXPECT(c, m.count(off[n]) && same(m[off[n]], n), key + "-offall", s.name << "[" << n << "] not delivered by the unfiltered read");
  }
  c.outcome(out.str());
}

// plain VLSD channels (signal data): every length sequence
static void Sequences(mc::Ctx& c) {
  static const std::vector<size_t> lens = {0, 1, 3, 4, 5, 27, 130};
  size_t n = c.choose(c.thorough ? 6 : 5);
  std::vector<size_t> ls;
  for (size_t k = 0; k < n; ++k) ls.push_back(lens[c.choose(lens.size())]);
  size_t form = c.choose(4);  // channel arrangement
  bool zip = c.flag();
  size_t flush = n ? c.choose(2) : 0;
  if (!c.mine()) return;
  std::ostringstream t; t << "form=" << form << " zip=" << zip << " flush=" << flush << " lengths="; for (auto l : ls) t << l << ","; c.describe(t.str());
  Spec s; s.compress = zip;
  Group g;
  bool text = form == 0 || form == 3;
  g.ch = {MasterTime(), Vlsd(text ? ChannelDataType::StringUTF8 : ChannelDataType::ByteArray)};
  if (form == 2) g.ch.push_back(Vlsd(ChannelDataType::StringAscii));
  if (form == 3) { Group h; h.ch = {Ch(ChannelDataType::UnsignedIntegerLe, 3), Vlsd(ChannelDataType::ByteArray)}; h.ch[0].bytes = 4; s.dgs = {{g, h}}; }
  else s.dgs = {{g}};
  auto w = NewWriter(s);
  auto dev = std::make_shared<MemDev>();
  EXPECT(c, w->Init(std::static_pointer_cast<std::streambuf>(dev)), "sd-init", "");
  auto l = Configure(*w, s);
  EXPECT(c, w->InitMeasurement(), "sd-initmeas", "");
  w->StartMeasurement(kStart);
  Series a{CName(1), text, {}}, b{CName(2), true, {}}, h{CName(1), false, {}};
  for (size_t k = 0; k < n; ++k) {
    auto p = Payload(ls[k], k + 1, text ? 2 : (int)(k % 2));
    if (text) l.cn[0][0][1]->SetChannelValue(std::string(p.begin(), p.end())); else l.cn[0][0][1]->SetChannelValue(p);
    a.want.push_back(p);
    if (form == 2) { auto q = Payload(ls[n - 1 - k], k + 77, 2); l.cn[0][0][2]->SetChannelValue(std::string(q.begin(), q.end())); b.want.push_back(q); }
    w->SaveSample(*l.dg[0], *l.cg[0][0], kStart + k);
    if (form == 3 && k % 2 == 0) { auto q = Payload(ls[k] + 1, k + 99, 0); l.cn[0][1][1]->SetChannelValue(q); h.want.push_back(q); w->SaveSample(*l.dg[0], *l.cg[0][1], kStart + k); }
    if (flush && k == n / 2) flushctl::Flush();
  }
  w->StopMeasurement(kStart + 100);
  EXPECT(c, w->FinalizeMeasurement(), "sd-finalize", "");
  std::vector<Series> all = {a};
  if (form == 2) all.push_back(b);
  Check(c, dev->data, 0, all, "sd");
  if (form == 3) Check(c, dev->data, 1, {h}, "sd");
}

// large signal data: one block, compressed block, list of compressed blocks
static void Large(mc::Ctx& c) {
  bool zip = c.flag();
  size_t kind = c.choose(3);
  size_t size = c.pick(std::vector<size_t>{1, 96, 97, 5000, 100000, 1100000});
  size_t n = c.pick(std::vector<size_t>{1, 4, 9});
  if (size * n > 10'000'000 && !c.thorough) n = 9;
  if (!c.mine()) return;
  std::ostringstream t; t << "zip=" << zip << " kind=" << kind << " size=" << size << " n=" << n; c.describe(t.str());
  Spec s; s.compress = zip;
  Group g; g.ch = {MasterTime(), Vlsd(kind == 2 ? ChannelDataType::StringUTF8 : ChannelDataType::ByteArray)};
  s.dgs = {{g}};
  auto w = NewWriter(s);
  auto dev = std::make_shared<MemDev>();
  EXPECT(c, w->Init(std::static_pointer_cast<std::streambuf>(dev)), "large-init", "");
  auto l = Configure(*w, s);
  EXPECT(c, w->InitMeasurement(), "large-initmeas", "");
  w->StartMeasurement(kStart);
  Series a{CName(1), kind == 2, {}};
  for (size_t k = 0; k < n; ++k) {
    auto p = Payload(size + k % 3, k + 1, (int)kind);
    if (kind == 2) l.cn[0][0][1]->SetChannelValue(std::string(p.begin(), p.end())); else l.cn[0][0][1]->SetChannelValue(p);
    a.want.push_back(p);
    w->SaveSample(*l.dg[0], *l.cg[0][0], kStart + k);
  }
  w->StopMeasurement(kStart + 100);
  EXPECT(c, w->FinalizeMeasurement(), "large-finalize", "");
  Check(c, dev->data, 0, {a}, "large");
}

// bus payloads: signal data, own variable-length group, maximum length
static void Bus(mc::Ctx& c) {
  auto storage = c.pick(std::vector<MdfStorageType>{MdfStorageType::FixedLengthStorage, MdfStorageType::VlsdStorage, MdfStorageType::MlsdStorage});
  bool eth = c.flag();
  bool zip = c.flag(), mandatory = c.flag();
  size_t flush = c.choose(2);
  static const std::vector<size_t> lens = {0, 1, 7, 8, 9, 64};
  size_t n = c.choose(c.thorough ? 6 : 4);
  std::vector<size_t> ls;
  for (size_t k = 0; k < n; ++k) ls.push_back(lens[c.choose(lens.size())]);
  if (!c.mine()) return;
  std::ostringstream t; t << "storage=" << (int)storage << " eth=" << eth << " zip=" << zip << " mandatory=" << mandatory << " flush=" << flush << " lengths="; for (auto l : ls) t << l << ","; c.describe(t.str());
  auto w = MdfFactory::CreateMdfWriter(MdfWriterType::MdfBusLogger);
  auto dev = std::make_shared<MemDev>();
  EXPECT(c, w->Init(std::static_pointer_cast<std::streambuf>(dev)), "bus-init", "");
  w->BusType(eth ? MdfBusType::Ethernet : MdfBusType::CAN); w->StorageType(storage); w->MaxLength(64); w->CompressData(zip); w->MandatoryMembersOnly(mandatory); w->PreTrigTime(0);
  EXPECT(c, w->CreateBusLogConfiguration(), "bus-config", "");
  auto* dg = w->Header()->LastDataGroup();
  std::string gn = eth ? "ETH_Frame" : "CAN_DataFrame";
  auto* cg = dg->GetChannelGroup(gn);
  auto* cg2 = eth ? nullptr : dg->GetChannelGroup("CAN_RemoteFrame");
  EXPECT(c, cg != nullptr, "bus-group", "no group " << gn);
  EXPECT(c, w->InitMeasurement(), "bus-initmeas", "");
  w->StartMeasurement(kStart);
  Series a{gn + ".DataBytes", false, {}};
  for (size_t k = 0; k < n; ++k) {
    auto p = Payload(ls[k], k + 5, 0);
    a.want.push_back(p);
    if (eth) { EthMessage m; m.DataBytes(p); w->SaveEthMessage(*dg, *cg, kStart + k, m); }
    else { CanMessage m; m.MessageId(k); m.DataBytes(p); w->SaveCanMessage(*dg, *cg, kStart + k, m); if (k % 2 && cg2) w->SaveCanMessage(*dg, *cg2, kStart + k, m); }
    if (flush && k == n / 2) flushctl::Flush();
  }
  w->StopMeasurement(kStart + 100);
  EXPECT(c, w->FinalizeMeasurement(), "bus-finalize", "");
  MdfReader r(std::static_pointer_cast<std::streambuf>(std::make_shared<MemDev>(dev->data)));
  EXPECT(c, r.ReadEverythingButData(), "bus-open", "");
  auto cgs = r.GetHeader()->DataGroups()[0]->ChannelGroups();
  size_t idx = 0;
  while (idx < cgs.size() && cgs[idx]->Name() != gn) ++idx;
  EXPECT(c, idx < cgs.size(), "bus-rgroup", "group not read");
  Check(c, dev->data, idx, {a}, "bus");
}

int main(int argc, char** argv) {
  return mc::Main(argc, argv, "C09", {{"sequences", Sequences}, {"large", Large, 2, 3, 60}, {"bus", Bus}});
}
