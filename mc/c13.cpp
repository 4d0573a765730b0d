// C13: subscriptions are independent and repeatable.
#include "files.h"
using namespace rec;

struct Fixture { Bytes f; std::map<std::string, std::vector<std::string>> full; std::string text; };

static Fixture Make(mc::Ctx& c, size_t kind, bool zip, const std::vector<size_t>& order, int flush) {
  Fixture x;
  std::ostringstream t; t << KindName(kind) << " zip=" << zip << " order="; for (auto o : order) t << o; x.text = t.str(); c.describe(x.text);
  x.f = KindFile(c, kind, zip, order, flush);
  // the reference: every channel alone, each with a reader of its own
  auto r0 = OpenBytes(c, x.f);
  for (auto& p : AllChannels(*r0)) {
    auto r = OpenBytes(c, x.f);
    auto ob = Observe(*r, p);
    EXPECT(c, r->ReadData(*r->GetHeader()->DataGroups()[p.d]), "read", "ReadData failed");
    x.full[Key(p)] = Snapshot(*ob);
    for (size_t k = 0; k < 1 && !x.full[Key(p)].empty(); ++k) c.step();
  }
  return x;
}
static void Same(mc::Ctx& c, const Fixture& x, const Place& p, const IChannelObserver& ob, const std::string& what) {
  auto got = Snapshot(ob); auto& want = x.full.at(Key(p));
  EXPECT(c, got.size() == want.size(), "count", what << ": channel " << Key(p) << " has " << got.size() << " samples, alone " << want.size());
  for (size_t n = 0; n < got.size(); ++n) { c.step(); EXPECT(c, got[n] == want[n], "value", what << ": channel " << Key(p) << "[" << n << "] = " << got[n] << ", read alone " << want[n]); }
}
static void Empty(mc::Ctx& c, const Place& p, const IChannelObserver& ob, const std::string& what) {
  for (auto& s : Snapshot(ob)) EXPECT(c, !AnyValid(s), "removed", what << ": channel " << Key(p) << " received " << s);
}
static std::vector<size_t> Order(mc::Ctx& c, size_t kind, size_t n) { std::vector<size_t> o; for (size_t k = 0; k < n; ++k) o.push_back(c.choose(KindGroups(kind))); return o; }
static void ReadUsed(mc::Ctx& c, MdfReader& r, const std::string& what) { for (auto* dg : r.GetHeader()->DataGroups()) EXPECT(c, r.ReadData(*dg), "read", what << ": ReadData failed"); }

// every subset of the channels, in ascending and descending order of subscription, on one long-lived reader
static void Subsets(mc::Ctx& c) {
  size_t kind = c.choose(kFileKinds); bool zip = c.flag();
  if ((kind == 5 || kind == 6) && zip) return;
  auto order = Order(c, kind, KindGroups(kind) == 1 ? 3 : KindGroups(kind) == 2 ? (c.thorough ? 5 : 4) : 4);
  if (!c.mine()) return;
  auto x = Make(c, kind, zip, order, zip ? 1 : -1);
  auto r = OpenBytes(c, x.f);
  auto all = AllChannels(*r);
  if (all.size() > 9) { std::vector<Place> t; for (size_t k = 0; k < all.size(); ++k) if (all[k].k < 5 && t.size() < 9) t.push_back(all[k]); all = t; }
  for (size_t mask = 0; mask < ((size_t)1 << all.size()); ++mask) {
    std::vector<Place> sub;
    for (size_t k = 0; k < all.size(); ++k) if (mask >> k & 1) sub.push_back(all[k]);
    if (mask % 2) std::reverse(sub.begin(), sub.end());
    std::vector<ChannelObserverPtr> ob;
    for (auto& p : sub) ob.push_back(Observe(*r, p));
    ReadUsed(c, *r, "subset");
    for (size_t k = 0; k < sub.size(); ++k) Same(c, x, sub[k], *ob[k], "subset " + std::to_string(mask));
  }
  std::string o = x.text; for (auto& kv : x.full) for (auto& s : kv.second) o += s; c.outcome(o);
}

// every sequence of operations on three subscriptions: subscribe, remove, read, partial read, clear
static void Sequences(mc::Ctx& c) {
  size_t kind = c.pick(std::vector<size_t>{0, 1, 3, 4, 6, 8, 10, 11});
  size_t len = c.thorough ? 5 : 4;
  std::vector<size_t> ops;
  for (size_t k = 0; k < len; ++k) ops.push_back(c.choose(11));
  if (!c.mine()) return;
  std::vector<size_t> order; for (size_t k = 0; k < 5; ++k) order.push_back((k * k + k / 2) % KindGroups(kind));
  static std::map<size_t, Fixture> cache;
  if (!cache.count(kind)) cache[kind] = Make(c, kind, false, order, -1);
  Fixture& x = cache[kind];
  auto r = OpenBytes(c, x.f);
  auto all = AllChannels(*r);
  std::vector<Place> slot = {all[all.size() > 1 ? 1 : 0], all[all.size() / 2], all.back()};
  std::vector<ChannelObserverPtr> ob(3);
  struct State { bool fresh = true; size_t lo = 0, hi = 0; };  // which samples must have been delivered
  std::vector<std::vector<bool>> have(3);
  std::vector<bool> attached(3, false), vlsd_off(3, false);
  std::string text = x.text + " ops=";
  auto dgs = r->GetHeader()->DataGroups();
  auto verify = [&](const std::string& what) {
    for (size_t s = 0; s < 3; ++s) if (ob[s]) {
      auto got = Snapshot(*ob[s]); auto& want = x.full[Key(slot[s])];
      for (size_t n = 0; n < got.size(); ++n) {
        c.step();
        if (have[s][n]) EXPECT(c, got[n] == want[n], "seq-value", text << " " << what << ": slot " << s << " channel " << Key(slot[s]) << "[" << n << "] = " << got[n] << ", read alone " << want[n]);
        else EXPECT(c, !AnyValid(got[n]), "seq-extra", text << " " << what << ": slot " << s << " channel " << Key(slot[s]) << "[" << n << "] received " << got[n] << " without a read");
      }
    }
  };
  for (auto op : ops) {
    text += std::to_string(op) + ","; c.describe(text);
    if (op < 3) {  // subscribe (replaces an earlier one)
      ob[op] = Observe(*r, slot[op]); have[op].assign(x.full[Key(slot[op])].size(), false); attached[op] = true;
    } else if (op < 6) {  // destroy the subscription
      ob[op - 3].reset(); attached[op - 3] = false;
    } else if (op == 6) {  // read everything
      for (size_t d = 0; d < dgs.size(); ++d) EXPECT(c, r->ReadData(*dgs[d]), "seq-read", text << " ReadData failed");
      for (size_t s = 0; s < 3; ++s) if (ob[s] && attached[s]) have[s].assign(have[s].size(), true);
    } else if (op == 7) {  // partial read of the second sample
      for (size_t d = 0; d < dgs.size(); ++d) EXPECT(c, r->ReadPartialData(*dgs[d], 2, 2), "seq-read", text << " ReadPartialData failed");
      for (size_t s = 0; s < 3; ++s) if (ob[s] && attached[s] && have[s].size() > 1) have[s][1] = true;
    } else if (op == 8) {  // detach the first subscription but keep its object
      if (ob[0]) { ob[0]->DetachObserver(); attached[0] = false; }
    } else if (op == 9) {
      dgs[0]->ClearData();
    } else {  // read the first data group only
      EXPECT(c, r->ReadData(*dgs[0]), "seq-read", text << " ReadData failed");
      for (size_t s = 0; s < 3; ++s) if (ob[s] && attached[s] && slot[s].d == 0) have[s].assign(have[s].size(), true);
    }
    verify("after op " + std::to_string(op));
  }
  c.outcome(text);
}

// read callbacks: each record once, in file order, with the right bytes; stop after record s
static void Callbacks(mc::Ctx& c) {
  size_t kind = c.choose(kFileKinds); bool zip = c.flag();
  if (kind == 4 || ((kind == 5 || kind == 6) && zip)) return;
  size_t n = KindGroups(kind) == 3 ? 4 : 5;
  auto order = Order(c, kind, KindGroups(kind) == 1 ? 4 : n);
  size_t with = c.choose(3);  // channel subscriptions made before / after the callback, or none
  if (!c.mine()) return;
  auto x = Make(c, kind, zip, order, -1);
  c.describe(x.text + " with=" + std::to_string(with));
  size_t total = 0;
  for (long stop = -1; stop <= (long)total; ++stop) {
    auto r = OpenBytes(c, x.f);
    auto* dg = r->GetHeader()->DataGroups()[0];
    auto cgs = dg->ChannelGroups();
    auto all = AllChannels(*r);
    std::vector<ChannelObserverPtr> ob;
    if (with == 1) for (auto& p : all) ob.push_back(Observe(*r, p));
    std::vector<std::pair<uint64_t, uint64_t>> seen;  // record id, sample
    std::map<uint64_t, size_t> per;
    ISampleObserver so(*dg);
    long count = 0;
    std::string bad;
    so.DoOnSample = [&](uint64_t sample, uint64_t id, const Bytes& rec) {
      seen.push_back({id, sample});
      if (sample != per[id]) bad = "record id " + std::to_string(id) + " sample " + std::to_string(sample) + " expected " + std::to_string(per[id]);
      ++per[id];
      for (size_t g = 0; g < cgs.size(); ++g) if (cgs[g]->RecordId() == id && !(cgs[g]->Flags() & CgFlag::VlsdChannel)) {
        auto cns = cgs[g]->Channels();
        for (size_t k = 0; k < cns.size(); ++k) {
          if (cns[k]->Type() == ChannelType::VariableLength || IsBytes(cns[k]->DataType())) continue;
          std::ostringstream o; bool v;
          auto dt = cns[k]->DataType();
          if (IsFloat(dt)) { double d = 0; v = so.GetChannelValue(*cns[k], sample, rec, d); uint64_t u; memcpy(&u, &d, 8); o << std::hex << u; }
          else if (IsSigned(dt)) { int64_t i = 0; v = so.GetChannelValue(*cns[k], sample, rec, i); o << i; }
          else if (IsText(dt)) { std::string s; v = so.GetChannelValue(*cns[k], sample, rec, s); o << s; }
          else { uint64_t u = 0; v = so.GetChannelValue(*cns[k], sample, rec, u); o << u; }
          std::string got = (v ? "V" : "I") + o.str() + ";", want = x.full["0." + std::to_string(g) + "." + std::to_string(k)][sample];
          if (got != want) bad = "channel " + std::to_string(k) + " of group " + std::to_string(g) + " sample " + std::to_string(sample) + ": " + got + " expected " + want;
        }
      }
      ++count;
      return stop < 0 || count <= stop;
    };
    if (with == 2) for (auto& p : all) ob.push_back(Observe(*r, p));
    EXPECT(c, r->ReadData(*dg), "cb-read", "ReadData failed");
    EXPECT(c, bad.empty(), "cb-record", "stop " << stop << ": " << bad);
    std::vector<uint64_t> ids;  // main records in the order they were saved
    for (auto& s : seen) { bool vl = false; for (auto* cg : cgs) if (cg->RecordId() == s.first && (cg->Flags() & CgFlag::VlsdChannel)) vl = true; if (!vl) ids.push_back(s.first); c.step(); }
    std::vector<uint64_t> want;
    for (auto o : order) {
      size_t g = o;
      if (KindBus(kind)) { g = 0; while (cgs[g]->Name() != (o == 0 ? "CAN_DataFrame" : "CAN_RemoteFrame")) ++g; }
      want.push_back(cgs[g]->RecordId());
    }
    if (stop < 0) { EXPECT(c, ids == want, "cb-order", "the callback saw " << ids.size() << " records, in the file are " << want.size() << " (or another order)"); total = seen.size(); }
    else {
      EXPECT(c, count == std::min<long>(stop + 1, (long)total), "cb-stop", "stop requested at record " << stop << " but " << count << " records were delivered of " << total);
      EXPECT(c, ids.size() <= want.size() && std::equal(ids.begin(), ids.end(), want.begin()), "cb-stoporder", "order differs");
    }
    // values already delivered are right, later ones are not delivered
    for (size_t k = 0; k < ob.size(); ++k) {
      auto got = Snapshot(*ob[k]); auto& w = x.full[Key(all[k])];
      auto* cg = cgs[all[k].g];
      size_t done = per[cg->RecordId()];
      auto* cn = cg->Channels()[all[k].k];
      for (size_t i = 0; i < got.size(); ++i) {
        if (stop < 0 || (i + 1 < done && cn->VlsdRecordId() == 0)) EXPECT(c, got[i] == w[i], "cb-value", "stop " << stop << " channel " << Key(all[k]) << "[" << i << "] = " << got[i] << " expected " << w[i]);
        else if (i >= done && cn->VlsdRecordId() == 0) EXPECT(c, !AnyValid(got[i]), "cb-after", "stop " << stop << " channel " << Key(all[k]) << "[" << i << "] delivered after stop");
      }
    }
    // the reader is usable afterwards
    if (stop >= 0) {
      std::vector<ChannelObserverPtr> ob2; so.DoOnSample = nullptr;
      for (auto& p : all) ob2.push_back(Observe(*r, p));
      EXPECT(c, r->ReadData(*dg), "cb-reread", "ReadData failed");
      for (size_t k = 0; k < all.size(); ++k) Same(c, x, all[k], *ob2[k], "read after a stopped read");
    }
  }
  c.outcome(x.text + std::to_string(with));
}

int main(int argc, char** argv) { return mc::Main(argc, argv, "C13", {{"subsets", Subsets}, {"sequences", Sequences}, {"callbacks", Callbacks}}); }
