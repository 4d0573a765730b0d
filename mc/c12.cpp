// C12: a partial read equals the corresponding slice of a full read.
#include "files.h"
using namespace rec;

static void Ranges(mc::Ctx& c) {
  size_t kind = c.choose(kFileKinds); bool zip = c.flag();
  size_t G = KindGroups(kind);
  size_t n = G == 1 ? c.choose(c.thorough ? 10 : 8) : G == 2 ? (c.thorough ? 8 : 6) : (c.thorough ? 7 : 5);
  std::vector<size_t> order;
  for (size_t k = 0; k < n; ++k) order.push_back(c.choose(G));
  size_t flush = c.choose(2);
  if (kind == 5 || kind == 6) { if (zip) return; }
  if (!c.mine()) return;
  std::ostringstream t; t << KindName(kind) << " zip=" << zip << " flush=" << flush << " order="; for (auto o : order) t << o; c.describe(t.str());
  Bytes f = KindFile(c, kind, zip, order, flush ? (int)n / 2 : -1);
  auto full = FullRead(c, f);
  for (auto& kv : full) for (auto& s : kv.second) { (void)s; c.step(); }
  auto shared = OpenBytes(c, f);
  auto all = AllChannels(*shared);
  // sub: 0 all channels, 1.. one channel alone, then all channels of one group
  size_t maxn = 0; for (auto& kv : full) maxn = std::max(maxn, kv.second.size());
  std::vector<std::vector<Place>> subs{all};
  for (auto& p : all) if (p.k < 6) subs.push_back({p});
  std::string out = t.str();
  for (size_t si = 0; si < subs.size(); ++si)
    for (size_t lo = 0; lo <= maxn + 2; ++lo)
      for (size_t hi = lo == 0 ? 0 : lo - 1; hi <= maxn + 2; ++hi) {
        if (si > 0 && !c.thorough && hi > lo + 1 && hi < maxn) continue;
        auto& sub = subs[si];
        std::vector<ChannelObserverPtr> ob;
        for (auto& p : sub) ob.push_back(Observe(*shared, p));
        auto dgs = shared->GetHeader()->DataGroups();
        for (size_t d = 0; d < dgs.size(); ++d) {
          bool used = false; for (auto& p : sub) used |= p.d == d;
          if (used) EXPECT(c, shared->ReadPartialData(*dgs[d], lo, hi), "partial-read", "ReadPartialData(" << lo << "," << hi << ") failed");
        }
        size_t first = std::max<size_t>(lo, 1), last = std::max(lo, hi);  // sample numbers
        for (size_t k = 0; k < sub.size(); ++k) {
          auto got = Snapshot(*ob[k]);
          auto& want = full[Key(sub[k])];
          EXPECT(c, got.size() == want.size(), "partial-count", Key(sub[k]) << ": samples " << got.size() << " full read " << want.size());
          for (size_t i = 0; i < got.size(); ++i) {
            c.step();
            if (i + 1 >= first && i + 1 <= last)
              EXPECT(c, got[i] == want[i], "partial-value", "range " << lo << "-" << hi << " channel " << Key(sub[k]) << " sample " << i << ": " << got[i] << " full read " << want[i] << (si ? " (single subscription)" : ""));
            else
              EXPECT(c, !AnyValid(got[i]), "partial-outside", "range " << lo << "-" << hi << " channel " << Key(sub[k]) << " sample " << i << " outside the range was delivered: " << got[i]);
          }
        }
      }
  for (auto& kv : full) for (auto& s : kv.second) out += s;
  c.outcome(out);
}

// larger recordings: lists of compressed blocks
static void Long(mc::Ctx& c) {
  size_t kind = c.pick(std::vector<size_t>{0, 1, 2, 3, 5, 6, 7, 8, 9, 10, 11}); bool zip = c.flag();
  size_t n = c.pick(std::vector<size_t>{300, c.thorough ? 3000u : 900u});
  if ((kind == 5 || kind == 6) && zip) return;
  if (!c.mine()) return;
  std::vector<size_t> order; for (size_t k = 0; k < n; ++k) order.push_back((k / 3 + k % 2) % KindGroups(kind));
  std::ostringstream t; t << "long " << KindName(kind) << " zip=" << zip << " n=" << n; c.describe(t.str());
  Bytes f = KindFile(c, kind, zip, order, (int)n / 3);
  auto full = FullRead(c, f);
  auto r = OpenBytes(c, f);
  auto all = AllChannels(*r);
  size_t maxn = 0; for (auto& kv : full) maxn = std::max(maxn, kv.second.size());
  for (auto [lo, hi] : std::vector<std::pair<size_t, size_t>>{{1, 1}, {1, maxn}, {maxn, maxn}, {maxn / 2, maxn / 2 + 1}, {2, maxn - 1}, {maxn / 3, maxn}, {maxn + 1, maxn + 5}}) {
    std::vector<ChannelObserverPtr> ob;
    for (auto& p : all) ob.push_back(Observe(*r, p));
    for (auto* dg : r->GetHeader()->DataGroups()) EXPECT(c, r->ReadPartialData(*dg, lo, hi), "partial-read", "");
    for (size_t k = 0; k < all.size(); ++k) {
      auto got = Snapshot(*ob[k]); auto& want = full[Key(all[k])];
      EXPECT(c, got.size() == want.size(), "partial-count", "");
      for (size_t i = 0; i < got.size(); ++i) {
        c.step();
        if (i + 1 >= lo && i + 1 <= hi) EXPECT(c, got[i] == want[i], "partial-value", "range " << lo << "-" << hi << " channel " << Key(all[k]) << " sample " << i << ": " << got[i] << " full read " << want[i]);
        else EXPECT(c, !AnyValid(got[i]), "partial-outside", "range " << lo << "-" << hi << " channel " << Key(all[k]) << " sample " << i << " outside the range was delivered");
      }
    }
  }
  c.outcome(t.str());
}

int main(int argc, char** argv) { return mc::Main(argc, argv, "C12", {{"ranges", Ranges}, {"long", Long, 2, 3, 60}}); }
