// C06: every crash point of a recording leaves a readable file with an exact prefix of the samples.
#include "files.h"
using namespace rec;

struct Group6 { size_t d, g; uint64_t id; };

// Applies ops[0..n) to the image of the file.
static void Apply(Bytes& img, const WriteOp& op, size_t len) {
  if (op.pos + len > img.size()) img.resize(op.pos + len, 0);
  memcpy(img.data() + op.pos, op.bytes.data(), len);
}

struct Mark { size_t ops; std::vector<uint64_t> need; };  // from this many writes on, at least these samples per group

static void CheckImage(mc::Ctx& c, const Bytes& img, const std::map<std::string, std::vector<std::string>>& full, const std::vector<uint64_t>& need,
                       const std::string& where, bool complete, bool sd) {
  c.step();
  auto r = std::make_unique<MdfReader>(std::static_pointer_cast<std::streambuf>(std::make_shared<MemDev>(img)));
  EXPECT(c, r->IsOk() && r->ReadEverythingButData(), "crash-open", where << ": file cannot be opened");
  auto all = AllChannels(*r);
  std::map<std::string, ChannelObserverPtr> ob;
  for (auto& p : all) ob[Key(p)] = Observe(*r, p);
  size_t flat = 0;
  auto dgs = r->GetHeader()->DataGroups();
  for (size_t d = 0; d < dgs.size(); ++d) {
    std::map<uint64_t, uint64_t> got; std::string bad;
    ISampleObserver so(*dgs[d]);
    so.DoOnSample = [&](uint64_t sample, uint64_t id, const Bytes&) { if (sample != got[id]) bad = "sample numbers not consecutive"; ++got[id]; return true; };
    r->ReadData(*dgs[d]);
    EXPECT(c, bad.empty(), "crash-order", where << ": " << bad);
    auto cgs = dgs[d]->ChannelGroups();
    for (size_t g = 0; g < cgs.size(); ++g) {
      if (cgs[g]->Flags() & CgFlag::VlsdChannel) continue;
      uint64_t n = got[cgs[g]->RecordId()];
      EXPECT(c, flat < need.size() && n >= need[flat], "crash-lost", where << ": group " << d << "." << g << " delivers " << n << " samples but " << need[flat] << " were flushed");
      ++flat;
      auto cns = cgs[g]->Channels();
      for (size_t k = 0; k < cns.size(); ++k) {
        std::string key = Key({d, g, k});
        auto it = full.find(key);
        EXPECT(c, it != full.end(), "crash-config", where << ": channel " << key << " is not in the finished file");
        bool sdch = sd && cns[k]->Type() == ChannelType::VariableLength;
        if (complete) EXPECT(c, ob[key]->NofSamples() == it->second.size(), "crash-complete", where << ": channel " << key << " sample count " << ob[key]->NofSamples());
        auto s = Snapshot(*ob[key]);
        for (size_t i = 0; i < s.size(); ++i) {
          if (i < n) {
            EXPECT(c, i < it->second.size(), "crash-extra", where << ": channel " << key << " delivers sample " << i << " that was never saved: " << s[i]);
            // signal data is written when the file is finalized: until then the value is missing (empty or invalid), never foreign
            if (sdch && s[i] != it->second[i]) { EXPECT(c, !complete && (!AnyValid(s[i]) || s[i] == "V;" || s[i] == "V0:;"), "crash-sd", where << ": channel " << key << "[" << i << "] = " << s[i] << " saved " << it->second[i]); continue; }
            EXPECT(c, s[i] == it->second[i], "crash-value", where << ": channel " << key << "[" << i << "] = " << s[i] << " saved " << it->second[i]);
          } else EXPECT(c, !AnyValid(s[i]), "crash-undelivered", where << ": channel " << key << "[" << i << "] = " << s[i] << " is valid but was not read");
        }
      }
    }
  }
}

static void Crash(mc::Ctx& c, size_t kind, bool zip, const std::vector<size_t>& order, const std::vector<bool>& flush, bool torn) {
  std::ostringstream t; t << KindName(kind) << " zip=" << zip << " order="; for (size_t k = 0; k < order.size(); ++k) t << order[k] << (flush[k] ? "F" : "");
  c.describe(t.str());
  auto dev = std::make_shared<MemDev>(); dev->logging = true;
  size_t groups = KindGroups(kind);
  std::vector<uint64_t> saved(groups, 0);
  std::vector<Mark> marks; size_t final_ops = 0;
  bool live = !zip && kind != 4;  // stored at each periodic save; otherwise when the measurement stops
  KindRecord(c, kind, zip, order, dev, [&](int i) {
    if (i == -1) { marks.push_back({dev->log.size(), saved}); return; }
    if (i >= 0) { ++saved[order[i]]; if (flush[i]) { flushctl::Flush(); if (live) marks.push_back({dev->log.size(), saved}); } }
    if (i == -2) marks.push_back({dev->log.size(), saved});
    if (i == -3) final_ops = dev->log.size();
  });
  auto full = FullRead(c, dev->data);
  auto need_of = [&](std::vector<uint64_t> v) {  // map the saved groups to the flat order of the file's groups
    if (!KindBus(kind)) return v;
    std::vector<uint64_t> out;
    auto r = OpenBytes(c, dev->data);
    for (auto* cg : r->GetHeader()->DataGroups()[0]->ChannelGroups()) { if (cg->Flags() & CgFlag::VlsdChannel) continue; out.push_back(cg->Name() == "CAN_DataFrame" ? v[0] : cg->Name() == "CAN_RemoteFrame" ? v[1] : 0); }
    return out;
  };
  for (auto& m : marks) m.need = need_of(m.need);
  bool sd = kind == 3 || kind == 4 || kind == 10 || kind == 11;
  Bytes img;
  size_t mark = 0;
  const auto& log = dev->log;
  for (size_t p = 0; p <= log.size(); ++p) {
    if (p >= marks[0].ops) {
      while (mark + 1 < marks.size() && marks[mark + 1].ops <= p) ++mark;
      CheckImage(c, img, full, marks[mark].need, "crash after write " + std::to_string(p) + " of " + std::to_string(log.size()), p == final_ops, sd);
      if (torn && p < log.size() && log[p].bytes.size() > 8)
        for (size_t cut = 1; cut < log[p].bytes.size(); ++cut) {
          Bytes half = img; Apply(half, log[p], cut);
          CheckImage(c, half, full, marks[mark].need, "crash in write " + std::to_string(p) + " after " + std::to_string(cut) + " of " + std::to_string(log[p].bytes.size()) + " bytes at " + std::to_string(log[p].pos), false, sd);
        }
    }
    if (p < log.size()) Apply(img, log[p], log[p].bytes.size());
  }
  EXPECT(c, img == dev->data, "harness", "log does not reproduce the file");
  c.outcome(mc::Hash(img.data(), img.size()) ^ log.size());
}

static void Histories(mc::Ctx& c) {
  size_t kind = c.choose(kFileKinds); bool zip = c.flag();
  if ((kind == 5 || kind == 6) && zip) return;
  size_t n = KindGroups(kind) == 1 ? (c.thorough ? 6 : 5) : KindGroups(kind) == 2 ? (c.thorough ? 5 : 4) : (c.thorough ? 4 : 3);
  size_t len = 1 + c.choose(n);
  std::vector<size_t> order; std::vector<bool> flush;
  for (size_t k = 0; k < len; ++k) { order.push_back(c.choose(KindGroups(kind))); flush.push_back(zip ? k == 0 : c.flag()); }
  if (!c.mine()) return;
  Crash(c, kind, zip, order, flush, len <= 3 || c.thorough);
}

int main(int argc, char** argv) { return mc::Main(argc, argv, "C06", {{"histories", Histories}}); }
