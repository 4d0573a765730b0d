// C29: one writing session can hold any sequence of measurements.
#include "files.h"
#include "mdf4parse.h"
#include "mdf/mdflogstream.h"
#include "mdf/ievent.h"
using namespace rec;

struct Session { Spec s; Live l; std::vector<Step> steps; uint64_t start = 0; bool odd = false; size_t dg = 0; };

static Spec SpecOf(size_t k, MdfWriterType w, bool zip, bool vl) {
  Spec s; s.writer = w; s.compress = zip;
  Group g; g.ch = {MasterTime(), Ch(ChannelDataType::UnsignedIntegerLe, 4), Ch(ChannelDataType::StringAscii, 6)};
  Group h; h.ch = {MasterTime(), Ch(ChannelDataType::FloatBe, 8)};
  if (vl) g.ch.push_back(Vlsd(ChannelDataType::StringUTF8));
  s.dgs = {{g}};
  if (k % 3 == 1) s.dgs[0].push_back(h);
  if (k % 3 == 2) s.dgs.push_back({h});
  return s;
}

// what an irregular measurement left must at least be samples that were saved, in the order they were saved
static void SubSequence(mc::Ctx& c, MdfReader& r, const Session& s, size_t which) {
  auto dgs = r.GetHeader()->DataGroups();
  for (size_t d = 0; d < s.s.dgs.size(); ++d) {
    auto cgs = dgs[s.dg + d]->ChannelGroups();
    EXPECT(c, cgs.size() == s.s.dgs[d].size(), "odd-groups", "measurement " << which << " has " << cgs.size() << " channel groups");
    std::vector<ChannelObserverPtr> ob;
    for (auto* cg : cgs) ob.push_back(CreateChannelObserver(*dgs[s.dg + d], *cg, *cg->Channels()[1]));
    EXPECT(c, r.ReadData(*dgs[s.dg + d]), "odd-read", "ReadData of measurement " << which << " failed");
    for (size_t g = 0; g < cgs.size(); ++g) {
      std::vector<Val> saved; for (auto& x : s.steps) if (x.d == d && x.g == g) saved.push_back(Gen(s.s.dgs[d][g].ch[1], Salt(d, g, 1), x.n));
      size_t at = 0;
      for (uint64_t n = 0; n < ob[g]->NofSamples(); ++n) {
        Val v = GetValue(*ob[g], s.s.dgs[d][g].ch[1], n); c.step();
        EXPECT(c, v.valid, "odd-valid", "measurement " << which << ": sample " << n << " of group " << g << " is counted but not there");
        while (at < saved.size() && !SameValue(s.s.dgs[d][g].ch[1], saved[at], v)) ++at;
        EXPECT(c, at < saved.size(), "odd-value", "measurement " << which << ": sample " << n << " of group " << g << " = " << Show(s.s.dgs[d][g].ch[1], v) << " was not saved there");
        ++at;
      }
    }
  }
}

static void Play(mc::Ctx& c, MdfWriterType type, bool zip, bool vl, const std::string& ops, size_t flush, bool event) {
  auto dev = std::make_shared<MemDev>();
  auto w = MdfFactory::CreateMdfWriter(type);
  w->CompressData(zip); w->PreTrigTime(3600);
  EXPECT(c, w->Init(std::static_pointer_cast<std::streambuf>(dev)), "init", "Init failed");
  std::vector<Session> ss; uint64_t t = kStart; size_t saves = 0, dgs = 0, events = 0; char at = '-';
  for (char o : ops) {
    t += 10'000'000;
    char want = o == 'A' ? 'i' : o == 'T' ? 'a' : o == 'F' ? 't' : 0;
    if (want && at != want && !(o == 'F' && (at == 'f' || at == 'a'))) ss.back().odd = true;  // finalizing a running measurement stops it
    if (o == 'I' && at != '-' && at != 'f') ss.back().odd = true;
    if (o != 'S') at = (char)tolower(o);
    if (o == 'I') {
      ss.emplace_back(); auto& s = ss.back(); size_t k = ss.size() - 1;
      s.s = SpecOf(k, type, zip, vl); s.dg = dgs; s.l = Configure(*w, s.s, dgs); dgs += s.s.dgs.size();
      EXPECT(c, w->InitMeasurement(), "initmeas", "InitMeasurement " << k << " failed");
    } else if (o == 'S') {
      auto& s = ss.back(); auto f = Flat(s.s); auto [d, g] = f[saves % f.size()]; uint64_t n = 0; for (auto& x : s.steps) n += x.d == d && x.g == g;
      s.steps.push_back({d, g, n, t});
      Put(*w, s.s, s.l, s.steps.back(), 0);
      ++saves; if (flush == 1 || (flush == 2 && saves % 2 == 0)) flushctl::Flush();
    } else if (o == 'A') { ss.back().start = t; w->StartMeasurement(t); }
    else if (o == 'T') w->StopMeasurement(t);
    else {
      if (event && type != MdfWriterType::Mdf3Basic) { auto* e = w->Header()->CreateEvent(); e->Name("E" + std::to_string(events++)); e->SyncValue((int64_t)events); }
      EXPECT(c, w->FinalizeMeasurement(), "finalize", "FinalizeMeasurement failed");
    }
    // what was finalized before stays readable at any later point of the session
    if (at == 'i' && o == 'I' && ss.size() > 1 && !ss[ss.size() - 2].odd) {
      auto r = OpenBytes(c, dev->data);
      for (size_t k = 0; k + 1 < ss.size(); ++k) if (!ss[k].odd) Verify(c, *r, ss[k].s, ss[k].steps, ss[k].dg, {}, ss[k].start, "during " + std::to_string(ss.size() - 1) + ": measurement " + std::to_string(k), ss[k].dg);
    }
  }
  uint64_t first = 0; for (auto& s : ss) { if (s.start) { first = s.start; if (!s.steps.empty()) break; } if (!s.steps.empty()) break; }
  w.reset();
  if (type != MdfWriterType::Mdf3Basic) { auto e = m4::CheckFile(dev->data); EXPECT(c, e.empty(), "format", e); }
  auto r = OpenBytes(c, dev->data);
  EXPECT(c, r->IsFinalized(), "finalized", "the file is not finalized");
  EXPECT(c, r->GetHeader()->DataGroups().size() == dgs, "count", r->GetHeader()->DataGroups().size() << " data groups, " << dgs << " were configured");
  for (size_t k = 0; k < ss.size(); ++k) {
    if (ss[k].odd) SubSequence(c, *r, ss[k], k);
    else Verify(c, *r, ss[k].s, ss[k].steps, ss[k].dg, {}, ss[k].start, "measurement " + std::to_string(k), ss[k].dg);
  }
  bool odd = false; for (auto& s : ss) odd |= s.odd;
  if (!odd && type != MdfWriterType::Mdf3Basic && first) EXPECT(c, r->GetHeader()->StartTime() == first, "start", "the start time of the file is " << r->GetHeader()->StartTime() << ", the first measurement started at " << first);
  if (event && type != MdfWriterType::Mdf3Basic) {
    auto ev = r->GetHeader()->Events();
    EXPECT(c, ev.size() == events, "events", ev.size() << " events of " << events);
    for (size_t k = 0; k < ev.size(); ++k) EXPECT(c, ev[k]->Name() == "E" + std::to_string(k), "event", "event " << k << " is '" << ev[k]->Name() << "'");
  }
}

// Sequences of I(nit) S(ave) A(start) T(stop) F(inalize); regular: in the documented order, else in any order
static void Sequences(mc::Ctx& c, bool regular, size_t len) {
  static const MdfWriterType types[] = {MdfWriterType::Mdf4Basic, MdfWriterType::MdfConverter, MdfWriterType::Mdf3Basic, MdfWriterType::MdfBusLogger};
  auto type = types[c.choose(4)]; bool zip = type == MdfWriterType::Mdf3Basic ? false : c.flag(); bool vl = type == MdfWriterType::Mdf3Basic || type == MdfWriterType::MdfConverter ? false : c.flag();
  std::string ops; char st = '-';
  for (size_t k = 0; k < len; ++k) {
    std::string can = st == '-' || st == 'f' ? "IE" : st == 'i' ? (regular ? "SA" : "SATFI") : st == 'a' ? (regular ? "ST" : "STFI") : regular ? "F" : "FI";
    if (st == 'f') can += "F";
    char o = can[c.choose(can.size())];
    if (o == 'E') break;
    ops += o; if (o != 'S') st = (char)tolower(o);
  }
  if (st == '-') return;
  if (st != 'f') { if (st == 'i') ops += "A"; if (st != 't') ops += "T"; ops += "F"; }
  size_t flush = c.dev(3); bool event = c.dev(2);
  if (!c.mine()) return;
  c.describe("writer=" + std::to_string((int)type) + " zip=" + std::to_string(zip) + " vl=" + std::to_string(vl) + " flush=" + std::to_string(flush) + " event=" + std::to_string(event) + " " + ops);
  Play(c, type, zip, vl, ops, flush, event);
}
static void Regular(mc::Ctx& c) { Sequences(c, true, c.thorough ? 14 : 11); }
static void Any(mc::Ctx& c) { Sequences(c, false, c.thorough ? 8 : 6); }

int main(int argc, char** argv) {
  MdfLogStream::SetLogFunction1([](const MdfLocation&, MdfLogSeverity, const std::string&) {});
  return mc::Main(argc, argv, "C29", {{"regular", Regular, 1, 2}, {"any", Any, 1, 2}});
}
