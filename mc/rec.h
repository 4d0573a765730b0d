// Common recorder: writes a specified recording through the public API and reads it back.
#pragma once
#include <cmath>
#include <cstring>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

#include "mc.h"
#include "memdev.h"
#include "mdf/ichannelgroup.h"
#include "mdf/ichannelobserver.h"
#include "mdf/idatagroup.h"
#include "mdf/iheader.h"
#include "mdf/mdffactory.h"
#include "mdf/mdfreader.h"
#include "mdf/mdfwriter.h"

namespace rec {
using namespace mdf;

struct Chan {
  ChannelDataType dt = ChannelDataType::UnsignedIntegerLe;
  uint32_t bytes = 1;
  ChannelType type = ChannelType::FixedLength;
  ChannelSyncType sync = ChannelSyncType::None;
  bool inval = false;
  std::string name;
};

inline Chan Ch(ChannelDataType dt, uint32_t bytes, bool inval = false) {
  Chan c; c.dt = dt; c.bytes = bytes; c.inval = inval; return c;
}
inline Chan MasterTime() {
  Chan c; c.dt = ChannelDataType::FloatLe; c.bytes = 8; c.type = ChannelType::Master; c.sync = ChannelSyncType::Time; c.name = "Time"; return c;
}
inline Chan Vlsd(ChannelDataType dt, bool inval = false) {
  Chan c; c.dt = dt; c.bytes = 0; c.type = ChannelType::VariableLength; c.inval = inval; return c;
}

inline bool IsInt(ChannelDataType d) { return (int)d <= 3; }
inline bool IsSigned(ChannelDataType d) { return (int)d == 2 || (int)d == 3; }
inline bool IsFloat(ChannelDataType d) { return (int)d == 4 || (int)d == 5; }
inline bool IsText(ChannelDataType d) { return (int)d >= 6 && (int)d <= 9; }
inline bool IsBytes(ChannelDataType d) { return (int)d >= 10 && (int)d <= 12; }
inline bool IsDate(ChannelDataType d) { return (int)d == 13 || (int)d == 14; }
inline bool IsDateOnly(ChannelDataType d) { return (int)d == 13; }

struct Val {
  uint64_t u = 0; int64_t i = 0; double f = 0; std::string s; std::vector<uint8_t> b;
  bool valid = true;
};

inline uint64_t Mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}

// Deterministic, position dependent value: boundary values at the first samples, then unique patterns.
inline Val Gen(const Chan& c, uint64_t salt, uint64_t sample) {
  Val v;
  uint64_t h = Mix(salt * 1000003ull + sample);
  uint32_t bits = c.bytes * 8;
  if (IsInt(c.dt)) {
    uint64_t mask = bits >= 64 ? ~0ull : ((1ull << bits) - 1);
    uint64_t raw;
    switch ((sample + salt) % 7) {
      case 0: raw = h & mask; break;
      case 1: raw = mask; break;                    // -1 / max
      case 2: raw = 1ull << (bits - 1); break;      // min
      case 3: raw = (1ull << (bits - 1)) - 1; break;  // max signed
      case 4: raw = 0x0102030405060708ull & mask; break;
      case 5: raw = 1; break;
      default: raw = (~h) & mask; break;
    }
    v.u = raw;
    v.i = bits >= 64 ? (int64_t)raw : ((raw >> (bits - 1)) & 1 ? (int64_t)(raw | ~mask) : (int64_t)raw);
  } else if (IsFloat(c.dt)) {
    static const double sp[] = {0.0, -1.5, 1.0, -0.0, 3.0e38, 1.17549435e-38, -123456.78125};
    static const double dp[] = {0.1, -1.7976931348623157e308, 5e-324, 123456789.123456789, -0.0, 1e-300, -2.0000000000000004};
    if (c.bytes == 4) v.f = (double)(float)(sample % 3 == 2 ? (double)(int32_t)h / 7.0 : sp[(sample + salt) % 7]);
    else v.f = sample % 3 == 2 ? (double)(int64_t)h / 7.0 : dp[(sample + salt) % 7];
  } else if (IsText(c.dt)) {
    // the text is stored null terminated: at most bytes-1 characters
    uint32_t n = c.bytes == 0 ? (uint32_t)(h % 20) : (uint32_t)((sample + salt) % c.bytes);
    for (uint32_t k = 0; k < n; ++k) v.s += (char)('!' + (Mix(h + k) % 90));
    for (auto& ch : v.s) if (ch == '\\') ch = '/';
  } else if (IsDateOnly(c.dt)) {
    v.u = ((uint64_t)(1577836800ull + (h % 500000000ull))) * 1000000000ull + (h % 60) * 1000000000ull;
    v.u -= v.u % 1000000000ull;
  } else if (IsDate(c.dt)) {
    v.u = ((uint64_t)(1577836800ull + (h % 500000000ull))) * 1000000000ull + (h % 1000) * 1000000ull;
  } else {
    uint32_t n = c.bytes == 0 ? (uint32_t)(h % 20) : c.bytes;
    for (uint32_t k = 0; k < n; ++k) v.b.push_back((uint8_t)Mix(h * 31 + k));
  }
  return v;
}

inline void SetValue(IChannel& cn, const Chan& c, const Val& v) {
  if (IsInt(c.dt)) {
    if (IsSigned(c.dt)) cn.SetChannelValue(v.i, v.valid); else cn.SetChannelValue(v.u, v.valid);
  } else if (IsFloat(c.dt)) cn.SetChannelValue(v.f, v.valid);
  else if (IsText(c.dt)) cn.SetChannelValue(v.s, v.valid);
  else if (IsDate(c.dt)) cn.SetChannelValue(v.u, v.valid);
  else cn.SetChannelValue(v.b, v.valid);
}

inline std::string Show(const Chan& c, const Val& v) {
  std::ostringstream o;
  o.precision(17);
  if (IsInt(c.dt)) { if (IsSigned(c.dt)) o << v.i; else o << v.u; }
  else if (IsFloat(c.dt)) o << v.f;
  else if (IsText(c.dt)) o << "'" << v.s << "'";
  else if (IsDate(c.dt)) o << v.u;
  else o << mc::Hex(v.b.data(), v.b.size());
  if (!v.valid) o << "(invalid)";
  return o.str();
}

inline Val GetValue(const IChannelObserver& ob, const Chan& c, uint64_t sample) {
  Val v;
  if (IsInt(c.dt)) { if (IsSigned(c.dt)) v.valid = ob.GetChannelValue(sample, v.i); else v.valid = ob.GetChannelValue(sample, v.u); }
  else if (IsFloat(c.dt)) v.valid = ob.GetChannelValue(sample, v.f);
  else if (IsText(c.dt)) v.valid = ob.GetChannelValue(sample, v.s);
  else if (IsDate(c.dt)) v.valid = ob.GetChannelValue(sample, v.u);
  else v.valid = ob.GetChannelValue(sample, v.b);
  return v;
}

inline bool SameValue(const Chan& c, const Val& a, const Val& b) {
  if (IsInt(c.dt)) return IsSigned(c.dt) ? a.i == b.i : a.u == b.u;
  if (IsFloat(c.dt)) return memcmp(&a.f, &b.f, 8) == 0;
  if (IsText(c.dt)) return a.s == b.s;
  if (IsDate(c.dt)) return a.u == b.u;
  return a.b == b.b;
}

inline const char* TypeName(ChannelDataType d) {
  static const char* n[] = {"U-LE", "U-BE", "I-LE", "I-BE", "F-LE", "F-BE", "ASCII", "UTF8", "UTF16LE", "UTF16BE", "BYTES", "MIMES", "MIMET", "DATE", "TIME", "C-LE", "C-BE"};
  return n[(int)d];
}
inline std::string Show(const Chan& c) {
  return std::string(TypeName(c.dt)) + (c.type == ChannelType::VariableLength ? "-VL" : c.type == ChannelType::Master ? "-M" : "") + std::to_string(c.bytes) + (c.inval ? "i" : "");
}

struct Group { std::string name; std::vector<Chan> ch; };
using Dg = std::vector<Group>;
struct Spec {
  MdfWriterType writer = MdfWriterType::Mdf4Basic;
  bool compress = false;
  bool periodic = true;
  double pretrig = 0;
  std::vector<Dg> dgs;
  std::string Text() const {
    std::ostringstream o;
    o << "writer=" << (int)writer << " compress=" << compress << " dgs=[";
    for (auto& d : dgs) { o << "{"; for (auto& g : d) { o << "("; for (auto& c : g.ch) o << Show(c) << " "; o << ")"; } o << "}"; }
    o << "]";
    return o.str();
  }
};

inline std::string GName(size_t d, size_t g) { return "G" + std::to_string(d) + "_" + std::to_string(g); }
inline std::string CName(size_t k) { return "Ch" + std::to_string(k); }
inline uint64_t Salt(size_t d, size_t g, size_t k) { return d * 961 + g * 31 + k; }

constexpr uint64_t kStart = 1'700'000'000'000'000'000ull;

struct Live {  // blocks created in the writer
  std::vector<IDataGroup*> dg;
  std::vector<std::vector<IChannelGroup*>> cg;
  std::vector<std::vector<std::vector<IChannel*>>> cn;
};

inline Live Configure(MdfWriter& w, const Spec& s, size_t name_base = 0) {
  Live l;
  bool mdf3 = s.writer == MdfWriterType::Mdf3Basic;
  for (size_t d = 0; d < s.dgs.size(); ++d) {
    auto* dg = w.CreateDataGroup();
    l.dg.push_back(dg); l.cg.emplace_back(); l.cn.emplace_back();
    for (size_t g = 0; g < s.dgs[d].size(); ++g) {
      auto* cg = MdfWriter::CreateChannelGroup(dg);
      auto& gs = s.dgs[d][g];
      cg->Name(gs.name.empty() ? GName(d + name_base, g) : gs.name);
      l.cg[d].push_back(cg); l.cn[d].emplace_back();
      for (size_t k = 0; k < gs.ch.size(); ++k) {
        auto* cn = MdfWriter::CreateChannel(cg);
        auto& c = gs.ch[k];
        cn->Name(c.name.empty() ? CName(k) : c.name);
        cn->Type(c.type);
        if (!mdf3) cn->Sync(c.sync);
        cn->DataType(c.dt);
        if (c.bytes > 0) cn->DataBytes(c.bytes);
        if (c.inval) cn->Flags(CnFlag::InvalidValid);
        l.cn[d][g].push_back(cn);
      }
    }
  }
  return l;
}

inline std::unique_ptr<MdfWriter> NewWriter(const Spec& s) {
  auto w = MdfFactory::CreateMdfWriter(s.writer);
  w->CompressData(s.compress);
  w->SavePeriodic(s.periodic);
  w->PreTrigTime(s.pretrig);
  return w;
}

using Bytes = std::vector<uint8_t>;

}  // namespace rec

// --- generic write/verify used by C01, C02, C08, C11, ...
namespace rec {

struct Step { size_t d, g; uint64_t n; uint64_t time; };  // n: per-group sample number

// Builds a step list from an interleaving of flat group numbers.
inline std::vector<std::pair<size_t, size_t>> Flat(const Spec& s) {
  std::vector<std::pair<size_t, size_t>> f;
  for (size_t d = 0; d < s.dgs.size(); ++d) for (size_t g = 0; g < s.dgs[d].size(); ++g) f.push_back({d, g});
  return f;
}
inline std::vector<Step> MakeSteps(const Spec& s, const std::vector<size_t>& order, uint64_t t0 = kStart, uint64_t dt = 1'000'000) {
  auto f = Flat(s);
  std::vector<uint64_t> cnt(f.size(), 0);
  std::vector<Step> st;
  uint64_t t = t0;
  for (auto o : order) { st.push_back({f[o].first, f[o].second, cnt[o]++, t}); t += dt; }
  return st;
}

using ValidFn = std::function<bool(size_t d, size_t g, size_t k, uint64_t n)>;

// mode: 0 SetChannelValue + SaveSample(dg, cg), 1 SetChannelValue + SaveSample(cg), 2 IDataWriter + AddSample
inline void Put(MdfWriter& w, const Spec& s, Live& l, const Step& st, int mode, const ValidFn& vf = {}) {
  auto& gs = s.dgs[st.d][st.g];
  for (size_t k = 0; k < gs.ch.size(); ++k) {
    if (gs.ch[k].type == ChannelType::Master) continue;
    Val v = Gen(gs.ch[k], Salt(st.d, st.g, k), st.n);
    if (vf) v.valid = vf(st.d, st.g, k, st.n);
    SetValue(*l.cn[st.d][st.g][k], gs.ch[k], v);
  }
  if (mode == 1) w.SaveSample(*l.cg[st.d][st.g], st.time);
  else w.SaveSample(*l.dg[st.d], *l.cg[st.d][st.g], st.time);
}

inline void CheckMaster(mc::Ctx& c, const std::string& key, double got, uint64_t time, uint64_t start, const std::string& where) {
  long double want = ((long double)(int64_t)(time - start)) / 1e9L;
  long double tol = 1e-9L / 2 + fabsl(want) * 2.3e-16L;
  EXPECT(c, fabsl((long double)got - want) <= tol, key, where << ": master time " << got << " expected " << (double)want);
}

// Reads all and compares with the steps. `first_dg` is the index of the first data group of this spec in the file.
inline void Verify(mc::Ctx& c, MdfReader& r, const Spec& s, const std::vector<Step>& steps, size_t first_dg = 0, const ValidFn& vf = {},
                   uint64_t start = kStart, const std::string& key = "value", size_t name_base = 0, bool check_counts = true) {
  auto* hd = r.GetHeader();
  EXPECT(c, hd != nullptr, key + "-header", "no header read");
  auto dgs = hd->DataGroups();
  EXPECT(c, dgs.size() >= first_dg + s.dgs.size(), key + "-dg", "data groups " << dgs.size() << " expected at least " << first_dg + s.dgs.size());
  std::ostringstream out;
  for (size_t d = 0; d < s.dgs.size(); ++d) {
    auto* dg = dgs[first_dg + d];
    auto cgs = dg->ChannelGroups();
    EXPECT(c, cgs.size() == s.dgs[d].size(), key + "-cg", "channel groups " << cgs.size() << " expected " << s.dgs[d].size());
    std::vector<std::vector<ChannelObserverPtr>> obs;
    for (size_t g = 0; g < cgs.size(); ++g) {
      obs.emplace_back();
      auto cns = cgs[g]->Channels();
      auto& gs = s.dgs[d][g];
      std::string gn = gs.name.empty() ? GName(d + name_base, g) : gs.name;
      EXPECT(c, cgs[g]->Name() == gn || s.writer == MdfWriterType::Mdf3Basic, key + "-cgname", "group name '" << cgs[g]->Name() << "' expected '" << gn << "'");
      EXPECT(c, cns.size() == gs.ch.size(), key + "-cn", "channels " << cns.size() << " expected " << gs.ch.size());
      for (size_t k = 0; k < cns.size(); ++k) {
        std::string cnn = gs.ch[k].name.empty() ? CName(k) : gs.ch[k].name;
        EXPECT(c, cns[k]->Name() == cnn, key + "-cnname", "channel name '" << cns[k]->Name() << "' expected '" << cnn << "'");
        EXPECT(c, cns[k]->DataType() == gs.ch[k].dt, key + "-cntype", "data type differs");
        obs[g].push_back(CreateChannelObserver(*dg, *cgs[g], *cns[k]));
        EXPECT(c, obs[g].back() != nullptr, key + "-obs", "no observer");
      }
    }
    EXPECT(c, r.ReadData(*dg), key + "-read", "ReadData returned false");
    for (size_t g = 0; g < cgs.size(); ++g) {
      std::vector<const Step*> mine;
      for (auto& st : steps) if (st.d == d && st.g == g) mine.push_back(&st);
      if (check_counts) EXPECT(c, cgs[g]->NofSamples() == mine.size(), key + "-count", GName(d, g) << ": NofSamples " << cgs[g]->NofSamples() << " expected " << mine.size());
      auto& gs = s.dgs[d][g];
      for (size_t k = 0; k < gs.ch.size(); ++k) {
        auto& ob = *obs[g][k];
        EXPECT(c, ob.NofSamples() == mine.size(), key + "-nsamples", GName(d, g) << ": observer samples " << ob.NofSamples() << " expected " << mine.size());
        for (size_t n = 0; n < mine.size(); ++n) {
          c.step();
          std::ostringstream where;
          where << GName(d, g) << "." << k << "[" << n << "] (" << Show(gs.ch[k]) << ")";
          Val got = GetValue(ob, gs.ch[k], n);
          if (gs.ch[k].type == ChannelType::Master) {
            if (IsFloat(gs.ch[k].dt) && gs.ch[k].bytes == 8) CheckMaster(c, key + "-master", got.f, mine[n]->time, start, where.str());
            EXPECT(c, got.valid, key + "-mastervalid", where.str() << " master sample reported invalid");
            continue;
          }
          Val want = Gen(gs.ch[k], Salt(d, g, k), mine[n]->n);
          bool wv = vf ? vf(d, g, k, mine[n]->n) : true;
          EXPECT(c, got.valid == wv, key + "-valid", where.str() << " valid=" << got.valid << " expected " << wv);
          EXPECT(c, SameValue(gs.ch[k], got, want), key, where.str() << " = " << Show(gs.ch[k], got) << " expected " << Show(gs.ch[k], want));
          out << Show(gs.ch[k], got) << ";";
        }
      }
    }
  }
  c.outcome(out.str() + (s.compress ? "z" : "") + std::to_string((int)s.writer));
}

// One complete recording into memory.
inline std::shared_ptr<MemDev> Record(mc::Ctx& c, const Spec& s, const std::vector<Step>& steps, int mode = 0, const ValidFn& vf = {}, const std::string& key = "value",
                                      const std::function<void(size_t)>& after = {}) {
  auto dev = std::make_shared<MemDev>();
  auto w = NewWriter(s);
  EXPECT(c, w->Init(std::static_pointer_cast<std::streambuf>(dev)), key + "-init", "Init failed");
  auto l = Configure(*w, s);
  EXPECT(c, w->InitMeasurement(), key + "-initmeas", "InitMeasurement failed");
  w->StartMeasurement(kStart);
  for (size_t i = 0; i < steps.size(); ++i) { Put(*w, s, l, steps[i], mode, vf); if (after) after(i); }
  w->StopMeasurement(kStart + 3600'000'000'000ull);
  EXPECT(c, w->FinalizeMeasurement(), key + "-finalize", "FinalizeMeasurement failed");
  return dev;
}
inline void RoundTrip(mc::Ctx& c, const Spec& s, const std::vector<Step>& steps, int mode = 0, const ValidFn& vf = {}, const std::string& key = "value",
                      const std::function<void(size_t)>& after = {}) {
  auto dev = Record(c, s, steps, mode, vf, key, after);
  auto in = std::make_shared<MemDev>(dev->data);
  MdfReader r(std::static_pointer_cast<std::streambuf>(in));
  EXPECT(c, r.IsOk(), key + "-open", "reader could not open the file");
  EXPECT(c, r.ReadEverythingButData(), key + "-config", "ReadEverythingButData failed");
  EXPECT(c, r.IsFinalized(), key + "-finalized", "file not finalized");
  Verify(c, r, s, steps, 0, vf, kStart, key);
}
}  // namespace rec
