// C25: time stamps and their conversions, in every local time zone.
#include <cstdarg>
#include <ctime>
#include "mdf/ifilehistory.h"
#include "mdf/imdftimestamp.h"
#include "mdf/itimestamp.h"
#include "mdf/mdfhelper.h"
#include "mdf/mdflogstream.h"
#include "rec.h"
using namespace rec;

// ---- independent calendar and time zone rules
struct Civil { int64_t y; int mo, d, h, mi, s, wd; };
static int64_t Days(int64_t y, int m, int d) {
  y -= m <= 2; int64_t era = (y >= 0 ? y : y - 399) / 400; int64_t yoe = y - era * 400;
  int64_t doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1; int64_t doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
  return era * 146097 + doe - 719468;
}
static Civil ToCivil(int64_t sec) {
  int64_t z = sec >= 0 ? sec / 86400 : -((-sec + 86399) / 86400); int64_t r = sec - z * 86400; Civil c;
  c.h = (int)(r / 3600); c.mi = (int)(r / 60 % 60); c.s = (int)(r % 60); c.wd = (int)(((z % 7) + 11) % 7);  // 1970-01-01 is Thursday (4)
  z += 719468; int64_t era = (z >= 0 ? z : z - 146096) / 146097; int64_t doe = z - era * 146097; int64_t yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
  int64_t doy = doe - (365 * yoe + yoe / 4 - yoe / 100); int64_t mp = (5 * doy + 2) / 153; c.d = (int)(doy - (153 * mp + 2) / 5 + 1); c.mo = (int)(mp < 10 ? mp + 3 : mp - 9); c.y = yoe + era * 400 + (c.mo <= 2);
  return c;
}
struct Rule { int m, w, h; };  // the w-th Sunday (5 = last) of month m at local hour h
struct Zone { const char* name; const char* tz; int off; int dst; Rule on, back; };  // offsets in minutes
static const std::vector<Zone>& Zones() {
  static const std::vector<Zone> z = {
    {"UTC", "UTC0", 0, 0, {}, {}}, {"Kolkata", "IST-5:30", 330, 0, {}, {}}, {"Tokyo", "JST-9", 540, 0, {}, {}}, {"Bogota", "<-05>5", -300, 0, {}, {}}, {"BakerIsland", "<-12>12", -720, 0, {}, {}}, {"Kiritimati", "<+14>-14", 840, 0, {}, {}},
    {"Marquesas", "<-0930>9:30", -570, 0, {}, {}}, {"Nepal", "<+0545>-5:45", 345, 0, {}, {}},
    {"Stockholm", "CET-1CEST,M3.5.0,M10.5.0/3", 60, 60, {3, 5, 2}, {10, 5, 3}}, {"NewYork", "EST5EDT,M3.2.0,M11.1.0", -300, 60, {3, 2, 2}, {11, 1, 2}},
    {"Auckland", "NZST-12NZDT,M9.5.0,M4.1.0/3", 720, 60, {9, 5, 2}, {4, 1, 3}}, {"StJohns", "NST3:30NDT,M3.2.0,M11.1.0", -210, 60, {3, 2, 2}, {11, 1, 2}}, {"LordHowe", "<+1030>-10:30<+11>-11,M10.1.0,M4.1.0", 630, 30, {10, 1, 2}, {4, 1, 2}}};
  return z;
}
static int64_t RuleUtc(const Rule& r, int64_t y, int off) {
  int64_t first = Days(y, r.m, 1); int wd = (int)(((first % 7) + 11) % 7); int64_t d = first + (7 - wd) % 7 + 7 * (r.w - 1);
  int64_t next = r.m == 12 ? Days(y + 1, 1, 1) : Days(y, r.m + 1, 1); while (d >= next) d -= 7;
  return d * 86400 + r.h * 3600 - off * 60;
}
static bool InDst(const Zone& z, int64_t utc) {
  if (!z.dst) return false;
  int64_t y = ToCivil(utc + z.off * 60).y;
  int64_t on = RuleUtc(z.on, y, z.off), back = RuleUtc(z.back, y, z.off + z.dst);
  return on < back ? utc >= on && utc < back : utc >= on || utc < back;
}
static int64_t Local(const Zone& z, int64_t utc) { return utc + (z.off + (InDst(z, utc) ? z.dst : 0)) * 60; }
static void SetZone(const Zone& z) { setenv("TZ", z.tz, 1); tzset(); }

static std::string F(const char* f, ...) { char b[100]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }

// ---- instants (seconds) around every boundary
static std::vector<int64_t> Instants(const Zone& z, int64_t y) {
  std::vector<int64_t> v; auto add = [&](int64_t t) { for (int64_t d : {-3600, -1, 0, 1, 59, 3599, 3600, 43200}) { int64_t x = t + d; if (x >= 0) v.push_back(x); } };
  for (int m = 1; m <= 12; ++m) { add(Days(y, m, 1) * 86400); add(Days(y, m, 1) * 86400 - z.off * 60); add(Days(y, m, 15) * 86400 + 47111); }
  add(Days(y, 2, 28) * 86400 + 86400); add(Days(y, 3, 1) * 86400 - z.off * 60 - 86400);
  for (int d = 1; d <= 9; ++d) { v.push_back(Days(y, 6, d) * 86400 + d * 3671); }
  if (z.dst) { add(RuleUtc(z.on, y, z.off)); add(RuleUtc(z.back, y, z.off + z.dst)); add(RuleUtc(z.back, y, z.off + z.dst) - z.dst * 60); }
  return v;
}
static const std::vector<int64_t>& Years(bool thorough) {
  static std::vector<int64_t> q = {1970, 1971, 1972, 1983, 1984, 1985, 1999, 2000, 2001, 2019, 2020, 2023, 2024, 2025, 2026, 2037, 2038, 2068, 2069, 2070, 2099, 2100, 2101, 2106, 2162}, t;
  if (t.empty()) for (int64_t y = 1970; y <= 2163; ++y) t.push_back(y);
  return thorough ? t : q;
}
static const std::vector<uint64_t> kSub = {0, 1, 999999, 1000000, 1000001, 7000000, 99000000, 123456789, 999000000, 999999999};

static void Strings(mc::Ctx& c) {
  auto& z = c.pick(Zones()); int64_t y = c.pick(Years(c.thorough));
  if (!c.mine()) return;
  c.describe(std::string(z.name) + " year " + std::to_string(y)); SetZone(z); uint64_t hh = 0;
  for (int64_t sec : Instants(z, y)) for (uint64_t sub : kSub) {
    uint64_t t = (uint64_t)sec * 1000000000ull + sub; int ms = (int)(sub / 1000000);
    Civil l = ToCivil(Local(z, sec)), u = ToCivil(sec);
    auto is = [&](const char* what, const std::string& got, const std::string& want) { EXPECT(c, got == want, what, z.name << " " << t << " ns: " << got << ", is " << want); hh = mc::Hash(got.data(), got.size(), hh); c.step(); };
    std::string iso = F("%04d-%02d-%02d %02d:%02d:%02d", (int)l.y, l.mo, l.d, l.h, l.mi, l.s); if (ms) iso += F(".%03d", ms);
    is("NsToLocalIsoTime", MdfHelper::NsToLocalIsoTime(t), iso);
    is("NanoSecToDDMMYYYY", MdfHelper::NanoSecToDDMMYYYY(t), F("%02d:%02d:%04d", l.d, l.mo, (int)l.y)); is("NanoSecToHHMMSS", MdfHelper::NanoSecToHHMMSS(t), F("%02d:%02d:%02d", l.h, l.mi, l.s));
    is("NanoSecUtcToDDMMYYYY", MdfHelper::NanoSecUtcToDDMMYYYY(t), F("%02d:%02d:%04d", u.d, u.mo, (int)u.y)); is("NanoSecUtcToHHMMSS", MdfHelper::NanoSecUtcToHHMMSS(t), F("%02d:%02d:%02d", u.h, u.mi, u.s));
    if (sub == 0 || sub == 999999999) for (int tz : {-720, -570, -300, -1, 0, 1, 330, 840}) for (int d : {0, 60, 30, -60}) {
      if (sec + (tz + d) * 60 < 0) continue;
      Civil q = ToCivil(sec + (tz + d) * 60);
      is("NanoSecTzToDDMMYYYY", MdfHelper::NanoSecTzToDDMMYYYY(t, (int16_t)tz, (int16_t)d), F("%02d:%02d:%04d", q.d, q.mo, (int)q.y)); is("NanoSecTzToHHMMSS", MdfHelper::NanoSecTzToHHMMSS(t, (int16_t)tz, (int16_t)d), F("%02d:%02d:%02d", q.h, q.mi, q.s));
    }
    UtcTimestamp ts(t); std::string d = F("%04d-%02d-%02d", (int)u.y, u.mo, u.d), h = F("%02d:%02d:%02d", u.h, u.mi, u.s), fr = ms ? F(".%03d", ms) : "";
    is("ToIsoDate", ts.ToIsoDate(), d + "Z"); is("ToIsoTime", ts.ToIsoTime(false), h + "Z"); is("ToIsoTime-ms", ts.ToIsoTime(true), h + fr + "Z");
    is("ToIsoDateTime", ts.ToIsoDateTime(false), d + "T" + h + "Z"); is("ToIsoDateTime-ms", ts.ToIsoDateTime(true), d + "T" + h + fr + "Z");
    UtcTimestamp back(ts.ToIsoDateTime(true)); EXPECT(c, back.GetTimeNs() == t - sub % 1000000, "iso-round-trip", ts.ToIsoDateTime(true) << " parses to " << back.GetTimeNs() << ", was " << t);
    EXPECT(c, ts.GetTimeNs() == t && ts.GetUtcTimeNs() == t && ts.GetTimezoneMin() == 0 && ts.GetDstMin() == 0, "UtcTimestamp", t);
  }
  c.outcome(hh);
}
// ISO texts: separators x fraction digits x zone designators.
static void Iso(mc::Ctx& c) {
  auto& z = c.pick(Zones()); int64_t y = c.pick(Years(c.thorough)); size_t sep = c.choose(3); size_t digits = c.choose(10); size_t tz = c.choose(13);
  if (!c.thorough && z.name != Zones()[0].name && z.name != std::string("NewYork")) return;
  if (!c.thorough && y != 1970 && y != 1972 && y != 1984 && y != 2000 && y != 2024 && y != 2038 && y != 2100 && y != 2162) return;
  if (!c.mine()) return;
  static const int offs[] = {0, 0, 60, -60, 330, -330, 345, -570, 30, -30, -1, 720, -720}; int off = offs[tz];
  c.describe(std::string(z.name) + " year " + std::to_string(y) + " sep " + std::to_string(sep) + " digits " + std::to_string(digits) + " offset " + std::to_string(off)); SetZone(z);
  uint64_t hh = 0;
  for (int64_t sec : Instants(Zones()[0], y)) for (uint64_t frac : {123456789ull, 900000000ull, 5ull, 40000000ull, 999999999ull}) {
    int64_t loc = sec + off * 60; if (loc < 0) continue;
    Civil u = ToCivil(loc); std::string s;
    std::string fs = F("%09d", (int)frac).substr(0, digits); uint64_t ns = 0; { std::string p = fs; p.resize(9, '0'); ns = std::stoull(p); }
    if (sep == 2) s = F("%04d%02d%02dT%02d%02d%02d", (int)u.y, u.mo, u.d, u.h, u.mi, u.s); else s = F("%04d-%02d-%02d%c%02d:%02d:%02d", (int)u.y, u.mo, u.d, sep ? ' ' : 'T', u.h, u.mi, u.s);
    if (digits) s += "." + fs;
    std::string zs; if (tz == 0) zs = "Z"; else if (tz == 1) zs = ""; else zs = F(sep == 2 ? "%c%02d%02d" : "%c%02d:%02d", off < 0 ? '-' : '+', abs(off) / 60, abs(off) % 60);
    UtcTimestamp t(s + zs); uint64_t want = (uint64_t)sec * 1000000000ull + ns;
    EXPECT(c, t.GetTimeNs() == want, "iso-parse", s + zs << " parses to " << t.GetTimeNs() << ", is " << want);
    hh = mc::Hash(&want, 8, hh); c.step();
    if (digits == 0 && (tz == 0 || tz >= 2) && sep < 2) { UtcTimestamp dt(0ull); dt.FromIsoDateTime(F("%04d-%02d-%02d", (int)u.y, u.mo, u.d) + (tz == 0 ? "Z" : "")); EXPECT(c, dt.GetTimeNs() == (uint64_t)Days(u.y, u.mo, u.d) * 86400000000000ull, "iso-parse", "date " << s << " parses to " << dt.GetTimeNs()); }
  }
  c.outcome(hh);
}
static void CanOpen(mc::Ctx& c) {
  auto& z = c.pick(Zones()); int64_t y = c.pick(Years(c.thorough)); bool file = c.flag();
  if (!c.mine()) return;
  c.describe(std::string(z.name) + " year " + std::to_string(y) + (file ? " channel" : " array")); SetZone(z); uint64_t hh = 0;
  std::vector<uint64_t> dates, times;
  for (int64_t sec : Instants(z, y)) for (uint64_t sub : kSub) {
    uint64_t t = (uint64_t)sec * 1000000000ull + sub, want = t - sub % 1000000;
    Civil l = ToCivil(Local(z, sec));
    if (l.y >= 1970 && l.y <= 2069) {
      dates.push_back(t);
      if (!file) {
        auto a = MdfHelper::NsToCanOpenDateArray(t); int ms = l.s * 1000 + (int)(sub / 1000000), wd = l.wd == 0 ? 7 : l.wd;
        std::vector<uint8_t> e = {(uint8_t)ms, (uint8_t)(ms >> 8), (uint8_t)l.mi, (uint8_t)(l.h | (InDst(z, sec) ? 0x80 : 0)), (uint8_t)(l.d | wd << 5), (uint8_t)l.mo, (uint8_t)(l.y % 100)};
        EXPECT(c, a == e, "date-array", z.name << " " << t << " ns: " << mc::Hex(a.data(), a.size()) << ", is " << mc::Hex(e.data(), e.size()));
        uint64_t b = MdfHelper::CanOpenDateArrayToNs(a); EXPECT(c, b == want, "date-array-back", z.name << " " << t << " ns comes back as " << b); c.step(2); hh = mc::Hash(a.data(), a.size(), hh);
      }
    }
    int64_t day = ((int64_t)Local(z, sec) - Days(1984, 1, 1) * 86400) / 86400;
    if (Local(z, sec) - z.dst * 60 >= Days(1984, 1, 1) * 86400 && day < 65500) {
      times.push_back(t);
      if (!file) {
        auto a = MdfHelper::NsToCanOpenTimeArray(t); EXPECT(c, a.size() == 6, "time-array", "size");
        uint32_t ms = a[0] | a[1] << 8 | a[2] << 16 | (uint32_t)a[3] << 24; uint32_t d = a[4] | a[5] << 8;
        EXPECT(c, ms < 86400000u, "time-array", z.name << " " << t << " ns: " << ms << " ms since midnight");
        if (!z.dst) EXPECT(c, d == (uint32_t)day && ms == (uint32_t)((l.h * 60 + l.mi) * 60 + l.s) * 1000 + sub / 1000000, "time-array", z.name << " " << t << " ns: day " << d << " ms " << ms);
        uint64_t b = MdfHelper::CanOpenTimeArrayToNs(a); EXPECT(c, b == want, "time-array-back", z.name << " " << t << " ns comes back as " << b); c.step(2); hh = mc::Hash(a.data(), a.size(), hh);
      }
    }
  }
  if (file) for (bool date : {true, false}) {
    auto& v = date ? dates : times; if (v.empty()) continue;
    MemDev dev; std::shared_ptr<std::streambuf> buf(&dev, [](std::streambuf*) {});
    auto w = MdfFactory::CreateMdfWriter(MdfWriterType::Mdf4Basic); EXPECT(c, w->Init(buf), "write", "init");
    auto* dg = w->CreateDataGroup(); auto* cg = dg->CreateChannelGroup("g");
    auto* m = cg->CreateChannel("t"); m->Type(ChannelType::Master); m->Sync(ChannelSyncType::Time); m->DataType(ChannelDataType::FloatLe); m->DataBytes(8);
    auto* cn = cg->CreateChannel("d"); cn->Type(ChannelType::FixedLength); cn->DataType(date ? ChannelDataType::CanOpenDate : ChannelDataType::CanOpenTime); if (cn->DataBytes() == 0) cn->DataBytes(date ? 7 : 6);
    auto* n = cg->CreateChannel("n"); n->Type(ChannelType::FixedLength); n->DataType(ChannelDataType::UnsignedIntegerLe); n->DataBytes(4);
    w->InitMeasurement(); w->StartMeasurement(1000000000ull);
    for (size_t i = 0; i < v.size(); ++i) { n->SetChannelValue((uint32_t)i); cn->SetChannelValue(v[i]); w->SaveSample(*cg, 1000000000ull + i); }
    w->StopMeasurement(2000000000ull); EXPECT(c, w->FinalizeMeasurement(), "write", "finalize"); w.reset();
    MdfReader r(buf); EXPECT(c, r.ReadEverythingButData(), "read", "open"); auto* rd = r.GetDataGroup(0); auto* rc = rd->ChannelGroups().at(0);
    auto o = CreateChannelObserver(*rd, *rc, *rc->GetChannel("d")), on = CreateChannelObserver(*rd, *rc, *rc->GetChannel("n")); EXPECT(c, r.ReadData(*rd) && o->NofSamples() == v.size(), "read", "data");
    for (size_t i = 0; i < v.size(); ++i) {
      uint64_t g = 0, k = 0; std::string s; bool ok = o->GetChannelValue(i, g) && on->GetChannelValue(i, k) && o->GetChannelValue(i, s); uint64_t want = v[i] - v[i] % 1000000;
      EXPECT(c, ok && g == want && k == i, "channel", z.name << (date ? " date " : " time ") << v[i] << " ns read as " << g << ", neighbour " << k);
      Civil l = ToCivil(Local(z, (int64_t)(v[i] / 1000000000ull))); std::string d = F("%04d-%02d-%02d", (int)l.y, l.mo, l.d), h = F("%02d:%02d:%02d", l.h, l.mi, l.s);
      EXPECT(c, s.find(d) != std::string::npos && s.find(h) != std::string::npos, "channel-text", z.name << (date ? " date " : " time ") << v[i] << " ns shown as " << s << ", is " << d << " " << h); c.step();
      hh = mc::Hash(&g, 8, hh);
    }
    r.Close();
  }
  c.outcome(hh);
}
// Header and file history time stamps of every kind.
static void Stored(mc::Ctx& c) {
  bool mdf3 = c.flag(); auto& z = c.pick(Zones()); size_t kind = c.choose(4);  // number, UTC, local, time zone
  size_t via = c.choose(mdf3 ? 2 : 3);  // StartMeasurement, header, file history
  static const std::vector<int> tzs = {0, 60, -300, 330, -570, 840, -720, 1, -1}; static const std::vector<int> dsts = {0, 60, 30, -60, 120};
  int tz = kind == 3 ? c.pick(tzs) : 0, ds = kind == 3 ? c.pick(dsts) : 0;
  static const std::vector<int64_t> secs = {1, 86399, 86400, 951782399, 951782400, 1711846799, 1711846800, 1730000000, 1743292799, 4102444800};
  int64_t sec = c.pick(secs); uint64_t sub = c.choose(2) ? 123456789 : 0;
  if (mdf3 && z.dst && kind != 3) return;  // depends on today's daylight saving
  if (!c.thorough && z.name != std::string("UTC") && z.name != std::string("Kolkata") && z.name != std::string("NewYork") && z.name != std::string("Bogota")) return;
  if (!c.mine()) return;
  std::ostringstream o; o << (mdf3 ? "MDF3 " : "MDF4 ") << z.name << " kind " << kind << " via " << via << " tz " << tz << " dst " << ds << " at " << sec << "+" << sub; c.describe(o.str()); SetZone(z);
  uint64_t t = (uint64_t)sec * 1000000000ull + sub;
  UtcTimestamp ut(t); LocalTimestamp lt(t); TimezoneTimestamp zt(t, (int16_t)tz, (int16_t)ds); ITimestamp* ts = kind == 1 ? (ITimestamp*)&ut : kind == 2 ? (ITimestamp*)&lt : (ITimestamp*)&zt;
  uint64_t utc = t; if (kind == 2) { if (z.dst) utc = 0; else { if ((int64_t)t - z.off * 60000000000ll <= 0) return; utc = t - (uint64_t)(z.off * 60000000000ll); } }
  if (kind != 0) {
    EXPECT(c, ts->GetTimeNs() == t, "timestamp", "GetTimeNs " << ts->GetTimeNs());
    if (utc) EXPECT(c, ts->GetUtcTimeNs() == utc, "timestamp", "GetUtcTimeNs " << ts->GetUtcTimeNs() << ", is " << utc);
    if (kind == 3) EXPECT(c, ts->GetTimezoneMin() == tz && ts->GetDstMin() == ds, "timestamp", "offsets");
    if (kind == 2 && !z.dst) EXPECT(c, ts->GetTimezoneMin() == z.off && ts->GetDstMin() == 0, "timestamp", "offset " << ts->GetTimezoneMin());
  }
  MemDev dev; std::shared_ptr<std::streambuf> buf(&dev, [](std::streambuf*) {});
  auto w = MdfFactory::CreateMdfWriter(mdf3 ? MdfWriterType::Mdf3Basic : MdfWriterType::Mdf4Basic); EXPECT(c, w->Init(buf), "write", "init");
  auto* hd = w->Header(); IFileHistory* fh = nullptr;
  auto* dg = w->CreateDataGroup(); auto* cg = dg->CreateChannelGroup("g");
  auto* m = cg->CreateChannel("t"); m->Type(ChannelType::Master); m->Sync(ChannelSyncType::Time); m->DataType(ChannelDataType::FloatLe); m->DataBytes(8);
  if (via == 1) { if (kind) hd->StartTime(*ts); else hd->StartTime(t); }
  if (via == 2) { fh = hd->CreateFileHistory(); if (kind) fh->Time(*ts); else fh->Time(t); fh->Description("d"); }
  w->InitMeasurement();
  uint64_t start = via == 0 ? utc : 5000000000ull;
  if (via == 0) { if (kind) w->StartMeasurement(*ts); else w->StartMeasurement(t); } else if (via == 2) w->StartMeasurement(start);
  else { w->StartMeasurement(start); if (kind) hd->StartTime(*ts); else hd->StartTime(t); }
  if (start) for (uint64_t k = 0; k < 3; ++k) w->SaveSample(*cg, start + k * 250000000ull);
  w->StopMeasurement(start + 1000000000ull); EXPECT(c, w->FinalizeMeasurement(), "write", "finalize"); w.reset();
  MdfReader r(buf); EXPECT(c, r.ReadEverythingButData(), "read", "open");
  const IHeader* rh = r.GetHeader(); const IMdfTimestamp* got = rh->StartTimestamp(); uint64_t num = rh->StartTime();
  if (via == 2) {
    auto l = rh->FileHistories(); EXPECT(c, !l.empty(), "history", "no file history"); got = l.back()->StartTimestamp(); num = l.back()->Time();
    EXPECT(c, rh->StartTime() == start, "history", "header time " << rh->StartTime());
  }
  EXPECT(c, num == got->GetTimeNs(), "stored", "number " << num << " time stamp " << got->GetTimeNs());
  if (!mdf3) {
    EXPECT(c, num == t, "stored", "time " << num << ", set " << t);
    auto want = kind == 3 ? timetype::kTimezoneTime : kind == 2 ? timetype::kLocalTime : timetype::kUtcTime;
    EXPECT(c, got->GetTimeType() == want, "stored-kind", "kind " << got->GetTimeType());
    EXPECT(c, (int16_t)got->GetTzOffsetMin() == tz && (int16_t)got->GetDstOffsetMin() == ds, "stored-offset", "offsets " << (int16_t)got->GetTzOffsetMin() << " " << (int16_t)got->GetDstOffsetMin());
  } else {
    int64_t off = kind == 3 ? tz : z.off; uint64_t want = kind == 2 ? t : t + (uint64_t)(off * 60000000000ll);  // local standard time
    EXPECT(c, num == want, "stored3", "time " << num << ", is " << want);
    EXPECT(c, (int16_t)got->GetTzOffsetMin() == off / 60 * 60, "stored3-offset", "offset " << (int16_t)got->GetTzOffsetMin());
    int64_t ls = kind == 2 ? sec : sec + (off + ds) * 60;
    if (ls >= 0) {
      Civil l = ToCivil(ls); std::string text((const char*)dev.data.data() + 64, 200), d = F("%02d:%02d:%04d", l.d, l.mo, (int)l.y), h = F("%02d:%02d:%02d", l.h, l.mi, l.s);
      EXPECT(c, text.find(d + h) != std::string::npos, "stored3-text", "date and time " << d << " " << h << " not in the header block");
    }
  }
  if (start) {
    auto* rd = r.GetDataGroup(0); auto* rc = rd->ChannelGroups().at(0); auto ob = CreateChannelObserver(*rd, *rc, *rc->GetChannel("t")); EXPECT(c, r.ReadData(*rd), "read", "data");
    for (uint64_t k = 0; k < 3; ++k) { double v = -1; EXPECT(c, ob->GetEngValue(k, v) && std::fabs(v - 0.25 * k) < 1e-9, "sample-time", "sample " << k << " at " << v << " s"); }
  }
  c.outcome(mc::Hash(&num, 8, (uint64_t)got->GetTzOffsetMin() << 20 ^ got->GetDstOffsetMin() ^ (uint64_t)got->GetTimeType() << 50)); c.step();
  r.Close();
}
int main(int argc, char** argv) {
  MdfLogStream::SetLogFunction1([](const MdfLocation&, MdfLogSeverity, const std::string&) {});
  return mc::Main(argc, argv, "C25", {{"strings", Strings}, {"iso", Iso}, {"canopen", CanOpen}, {"stored", Stored}});
}
