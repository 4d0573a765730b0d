// C28: every way of asking for a value gives the same answer.
#include "files.h"
#include "rich.h"
#include "mdf/ichannelarray.h"
#include "mdf/ichannelconversion.h"
#include "mdf/mdflogstream.h"
using namespace rec;

template <class V> static std::string Str(const V& v) {
  if constexpr (std::is_same_v<V, Bytes>) return std::to_string(v.size()) + ":" + mc::Hex(v.data(), v.size());
  else if constexpr (std::is_same_v<V, std::string>) return v;
  else { std::ostringstream o; o.precision(17); o << +v; return o.str(); }
}
template <class V> static bool Same(const V& a, const V& b) {
  if constexpr (std::is_floating_point_v<V>) return a == b || (std::isnan(a) && std::isnan(b)); else return a == b;
}

// one value, asked for in every way that yields a V
template <class V> static void Agree(mc::Ctx& c, const IChannelObserver& ob, const std::string& what, bool eng_too = true) {
  uint64_t N = ob.NofSamples(), A = ob.ArraySize();
  auto& cn = ob.Channel();
  auto& vl = ob.GetValidList();
  bool bytes = IsBytes(cn.DataType());
  EXPECT(c, vl.size() == N * A, "valid-list", what << ": the valid list has " << vl.size() << " entries for " << N << " samples of " << A << " elements");
  std::vector<std::vector<V>> cv(N), ev(N); std::vector<std::vector<bool>> cb(N), eb(N);
  for (uint64_t n = 0; n < N; ++n) {
    for (uint64_t e = 0; e < A; ++e) {
      V v{}, w{}; bool a = ob.GetChannelValue(n, v, e), b = eng_too ? ob.GetEngValue(n, w, e) : a; if (!eng_too) w = v;
      cv[n].push_back(v); ev[n].push_back(w); cb[n].push_back(a); eb[n].push_back(b);
      c.step();
      std::string at = what + "[" + std::to_string(n) + "," + std::to_string(e) + "]";
      bool listed = n * A + e < vl.size() && vl[n * A + e];
      bool readable = !std::is_same_v<V, Bytes> || bytes;
      if (readable && !(bytes && A > 1)) EXPECT(c, a == listed, "valid", at << ": the valid list says " << listed << ", the value " << a);
      if (cn.ChannelConversion() == nullptr) EXPECT(c, a == b && Same(v, w), "no-conversion", at << ": channel value " << Str(v) << "/" << a << " engineering value " << Str(w) << "/" << b << " without a conversion");
      if (!a) EXPECT(c, !b, "eng-valid", at << ": the engineering value of an invalid value is valid");
    }
    for (int pre = 0; pre < 2; ++pre) {  // the destination is sized by the call, whatever it held
      std::vector<V> g(pre ? A + 2 : 0, V{}), h(g);
      auto gb = ob.GetChannelValues(n, g); auto hb = eng_too ? ob.GetEngValues(n, h) : gb; if (!eng_too) h = g;
      std::string at = what + "[" + std::to_string(n) + "]";
      EXPECT(c, g.size() == A && gb.size() == A && h.size() == A && hb.size() == A, "array-size", at << ": " << g.size() << "/" << h.size() << " elements of " << A);
      for (uint64_t e = 0; e < A; ++e) {
        EXPECT(c, gb[e] == cb[n][e] && Same(g[e], cv[n][e]), "values", at << " element " << e << ": " << Str<V>(g[e]) << "/" << gb[e] << " in the list, " << Str<V>(cv[n][e]) << "/" << cb[n][e] << " alone");
        if (eng_too) EXPECT(c, hb[e] == eb[n][e] && Same(h[e], ev[n][e]), "eng-values", at << " element " << e << ": " << Str<V>(h[e]) << "/" << hb[e] << " in the list, " << Str<V>(ev[n][e]) << "/" << eb[n][e] << " alone");
      }
    }
  }
  for (int pre = 0; pre < 2; ++pre) {
    std::vector<V> g(pre ? N + 2 : 0, V{}), h(g);
    auto gb = ob.GetChannelSamples(g); auto hb = eng_too ? ob.GetEngSamples(h) : gb; if (!eng_too) h = g;
    EXPECT(c, g.size() == N && gb.size() == N && h.size() == N && hb.size() == N, "samples-size", what << ": " << g.size() << "/" << h.size() << " samples of " << N);
    for (uint64_t n = 0; n < N; ++n) {
      EXPECT(c, gb[n] == cb[n][0] && Same(g[n], cv[n][0]), "samples", what << "[" << n << "]: " << Str<V>(g[n]) << "/" << gb[n] << " in the list, " << Str<V>(cv[n][0]) << "/" << cb[n][0] << " alone");
      if (eng_too) EXPECT(c, hb[n] == eb[n][0] && Same(h[n], ev[n][0]), "eng-samples", what << "[" << n << "]: " << Str<V>(h[n]) << "/" << hb[n] << " in the list, " << Str<V>(ev[n][0]) << "/" << eb[n][0] << " alone");
    }
  }
  // nothing outside
  for (uint64_t n : {N, N + 1, N + 7, (uint64_t)1000000}) for (uint64_t e = 0; e < A; ++e) {
    V v{}, w{};
    EXPECT(c, !ob.GetChannelValue(n, v, e), "outside", what << ": sample " << n << " of " << N << " is valid");
    if (eng_too) EXPECT(c, !ob.GetEngValue(n, w, e), "outside", what << ": sample " << n << " of " << N << " has a valid engineering value");
  }
  if (!bytes) for (uint64_t n = 0; n < N; ++n) for (uint64_t e : {A, A + 1, A * N + 1}) {
    V v{}, w{};
    EXPECT(c, !ob.GetChannelValue(n, v, e), "outside-array", what << ": element " << e << " of " << A << " is valid");
    if (eng_too) EXPECT(c, !ob.GetEngValue(n, w, e), "outside-array", what << ": element " << e << " of " << A << " has a valid engineering value");
  }
}

static void Texts(mc::Ctx& c, const IChannelObserver& ob, const std::string& what) {
  for (uint64_t n = 0; n < ob.NofSamples() + 2; ++n) {
    std::string want;
    for (uint64_t e = 0; e < (ob.IsArray() ? ob.ArraySize() : 1); ++e) { std::string s; bool v = ob.GetEngValue(n, s, e); if (e) want += ";"; want += v ? s : "*"; }
    auto got = ob.EngValueToString(n);
    EXPECT(c, got == want, "text", what << "[" << n << "]: '" << got << "', the engineering values are '" << want << "'");
  }
}

static void All(mc::Ctx& c, const IChannelObserver& ob, const std::string& what, bool small) {
  auto dt = ob.Channel().DataType();
  if (IsBytes(dt)) { Agree<Bytes>(c, ob, what + " bytes"); Agree<std::string>(c, ob, what + " text"); Texts(c, ob, what); return; }
  Agree<std::string>(c, ob, what + " text"); Texts(c, ob, what);
  Agree<double>(c, ob, what + " double");
  if (IsText(dt) || small) { Agree<int64_t>(c, ob, what + " int64"); Agree<uint64_t>(c, ob, what + " uint64"); Agree<int32_t>(c, ob, what + " int32"); Agree<float>(c, ob, what + " float"); }
  if (!IsText(dt) && small) { Agree<int16_t>(c, ob, what + " int16"); Agree<uint32_t>(c, ob, what + " uint32"); Agree<uint16_t>(c, ob, what + " uint16"); Agree<int8_t>(c, ob, what + " int8"); Agree<uint8_t>(c, ob, what + " uint8"); }
}

// every type of channel with known small values -----------------------------------------------------------------------------
struct Ty { ChannelDataType dt; uint32_t bytes; ChannelType type; };
static std::vector<Ty> Types() {
  std::vector<Ty> t;
  for (int d = 0; d < 4; ++d) for (uint32_t b : {1u, 2u, 4u, 8u}) t.push_back({(ChannelDataType)d, b, ChannelType::FixedLength});
  for (int d = 4; d < 6; ++d) for (uint32_t b : {4u, 8u}) t.push_back({(ChannelDataType)d, b, ChannelType::FixedLength});
  for (int d = 6; d < 8; ++d) t.push_back({(ChannelDataType)d, 24, ChannelType::FixedLength});
  for (int d = 6; d < 8; ++d) t.push_back({(ChannelDataType)d, 0, ChannelType::VariableLength});
  t.push_back({ChannelDataType::ByteArray, 3, ChannelType::FixedLength}); t.push_back({ChannelDataType::ByteArray, 0, ChannelType::VariableLength});
  t.push_back({ChannelDataType::MimeSample, 3, ChannelType::FixedLength});
  return t;
}
static const std::vector<std::string> kText = {"42", "3.5", "abc", "", "two words", "100", "0.25", "x", "17"};
static double Small(const Ty& t, uint64_t n, uint64_t e) {
  double v = (double)((n * 7 + e * 3 + 5) % 60);
  if (IsFloat(t.dt)) return v + 0.5 * (double)((n + e) % 2) + 0.25;
  return v;
}

static void Known(mc::Ctx& c) {
  auto ty = Types();
  size_t ti = c.choose(ty.size()); Ty t = ty[ti];
  bool num = !IsText(t.dt) && !IsBytes(t.dt);
  size_t shape = num ? c.choose(4) : 0; size_t conv = num ? c.choose(6) : IsText(t.dt) ? c.choose(3) : 0;
  bool inval = c.flag(); size_t N = c.choose(c.thorough ? 5 : 3);
  static const std::vector<std::vector<uint64_t>> shapes = {{}, {1}, {3}, {2, 2}};
  uint64_t A = 1; for (auto x : shapes[shape]) A *= x;
  std::vector<bool> valid; for (size_t k = 0; k < N; ++k) valid.push_back(inval ? !c.flag() : true);
  size_t by = c.dev(4); bool zip = c.dev(2), other = c.dev(2), decimals = c.dev(2), again = c.dev(2);
  if (!c.mine()) return;
  std::ostringstream ds; ds << TypeName(t.dt) << t.bytes << (t.type == ChannelType::VariableLength ? " VLSD" : "") << " shape=" << shape << " conv=" << conv << " by=" << by << " zip=" << zip << " other=" << other << " dec=" << decimals << " again=" << again << " valid=";
  for (auto v : valid) ds << v; c.describe(ds.str());
  auto dev = std::make_shared<MemDev>();
  auto elem_valid = [&](uint64_t n, uint64_t e) { return valid[n] || (A > 1 && e % 2 == 1); };
  {
    auto w = MdfFactory::CreateMdfWriter(MdfWriterType::Mdf4Basic); w->CompressData(zip);
    EXPECT(c, w->Init(std::static_pointer_cast<std::streambuf>(dev)), "init", "");
    auto* dg = w->CreateDataGroup(); auto* cg = MdfWriter::CreateChannelGroup(dg); cg->Name("Group");
    auto* tm = MdfWriter::CreateChannel(cg); tm->Name("Time"); tm->Type(ChannelType::Master); tm->Sync(ChannelSyncType::Time); tm->DataType(ChannelDataType::FloatLe); tm->DataBytes(8); tm->Unit("s");
    auto* x = MdfWriter::CreateChannel(cg); x->Name("Value"); x->Type(t.type); x->DataType(t.dt); if (t.bytes) x->DataBytes(t.bytes); if (inval) x->Flags(CnFlag::InvalidValid); x->Unit("km");
    if (!shapes[shape].empty()) x->CreateChannelArray()->Shape(shapes[shape]);
    if (decimals) x->Decimals(1);
    if (conv) {
      auto* cc = x->CreateChannelConversion();
      if (decimals) cc->Decimals(2);
      if (num) {
        if (conv == 1) { cc->Type(ConversionType::Linear); cc->Parameter(0, 3.0); cc->Parameter(1, 0.5); }
        else if (conv == 2) { cc->Type(ConversionType::ValueToValue); cc->Parameter(0, 5.0); cc->Parameter(1, 50.0); cc->Parameter(2, 12.0); cc->Parameter(3, 120.0); }
        else if (conv == 3) { cc->Type(ConversionType::ValueToText); cc->Parameter(0, 5.0); cc->Parameter(1, 12.0); cc->Reference(0, "Five"); cc->Reference(1, "Twelve things"); cc->Reference(2, "Other"); }
        else if (conv == 4) { cc->Type(ConversionType::ValueRangeToText); cc->Parameter(0, 0.0); cc->Parameter(1, 10.0); cc->Parameter(2, 11.0); cc->Parameter(3, 30.0); cc->Reference(0, "Low"); cc->Reference(1, "High"); cc->Reference(2, "Other"); }
        else { cc->Type(ConversionType::Rational); double p[] = {0, 1, 2, 0, 0, 4}; for (int k = 0; k < 6; ++k) cc->Parameter((uint16_t)k, p[k]); }
      } else if (conv == 1) { cc->Type(ConversionType::TextToValue); cc->Parameter(0, 1.5); cc->Parameter(1, 2.0); cc->Parameter(2, -1.0); cc->Reference(0, "abc"); cc->Reference(1, "42"); }
      else { cc->Type(ConversionType::TextToTranslation); cc->Reference(0, "abc"); cc->Reference(1, "def"); cc->Reference(2, "42"); cc->Reference(3, "forty two"); cc->Reference(4, "?"); }
    }
    IChannelGroup* cg2 = nullptr; IChannel* y = nullptr;
    if (other) { cg2 = MdfWriter::CreateChannelGroup(dg); cg2->Name("Second"); y = MdfWriter::CreateChannel(cg2); y->Name("Other"); y->DataType(ChannelDataType::UnsignedIntegerLe); y->DataBytes(1); }
    EXPECT(c, w->InitMeasurement(), "initmeas", "");
    w->StartMeasurement(kStart);
    for (uint64_t n = 0; n < N; ++n) {
      if (IsText(t.dt)) x->SetChannelValue(kText[n % kText.size()], valid[n]);
      else if (IsBytes(t.dt)) x->SetChannelValue(Bytes{(uint8_t)(n + 1), (uint8_t)(0xF0 + n), (uint8_t)(n * 3)}, valid[n]);
      else for (uint64_t e = 0; e < A; ++e) x->SetChannelValue(Small(t, n, e), elem_valid(n, e), e);
      w->SaveSample(*dg, *cg, kStart + n * 250'000'000);
      if (other && n % 2 == 0) { y->SetChannelValue((uint8_t)n); w->SaveSample(*dg, *cg2, kStart + n * 250'000'000 + 1); }
    }
    w->StopMeasurement(kStart + 3600'000'000'000ull);
    EXPECT(c, w->FinalizeMeasurement(), "finalize", "");
  }
  auto r = OpenBytes(c, dev->data);
  auto* dg = r->GetHeader()->DataGroups()[0]; auto* cg = dg->ChannelGroups()[0];
  ChannelObserverList list; ChannelObserverPtr one, tmo;
  const IChannelObserver* ob = nullptr; const IChannelObserver* tm = nullptr;
  IChannel* cn = nullptr; IChannel* ct = nullptr; for (auto* k : cg->Channels()) { if (k->Name() == "Value") cn = k; if (k->Name() == "Time") ct = k; }
  EXPECT(c, cn && ct, "channels", "a channel is missing");
  if (by == 0) { one = CreateChannelObserver(*dg, *cg, *cn); tmo = CreateChannelObserver(*dg, *cg, *ct); }
  if (by == 1) { one = CreateChannelObserver(*dg, "Value"); tmo = CreateChannelObserver(*dg, "TIME"); EXPECT(c, CreateChannelObserver(*dg, "Valu") == nullptr, "unknown", "an observer for a channel that does not exist"); }
  if (by == 2) { CreateChannelObserverForChannelGroup(*dg, *cg, list); EXPECT(c, list.size() == cg->Channels().size(), "group-list", list.size() << " observers for " << cg->Channels().size() << " channels"); }
  if (by == 3) {
    CreateChannelObserverForDataGroup(*dg, list); size_t want = 0; for (auto* g : dg->ChannelGroups()) if (g->NofSamples()) want += g->Channels().size();
    EXPECT(c, list.size() == want, "dg-list", list.size() << " observers for " << want << " channels with samples");
  }
  if (one) { ob = one.get(); tm = tmo.get(); }
  for (auto& l : list) { if (&l->Channel() == cn) ob = l.get(); if (&l->Channel() == ct) tm = l.get(); }
  if (by == 3 && N == 0) { c.outcome("empty"); return; }
  EXPECT(c, ob && tm, "observer", "no observer");
  EXPECT(c, r->ReadData(*dg), "read", "ReadData failed");
  if (again) EXPECT(c, r->ReadData(*dg), "read", "ReadData failed");
  EXPECT(c, ob->Name() == "Value" && ob->Unit() == "km" && ob->ChannelGroupName() == "Group" && !ob->IsMaster() && tm->IsMaster() && tm->Unit() == "s", "names", ob->Name() << " " << ob->Unit() << " " << ob->ChannelGroupName());
  EXPECT(c, ob->IsArray() == !shapes[shape].empty() && ob->ArraySize() == A, "array", "array " << ob->IsArray() << " of " << ob->ArraySize());
  EXPECT(c, ob->Shape() == (shapes[shape].empty() ? std::vector<uint64_t>{1} : shapes[shape]), "shape", "the shape differs");
  EXPECT(c, ob->NofSamples() == N && tm->NofSamples() == N, "count", ob->NofSamples() << " samples of " << N);
  All(c, *ob, "Value", true); All(c, *tm, "Time", true);
  std::string out;
  for (uint64_t n = 0; n < N; ++n) {
    double tv = -1; EXPECT(c, tm->GetChannelValue(n, tv) && std::fabs(tv - 0.25 * (double)n) < 1e-9, "time", "time " << n << " = " << tv);
    for (uint64_t e = 0; e < A; ++e) {
      std::string at = "[" + std::to_string(n) + "," + std::to_string(e) + "]";
      bool wv = A > 1 && inval ? elem_valid(n, e) : valid[n];
      std::string s; bool v;
      if (IsBytes(t.dt)) { Bytes b; v = ob->GetChannelValue(n, b); EXPECT(c, v == wv && (b == Bytes{(uint8_t)(n + 1), (uint8_t)(0xF0 + n), (uint8_t)(n * 3)}), "known", at << " = " << Str(b) << "/" << v); out += Str(b); continue; }
      v = ob->GetEngValue(n, s, e); out += (v ? s : "*") + ";";
      if (IsText(t.dt)) {
        std::string q; auto& want = kText[n % kText.size()];
        EXPECT(c, ob->GetChannelValue(n, q) == wv && q == want, "known", at << " = '" << q << "' expected '" << want << "'");
        if (wv && conv == 2) EXPECT(c, v && s == (want == "abc" ? "def" : want == "42" ? "forty two" : "?"), "known-text", at << " translated to '" << s << "'");
        double d = 0; bool dv = ob->GetEngValue(n, d);
        if (wv && conv == 1) EXPECT(c, dv && d == (want == "abc" ? 1.5 : want == "42" ? 2.0 : -1.0), "known-text", at << " converted to " << d << "/" << dv);
        if (wv && conv == 0 && (isdigit((unsigned char)want[0]))) EXPECT(c, dv && d == atof(want.c_str()), "known-text", at << " '" << want << "' read as " << d);
        if (wv && conv == 0) EXPECT(c, v && s == want, "known-text", at << " = '" << s << "' expected '" << want << "'");
        continue;
      }
      double want = Small(t, n, e), d = -1; int64_t i = -1; uint64_t u = 77; float f = -1; int16_t h = -1; uint8_t by8 = 77; std::string q;
      bool same = ob->GetChannelValue(n, d, e) == wv && ob->GetChannelValue(n, i, e) == wv && ob->GetChannelValue(n, u, e) == wv && ob->GetChannelValue(n, f, e) == wv && ob->GetChannelValue(n, h, e) == wv && ob->GetChannelValue(n, by8, e) == wv && ob->GetChannelValue(n, q, e) == wv;
      EXPECT(c, same, "known-valid", at << ": validity differs from what was written (" << wv << ")");
      EXPECT(c, d == want && i == (int64_t)want && u == (uint64_t)want && f == (float)want && h == (int16_t)want && by8 == (uint8_t)want, "known", at << " = " << d << " " << i << " " << u << " " << f << " " << h << " " << +by8 << " expected " << want);
      double tol = IsFloat(t.dt) && decimals ? 0.0501 : 1e-6;
      EXPECT(c, std::fabs(atof(q.c_str()) - want) <= tol, "known-string", at << " = '" << q << "' expected " << want);
      if (!wv) continue;
      if (conv == 1 || conv == 5) {
        double ew = conv == 1 ? 3.0 + 0.5 * want : (want + 2.0) / 4.0, ed = -1; float ef = -1; int32_t ei = -1;
        EXPECT(c, ob->GetEngValue(n, ed, e) && ob->GetEngValue(n, ef, e) && ob->GetEngValue(n, ei, e) && ed == ew && ef == (float)ew && ei == (int32_t)ew, "known-eng", at << " = " << ed << " " << ef << " " << ei << " expected " << ew);
        EXPECT(c, v && std::fabs(atof(s.c_str()) - ew) <= (decimals ? 0.00501 : 1e-6), "known-eng", at << " = '" << s << "' expected " << ew);
      } else if (conv == 2) {
        double ew = want <= 8.5 ? 50 : 120, ed = -1; EXPECT(c, ob->GetEngValue(n, ed, e) && ed == ew && v && atof(s.c_str()) == ew, "known-eng", at << " = " << ed << " '" << s << "' expected " << ew);
      } else if (conv == 3) EXPECT(c, v && s == (want == 5 ? "Five" : want == 12 ? "Twelve things" : "Other"), "known-eng", at << " = '" << s << "' for " << want);
      else if (conv == 4) EXPECT(c, v && s == (want >= 0 && want < 10 ? "Low" : want == 10 ? (IsFloat(t.dt) ? "Other" : "Low") : want >= 11 && want < 30 ? "High" : want == 30 && !IsFloat(t.dt) ? "High" : "Other"), "known-eng", at << " = '" << s << "' for " << want);
    }
  }
  c.outcome(out + std::to_string(ti));
}

// recordings of every storage form, all groups, all ways to subscribe
static void Kinds(mc::Ctx& c) {
  size_t kind = c.choose(kFileKinds); bool zip = c.flag(); size_t n = c.choose(c.thorough ? 6 : 5); size_t by = c.choose(3);
  std::vector<size_t> order; for (size_t k = 0; k < n; ++k) order.push_back(c.choose(KindGroups(kind)));
  if (!c.mine()) return;
  std::ostringstream t; t << KindName(kind) << " zip=" << zip << " by=" << by << " order="; for (auto x : order) t << x; c.describe(t.str());
  auto f = KindFile(c, kind, zip, order, -1);
  auto want = FullRead(c, f);
  auto r = OpenBytes(c, f);
  auto all = AllChannels(*r);
  std::vector<std::pair<Place, ChannelObserverPtr>> obs;
  auto dgs = r->GetHeader()->DataGroups();
  for (size_t d = 0; d < dgs.size(); ++d) {
    ChannelObserverList l;
    if (by == 0) for (auto* cg : dgs[d]->ChannelGroups()) CreateChannelObserverForChannelGroup(*dgs[d], *cg, l);
    else if (by == 1) CreateChannelObserverForDataGroup(*dgs[d], l);
    for (auto& p : all) {
      if (p.d != d) continue;
      auto* cg = dgs[d]->ChannelGroups()[p.g]; auto* cn = cg->Channels()[p.k];
      if (by == 2) {
        // by name: the group with the most samples
        auto o = CreateChannelObserver(*dgs[d], cn->Name());
        EXPECT(c, o != nullptr && o->Channel().Name() == cn->Name(), "by-name", "no observer for '" << cn->Name() << "'");
        uint64_t most = 0; bool here = false, tie = false;
        for (auto* g : dgs[d]->ChannelGroups()) for (auto* k : g->Channels()) if (k->Name() == cn->Name()) { if (g->NofSamples() > most) most = g->NofSamples(); if (k != cn && g->NofSamples() == cg->NofSamples()) tie = true; if (k == &o->Channel()) here = k == cn; }
        EXPECT(c, o->NofSamples() == most, "by-name", "'" << cn->Name() << "': observed " << o->NofSamples() << " samples, a group has " << most);
        if (cg->NofSamples() == most && !tie) EXPECT(c, here, "by-name", "'" << cn->Name() << "': another channel was observed");
        if (here) obs.push_back({p, std::move(o)});
      } else {
        bool found = false;
        for (auto& x : l) if (x && &x->Channel() == cn) { obs.push_back({p, std::move(x)}); found = true; break; }
        EXPECT(c, found || (by == 1 && cg->NofSamples() == 0), "not-observed", "channel '" << cn->Name() << "' of '" << cg->Name() << "' got no observer");
      }
    }
  }
  for (auto* dg : dgs) EXPECT(c, r->ReadData(*dg), "read", "ReadData failed");
  std::string out;
  for (auto& [p, o] : obs) {
    auto got = Snapshot(*o);
    EXPECT(c, got == want[Key(p)], "subscription", "channel " << Key(p) << " (" << o->Name() << "): other values than observed one by one");
    All(c, *o, o->Name(), false);
    for (auto& s : got) out += s;
  }
  c.outcome(out);
}

// recordings with every combination of up to two (three) format features
static void Rich(mc::Ctx& c) {
  auto r = rich::ChooseDev(c);
  if (!c.mine()) return;
  c.describe(rich::Text(r));
  auto rd = OpenBytes(c, rich::Build(c, r, "rich")->data);
  std::string out;
  for (auto* dg : rd->GetHeader()->DataGroups()) {
    ChannelObserverList l; CreateChannelObserverForDataGroup(*dg, l);
    EXPECT(c, rd->ReadData(*dg), "read", "ReadData failed");
    for (auto& o : l) { All(c, *o, o->ChannelGroupName() + "." + o->Name(), false); for (auto& s : Snapshot(*o)) out += s; }
  }
  c.outcome(out);
}

int main(int argc, char** argv) {
  MdfLogStream::SetLogFunction1([](const MdfLocation&, MdfLogSeverity, const std::string&) {});
  return mc::Main(argc, argv, "C28", {{"known", Known, 1, 2}, {"kinds", Kinds}, {"rich", Rich}});
}
