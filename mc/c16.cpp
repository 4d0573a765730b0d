// C16: LIN, Ethernet, MOST and FlexRay events saved in a bus log are read back field by field.
#include <cstring>
#include <map>
#include "flushctl.h"
#include "rec.h"
#include "mdf/ethmessage.h"
#include "mdf/flexrayconfigadapter.h"
#include "mdf/flexraymessage.h"
#include "mdf/linmessage.h"
#include "mdf/mostmessage.h"
using namespace rec;
static std::string HexOf(const Bytes& b) { return mc::Hex(b.data(), b.size()); }

using V = std::map<std::string, uint64_t>;   // field values; floats as bits, signed as two's complement
enum T { U, S, FL, B6 };                     // unsigned, signed, float, six bytes
struct Field { std::string name; T t; uint64_t top; bool mand; std::vector<uint64_t> extra; };
struct Event {
  int bus; std::string group; std::string payload, length; size_t max; bool payload_mand, length_mand;
  std::vector<Field> fields;
  std::function<void(MdfWriter&, IDataGroup&, IChannelGroup&, uint64_t, V&, const Bytes&)> save;
};
static uint64_t Fb(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }
static float Bf(uint64_t u) { uint32_t x = (uint32_t)u; float f; memcpy(&f, &x, 4); return f; }
static std::array<uint8_t, 6> Mac(uint64_t v) { std::array<uint8_t, 6> a; for (int k = 0; k < 6; ++k) a[k] = (uint8_t)(v >> (8 * k)); return a; }
static const std::vector<uint64_t> kBaud = {Fb(0.5f), Fb(19200.0f), Fb(-1.0f), Fb(3.0e38f)};
static Field Uf(const char* n, uint64_t top, bool mand = true) { return {n, U, top, mand, {}}; }
static Field Ff(const char* n, bool mand) { return {n, FL, Fb(1.0e-3f), mand, kBaud}; }
static Field En(const char* n, uint64_t top, std::vector<uint64_t> only, bool mand) { Field f{n, U, top, mand, std::move(only)}; f.extra.push_back(0); return f; }

static LinMessage Lin(V& v, const Bytes& d) {
  LinMessage m; m.BusChannel((uint8_t)v["BusChannel"]); m.LinId((uint8_t)v["ID"]); m.DataBytes(d); m.Dir(v["Dir"]); m.ReceivedDataByteCount((uint8_t)v["ReceivedDataByteCount"]);
  m.ExpectedDataByteCount((uint8_t)v["SpecifiedDataByteCount"]); m.Checksum((uint8_t)v["Checksum"]); m.ChecksumModel((LinChecksumModel)(int)v["ChecksumModel"]); m.StartOfFrame(v["SOF"]);
  m.Baudrate(Bf(v["Baudrate"])); m.ResponseBaudrate(Bf(v["ResponseBaudrate"])); m.BreakLength((uint32_t)v["BreakLength"]); m.DelimiterBreakLength((uint32_t)v["BreakDelimiterLength"]);
  m.TypeOfLongDominantSignal((LinTypeOfLongDominantSignal)v["Type"]); m.TotalSignalLength((uint32_t)v["Length"]);
  return m;
}
static EthMessage Eth(V& v, const Bytes& d) {
  EthMessage m; m.BusChannel((uint8_t)v["BusChannel"]); m.Source(Mac(v["Source"])); m.Destination(Mac(v["Destination"])); m.EthType((uint16_t)v["EtherType"]); m.ReceivedDataByteCount((uint16_t)v["ReceivedDataByteCount"]);
  m.DataBytes(d); m.Crc((uint32_t)(v.count("ReceivedCRC") ? v["ReceivedCRC"] : v["CRC"])); m.ExpectedCrc((uint32_t)v["ExpectedCRC"]); m.Dir(v["Dir"]); m.PaddingByteCount((uint16_t)v["PadByteCount"]); m.ErrorType((EthErrorType)v["ErrorType"]);
  return m;
}
template <class M> static void Packet(M& m, V& v, const Bytes& d) {
  m.BusChannel((uint8_t)v["BusChannel"]); m.Speed((MostSpeed)v["Speed"]); m.TransferType((MostTransferType)v["TransferType"]); m.Direction((MostDirection)v["Dir"]); m.Source(v["Source"]); m.Destination(v["Destination"]);
  m.DataBytes(d); m.SpecifiedNofBytes((uint16_t)v["SpecifiedDataByteCount"]); m.ReceivedNofBytes((uint16_t)v["ReceivedDataByteCount"]);
  m.Crc((uint32_t)v["CRC"]); m.CompleteAck((MostCompleteAck)v["CAck"]); m.PreemptiveAck((MostPreemptiveAck)v["PAck"]); m.TxAck((uint8_t)v["AckNAck"]);
}
template <class M> static void FlxId(M& m, V& v) { m.BusChannel((uint8_t)v["BusChannel"]); m.FrameId((uint16_t)v["ID"]); m.CycleCount((uint8_t)v["Cycle"]); m.Channel((FlexRayChannel)v["FlxChannel"]); }
template <class M> static void FlxFrame(M& m, V& v) {
  FlxId(m, v); m.Direction((FlexRayDirection)v["Dir"]); m.PayloadLength((uint8_t)v["PayloadLength"]); m.Crc((uint32_t)v["CRC"]); m.HeaderCrc((uint16_t)v["HeaderCRC"]); m.Reserved(v["ReservedBitFlag"]);
  m.PayloadPreamble(v["PayloadPreambleFlag"]); m.NullFrame((FlexRayNullFlag)v["NullFrameFlag"]); m.SyncFrame(v["SyncFrameFlag"]); m.StartupFrame(v["StartUpFrameFlag"]); m.FrameLength((uint32_t)v["FrameLength"]);
}
template <class... A> static std::vector<Field> Join(const A&... a) { std::vector<Field> r; (r.insert(r.end(), a.begin(), a.end()), ...); return r; }

static const std::vector<Event>& Events() {
  static const std::vector<Event> all = [] {
    using L = std::vector<Field>;
    std::vector<Event> e;
    Field bus = Uf("BusChannel", 0xFF), crcm{"ChecksumModel", S, 1, false, {(uint64_t)-1, 0}};
    L timing{Uf("SOF", ~0ull, false), Ff("Baudrate", false), Uf("BreakLength", 0xFFFFFFFF, false), Uf("BreakDelimiterLength", 0xFFFFFFFF, false)};
    auto all_mand = [](L l) { for (auto& f : l) f.mand = true; return l; };
    auto lin = [&](const char* g, L f, bool data, bool data_mand) {
      e.push_back({0, g, data ? "DataBytes" : "", data ? "DataLength" : "", 8, data_mand, data_mand, std::move(f), [](MdfWriter& w, IDataGroup& dg, IChannelGroup& cg, uint64_t t, V& v, const Bytes& d) { w.SaveLinMessage(dg, cg, t, Lin(v, d)); }});
    };
    L tail = Join(L{Uf("Checksum", 0xFF, false), crcm, Ff("ResponseBaudrate", false)}, timing);
    lin("LIN_Frame", Join(L{bus, Uf("ID", 63), Uf("Dir", 1), Uf("ReceivedDataByteCount", 15)}, tail), true, true);
    lin("LIN_ChecksumError", Join(L{bus, Uf("ID", 63), Uf("Dir", 1, true), Uf("ReceivedDataByteCount", 15, false)}, tail), true, false);
    lin("LIN_ReceiveError", all_mand(Join(L{bus, Uf("ID", 63), Uf("SpecifiedDataByteCount", 15), Uf("ReceivedDataByteCount", 15), crcm, Ff("ResponseBaudrate", true)}, timing)), true, true);
    lin("LIN_SyncError", all_mand(Join(L{bus}, timing)), false, false);
    lin("LIN_TransmissionError", Join(L{bus, Uf("ID", 63), Uf("SpecifiedDataByteCount", 15, false), crcm}, timing), false, false);
    lin("LIN_WakeUp", L{bus, Ff("Baudrate", true), Uf("SOF", ~0ull)}, false, false);
    lin("LIN_Spike", L{bus, Ff("Baudrate", true), Uf("SOF", ~0ull)}, false, false);
    lin("LIN_LongDom", L{bus, Ff("Baudrate", true), Uf("SOF", ~0ull), Uf("Length", 0xFFFFFFFF), Uf("Type", 2)}, false, false);

    L mac{bus, {"Source", B6, 0xFFFFFFFFFFFFull, true, {0x0102030405ull}}, {"Destination", B6, 0xFFFFFFFFFFFFull, true, {0x060504030201ull}}, Uf("EtherType", 0xFFFF)};
    auto eth = [&](const char* g, L f, bool data_mand, bool length_mand) {
      e.push_back({1, g, "DataBytes", "DataLength", 2000, data_mand, length_mand, std::move(f), [](MdfWriter& w, IDataGroup& dg, IChannelGroup& cg, uint64_t t, V& v, const Bytes& d) { w.SaveEthMessage(dg, cg, t, Eth(v, d)); }});
    };
    eth("ETH_Frame", Join(mac, L{Uf("ReceivedDataByteCount", 0xFFFF), Uf("CRC", 0xFFFFFFFF, false), Uf("Dir", 1, false), Uf("PadByteCount", 0xFFFF, false)}), true, true);
    eth("ETH_ChecksumError", Join(mac, L{Uf("ReceivedCRC", 0xFFFFFFFF), Uf("ExpectedCRC", 0xFFFFFFFF), Uf("ReceivedDataByteCount", 0xFFFF, false), Uf("Dir", 1, false), Uf("PadByteCount", 0xFFFF, false)}), false, true);
    eth("ETH_LengthError", Join(mac, L{Uf("ReceivedDataByteCount", 0xFFFF), Uf("CRC", 0xFFFFFFFF, false), Uf("Dir", 1, false), Uf("PadByteCount", 0xFFFF, false)}), false, false);
    eth("ETH_ReceiveError", Join(mac, L{Uf("ReceivedDataByteCount", 0xFFFF), Uf("CRC", 0xFFFFFFFF, false), Uf("Dir", 1, false), Uf("ErrorType", 1, false), Uf("PadByteCount", 0xFFFF, false)}), false, false);

    auto pk = [&](uint64_t addr) { return L{bus, En("Speed", 2, {1}, true), Uf("TransferType", 1), Uf("Dir", 1), Uf("Source", addr), Uf("Destination", addr), Uf("SpecifiedDataByteCount", 0xFFFF), Uf("ReceivedDataByteCount", 0xFFFF),
                                            Uf("CRC", 0xFFFFFFFF, false), En("CAck", 4, {1}, false), En("PAck", 4, {1}, false), En("AckNAck", 14, {1, 8, 9}, false)}; };
    using W = MdfWriter&; using D = IDataGroup&; using C = IChannelGroup&;
    e.push_back({2, "MOST_Message", "DataBytes", "DataLength", 300, true, true, Join(pk(0xFFFF), L{Uf("TxFailed", 1, false), Uf("PIndex", 0xFF, false), En("RType", 5, {1, 2, 3, 4}, false)}),
                 [](W w, D dg, C cg, uint64_t t, V& v, const Bytes& d) { MostMessage m; Packet(m, v, d); m.TxFailed(v["TxFailed"]); m.PacketIndex((uint8_t)v["PIndex"]); m.ControlMessageType((MostControlMessageType)v["RType"]); w.SaveMostMessage(dg, cg, t, m); }});
    e.push_back({2, "MOST_Packet", "DataBytes", "DataLength", 2000, true, true, Join(pk(0xFFFF), L{Uf("PIndex", 0xFF, false)}),
                 [](W w, D dg, C cg, uint64_t t, V& v, const Bytes& d) { MostPacket m; Packet(m, v, d); m.PacketIndex((uint8_t)v["PIndex"]); w.SaveMostMessage(dg, cg, t, m); }});
    e.push_back({2, "MOST_EthernetPacket", "DataBytes", "DataLength", 2000, true, true, pk(0xFFFFFFFFFFFFull),
                 [](W w, D dg, C cg, uint64_t t, V& v, const Bytes& d) { MostEthernetPacket m; Packet(m, v, d); w.SaveMostMessage(dg, cg, t, m); }});
    e.push_back({2, "MOST_SignalState", "", "", 0, false, false, L{bus, En("State", 32, {1, 2, 3, 16}, true)},
                 [](W w, D dg, C cg, uint64_t t, V& v, const Bytes&) { MostSignalState m; m.BusChannel((uint8_t)v["BusChannel"]); m.SignalState((MostStateOfSignal)v["State"]); w.SaveMostMessage(dg, cg, t, m); }});
    e.push_back({2, "MOST_MaxPosInfo", "", "", 0, false, false, L{bus, Uf("DeviceCount", 0xFF)},
                 [](W w, D dg, C cg, uint64_t t, V& v, const Bytes&) { MostMaxPosInfo m; m.BusChannel((uint8_t)v["BusChannel"]); m.DeviceCount((uint8_t)v["DeviceCount"]); w.SaveMostMessage(dg, cg, t, m); }});
    e.push_back({2, "MOST_BoundDesc", "", "", 0, false, false, L{bus, Uf("SBC", 0xFFFF)},
                 [](W w, D dg, C cg, uint64_t t, V& v, const Bytes&) { MostBoundDesc m; m.BusChannel((uint8_t)v["BusChannel"]); m.BoundaryCount((uint16_t)v["SBC"]); w.SaveMostMessage(dg, cg, t, m); }});
    e.push_back({2, "MOST_AllocTable", "TableData", "TableLength", 500, true, true, L{bus, Uf("FreeByteCount", 0xFFFF), Uf("TableLayout", 1)},
                 [](W w, D dg, C cg, uint64_t t, V& v, const Bytes& d) { MostAllocTable m; m.BusChannel((uint8_t)v["BusChannel"]); m.FreeByteCount((uint16_t)v["FreeByteCount"]); m.TableLayout((MostTableLayout)v["TableLayout"]); m.TableData(d); w.SaveMostMessage(dg, cg, t, m); }});
    e.push_back({2, "MOST_SysLockState", "", "", 0, false, false, L{bus, Uf("SysLockState", 1)},
                 [](W w, D dg, C cg, uint64_t t, V& v, const Bytes&) { MostSysLockState m; m.BusChannel((uint8_t)v["BusChannel"]); m.RingIsClosed(v["SysLockState"]); w.SaveMostMessage(dg, cg, t, m); }});
    e.push_back({2, "MOST_ShutdownFlag", "", "", 0, false, false, L{bus, Uf("ShutdownFlag", 1)},
                 [](W w, D dg, C cg, uint64_t t, V& v, const Bytes&) { MostShutdownFlag m; m.BusChannel((uint8_t)v["BusChannel"]); m.ShutdownFlag(v["ShutdownFlag"]); w.SaveMostMessage(dg, cg, t, m); }});

    L id{bus, Uf("ID", 0x7FF), Uf("Cycle", 63), Uf("FlxChannel", 1)};
    L ftail{Uf("CRC", 0xFFFFFF, false), Uf("HeaderCRC", 0x7FF, false), Uf("ReservedBitFlag", 1, false), Uf("PayloadPreambleFlag", 1, false), Uf("NullFrameFlag", 1, false), Uf("SyncFrameFlag", 1, false), Uf("StartUpFrameFlag", 1, false), Uf("FrameLength", 0xFFFFFFFF, false)};
    e.push_back({3, "FLX_Frame", "DataBytes", "DataLength", 254, true, true, Join(id, L{Uf("Dir", 1), Uf("PayloadLength", 0xFF)}, ftail),
                 [](W w, D dg, C cg, uint64_t t, V& v, const Bytes& d) { FlexRayFrame m; FlxFrame(m, v); m.DataBytes(d); w.SaveFlexRayMessage(dg, cg, t, m); }});
    e.push_back({3, "FLX_Pdu", "DataBytes", "DataLength", 254, true, true, Join(id, L{Uf("PduLength", 0xFF), Uf("IsMultiplexed", 1, false), Uf("Switch", 0xFFFF, false), Uf("ValidFlag", 1, false), Uf("UpdateBitPos", 0xFFF, false), Uf("PduByteOffset", 0xFF, false), Uf("PduBitOffset", 7, false)}),
                 [](W w, D dg, C cg, uint64_t t, V& v, const Bytes& d) { FlexRayPdu m; FlxId(m, v); m.DataBytes(d); m.Length((uint8_t)v["PduLength"]); m.Multiplexed(v["IsMultiplexed"]); m.Switch((uint16_t)v["Switch"]); m.Valid(v["ValidFlag"]); m.UpdateBitPos((uint16_t)v["UpdateBitPos"]);
                   m.ByteOffset((uint8_t)v["PduByteOffset"]); m.BitOffset((uint8_t)v["PduBitOffset"]); w.SaveFlexRayMessage(dg, cg, t, m); }});
    e.push_back({3, "FLX_FrameHeader", "FillDataBytes", "FillDataLength", 254, false, false, Join(id, L{Uf("Dir", 1), Uf("PayloadLength", 0xFF)}, ftail),
                 [](W w, D dg, C cg, uint64_t t, V& v, const Bytes& d) { FlexRayFrameHeader m; FlxFrame(m, v); m.FillDataBytes(d); w.SaveFlexRayMessage(dg, cg, t, m); }});
    e.push_back({3, "FLX_NullFrame", "DataBytes", "DataLength", 254, false, false, Join(id, L{Uf("Dir", 1), Uf("PayloadLength", 0xFF, false)}, ftail),
                 [](W w, D dg, C cg, uint64_t t, V& v, const Bytes& d) { FlexRayNullFrame m; FlxFrame(m, v); m.DataBytes(d); w.SaveFlexRayMessage(dg, cg, t, m); }});
    e.push_back({3, "FLX_ErrorFrame", "DataBytes", "DataLength", 254, false, false, Join(id, L{Uf("Dir", 1), Uf("PayloadLength", 0xFF, false)}, ftail, L{Uf("IsSyntaxError", 1, false), Uf("IsContentError", 1, false), Uf("IsSlotBndViolation", 1, false), Uf("IsTxConflict", 1, false), Uf("IsValidFrame", 1, false)}),
                 [](W w, D dg, C cg, uint64_t t, V& v, const Bytes& d) { FlexRayErrorFrame m; FlxFrame(m, v); m.DataBytes(d); m.Syntax(v["IsSyntaxError"]); m.Content(v["IsContentError"]); m.Boundary(v["IsSlotBndViolation"]); m.TxConflict(v["IsTxConflict"]); m.Valid(v["IsValidFrame"]); w.SaveFlexRayMessage(dg, cg, t, m); }});
    e.push_back({3, "FLX_Symbol", "", "", 0, false, false, L{bus, Uf("Cycle", 63), En("FlxChannelMask", 3, {1, 2}, true), Uf("SymbolLength", 0xFF, false), Uf("SymbolType", 3, false)},
                 [](W w, D dg, C cg, uint64_t t, V& v, const Bytes&) { FlexRaySymbol m; m.BusChannel((uint8_t)v["BusChannel"]); m.CycleCount((uint8_t)v["Cycle"]); m.ChannelMask((FlexRayChannelMask)v["FlxChannelMask"]); m.Length((uint8_t)v["SymbolLength"]); m.Type((FlexRaySymbolType)v["SymbolType"]); w.SaveFlexRayMessage(dg, cg, t, m); }});
    return e;
  }();
  return all;
}
static std::vector<uint64_t> Values(const Field& f) {
  std::vector<uint64_t> v;
  if (!f.extra.empty() && f.t != B6) { v = f.extra; v.push_back(f.top); return v; }
  v = {0, f.top};
  if (f.top > 1) { v.push_back(1); v.push_back((f.top >> 1) + 1); }
  if (f.top > 0xFF) v.push_back(0x0807060504030201ull & f.top);
  v.insert(v.end(), f.extra.begin(), f.extra.end());
  return v;
}
struct Rec { size_t event; V v; Bytes data; };
struct Conf { int bus; size_t storage; bool mandatory, zip, flush; };
static const MdfStorageType kStore[] = {MdfStorageType::VlsdStorage, MdfStorageType::FixedLengthStorage, MdfStorageType::MlsdStorage};
static std::string Text(const Conf& k) { std::ostringstream o; o << "bus=" << k.bus << " storage=" << k.storage << " mandatory=" << k.mandatory << " zip=" << k.zip << " flush=" << k.flush << " "; return o.str(); }
static Bytes Payload(size_t n, uint64_t seed) { Bytes b; for (size_t k = 0; k < n; ++k) b.push_back((uint8_t)(Mix(seed * 131 + k) >> 3)); return b; }

static void Run(mc::Ctx& c, const Conf& k, std::vector<Rec> recs) {
  auto dev = std::make_shared<MemDev>();
  auto w = MdfFactory::CreateMdfWriter(MdfWriterType::MdfBusLogger);
  EXPECT(c, w->Init(std::static_pointer_cast<std::streambuf>(dev)), "init", "");
  static const uint16_t types[] = {MdfBusType::LIN, MdfBusType::Ethernet, MdfBusType::MOST, MdfBusType::FlexRay};
  w->BusType(types[k.bus]); w->StorageType(kStore[k.storage]); w->MaxLength(8); w->CompressData(k.zip); w->MandatoryMembersOnly(k.mandatory); w->PreTrigTime(0);
  if (k.bus == 3) { auto* d = w->CreateDataGroup(); FlexRayConfigAdapter(*w).CreateConfig(*d); }
  else EXPECT(c, w->CreateBusLogConfiguration(), "config", "");
  auto* dg = w->Header()->LastDataGroup();
  EXPECT(c, w->InitMeasurement(), "initmeas", "");
  w->StartMeasurement(kStart);
  for (size_t n = 0; n < recs.size(); ++n) {
    auto& e = Events()[recs[n].event];
    auto* cg = dg->GetChannelGroup(e.group);
    EXPECT(c, cg != nullptr && cg->Name() == e.group, "group", e.group << " is missing");
    e.save(*w, *dg, *cg, kStart + n * 1000000, recs[n].v, recs[n].data);
    if (k.flush && n == recs.size() / 2) flushctl::Flush();
    c.step();
  }
  w->StopMeasurement(kStart + 1000000000);
  EXPECT(c, w->FinalizeMeasurement(), "finalize", "");
  w.reset();
  MdfReader r(std::static_pointer_cast<std::streambuf>(std::make_shared<MemDev>(dev->data)));
  EXPECT(c, r.ReadEverythingButData(), "open", "");
  auto* rdg = r.GetHeader()->DataGroups()[0];
  struct Col { size_t event; std::vector<ChannelObserverPtr> f; ChannelObserverPtr time, data, length; };
  std::vector<Col> cols;
  for (size_t x = 0; x < Events().size(); ++x) {
    auto& e = Events()[x];
    if (e.bus != k.bus) continue;
    auto* cg = rdg->GetChannelGroup(e.group);
    EXPECT(c, cg != nullptr && cg->Name() == e.group, "group-read", e.group << " is missing in the file");
    size_t n = 0; for (auto& q : recs) n += q.event == x;
    EXPECT(c, cg->NofSamples() == n, "count", e.group << " holds " << cg->NofSamples() << " events, saved " << n);
    Col col; col.event = x;
    auto get = [&](const std::string& name) -> ChannelObserverPtr {
      auto* cn = cg->GetChannel(e.group + "." + name);
      EXPECT(c, cn != nullptr && cn->Name() == e.group + "." + name, "channel-missing", e.group << "." << name);
      return CreateChannelObserver(*rdg, *cg, *cn);
    };
    for (auto& f : e.fields) { if (f.mand || !k.mandatory) col.f.push_back(get(f.name)); else col.f.push_back(nullptr); }
    if (!e.payload.empty() && (e.payload_mand || !k.mandatory)) col.data = get(e.payload);
    if (!e.length.empty() && (e.length_mand || !k.mandatory)) col.length = get(e.length);
    col.time = CreateChannelObserver(*rdg, *cg, *cg->GetChannel("t"));
    cols.push_back(std::move(col));
  }
  EXPECT(c, r.ReadData(*rdg), "read", "");
  uint64_t h = 0;
  for (auto& col : cols) {
    auto& e = Events()[col.event];
    uint64_t n = 0;
    for (size_t i = 0; i < recs.size(); ++i) {
      if (recs[i].event != col.event) continue;
      for (size_t a = 0; a < e.fields.size(); ++a) {
        if (!col.f[a]) continue;
        auto& f = e.fields[a]; uint64_t want = recs[i].v[f.name]; bool ok; uint64_t got = 0;
        if (f.t == FL) { float x = 0; ok = col.f[a]->GetChannelValue(n, x); got = Fb(x); }
        else if (f.t == S) { int64_t x = 0; ok = col.f[a]->GetChannelValue(n, x); got = (uint64_t)x; }
        else if (f.t == B6) { Bytes b; ok = col.f[a]->GetChannelValue(n, b) && b.size() == 6; for (size_t q = 0; ok && q < 6; ++q) got |= (uint64_t)b[q] << (8 * q); }
        else ok = col.f[a]->GetChannelValue(n, got);
        EXPECT(c, ok && got == want, "field-" + e.group + "." + f.name, "event " << n << ": " << e.group << "." << f.name << " reads 0x" << std::hex << got << ", saved 0x" << want << " valid=" << ok);
        h = mc::Hash(&got, 8, h);
      }
      if (col.data) { Bytes b; bool ok = col.data->GetChannelValue(n, b); EXPECT(c, ok && b == recs[i].data, "payload-" + e.group, "event " << n << ": payload " << HexOf(b) << ", saved " << HexOf(recs[i].data)); h = mc::Hash(b.data(), b.size(), h); }
      if (col.length) { uint64_t u = 0; bool ok = col.length->GetChannelValue(n, u); EXPECT(c, ok && u == recs[i].data.size(), "length-" + e.group, "event " << n << ": length " << u << ", saved " << recs[i].data.size()); }
      double t = -1; col.time->GetEngValue(n, t);
      EXPECT(c, std::fabs(t - (double)i * 1e-3) < 1e-9, "time-" + e.group, "event " << n << ": time " << t);
      ++n;
    }
  }
  c.outcome(h);
}
static V BaseV(const Event& e, bool ones) { V v; for (auto& f : e.fields) { auto vs = Values(f); v[f.name] = ones ? f.top : (f.extra.empty() || f.t == B6 ? 0 : vs.back() == f.top && vs.size() > 1 ? vs[vs.size() - 2] : 0); } return v; }

// Every pair (thorough: triple) of varying fields around the low and the high event; one log holds the product of their values.
static void Fields(mc::Ctx& c) {
  size_t x = c.choose(Events().size()); auto& e = Events()[x];
  Conf k{e.bus, 0, false, false, false};
  k.storage = e.bus == 0 ? 2 : c.choose(2); k.mandatory = c.flag();
  bool ones = c.flag();
  std::vector<size_t> dv;
  for (size_t i = 0; i < e.fields.size(); ++i) if (c.dev(2)) dv.push_back(i);
  size_t len = e.payload.empty() ? 0 : c.dev(2) ? 0 : 5;
  if (!c.mine()) return;
  std::string t = Text(k) + e.group + (ones ? " high" : " low") + " varying"; for (auto i : dv) t += " " + e.fields[i].name; c.describe(t);
  std::vector<Rec> recs{{x, BaseV(e, !ones), Payload(3, 1)}};
  std::vector<size_t> at(dv.size(), 0);
  for (bool more = true; more;) {
    Rec q{x, BaseV(e, ones), Payload(len, recs.size())};
    for (size_t a = 0; a < dv.size(); ++a) q.v[e.fields[dv[a]].name] = Values(e.fields[dv[a]])[at[a]];
    recs.push_back(q);
    if (recs.size() % 4 == 0) recs.push_back({x, BaseV(e, !ones), Payload(len ? 1 : 2, recs.size())});
    more = false;
    for (size_t a = 0; a < dv.size(); ++a) { if (++at[a] < Values(e.fields[dv[a]]).size()) { more = true; break; } at[a] = 0; }
  }
  Run(c, k, recs);
}
// Every payload length of every event kind that has one, followed by every boundary length.
static void Lengths(mc::Ctx& c) {
  size_t x = c.choose(Events().size()); auto& e = Events()[x];
  if (e.payload.empty()) return;
  Conf k{e.bus, 0, false, false, false};
  k.storage = e.bus == 0 ? 2 : c.choose(2); k.mandatory = c.flag(); k.zip = c.thorough && c.flag();
  std::vector<size_t> a, b;
  for (size_t n = 0; n <= e.max; ++n) if (n <= (c.thorough ? 300 : 40) || n + 2 >= e.max || (n % 256 >= 254 || n % 256 < 2)) a.push_back(n);
  for (size_t n : {(size_t)0, (size_t)1, (size_t)7, (size_t)8, (size_t)64, e.max}) if (n <= e.max) b.push_back(n);
  size_t la = a[c.choose(a.size())], lb = b[c.choose(b.size())];
  if (!c.mine()) return;
  std::ostringstream t; t << Text(k) << e.group << " lengths " << la << " " << lb; c.describe(t.str());
  Run(c, k, {{x, BaseV(e, false), Payload(la, 3)}, {x, BaseV(e, true), Payload(lb, 4)}, {x, BaseV(e, false), Payload(la, 5)}});
}
// Every sequence of event kinds of a bus.
static void Kinds(mc::Ctx& c) {
  Conf k; k.bus = (int)c.choose(4); k.storage = k.bus == 0 ? 2 : c.choose(3); k.mandatory = c.flag(); k.zip = c.flag(); k.flush = c.flag();
  std::vector<size_t> mine;
  for (size_t x = 0; x < Events().size(); ++x) if (Events()[x].bus == k.bus) mine.push_back(x);
  size_t n = 1 + c.choose(c.thorough ? 4 : 3);
  std::vector<size_t> seq;
  for (size_t i = 0; i < n; ++i) seq.push_back(mine[c.choose(mine.size())]);
  if (!c.mine()) return;
  std::string t = Text(k) + "events"; for (auto x : seq) t += " " + Events()[x].group; c.describe(t);
  std::vector<Rec> recs;
  for (size_t i = 0; i < n; ++i) {
    auto& e = Events()[seq[i]]; Rec q{seq[i], {}, {}};
    size_t a = 0; for (auto& f : e.fields) { auto vs = Values(f); q.v[f.name] = vs[Mix(i * 31 + ++a) % vs.size()]; }
    if (!e.payload.empty()) q.data = Payload((i * 3 + seq[i]) % 9, i + 7);
    recs.push_back(q);
  }
  Run(c, k, recs);
}
int main(int argc, char** argv) { return mc::Main(argc, argv, "C16", {{"kinds", Kinds}, {"lengths", Lengths}, {"fields", Fields, 2, 3}}); }
