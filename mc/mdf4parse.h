// Independent structural checker for finalized MDF 4 files (written from the ASAM MDF 4 block layout, uses no
// library code).  Throws std::runtime_error with the first defect found.
#pragma once
#include <expat.h>
#include <zlib.h>
#include <algorithm>
#include <cstdint>
#include <cstring>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace m4 {
using Bytes = std::vector<uint8_t>;
struct Blk { uint64_t pos = 0; std::string type; uint64_t len = 0; std::vector<uint64_t> link; uint64_t dpos = 0; uint64_t dlen() const { return pos + len - dpos; } };

struct CgInfo { uint64_t pos; uint64_t recid; uint64_t cycles; uint16_t flags; uint32_t data; uint32_t inval; uint64_t counted = 0; uint64_t vlsd_bytes = 0;
  std::vector<uint64_t> offs_cn; };

class File {
 public:
  const Bytes& d;
  std::map<uint64_t, Blk> blk;
  uint64_t nof_records = 0;
  explicit File(const Bytes& data) : d(data) {}

  template <class... A>
  [[noreturn]] void Err(A&&... a) const { std::ostringstream o; ((o << a), ...); throw std::runtime_error(o.str()); }
  template <class T>
  T num(uint64_t p) const { if (p + sizeof(T) > d.size()) Err("read beyond end of file at ", p); T v; memcpy(&v, d.data() + p, sizeof(T)); return v; }

  const Blk& Get(uint64_t pos, const std::string& allowed, const std::string& from) {
    if (pos % 8 != 0) Err("link ", from, " = ", pos, " is not 8-byte aligned");
    if (pos < 64 || pos + 24 > d.size()) Err("link ", from, " = ", pos, " points outside the file (", d.size(), ")");
    auto it = blk.find(pos);
    if (it == blk.end()) {
      Blk b;
      b.pos = pos;
      if (d[pos] != '#' || d[pos + 1] != '#') Err("link ", from, " = ", pos, " does not point to a block");
      b.type.assign((const char*)&d[pos + 2], 2);
      b.len = num<uint64_t>(pos + 8);
      uint64_t nl = num<uint64_t>(pos + 16);
      if (num<uint32_t>(pos + 4) != 0) Err(b.type, "@", pos, ": reserved header bytes not zero");
      if (b.len < 24 || b.len > d.size() - pos) Err(b.type, "@", pos, ": length ", b.len, " exceeds the file");
      if (nl > (b.len - 24) / 8) Err(b.type, "@", pos, ": link count ", nl, " exceeds the block");
      for (uint64_t k = 0; k < nl; ++k) b.link.push_back(num<uint64_t>(pos + 24 + 8 * k));
      b.dpos = pos + 24 + 8 * nl;
      it = blk.emplace(pos, b).first;
    }
    if (allowed.find(it->second.type) == std::string::npos) Err("link ", from, " = ", pos, " points to ", it->second.type, ", allowed: ", allowed);
    return it->second;
  }
  void Len(const Blk& b, uint64_t links, uint64_t data) const {
    if (b.link.size() != links) Err(b.type, "@", b.pos, ": ", b.link.size(), " links, expected ", links);
    if (b.len != 24 + 8 * links + data) Err(b.type, "@", b.pos, ": length ", b.len, ", expected ", 24 + 8 * links + data);
  }
  void Text(uint64_t link, const std::string& allowed, const std::string& from) {
    if (link == 0) return;
    const Blk& b = Get(link, allowed, from);
    if (!b.link.empty()) Err(b.type, "@", b.pos, ": has links");
    uint64_t n = b.dlen();
    const char* p = (const char*)d.data() + b.dpos;
    const void* z = n ? memchr(p, 0, n) : nullptr;
    if (z == nullptr) Err(b.type, "@", b.pos, ": text is not zero terminated");
    if (b.type == "MD") {
      XML_Parser x = XML_ParserCreate("UTF-8");
      auto rc = XML_Parse(x, p, (int)((const char*)z - p), 1);
      std::string msg = rc == XML_STATUS_OK ? "" : XML_ErrorString(XML_GetErrorCode(x));
      XML_ParserFree(x);
      if (rc != XML_STATUS_OK) Err("MD@", b.pos, ": not well-formed XML: ", msg, ": ", std::string(p));
    }
  }
  static std::string L(const Blk& b, const char* n) { return b.type + "@" + std::to_string(b.pos) + "." + n; }

  std::set<uint64_t> ats, evs, dgs, cgs, cns, sis, ccs;

  void Check() {
    if (d.size() < 64 || memcmp(d.data(), "MDF     ", 8) != 0) Err("file is not marked as finalized");
    if (num<uint16_t>(60) != 0 || num<uint16_t>(62) != 0) Err("unfinalized flags set in a finalized file");
    uint16_t ver = num<uint16_t>(28);
    if (ver < 400 || ver > 499) Err("version number ", ver);
    Blk hd = Get(64, "HD", "HD");
    Len(hd, 6, 32);
    uint64_t fhs = 0;
    Chain(hd.link[1], "FH", L(hd, "fh"), [&](const Blk& b) { Len(b, 2, 16); Text(b.link[1], "MDTX", L(b, "md")); ++fhs; });
    Text(hd.link[5], "MDTX", L(hd, "md"));
    Chain(hd.link[3], "AT", L(hd, "at"), [&](const Blk& b) { ats.insert(b.pos); At(b); });
    // DG list: first collect, then check (forward references)
    std::vector<uint64_t> dgl;
    Chain(hd.link[0], "DG", L(hd, "dg"), [&](const Blk& b) { Len(b, 4, 8); dgl.push_back(b.pos); dgs.insert(b.pos); });
    for (auto p : dgl) DgConfig(Get(p, "DG", ""));
    Chain(hd.link[4], "EV", L(hd, "ev"), [&](const Blk& b) { evs.insert(b.pos); });
    for (auto p : evs) Ev(Get(p, "EV", ""));
    Ch(hd.link[2], L(hd, "ch"), 0);
    for (auto p : defx) {
      if (!dgs.count(p[0]) || !cgs.count(p[1]) || !cns.count(p[2])) Err("default x / reference triple points outside the DG/CG/CN trees");
    }
    for (auto& f : later) f();
    for (auto p : dgl) DgData(Get(p, "DG", ""));
    NoOverlap();
  }

  template <class F>
  void Chain(uint64_t link, const char* type, std::string from, F f) {
    std::set<uint64_t> seen;
    while (link != 0) {
      if (!seen.insert(link).second) Err("cycle in the ", type, " list at ", link);
      Blk b = Get(link, type, from);
      if (b.link.empty()) Err(type, "@", b.pos, " has no links");
      f(b);
      from = L(b, "next");
      link = b.link[0];
    }
  }
  void At(const Blk& b) {
    if (b.link.size() != 4) Err("AT@", b.pos, ": ", b.link.size(), " links");
    if (b.dlen() < 40) Err("AT@", b.pos, ": too short");
    uint64_t emb = num<uint64_t>(b.dpos + 32), orig = num<uint64_t>(b.dpos + 24);
    uint16_t fl = num<uint16_t>(b.dpos);
    Len(b, 4, 40 + emb);
    if ((fl & 1) == 0 && emb != 0) Err("AT@", b.pos, ": data in a not embedded attachment");
    if ((fl & 1) && !(fl & 2) && emb != orig) Err("AT@", b.pos, ": embedded size ", emb, " differs from original size ", orig);
    if ((fl & 3) == 3) { Bytes out(orig + 1); uLongf n = out.size(); int rc = uncompress(out.data(), &n, d.data() + b.dpos + 40, emb);
      if (rc != Z_OK || n != orig) Err("AT@", b.pos, ": inflates to ", n, " bytes (rc ", rc, "), original size ", orig); }
    Text(b.link[1], "TX", L(b, "filename")); Text(b.link[2], "TX", L(b, "mime")); Text(b.link[3], "MDTX", L(b, "md"));
  }
  void Ev(const Blk& b) {
    if (b.dlen() < 32) Err("EV@", b.pos, " too short");
    uint32_t m = num<uint32_t>(b.dpos + 8); uint16_t n = num<uint16_t>(b.dpos + 12);
    bool grp = (d[b.dpos + 4] & 2) != 0;
    Len(b, 5 + (uint64_t)m + n + (grp ? 1 : 0), 32);
    for (int k = 1; k <= 2; ++k) if (b.link[k] != 0 && !evs.count(b.link[k])) Err("EV@", b.pos, ": event reference ", b.link[k], " is not an event of the file");
    Text(b.link[3], "TX", L(b, "name")); Text(b.link[4], "MDTX", L(b, "md"));
    for (uint32_t k = 0; k < m; ++k) if (b.link[5 + k] && !cgs.count(b.link[5 + k]) && !cns.count(b.link[5 + k])) Err("EV@", b.pos, ": scope ", b.link[5 + k], " is neither CG nor CN");
    for (uint32_t k = 0; k < n; ++k) if (b.link[5 + m + k] && !ats.count(b.link[5 + m + k])) Err("EV@", b.pos, ": attachment ", b.link[5 + m + k], " is no AT");
    if (grp) Text(b.link[5 + m + n], "TX", L(b, "group"));
  }
  void Ch(uint64_t link, const std::string& from, int depth) {
    if (depth > 20) Err("CH nesting too deep");
    Chain(link, "CH", from, [&](const Blk& b) {
      uint32_t n = num<uint32_t>(b.dpos);
      Len(b, 4 + 3ull * n, 8);
      Text(b.link[2], "TX", L(b, "name")); Text(b.link[3], "MDTX", L(b, "md"));
      for (uint32_t k = 0; k < n; ++k) {
        uint64_t a = b.link[4 + 3 * k], g = b.link[5 + 3 * k], c = b.link[6 + 3 * k];
        if (a && !dgs.count(a)) Err("CH@", b.pos, ": element ", k, " DG link ", a);
        if (g && !cgs.count(g)) Err("CH@", b.pos, ": element ", k, " CG link ", g);
        if (c && !cns.count(c)) Err("CH@", b.pos, ": element ", k, " CN link ", c);
      }
      Ch(b.link[1], L(b, "child"), depth + 1);
    });
  }
  void Si(uint64_t link, const std::string& from) {
    if (!link) return;
    const Blk b = Get(link, "SI", from);
    Len(b, 3, 8);
    Text(b.link[0], "TX", L(b, "name")); Text(b.link[1], "TX", L(b, "path")); Text(b.link[2], "MDTX", L(b, "md"));
  }
  void Cc(uint64_t link, const std::string& from, int depth = 0) {
    if (!link) return;
    if (depth > 10) Err("CC nesting");
    const Blk b = Get(link, "CC", from);
    ccs.insert(b.pos);
    if (b.dlen() < 24) Err("CC@", b.pos, " too short");
    uint8_t type = d[b.dpos]; uint16_t refs = num<uint16_t>(b.dpos + 4), vals = num<uint16_t>(b.dpos + 6);
    Len(b, 4ull + refs, 24 + 8ull * vals);
    Text(b.link[0], "TX", L(b, "name")); Text(b.link[1], "MDTX", L(b, "unit")); Text(b.link[2], "MDTX", L(b, "md"));
    Cc(b.link[3], L(b, "inverse"), depth + 1);
    for (uint16_t k = 0; k < refs; ++k) if (b.link[4 + k]) {
      const Blk& r = Get(b.link[4 + k], "TXCC", L(b, "ref"));
      if (r.type == "TX") Text(r.pos, "TX", ""); else Cc(r.pos, L(b, "ref"), depth + 1);
    }
    auto need = [&](bool ok) { if (!ok) Err("CC@", b.pos, ": type ", (int)type, " with ", vals, " values and ", refs, " references"); };
    switch (type) {
      case 0: need(refs == 0); break;
      case 1: need(vals == 2 && refs == 0); break;
      case 2: need(vals == 6 && refs == 0); break;
      case 3: need(refs == 1); break;
      case 4: case 5: need(vals % 2 == 0 && refs == 0); break;
      case 6: need(vals % 3 == 1 && refs == 0); break;
      case 7: need(refs == vals + 1); break;
      case 8: need(vals % 2 == 0 && refs == vals / 2 + 1); break;
      case 9: need(vals == refs + 1); break;
      case 10: need(refs % 2 == 1); break;
      default: break;
    }
  }
  struct Cn { uint64_t pos; uint8_t type; uint8_t dt; uint32_t byte_off; uint32_t bits; uint8_t bit_off; uint32_t flags; uint32_t inval_pos; uint64_t data; uint64_t array = 1; };
  std::map<uint64_t, std::vector<Cn>> cg_cn;  // CG position -> all channels
  std::vector<std::array<uint64_t, 3>> defx;
  std::vector<std::function<void()>> later;

  void CnList(uint64_t link, const std::string& from, std::vector<Cn>& out, int depth) {
    if (depth > 20) Err("CN nesting too deep");
    Chain(link, "CN", from, [&](const Blk& b) {
      if (b.dlen() < 72) Err("CN@", b.pos, " too short");
      if (!cns.insert(b.pos).second) Err("CN@", b.pos, " is in two lists");
      uint64_t p = b.dpos;
      Cn c{b.pos, d[p], d[p + 2], num<uint32_t>(p + 4), num<uint32_t>(p + 8), d[p + 3], num<uint32_t>(p + 12), num<uint32_t>(p + 16), b.link.size() > 5 ? b.link[5] : 0};
      uint16_t att = num<uint16_t>(p + 22);
      bool dx = (c.flags & 0x1000) != 0;
      Len(b, 8 + (uint64_t)att + (dx ? 3 : 0), 72);
      Text(b.link[2], "TX", L(b, "name"));
      if (b.link[2] == 0) Err("CN@", b.pos, " has no name");
      Si(b.link[3], L(b, "si")); Cc(b.link[4], L(b, "cc"));
      Text(b.link[6], "MDTX", L(b, "unit")); Text(b.link[7], "MDTX", L(b, "md"));
      for (uint16_t k = 0; k < att; ++k) if (b.link[8 + k] && !ats.count(b.link[8 + k])) Err("CN@", b.pos, ": attachment link ", b.link[8 + k], " is no AT");
      if (dx && b.link[8 + att + 2]) defx.push_back({b.link[8 + att], b.link[9 + att], b.link[10 + att]});
      if (c.bit_off > 7) Err("CN@", b.pos, ": bit offset ", (int)c.bit_off);
      if (b.link[1]) {
        const Blk& x = Get(b.link[1], "CNCA", L(b, "composition"));
        if (x.type == "CN") CnList(b.link[1], L(b, "composition"), out, depth + 1);
        else Ca(x, c, out, depth + 1);
      }
      out.push_back(c);
    });
  }
  void Triple(const Blk& b, size_t k) {
    uint64_t a = b.link[k], g = b.link[k + 1], c = b.link[k + 2];
    uint64_t pos = b.pos;
    later.push_back([this, a, g, c, pos] {
      if ((a && !dgs.count(a)) || (g && !cgs.count(g)) || (c && !cns.count(c))) Err("CA@", pos, ": reference triple ", a, ",", g, ",", c, " is not in the file");
    });
  }
  void Ca(const Blk bb, Cn& c, std::vector<Cn>& out, int depth) {
    const Blk b = bb;
    if (depth > 10) Err("CA nesting");
    uint64_t p = b.dpos;
    uint8_t st = d[p + 1]; uint16_t nd = num<uint16_t>(p + 2); uint32_t fl = num<uint32_t>(p + 4);
    uint64_t sum = 0, prod = 1;
    for (uint16_t k = 0; k < nd; ++k) { uint64_t s = num<uint64_t>(p + 16 + 8 * k); sum += s; prod *= s; }
    uint64_t links = 1 + (st == 2 ? prod : 0);
    size_t k = links;
    if (fl & 1) links += 3 * nd;
    if (fl & 2) links += 3 * nd;
    if (fl & 4) links += 3;
    if (fl & 8) links += 3;
    if (fl & 0x10) links += nd;
    if ((fl & 0x10) && !(fl & 0x20)) links += 3 * nd;
    Len(b, links, 16 + 8ull * nd + ((fl & 0x20) ? 8 * sum : 0) + (st == 1 || st == 2 ? 8 * prod : 0));
    uint64_t t = ((fl & 1) ? nd : 0) + ((fl & 2) ? nd : 0) + ((fl & 4) ? 1 : 0) + ((fl & 8) ? 1 : 0);
    for (; t > 0; --t, k += 3) Triple(b, k);
    if (fl & 0x10) for (uint16_t i = 0; i < nd; ++i, ++k) if (b.link[k]) { uint64_t l = b.link[k]; later.push_back([this, l] { Get(l, "CC", "CA.cc"); }); }
    if ((fl & 0x10) && !(fl & 0x20)) for (uint16_t i = 0; i < nd; ++i, k += 3) Triple(b, k);
    if (st == 0) c.array *= prod;
    if (b.link[0]) {
      const Blk& x = Get(b.link[0], "CNCA", L(b, "composition"));
      if (x.type == "CN") CnList(b.link[0], L(b, "composition"), out, depth + 1); else Ca(x, c, out, depth + 1);
    }
  }
  std::map<uint64_t, std::vector<uint64_t>> dg_cg;
  void DgConfig(const Blk b) {
    Text(b.link[3], "MDTX", L(b, "md"));
    uint8_t rs = d[b.dpos];
    if (rs != 0 && rs != 1 && rs != 2 && rs != 4 && rs != 8) Err("DG@", b.pos, ": record id size ", (int)rs);
    std::set<uint64_t> ids;
    auto& list = dg_cg[b.pos];
    Chain(b.link[1], "CG", L(b, "cg"), [&](const Blk& g) {
      cgs.insert(g.pos);
      list.push_back(g.pos);
      uint16_t fl = num<uint16_t>(g.dpos + 16);
      Len(g, (fl & 8) ? 7 : 6, 32);
      uint64_t id = num<uint64_t>(g.dpos);
      if (!ids.insert(id).second) Err("DG@", b.pos, ": record id ", id, " is used twice");
      if (rs > 0 && rs < 8 && id >= (1ull << (8 * rs))) Err("CG@", g.pos, ": record id ", id, " does not fit in ", (int)rs, " bytes");
      Text(g.link[2], "TX", L(g, "name")); Si(g.link[3], L(g, "si")); Text(g.link[5], "MDTX", L(g, "md"));
      if (fl & 1) { if (g.link[1]) Err("CG@", g.pos, ": VLSD group with channels"); return; }
      auto& cl = cg_cn[g.pos];
      CnList(g.link[1], L(g, "cn"), cl, 0);
      uint32_t db = num<uint32_t>(g.dpos + 24), ib = num<uint32_t>(g.dpos + 28);
      std::set<uint32_t> bits;
      for (auto& c : cl) {
        if (c.type == 3 || c.type == 6) continue;  // virtual
        uint64_t width = ((uint64_t)c.bit_off + c.bits + 7) / 8;
        uint64_t end = c.byte_off + width + (c.array > 1 ? (c.array - 1) * ((c.bits + 7) / 8) : 0);
        if (end > db) Err("CN@", c.pos, ": ends at byte ", end, ", record has ", db, " data bytes");
        if (c.flags & 2) {
          for (uint64_t e = 0; e < c.array; ++e) {
            uint32_t bit = c.inval_pos + (uint32_t)e;
            if (bit >= ib * 8) Err("CN@", c.pos, ": invalidation bit ", bit, " outside ", ib, " bytes");
            if (!bits.insert(bit).second) Err("CN@", c.pos, ": invalidation bit ", bit, " used twice");
          }
        }
      }
    });
    if (list.size() > 1 && rs == 0) Err("DG@", b.pos, ": several groups without record id");
  }
  // Concatenated data of a data link (DT/SD, DZ, DL chain, HL)
  void Data(uint64_t link, const std::string& raw, const std::string& from, Bytes& out) {
    if (!link) return;
    const Blk b = Get(link, raw + "DZDLHL", from);
    if (b.type == "HL") {
      Len(b, 1, 8);
      uint16_t fl = num<uint16_t>(b.dpos);
      if (!b.link[0]) Err("HL@", b.pos, " without DL");
      hl_flags = fl; in_hl = true;
      Get(b.link[0], "DL", L(b, "dl"));
      Data(b.link[0], raw, L(b, "dl"), out);
      in_hl = false;
    } else if (b.type == "DL") {
      bool first = true; uint64_t eq = 0;
      bool last_short = false;
      Chain(link, "DL", from, [&](const Blk& l) {
        uint8_t fl = d[l.dpos];
        uint32_t n = num<uint32_t>(l.dpos + 4);
        bool e = fl & 1;
        uint64_t extra = (e ? 8ull : 8ull * n);
        for (int k = 1; k <= 3; ++k) if (fl & (1 << k)) extra += 8ull * n;
        Len(l, 1 + (uint64_t)n, 8 + extra);
        if (in_hl && (hl_flags & 0xFF) != fl) Err("DL@", l.pos, ": flags ", (int)fl, " differ from the list header's ", hl_flags);
        if (e && !first && num<uint64_t>(l.dpos + 8) != eq) Err("DL@", l.pos, ": equal length differs between lists");
        if (e) eq = num<uint64_t>(l.dpos + 8);
        first = false;
        for (uint32_t k = 0; k < n; ++k) {
          if (!e) { uint64_t off = num<uint64_t>(l.dpos + 8 + 8 * k); if (off != out.size()) Err("DL@", l.pos, ": offset[", k, "] = ", off, ", real offset ", out.size()); }
          if (l.link[1 + k] == 0) Err("DL@", l.pos, ": link ", k, " is null");
          if (e && last_short) Err("DL@", l.pos, ": block before ", k, " is not of the equal length ", eq);
          uint64_t before = out.size();
          Get(l.link[1 + k], raw + "DZ", L(l, "data"));
          Data(l.link[1 + k], raw, L(l, "data"), out);
          if (e) { uint64_t got = out.size() - before; if (got > eq) Err("DL@", l.pos, ": block ", k, " has ", got, " bytes, equal length ", eq); last_short = got != eq; }
        }
      });
    } else if (b.type == "DZ") {
      Len(b, 0, 24 + num<uint64_t>(b.dpos + 16));
      if (raw.find(std::string((const char*)&d[b.dpos], 2)) == std::string::npos) Err("DZ@", b.pos, ": original block type ", std::string((const char*)&d[b.dpos], 2));
      uint8_t zt = d[b.dpos + 2]; uint32_t par = num<uint32_t>(b.dpos + 4);
      uint64_t orig = num<uint64_t>(b.dpos + 8), zl = num<uint64_t>(b.dpos + 16);
      Bytes o(orig + 1);
      uLongf n = o.size();
      int rc = uncompress(o.data(), &n, d.data() + b.dpos + 24, zl);
      if (rc != Z_OK || n != orig) Err("DZ@", b.pos, ": inflates to ", n, " bytes (rc ", rc, "), stated ", orig);
      o.resize(orig);
      if (zt == 1) {
        if (par == 0) Err("DZ@", b.pos, ": transposed with column size 0");
        uint64_t rows = orig / par;
        Bytes t(o);
        for (uint64_t r = 0; r < rows; ++r) for (uint64_t c = 0; c < par; ++c) t[r * par + c] = o[c * rows + r];
        o = t;
      } else if (zt != 0) Err("DZ@", b.pos, ": zip type ", (int)zt);
      out.insert(out.end(), o.begin(), o.end());
    } else {
      if (!b.link.empty()) Err(b.type, "@", b.pos, " has links");
      out.insert(out.end(), d.begin() + b.dpos, d.begin() + b.pos + b.len);
    }
  }
  uint16_t hl_flags = 0; bool in_hl = false;

  void DgData(const Blk b) {
    uint8_t rs = d[b.dpos];
    Bytes data;
    Data(b.link[2], "DT", L(b, "data"), data);
    std::map<uint64_t, CgInfo> info;
    std::map<uint64_t, uint64_t> pos2id;
    for (auto p : dg_cg[b.pos]) {
      const Blk& g = Get(p, "CG", "");
      uint64_t q = g.dpos;
      CgInfo i{p, num<uint64_t>(q), num<uint64_t>(q + 8), num<uint16_t>(q + 16), num<uint32_t>(q + 24), num<uint32_t>(q + 28)};
      info[i.recid] = i;
      pos2id[p] = i.recid;
    }
    // VLSD channels: where are their values
    struct Sd { uint64_t cg; uint32_t off; Bytes data; std::set<uint64_t> starts; uint64_t cn; bool is_cg; uint64_t cgid; size_t width; };
    std::vector<Sd> sds;
    for (auto p : dg_cg[b.pos]) for (auto& c : cg_cn[p]) {
      if (c.type == 1 && c.data) {
        const Blk& t = Get(c.data, "SDDZDLHLCG", "CN@" + std::to_string(c.pos) + ".data");
        Sd s{pos2id[p], c.byte_off, {}, {}, c.pos, t.type == "CG", 0, std::min<size_t>(8, c.bits / 8)};
        if (t.type == "CG") {
          if (!pos2id.count(c.data) || !(info[pos2id[c.data]].flags & 1)) Err("CN@", c.pos, ": data link to CG@", c.data, " which is no VLSD group of the data group");
          s.cgid = pos2id[c.data];
        } else {
          Data(c.data, "SD", "CN.data", s.data);
          uint64_t q = 0;
          while (q < s.data.size()) {
            s.starts.insert(q);
            if (q + 4 > s.data.size()) Err("SD of CN@", c.pos, ": incomplete length at ", q);
            uint32_t n; memcpy(&n, &s.data[q], 4);
            if (q + 4 + n > s.data.size()) Err("SD of CN@", c.pos, ": value at ", q, " exceeds the signal data");
            q += 4 + n;
          }
        }
        sds.push_back(std::move(s));
      } else if (c.type == 5) {
        if (c.data && !cns.count(c.data)) Err("CN@", c.pos, ": MLSD size link ", c.data, " is no CN");
      } else if (c.data && c.type != 4) {
        Err("CN@", c.pos, ": channel type ", (int)c.type, " with signal data link");
      }
    }
    uint64_t q = 0;
    auto record = [&](CgInfo& i, uint64_t at) {
      ++i.counted; ++nof_records;
      for (auto& s : sds) if (s.cg == i.recid) {
        uint64_t o = 0; memcpy(&o, &data[at + s.off], s.width);
        if (!s.is_cg && !s.starts.count(o)) Err("CN@", s.cn, ": record ", i.counted - 1, " points to ", o, " which is no value start in the signal data of ", s.data.size(), " bytes");
        if (s.is_cg && !vlsd_starts[{b.pos, s.cgid}].count(o)) pending.push_back({b.pos, s.cgid, o, s.cn, i.counted - 1});
      }
    };
    if (rs == 0) {
      if (!info.empty()) {
        auto& i = info.begin()->second;
        uint64_t rl = (uint64_t)i.data + i.inval;
        if (rl == 0) { if (!data.empty()) Err("DG@", b.pos, ": data without record bytes"); }
        else {
          if (data.size() % rl != 0) Err("DG@", b.pos, ": ", data.size(), " data bytes are no multiple of the record length ", rl);
          for (; q < data.size(); q += rl) record(i, q);
        }
      } else if (!data.empty()) Err("DG@", b.pos, ": data without groups");
    } else {
      while (q < data.size()) {
        if (q + rs > data.size()) Err("DG@", b.pos, ": incomplete record id at ", q);
        uint64_t id = 0; memcpy(&id, &data[q], rs); q += rs;
        auto it = info.find(id);
        if (it == info.end()) Err("DG@", b.pos, ": unknown record id ", id, " at ", q - rs);
        auto& i = it->second;
        if (i.flags & 1) {
          if (q + 4 > data.size()) Err("DG@", b.pos, ": incomplete VLSD record");
          uint32_t n; memcpy(&n, &data[q], 4);
          if (q + 4 + n > data.size()) Err("DG@", b.pos, ": VLSD record at ", q, " exceeds the data");
          vlsd_starts[{b.pos, id}].insert(i.vlsd_bytes);
          i.vlsd_bytes += 4 + n;
          ++i.counted;
          q += 4 + n;
        } else {
          uint64_t rl = (uint64_t)i.data + i.inval;
          if (q + rl > data.size()) Err("DG@", b.pos, ": incomplete record of group ", id, " at ", q);
          record(i, q);
          q += rl;
        }
      }
    }
    for (auto& p : pending) if (!vlsd_starts[{p.dg, p.cg}].count(p.off)) Err("CN@", p.cn, ": record ", p.rec, " points to ", p.off, " which is no value of its VLSD group");
    pending.clear();
    for (auto& [id, i] : info) {
      if (i.cycles != i.counted) Err("CG@", i.pos, ": cycle counter ", i.cycles, " but ", i.counted, " records stored");
      if (i.flags & 1) {
        uint64_t total = (uint64_t)i.data | ((uint64_t)i.inval << 32);
        if (total != i.vlsd_bytes && total != i.vlsd_bytes - 4 * i.counted) Err("CG@", i.pos, ": VLSD size ", total, " but ", i.vlsd_bytes, " bytes stored");
      }
    }
  }
  struct Pend { uint64_t dg, cg, off, cn, rec; };
  std::vector<Pend> pending;
  std::map<std::pair<uint64_t, uint64_t>, std::set<uint64_t>> vlsd_starts;

  void NoOverlap() {
    uint64_t end = 64; std::string last = "ID";
    for (auto& [p, b] : blk) {
      if (p < end) Err(b.type, "@", p, " overlaps ", last, " which ends at ", end);
      end = p + b.len; last = b.type + "@" + std::to_string(p);
    }
  }
};

inline std::string CheckFile(const Bytes& d, uint64_t* records = nullptr) {
  File f(d);
  try { f.Check(); } catch (const std::runtime_error& e) { return e.what(); }
  if (records) *records = f.nof_records;
  return "";
}
}  // namespace m4
