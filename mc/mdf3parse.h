// Independent structural checker for finalized MDF 3 files (written from the MDF 3.3 block layout, uses no
// library code).  Throws std::runtime_error with the first defect found.
#pragma once
#include <cstdint>
#include <cstring>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace m3 {
using Bytes = std::vector<uint8_t>;
struct Blk { uint32_t pos = 0; std::string type; uint16_t len = 0; std::vector<uint32_t> link; uint32_t dpos = 0; };
struct Cn { std::string name, description, long_name, display, comment, unit; uint16_t type, start, bits, signal, conv = 0xFFFF, add; std::vector<double> par; std::string formula; };
struct Cg { uint32_t pos; uint16_t id, channels, size; uint32_t records; std::string comment; std::vector<Cn> cn; std::vector<Bytes> data; };
struct Dg { uint16_t ids; std::vector<Cg> cg; };

class File {
 public:
  const Bytes& d;
  std::map<uint32_t, Blk> blk;
  std::vector<std::pair<uint64_t, uint64_t>> raw;  // data areas
  std::vector<Dg> dgs;
  std::string author, organisation, project, subject, comment;
  uint64_t nof_records = 0;
  explicit File(const Bytes& data) : d(data) {}

  template <class... A>
  [[noreturn]] void Err(A&&... a) const { std::ostringstream o; ((o << a), ...); throw std::runtime_error(o.str()); }
  template <class T>
  T num(uint64_t p) const { if (p + sizeof(T) > d.size()) Err("read beyond end of file at ", p); T v; memcpy(&v, d.data() + p, sizeof(T)); return v; }
  // fixed text field: zero terminated unless full
  std::string Fix(uint64_t p, size_t n) const { std::string s; for (size_t k = 0; k < n && num<uint8_t>(p + k) != 0; ++k) s += (char)d[p + k]; return s; }

  const Blk& Get(uint32_t pos, const char* type, size_t links, const std::string& from) {
    if (pos < 64 || (uint64_t)pos + 4 > d.size()) Err("link ", from, " = ", pos, " points outside the file (", d.size(), ")");
    if (blk.count(pos)) Err("link ", from, " = ", pos, " points to a block that is already used");
    Blk b;
    b.pos = pos;
    b.type.assign((const char*)&d[pos], 2);
    if (b.type != type) Err("link ", from, " = ", pos, " points to '", b.type, "', expected ", type);
    b.len = num<uint16_t>(pos + 2);
    if (b.len < 4 + 4 * links || (uint64_t)pos + b.len > d.size()) Err(type, "@", pos, ": length ", b.len, " does not fit (file ", d.size(), ")");
    for (size_t k = 0; k < links; ++k) b.link.push_back(num<uint32_t>(pos + 4 + 4 * k));
    b.dpos = pos + 4 + 4 * (uint32_t)links;
    return blk.emplace(pos, b).first->second;
  }
  void Len(const Blk& b, size_t n) const { if (b.len != n) Err(b.type, "@", b.pos, ": length ", b.len, ", expected ", n); }
  std::string Text(uint32_t link, const std::string& from) {
    if (link == 0) return {};
    const Blk& b = Get(link, "TX", 0, from);
    size_t n = 0;
    while (n + 4 < b.len && d[b.dpos + n] != 0) ++n;
    if (n + 4 >= b.len) Err("TX@", b.pos, " (", from, ") is not zero terminated");
    if (n + 5 != b.len) Err("TX@", b.pos, " (", from, ") holds bytes after the text");
    return std::string((const char*)&d[b.dpos], n);
  }
  void Bool(uint64_t p, const char* what) const { if (num<uint16_t>(p) > 1) Err(what, " is no boolean: ", num<uint16_t>(p)); }

  void Conversion(uint32_t link, Cn& cn, const std::string& from) {
    const Blk& b = Get(link, "CC", 0, from);
    Bool(b.dpos, "CC range flag");
    cn.unit = Fix(b.dpos + 18, 20);
    cn.conv = num<uint16_t>(b.dpos + 38);
    uint16_t n = num<uint16_t>(b.dpos + 40);
    size_t want;
    switch (cn.conv) {
      case 0: if (n != 2) Err("CC@", b.pos, ": linear with ", n, " values"); want = 8u * n; break;
      case 1: case 2: want = 16u * n; break;
      case 6: case 9: if (n != 6) Err("CC@", b.pos, ": type ", cn.conv, " with ", n, " values"); want = 8u * n; break;
      case 7: case 8: if (n != 7) Err("CC@", b.pos, ": type ", cn.conv, " with ", n, " values"); want = 8u * n; break;
      case 10: want = n; break;
      case 11: want = 40u * n; break;
      case 12: want = 20u * n; break;
      case 132: case 133: case 65535: want = 0; if (n != 0) Err("CC@", b.pos, ": type ", cn.conv, " with ", n, " values"); break;
      default: Err("CC@", b.pos, ": unknown conversion type ", cn.conv);
    }
    Len(b, 4 + 42 + want);
    if (cn.conv < 10) for (size_t k = 0; k < want / 8; ++k) cn.par.push_back(num<double>(b.dpos + 42 + 8 * k));
    if (cn.conv == 10) cn.formula = Fix(b.dpos + 42, n);
  }

  Cn Channel(const Blk& b, const Cg& cg) {
    Len(b, 228);
    Cn c;
    uint64_t p = b.dpos;
    c.type = num<uint16_t>(p);
    if (c.type > 1) Err("CN@", b.pos, ": channel type ", c.type);
    c.name = Fix(p + 2, 32);
    if (c.name.empty()) Err("CN@", b.pos, ": no name");
    c.description = Fix(p + 34, 128);
    c.start = num<uint16_t>(p + 162); c.bits = num<uint16_t>(p + 164); c.signal = num<uint16_t>(p + 166);
    Bool(p + 168, "CN range flag");
    uint32_t ln = num<uint32_t>(p + 194), dn = num<uint32_t>(p + 198);
    c.add = num<uint16_t>(p + 202);
    if (c.signal > 16) Err("CN ", c.name, ": signal type ", c.signal);
    if (c.signal != 7 && c.signal != 8 && (c.bits == 0 || c.bits > 64)) Err("CN ", c.name, ": ", c.bits, " bits");
    if ((c.signal == 7 || c.signal == 8) && (c.bits == 0 || c.bits % 8)) Err("CN ", c.name, ": text of ", c.bits, " bits");
    uint64_t end = (uint64_t)c.add * 8 + c.start + c.bits;
    if (end > (uint64_t)cg.size * 8) Err("CN ", c.name, ": ends at bit ", end, " of a record with ", cg.size, " bytes");
    c.long_name = Text(ln, "CN.longname");
    c.display = Text(dn, "CN.display");
    if (!c.long_name.empty() && c.long_name.compare(0, c.name.size(), c.name) != 0) Err("CN ", c.name, ": long name ", c.long_name);
    c.comment = Text(b.link[4], "CN.comment");
    if (b.link[1]) Conversion(b.link[1], c, "CN.cc");
    if (b.link[2] || b.link[3]) Err("CN ", c.name, ": unexpected CE/CD link");
    return c;
  }

  void Parse() {
    if (d.size() < 64) Err("no ID block");
    if (memcmp(d.data(), "MDF     3.", 10) != 0) Err("bad ID block");
    if (num<uint16_t>(24) != 0) Err("ID byte order ", num<uint16_t>(24));
    uint16_t ver = num<uint16_t>(28);
    if (ver < 300 || ver > 330) Err("ID version number ", ver);
    if (Fix(8, 4) != std::to_string(ver / 100) + "." + std::to_string(ver % 100)) Err("ID version text ", Fix(8, 8), " and number ", ver);
    const Blk hd = Get(64, "HD", 3, "ID");
    Len(hd, 208);
    uint64_t p = hd.dpos;
    uint16_t ndg = num<uint16_t>(p);
    for (size_t k : {2u, 5u}) if (d[p + 2 + k] != ':') Err("HD date ", Fix(p + 2, 10));
    for (size_t k : {2u, 5u}) if (d[p + 12 + k] != ':') Err("HD time ", Fix(p + 12, 8));
    author = Fix(p + 20, 32); organisation = Fix(p + 52, 32); project = Fix(p + 84, 32); subject = Fix(p + 116, 32);
    comment = Text(hd.link[1], "HD.comment");
    if (hd.link[2]) Get(hd.link[2], "PR", 0, "HD.pr");
    for (uint32_t l = hd.link[0]; l;) {
      const Blk b = Get(l, "DG", 4, "DG list");
      l = b.link[0];
      Group(b);
    }
    if (dgs.size() != ndg) Err("HD counts ", ndg, " data groups, the list holds ", dgs.size());
    // nothing overlaps
    std::vector<std::pair<uint64_t, uint64_t>> all = raw;
    all.push_back({0, 64});
    for (auto& [pos, b] : blk) all.push_back({pos, pos + b.len});
    std::sort(all.begin(), all.end());
    for (size_t k = 1; k < all.size(); ++k) if (all[k].first < all[k - 1].second) Err("areas ", all[k - 1].first, "-", all[k - 1].second, " and ", all[k].first, "-", all[k].second, " overlap");
  }

  void Group(const Blk& b) {
    Len(b, 28);
    Dg dg;
    uint16_t ncg = num<uint16_t>(b.dpos);
    dg.ids = num<uint16_t>(b.dpos + 2);
    if (num<uint32_t>(b.dpos + 4) != 0) Err("DG@", b.pos, ": reserved bytes not zero");
    if (dg.ids > 2) Err("DG@", b.pos, ": ", dg.ids, " record ids");
    if (b.link[2]) Err("DG@", b.pos, ": unexpected trigger block");
    std::map<uint16_t, size_t> by_id;
    for (uint32_t l = b.link[1]; l;) {
      const Blk g = Get(l, "CG", 3, "CG list");
      l = g.link[0];
      if (g.len != 26 && g.len != 30) Err("CG@", g.pos, ": length ", g.len);
      Cg cg;
      cg.pos = g.pos; cg.id = num<uint16_t>(g.dpos); cg.channels = num<uint16_t>(g.dpos + 2); cg.size = num<uint16_t>(g.dpos + 4); cg.records = num<uint32_t>(g.dpos + 6);
      if (g.len == 30 && num<uint32_t>(g.dpos + 10)) Err("CG@", g.pos, ": unexpected SR link");
      cg.comment = Text(g.link[2], "CG.comment");
      size_t masters = 0;
      for (uint32_t m = g.link[1]; m;) {
        const Blk n = Get(m, "CN", 5, "CN list");
        m = n.link[0];
        cg.cn.push_back(Channel(n, cg));
        masters += cg.cn.back().type == 1;
      }
      if (masters > 1) Err("CG@", g.pos, ": ", masters, " master channels");
      if (cg.cn.size() != cg.channels) Err("CG@", g.pos, " counts ", cg.channels, " channels, the list holds ", cg.cn.size());
      if (dg.ids && (cg.id == 0 || cg.id > 255)) Err("CG@", g.pos, ": record id ", cg.id);
      if (!by_id.emplace(cg.id, dg.cg.size()).second) Err("DG@", b.pos, ": record id ", cg.id, " used twice");
      dg.cg.push_back(cg);
    }
    if (dg.cg.size() != ncg) Err("DG@", b.pos, " counts ", ncg, " channel groups, the list holds ", dg.cg.size());
    if (ncg > 1 && dg.ids == 0) Err("DG@", b.pos, ": ", ncg, " channel groups without record ids");
    uint64_t total = 0;
    for (auto& g : dg.cg) total += g.records;
    if (total && !b.link[3]) Err("DG@", b.pos, ": ", total, " records but no data block");
    if (b.link[3]) {
      uint64_t p = b.link[3];
      if (p < 64 || p > d.size()) Err("DG@", b.pos, ": data at ", p, " outside the file (", d.size(), ")");
      for (uint64_t k = 0; k < total; ++k) {
        size_t g = 0;
        if (dg.ids) {
          if (p >= d.size()) Err("DG@", b.pos, ": data ends in record ", k, " of ", total);
          auto it = by_id.find(d[p]);
          if (it == by_id.end()) Err("DG@", b.pos, ": record ", k, " of ", total, " has the unknown id ", (int)d[p]);
          g = it->second;
        }
        Cg& cg = dg.cg[g];
        uint64_t len = cg.size + dg.ids;
        if (p + len > d.size()) Err("DG@", b.pos, ": data ends in record ", k, " of ", total);
        if (dg.ids == 2 && d[p + len - 1] != d[p]) Err("DG@", b.pos, ": record ", k, " ends with the id ", (int)d[p + len - 1]);
        if (cg.data.size() == cg.records) Err("CG@", cg.pos, ": more than the counted ", cg.records, " records");
        cg.data.emplace_back(d.begin() + (long)(p + (dg.ids ? 1 : 0)), d.begin() + (long)(p + (dg.ids ? 1 : 0) + cg.size));
        p += len;
        ++nof_records;
      }
      if (p > b.link[3]) raw.push_back({b.link[3], p});
    }
    dgs.push_back(dg);
  }
};

inline File Parse(const Bytes& b) { File f(b); f.Parse(); return f; }
}  // namespace m3
