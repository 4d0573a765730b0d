// Independent MDF 4 file builder (no library code): blocks, data sections in every legal arrangement.
#pragma once
#include <zlib.h>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>

namespace b4 {
using Bytes = std::vector<uint8_t>;

template <class T>
void Le(Bytes& b, T v) { for (size_t k = 0; k < sizeof(T); ++k) b.push_back((uint8_t)((uint64_t)v >> (8 * k))); }
inline void Dbl(Bytes& b, double d) { uint64_t u; memcpy(&u, &d, 8); Le(b, u); }

struct File {
  Bytes f;
  File(uint16_t version = 410) {
    std::string v = std::to_string(version / 100) + "." + std::to_string(version % 100 / 10) + std::to_string(version % 10);
    std::string id = "MDF     " + v + std::string(8 - v.size(), ' ') + "mcbuild ";
    f.assign(id.begin(), id.end());
    f.resize(28, 0);
    Le<uint16_t>(f, version);
    f.resize(64, 0);
  }
  // Appends a block; returns its position. The links can be patched later.
  uint64_t Block(const char* type, const std::vector<uint64_t>& links, const Bytes& data) {
    while (f.size() % 8) f.push_back(0);
    uint64_t pos = f.size();
    f.push_back('#'); f.push_back('#'); f.push_back(type[0]); f.push_back(type[1]);
    Le<uint32_t>(f, 0);
    Le<uint64_t>(f, 24 + links.size() * 8 + data.size());
    Le<uint64_t>(f, links.size());
    for (auto l : links) Le<uint64_t>(f, l);
    f.insert(f.end(), data.begin(), data.end());
    return pos;
  }
  void Link(uint64_t block, size_t index, uint64_t to) { for (int k = 0; k < 8; ++k) f[block + 24 + index * 8 + k] = (uint8_t)(to >> (8 * k)); }
  uint64_t Tx(const std::string& s) { Bytes b(s.begin(), s.end()); b.push_back(0); while (b.size() % 8) b.push_back(0); return Block("TX", {}, b); }
  uint64_t Hd(uint64_t start) {
    Bytes b; Le<uint64_t>(b, start); Le<uint16_t>(b, 0); Le<uint16_t>(b, 0); b.push_back(0); b.push_back(0); b.push_back(0); b.push_back(0); Dbl(b, 0); Dbl(b, 0);
    return Block("HD", std::vector<uint64_t>(6, 0), b);
  }
  uint64_t Dg(uint8_t rec_id_size) { Bytes b{rec_id_size, 0, 0, 0, 0, 0, 0, 0}; return Block("DG", {0, 0, 0, 0}, b); }
  uint64_t Cg(uint64_t rec_id, uint64_t samples, uint16_t flags, uint32_t bytes, uint32_t inval, const std::string& name) {
    uint64_t tx = name.empty() ? 0 : Tx(name);
    Bytes b; Le<uint64_t>(b, rec_id); Le<uint64_t>(b, samples); Le<uint16_t>(b, flags); Le<uint16_t>(b, 0); Le<uint32_t>(b, 0); Le<uint32_t>(b, bytes); Le<uint32_t>(b, inval);
    return Block("CG", {0, 0, tx, 0, 0, 0}, b);
  }
  uint64_t Cn(uint8_t type, uint8_t sync, uint8_t dt, uint8_t bit_offset, uint32_t byte_offset, uint32_t bits, uint32_t flags, uint32_t inval_bit, const std::string& name) {
    uint64_t tx = Tx(name);
    Bytes b{type, sync, dt, bit_offset}; Le<uint32_t>(b, byte_offset); Le<uint32_t>(b, bits); Le<uint32_t>(b, flags); Le<uint32_t>(b, inval_bit); b.push_back(0); b.push_back(0); Le<uint16_t>(b, 0);
    for (int k = 0; k < 6; ++k) Dbl(b, 0);
    return Block("CN", {0, 0, tx, 0, 0, 0, 0, 0}, b);
  }
};

inline Bytes Transpose(const Bytes& in, size_t cols) {
  if (cols < 2 || in.size() / cols < 1) return in;
  size_t rows = in.size() / cols;
  Bytes out;
  for (size_t c = 0; c < cols; ++c) for (size_t r = 0; r < rows; ++r) out.push_back(in[r * cols + c]);
  out.insert(out.end(), in.begin() + (long)(rows * cols), in.end());
  return out;
}
inline Bytes Zip(const Bytes& in, int level = 6) {
  uLongf n = compressBound(in.size()) + 16;
  Bytes out(n);
  compress2(out.data(), &n, in.data(), in.size(), level);
  out.resize(n);
  return out;
}

// Arrangement of a byte stream in data blocks.
struct Layout {
  std::vector<size_t> cuts;   // increasing positions inside the stream; equal positions give empty blocks
  std::vector<int> enc;       // per block modulo: 0 plain, 1 compressed, >= 2 transposed with that many columns
  int head = 0;               // 0 direct (one block only), 1 DL, 2 HL + DL
  size_t per_dl = 0;          // blocks per DL, 0: all in one
  bool equal = false;         // equal-length list
  bool times = false;         // list holds time values too
  bool ld = false;            // LD + DV instead of DL + DT (cuts at records only)
  size_t rec = 1;             // record size (LD counts samples)
};

inline uint64_t PutData(File& f, const Bytes& stream, const char* type, const Layout& l) {
  std::vector<Bytes> part;
  size_t prev = 0;
  for (auto c : l.cuts) { part.emplace_back(stream.begin() + (long)prev, stream.begin() + (long)c); prev = c; }
  part.emplace_back(stream.begin() + (long)prev, stream.end());
  std::vector<uint64_t> pos;
  bool dz = false;
  for (size_t k = 0; k < part.size(); ++k) {
    int e = l.enc.empty() ? 0 : l.enc[k % l.enc.size()];
    if (part[k].empty()) e = 0;
    if (e == 0) { pos.push_back(f.Block(type, {}, part[k])); continue; }
    dz = true;
    Bytes z = Zip(e >= 2 ? Transpose(part[k], (size_t)e) : part[k]);
    Bytes b{(uint8_t)type[0], (uint8_t)type[1], (uint8_t)(e >= 2), 0};
    Le<uint32_t>(b, e >= 2 ? (uint32_t)e : 0); Le<uint64_t>(b, part[k].size()); Le<uint64_t>(b, z.size());
    b.insert(b.end(), z.begin(), z.end());
    pos.push_back(f.Block("DZ", {}, b));
  }
  if (l.head == 0) return pos[0];
  size_t per = l.per_dl ? l.per_dl : pos.size();
  uint64_t first = 0, last = 0, off = 0;
  for (size_t k = 0; k < pos.size(); k += per) {
    size_t n = std::min(per, pos.size() - k);
    std::vector<uint64_t> links{0};
    Bytes b;
    for (size_t j = 0; j < n; ++j) links.push_back(pos[k + j]);
    if (l.ld) { Le<uint32_t>(b, (l.equal ? 1u : 0u) | (l.times ? 2u : 0u)); Le<uint32_t>(b, (uint32_t)n); }
    else { b = {(uint8_t)((l.equal ? 1 : 0) | (l.times ? 2 : 0)), 0, 0, 0}; Le<uint32_t>(b, (uint32_t)n); }
    if (l.equal) Le<uint64_t>(b, part[0].size() / l.rec);
    for (size_t j = 0; j < n; ++j) { if (!l.equal) Le<uint64_t>(b, off / l.rec); off += part[k + j].size(); }
    if (l.times) for (size_t j = 0; j < n; ++j) Le<uint64_t>(b, 0x1122334455667788ull);
    uint64_t p = f.Block(l.ld ? "LD" : "DL", links, b);
    if (last) f.Link(last, 0, p); else first = p;
    last = p;
  }
  if (l.head == 1) return first;
  Bytes b; Le<uint16_t>(b, l.equal ? 1 : 0); b.push_back(!l.enc.empty() && l.enc[0] >= 2 ? 1 : 0); b.resize(8, 0);
  (void)dz;
  return f.Block("HL", {first}, b);
}

inline bool EqualOk(size_t size, const Layout& l) {  // every block but the last has the same length, the last is not longer
  std::vector<size_t> len; size_t prev = 0;
  for (auto c : l.cuts) { len.push_back(c - prev); prev = c; }
  len.push_back(size - prev);
  for (size_t k = 0; k + 1 < len.size(); ++k) if (len[k] != len[0]) return false;
  return len.back() <= len[0];
}
inline std::string Show(const Layout& l) {
  std::string s = "cuts=";
  for (auto c : l.cuts) s += std::to_string(c) + ",";
  s += " enc="; for (auto e : l.enc) s += std::to_string(e) + ",";
  return s + " head=" + std::to_string(l.head) + " per_dl=" + std::to_string(l.per_dl) + " equal=" + std::to_string(l.equal) + " times=" + std::to_string(l.times) + " ld=" + std::to_string(l.ld);
}
}  // namespace b4
