// Independent MDF 3 file builder (no library code): one data group, one sorted channel group.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>

namespace b3 {
using Bytes = std::vector<uint8_t>;
template <class T>
void Le(Bytes& b, T v) { for (size_t k = 0; k < sizeof(T); ++k) b.push_back((uint8_t)((uint64_t)v >> (8 * k))); }
inline void Dbl(Bytes& b, double d) { uint64_t u; memcpy(&u, &d, 8); Le(b, u); }
inline void Str(Bytes& b, const std::string& s, size_t n) { for (size_t k = 0; k < n; ++k) b.push_back(k < s.size() ? (uint8_t)s[k] : 0); }

struct File {
  Bytes f;
  File() {
    Str(f, "MDF     3.30    mcbuild ", 24);
    Le<uint16_t>(f, 0); Le<uint16_t>(f, 0); Le<uint16_t>(f, 330); Le<uint16_t>(f, 0);
    f.resize(64, 0);
  }
  uint32_t Block(const char* type, const std::vector<uint32_t>& links, const Bytes& data) {
    uint32_t pos = (uint32_t)f.size();
    f.push_back((uint8_t)type[0]); f.push_back((uint8_t)type[1]);
    Le<uint16_t>(f, (uint16_t)(4 + links.size() * 4 + data.size()));
    for (auto l : links) Le<uint32_t>(f, l);
    f.insert(f.end(), data.begin(), data.end());
    return pos;
  }
  void Link(uint32_t block, size_t index, uint32_t to) { for (int k = 0; k < 4; ++k) f[block + 4 + index * 4 + (size_t)k] = (uint8_t)(to >> (8 * k)); }
  uint32_t Tx(const std::string& s) { Bytes b(s.begin(), s.end()); b.push_back(0); return Block("TX", {}, b); }
  uint32_t Hd(uint16_t dgs) {
    Bytes b; Le<uint16_t>(b, dgs); Str(b, "24:12:2023", 10); Str(b, "10:11:12", 8); Str(b, "me", 32); Str(b, "dept", 32); Str(b, "proj", 32); Str(b, "subj", 32);
    return Block("HD", {0, 0, 0}, b);
  }
  uint32_t Dg(uint16_t cgs, uint16_t ids) { Bytes b; Le<uint16_t>(b, cgs); Le<uint16_t>(b, ids); Le<uint32_t>(b, 0); return Block("DG", {0, 0, 0, 0}, b); }
  uint32_t Cg(uint16_t id, uint16_t cns, uint16_t size, uint32_t records) { Bytes b; Le(b, id); Le(b, cns); Le(b, size); Le(b, records); return Block("CG", {0, 0, 0}, b); }
  uint32_t Cn(uint16_t type, const std::string& name, uint16_t start_bit, uint16_t bits, uint16_t dt) {
    Bytes b; Le(b, type); Str(b, name, 32); Str(b, "", 128); Le(b, start_bit); Le(b, bits); Le(b, dt); Le<uint16_t>(b, 0); Dbl(b, 0); Dbl(b, 0); Dbl(b, 0); Le<uint32_t>(b, 0); Le<uint32_t>(b, 0); Le<uint16_t>(b, 0);
    return Block("CN", {0, 0, 0, 0, 0}, b);
  }
};
}  // namespace b3
