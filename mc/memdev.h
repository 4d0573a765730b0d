// In-memory device: a streambuf over a byte vector with one joint file position (like filebuf).
// Every write is logged in order, so that the content at any crash point can be rebuilt.
#pragma once
#include <cstdint>
#include <cstring>
#include <memory>
#include <streambuf>
#include <vector>

struct WriteOp { uint64_t pos; std::vector<uint8_t> bytes; };

class MemDev : public std::streambuf {
 public:
  std::vector<uint8_t> data;
  std::vector<WriteOp> log;
  bool logging = false;
  uint64_t nof_reads = 0;
  uint64_t pos = 0;

  MemDev() = default;
  explicit MemDev(std::vector<uint8_t> d) : data(std::move(d)) {}

 protected:
  std::streamsize xsputn(const char* s, std::streamsize n) override {
    if (n <= 0) return 0;
    if (pos + n > data.size()) data.resize(pos + n, 0);
    memcpy(data.data() + pos, s, n);
    if (logging) log.push_back({pos, std::vector<uint8_t>(s, s + n)});
    pos += n;
    return n;
  }
  int_type overflow(int_type c) override {
    if (traits_type::eq_int_type(c, traits_type::eof())) return traits_type::not_eof(c);
    char ch = traits_type::to_char_type(c);
    xsputn(&ch, 1);
    return c;
  }
  std::streamsize xsgetn(char* s, std::streamsize n) override {
    ++nof_reads;
    if (n <= 0 || pos >= data.size()) return 0;
    uint64_t k = std::min<uint64_t>(n, data.size() - pos);
    memcpy(s, data.data() + pos, k);
    pos += k;
    return (std::streamsize)k;
  }
  int_type underflow() override {
    return pos < data.size() ? traits_type::to_int_type((char)data[pos]) : traits_type::eof();
  }
  int_type uflow() override {
    return pos < data.size() ? traits_type::to_int_type((char)data[pos++]) : traits_type::eof();
  }
  int_type pbackfail(int_type) override {
    if (pos == 0) return traits_type::eof();
    --pos;
    return traits_type::to_int_type((char)data[pos]);
  }
  std::streamsize showmanyc() override { return pos < data.size() ? (std::streamsize)(data.size() - pos) : -1; }
  pos_type seekoff(off_type off, std::ios_base::seekdir d, std::ios_base::openmode) override {
    int64_t base = d == std::ios_base::beg ? 0 : d == std::ios_base::cur ? (int64_t)pos : (int64_t)data.size();
    int64_t p = base + off;
    if (p < 0) return pos_type(off_type(-1));
    pos = (uint64_t)p;
    return pos_type(p);
  }
  pos_type seekpos(pos_type p, std::ios_base::openmode m) override { return seekoff(off_type(p), std::ios_base::beg, m); }
  int sync() override { return 0; }
};
