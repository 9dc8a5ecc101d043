// Group coding: drivers and executors.
#ifndef VERIF_GRP_H_
#define VERIF_GRP_H_
#include <numeric>
#include <experimental/groups.h>
#include "codec.h"
namespace grp {
using codec::Bytes;
// Runs the tasks of every batch in the order given by a permutation's rank.
struct Ordered {
  uint64_t rank;
  explicit Ordered(uint64_t r) : rank(r) {}
  void operator()(const brunsli::Runnable& run, size_t n) const {
    std::vector<size_t> left(n);
    std::iota(left.begin(), left.end(), 0);
    uint64_t r = rank;
    while (!left.empty()) {
      size_t k = (size_t)(r % left.size());
      r /= left.size();
      size_t t = left[k];
      left.erase(left.begin() + k);
      run(t);
    }
  }
};
enum : uint64_t { kForward = 0 };
struct Reverse {
  void operator()(const brunsli::Runnable& run, size_t n) const { for (size_t i = n; i-- > 0;) run(i); }
};
inline size_t Room(const brunsli::JPEGData& j, int ac) {
  size_t w = (size_t)j.MCU_cols * j.max_h_samp_factor, h = (size_t)j.MCU_rows * j.max_v_samp_factor;
  size_t n = ((w + ac - 1) / ac) * ((h + ac - 1) / ac);
  return brunsli::GetMaximumBrunsliEncodedSize(j) + 64 * n + 1024;
}
inline bool Fits(const brunsli::JPEGData& j, int ac) { return ac % j.max_h_samp_factor == 0 && ac % j.max_v_samp_factor == 0; }
inline bool Enc(const brunsli::JPEGData& j, int ac, int dc, brunsli::Executor ex, Bytes* out, size_t cap = 0, bool* over = nullptr) {
  if (!cap) cap = Room(j, ac);
  else --cap;                      // (cap is passed increased by one)
  std::vector<uint8_t> b(cap + 64, 0xd1);
  size_t n = cap;
  bool ok = brunsli::EncodeGroups(j, b.data(), &n, ac, dc, &ex);
  if (over) {
    *over = ok && n > cap;
    for (size_t i = cap; i < b.size(); ++i) if (b[i] != 0xd1) *over = true;
  }
  if (ok && n <= cap) out->assign((char*)b.data(), n);
  return ok;
}
inline bool Dec(const Bytes& in, int ac, int dc, brunsli::Executor ex, brunsli::JPEGData* j) {
  codec::Exact e(in);
  return brunsli::DecodeGroups(e.p, e.n, j, ac, dc, &ex);
}
inline bool Jpg(const brunsli::JPEGData& j, Bytes* out) {
  out->clear();
  return brunsli::WriteJpeg(j, brunsli::JPEGOutput(codec::StringSink, out));
}
struct Part { size_t begin, payload, end; int tag; };
// Sections of a group stream.
inline std::vector<Part> Parts(const Bytes& b) {
  std::vector<Part> v;
  size_t p = 0;
  while (p < b.size()) {
    Part q;
    q.begin = p;
    q.tag = (uint8_t)b[p] >> 3;
    uint64_t n = 0;
    int s = 0;
    ++p;
    while (p < b.size()) { uint8_t c = b[p++]; n |= (uint64_t)(c & 127) << s; s += 7; if (!(c & 128)) break; }
    q.payload = p;
    p += n;
    q.end = p;
    v.push_back(q);
  }
  return v;
}
inline Bytes Section(int tag, const Bytes& body) {
  Bytes r(1, (char)(tag << 3 | 2));
  size_t v = body.size();
  do { r += (char)((v & 127) | (v > 127 ? 128 : 0)); v >>= 7; } while (v);
  return r + body;
}
}  // namespace grp
#endif
