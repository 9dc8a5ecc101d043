// Takes a Brunsli stream apart into container elements and puts it together
// again.  Written from the format description, not from the decoder.
#ifndef VERIF_SECTIONS_H_
#define VERIF_SECTIONS_H_
#include <stdint.h>
#include <string>
#include <vector>
namespace sec {
typedef std::string Bytes;
inline Bytes Sig() { return Bytes("\x0a\x04\x42\xd2\xd5\x4e", 6); }
inline Bytes B128(uint64_t v, int width = 0) {
  Bytes r;
  do { r += (char)((v & 127) | 128); v >>= 7; } while (v || (int)r.size() < width);
  r.back() &= 127;
  return r;
}
enum { META = 3, INTERNALS = 4, QUANT = 5, HIST = 6, DC = 7, AC = 8, ORIG = 9 };
struct Elem {
  int tag = 0;
  int wire = 2;     // 2 length delimited, 0 varint
  Bytes body;       // payload, or ignored
  uint64_t value = 0;
  int width = 0;    // minimal number of length bytes
  int64_t skew = 0; // declared length minus real length
  Bytes Put() const {
    Bytes r(1, (char)(tag << 3 | wire));
    if (wire == 2) r += B128((uint64_t)((int64_t)body.size() + skew), width) + body;
    else r += B128(value, width);
    return r;
  }
};
inline Elem Section(int tag, const Bytes& b) { Elem e; e.tag = tag; e.body = b; return e; }
inline Elem Varint(int tag, uint64_t v) { Elem e; e.tag = tag; e.wire = 0; e.value = v; return e; }
struct Stream {
  std::vector<Elem> header;  // items of the header section
  std::vector<Elem> body;    // elements after the header
  int header_tag = 2, header_wire = 2;
  int64_t header_skew = 0;
  Bytes HeaderBytes() const {
    Bytes h;
    for (auto& e : header) h += e.Put();
    Elem s = Section(header_tag, h);
    s.wire = header_wire;
    s.skew = header_skew;
    return s.Put();
  }
  Bytes Put() const {
    Bytes r = Sig() + HeaderBytes();
    for (auto& e : body) r += e.Put();
    return r;
  }
  const Elem* Find(int tag) const { for (auto& e : body) if (e.tag == tag) return &e; return nullptr; }
};
inline bool Parse1(const Bytes& b, size_t* p, Elem* e) {
  if (*p >= b.size()) return false;
  uint8_t m = b[(*p)++];
  e->tag = m >> 3;
  e->wire = m & 7;
  uint64_t v = 0;
  int s = 0, n = 0;
  while (true) {
    if (*p >= b.size() || s > 63) return false;
    uint8_t c = b[(*p)++];
    ++n;
    v |= (uint64_t)(c & 127) << s;
    s += 7;
    if (!(c & 128)) break;
  }
  e->width = n;
  if (e->wire == 2) {
    if (v > b.size() - *p) return false;
    e->body = b.substr(*p, v);
    *p += v;
  } else {
    e->value = v;
  }
  return true;
}
inline bool Split(const Bytes& b, Stream* s) {
  if (b.compare(0, 6, Sig())) return false;
  size_t p = 6;
  Elem h;
  if (!Parse1(b, &p, &h) || h.tag != 2 || h.wire != 2) return false;
  size_t q = 0;
  while (q < h.body.size()) { Elem e; if (!Parse1(h.body, &q, &e)) return false; s->header.push_back(e); }
  while (p < b.size()) { Elem e; if (!Parse1(b, &p, &e)) return false; s->body.push_back(e); }
  return true;
}
}  // namespace sec
#endif
