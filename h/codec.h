// Thin drivers around the public API of the library under test.
#ifndef VERIF_CODEC_H_
#define VERIF_CODEC_H_
#include <stdlib.h>
#include <string.h>

#include <string>
#include <vector>

#include <brunsli/brunsli_decode.h>
#include <brunsli/brunsli_encode.h>
#include <brunsli/jpeg_data.h>
#include <brunsli/jpeg_data_reader.h>
#include <brunsli/jpeg_data_writer.h>
#include <brunsli/status.h>

namespace codec {
typedef std::string Bytes;

inline const uint8_t* U8(const Bytes& b) { return (const uint8_t*)b.data(); }

// A copy of the bytes in an exactly sized heap block (so that ASAN sees any
// access past either end).
struct Exact {
  uint8_t* p;
  size_t n;
  explicit Exact(const Bytes& b) : p((uint8_t*)malloc(b.size() ? b.size() : 1)), n(b.size()) {
    if (n) memcpy(p, b.data(), n);
  }
  Exact(const uint8_t* d, size_t k) : p((uint8_t*)malloc(k ? k : 1)), n(k) {
    if (n) memcpy(p, d, n);
  }
  ~Exact() { free(p); }
  Exact(const Exact&) = delete;
};

inline size_t StringSink(void* d, const uint8_t* buf, size_t n) {
  ((Bytes*)d)->append((const char*)buf, n);
  return n;
}

inline bool Read(const Bytes& in, brunsli::JPEGData* jpg,
                 brunsli::JpegReadMode mode = brunsli::JPEG_READ_ALL) {
  Exact e(in);
  return brunsli::ReadJpeg(e.p, e.n, mode, jpg);
}

inline bool Encode(const brunsli::JPEGData& jpg, Bytes* out,
                   size_t* bound = nullptr) {
  size_t n = brunsli::GetMaximumBrunsliEncodedSize(jpg);
  if (bound) *bound = n;
  uint8_t* buf = (uint8_t*)malloc(n ? n : 1);
  size_t len = n;
  bool ok = brunsli::BrunsliEncodeJpeg(jpg, buf, &len);
  if (ok) out->assign((char*)buf, len);
  free(buf);
  return ok;
}

// One-shot decode to JPEG bytes. Returns 0 ok, 1 decode error status, 2 write
// error; *status receives the decoder status.
inline int Decode(const Bytes& in, Bytes* out, int* status = nullptr) {
  Exact e(in);
  brunsli::JPEGData jpg;
  brunsli::BrunsliStatus st = brunsli::BrunsliDecodeJpeg(e.p, e.n, &jpg);
  if (status) *status = st;
  if (st != brunsli::BRUNSLI_OK) return 1;
  out->clear();
  brunsli::JPEGOutput w(StringSink, out);
  if (!brunsli::WriteJpeg(jpg, w)) return 2;
  return 0;
}

inline size_t FirstDiff(const Bytes& a, const Bytes& b) {
  size_t i = 0;
  while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
  return i;
}

}  // namespace codec
#endif
