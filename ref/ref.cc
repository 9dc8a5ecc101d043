// Compiled with -Dbrunsli=brunsli_ref against ref/c.
#include "ref.h"
#include <stdlib.h>
#include <string.h>
#include <algorithm>
#include <vector>
#include <brunsli/brunsli_decode.h>
#include <brunsli/brunsli_encode.h>
#include <brunsli/jpeg_data.h>
#include <brunsli/jpeg_data_reader.h>
#include <brunsli/jpeg_data_writer.h>
static thread_local uint64_t g_schemes = ~0ull;
int ref_next_scheme() {
  int v = (int)(g_schemes & 15);
  g_schemes = g_schemes >> 4 | 15ull << 60;
  return v == 15 ? -1 : v;
}
namespace refapi {
typedef std::string S;
static const uint8_t* U(const S& s) { return (const uint8_t*)s.data(); }
static size_t Sink(void* d, const uint8_t* b, size_t n) { ((S*)d)->append((const char*)b, n); return n; }
int Encode(const S& jpg, int version, S* brn) {
  brunsli::JPEGData j;
  if (!brunsli::ReadJpeg(U(jpg), jpg.size(), brunsli::JPEG_READ_ALL, &j)) return 1;
  j.version = version;
  size_t n = brunsli::GetMaximumBrunsliEncodedSize(j);
  std::vector<uint8_t> b(n + 1);
  if (!brunsli::BrunsliEncodeJpeg(j, b.data(), &n)) return 2;
  brn->assign((char*)b.data(), n);
  return 0;
}
int Decode(const S& brn, S* jpg, int* status) {
  brunsli::JPEGData j;
  brunsli::BrunsliStatus st = brunsli::BrunsliDecodeJpeg(U(brn), brn.size(), &j);
  *status = (int)st;
  if (st != brunsli::BRUNSLI_OK) return 1;
  jpg->clear();
  return brunsli::WriteJpeg(j, brunsli::JPEGOutput(Sink, jpg)) ? 0 : 2;
}
int EncodeSchemes(const S& jpg, int version, uint64_t schemes, S* brn) {
  g_schemes = schemes;
  int r = Encode(jpg, version, brn);
  g_schemes = ~0ull;
  return r;
}
bool Wrap(const S& data, S* brn) {
  std::vector<uint8_t> b(data.size() + 64);
  size_t n = b.size();
  if (!brunsli::BrunsliEncodeJpegBypass(U(data), data.size(), b.data(), &n)) return false;
  brn->assign((char*)b.data(), n);
  return true;
}
int Stream(const S& in, size_t is, size_t os, S* out) {
  brunsli::BrunsliDecoder d;
  size_t pos = 0, off = 0;
  std::vector<uint8_t> ob(os);
  out->clear();
  for (;;) {
    size_t ai = off - pos;
    const uint8_t* ni = U(in) + pos;
    size_t ao = os;
    uint8_t* no = ob.data();
    auto st = d.Decode(&ai, &ni, &ao, &no);
    out->append((char*)ob.data(), os - ao);
    pos = off - ai;
    if (st == brunsli::BrunsliDecoder::DONE) return 0;
    if (st == brunsli::BrunsliDecoder::ERROR) return 1;
    if (st == brunsli::BrunsliDecoder::NEEDS_MORE_INPUT) {
      if (off >= in.size()) return 2;
      off = std::min(in.size(), off + is);
    }
  }
}
}  // namespace refapi
