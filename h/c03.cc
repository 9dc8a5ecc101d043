// C03: the bypass encoding carries any byte string.
#include <brunsli/decode.h>
#include "corpus.h"
#include "gen.h"
#include "stream.h"
using codec::Bytes;

static bool Enc(vf::Case& c, const Bytes& p, size_t cap, size_t bound, Bytes* out, bool* wrote) {
  codec::Exact src(p);
  uint8_t* buf = (uint8_t*)malloc(cap ? cap : 1);
  size_t len = cap;
  bool ok = brunsli::BrunsliEncodeJpegBypass(src.p, src.n, buf, &len);
  *wrote = ok;
  if (ok) {
    if (len > cap) { c.Fail("reported-size", vf::Fmt("%zu bytes reported for a buffer of %zu", len, cap), p); free(buf); return false; }
    out->assign((char*)buf, len);
  }
  free(buf);
  return true;
}
static void Check(vf::Case& c, const Bytes& p, bool streams, bool caps) {
  size_t bound = brunsli::GetBrunsliBypassSize(p.size());
  Bytes e, o;
  bool ok;
  if (!Enc(c, p, bound, bound, &e, &ok)) return;
  if (!ok) { c.Fail("refused", vf::Fmt("%zu bytes refused with the recommended buffer of %zu", p.size(), bound), p); return; }
  c.nontrivial = true;
  int st = 0;
  int rc = codec::Decode(e, &o, &st);
  if (rc || o != p) { c.Fail("round-trip", vf::Fmt("payload %s (%zu bytes): decode rc=%d status=%d, %zu bytes back", vf::Hex(p, 32).c_str(), p.size(), rc, st, o.size()), p); return; }
  {
    codec::Exact x(e);
    Bytes q;
    int r = DecodeBrunsli(x.n, x.p, &q, [](void* d, const uint8_t* b, size_t n) -> size_t { ((Bytes*)d)->append((const char*)b, n); return n; });
    if (r != 1 || q != p) { c.Fail("c-api", vf::Fmt("%zu bytes: DecodeBrunsli returned %d with %zu bytes", p.size(), r, q.size()), p); return; }
  }
  if (streams) {
    struct { size_t i, o; } m[] = {{1, 1}, {1, 10000}, {7, 3}, {600, 64}, {1u << 30, 50000}, {1u << 30, 5}};
    for (auto& s : m) {
      if (p.size() > 5000 && (s.o < 10 || s.i < 10)) continue;
      auto r = stream::Uniform(e, s.i, s.o);
      if (r.end != stream::kDone || r.out != p) { c.Fail("streaming", vf::Fmt("payload of %zu bytes, chunks of %zu, output blocks of %zu: ended with \"%s\", %zu bytes", p.size(), s.i, s.o, stream::EndName(r.end), r.out.size()), e); return; }
    }
  }
  if (caps) {
    for (size_t cap = 0; cap <= e.size() + 2; ++cap) {
      Bytes e2;
      if (!Enc(c, p, cap, bound, &e2, &ok)) return;
      if (!ok) {
        if (cap >= bound) { c.Fail("refused", "refused with a sufficient buffer", p); return; }
        continue;
      }
      if (codec::Decode(e2, &o) || o != p) { c.Fail("small-buffer", vf::Fmt("%zu bytes with a buffer of %zu: output does not decode back", p.size(), cap), p); return; }
    }
  }
}
static Bytes Payload(size_t n, int kind) {
  Bytes p;
  p.reserve(n);
  for (size_t k = 0; k < n; ++k) p.push_back(kind == 0 ? 0 : kind == 1 ? (char)0xff : (char)gen::H(k * 3 + kind + n));
  return p;
}
int main(int argc, char** argv) {
  vf::Runner r("C03", argc, argv);
  bool deep = r.thorough();
  r.rule = "every payload of the listed spaces is bypass-encoded, then decoded one-shot, through the C interface and in chunks; non-trivial: the encoder produced output";
  {
    int L = deep ? 3 : 2;
    uint64_t n = 0, p = 1;
    std::vector<uint64_t> st;
    for (int l = 0; l <= L; ++l) { st.push_back(n); n += p; p *= 256; }
    r.Add("all-short-strings", n, [=](vf::Case& c) {
      int l = L;
      while (st[l] > c.index) --l;
      uint64_t v = c.index - st[l];
      Bytes s;
      for (int k = 0; k < l; ++k) s.push_back((char)(v >> (8 * k)));
      Check(c, s, l < 2 || (v & 0xff) == 0xff, l < 2);
    });
  }
  {
    uint64_t N = deep ? 20000 : 1500;
    r.Add("all-lengths", N * 3, [=](vf::Case& c) { vf::Radix x(c.index); int k = (int)x(3); size_t n = x(N); Check(c, Payload(n, k), true, n < 300 && (deep || n < 140)); });
  }
  {
    std::vector<size_t> v;
    for (size_t b : {1u << 14, 1u << 16, 1u << 18, 1u << 21}) for (int d = -20; d <= 20; ++d) v.push_back(b + d);
    if (deep) for (size_t b : {1u << 24, 1u << 28}) for (int d : {-6, -5, -4, -3, -2, -1, 0, 1, 2}) v.push_back(b + d);
    r.Add("field-width-boundaries", v.size() * 2, [=](vf::Case& c) { vf::Radix x(c.index); int k = 1 + (int)x(2); Check(c, Payload(v[x(v.size())], k), true, false); }, nullptr, 100);
  }
  // strings that begin like a JPEG file: what the frame says goes into the header of the stream
  {
    static const int dim[] = {0, 1, 127, 128, 16383, 16384, 32768, 65535};
    static const int samp[][4] = {{0x11, 0x11, 0x11, 0x11}, {0x22, 0x11, 0x11, 0x11}, {0x44, 0x44, 0x44, 0x44}, {0x21, 0x12, 0x22, 0x41}, {0x44, 0x11, 0x11, 0x11}, {0x11, 0x44, 0x22, 0x33}, {0xff, 0xff, 0xff, 0xff}, {0, 0x11, 0x11, 0x11}};
    static const size_t tot[] = {0, 128, 129, 16384, 16390, 2097152, 2097160};
    r.Add("frames", 7 * 8 * 8 * 8 * 6 * 4, [=](vf::Case& c) {
      vf::Radix x(c.index);
      size_t total = tot[x(7)];
      int w = dim[x(8)], h = dim[x(8)], sa = (int)x(8), nc = (int)x(6), form = (int)x(4);
      if (total > 20000 && (w % 4096 == 1 || w < 16383 || h < 16383 || (form && form != 3))) return;
      if (total > 20000 && !deep && w != h) return;
      Bytes p("\xff\xd8", 2);
      Bytes f;
      f += (char)(form == 1 ? 12 : 8);
      f += (char)(h >> 8); f += (char)h; f += (char)(w >> 8); f += (char)w; f += (char)nc;
      for (int k = 0; k < nc; ++k) { f += (char)(k + 1); f += (char)samp[sa][k % 4]; f += (char)0; }
      if (form == 2) f.resize(f.size() - 1);
      Bytes seg("\xff", 1);
      seg += (char)(form == 3 ? 0xc2 : 0xc0);
      seg += (char)((f.size() + 2) >> 8); seg += (char)(f.size() + 2);
      p += seg + f;
      if (c.index & 1) p += Bytes("\xff\xda\0\x08", 4);
      while (p.size() < total) p += (char)0x37;
      Check(c, p, total < 20000, total < 200 && w == h);
    }, nullptr, 100);
  }
  {
    auto corp = std::make_shared<std::vector<corpus::Entry>>(corpus::Load());
    r.Add("files", corp->size() * 2, [=](vf::Case& c) { auto& e = (*corp)[c.index / 2]; Check(c, c.index & 1 ? e.brn : e.jpg, true, e.brn.size() < 400); });
  }
  return r.Main();
}
