// C32: the probes (signature test, memory estimate) agree with the decoder.
#include <new>
#include "corpus.h"
#include "families.h"
#include "sections.h"
#include "stock_icc.h"
#include "stream.h"
using codec::Bytes;
// --- accounting of the C++ heap ---------------------------------------------------
namespace mem {
static size_t live = 0, peak = 0;
static void* Alloc(size_t n, size_t align = 16) {
  size_t off = align < 32 ? 32 : align;
  char* p = (char*)(align > 32 ? aligned_alloc(off, (n + off + off - 1) / off * off) : malloc(n + off));
  if (!p) throw std::bad_alloc();
  char* u = p + off;
  ((uint64_t*)u)[-1] = off;
  ((uint64_t*)u)[-2] = n;
  live += n;
  if (live > peak) peak = live;
  return u;
}
static void Free(void* q) {
  if (!q) return;
  char* u = (char*)q;
  live -= ((uint64_t*)u)[-2];
  free(u - ((uint64_t*)u)[-1]);
}
}  // namespace mem
void* operator new(size_t n) { return mem::Alloc(n); }
void* operator new[](size_t n) { return mem::Alloc(n); }
void* operator new(size_t n, std::align_val_t a) { return mem::Alloc(n, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a) { return mem::Alloc(n, (size_t)a); }
void operator delete(void* p) noexcept { mem::Free(p); }
void operator delete[](void* p) noexcept { mem::Free(p); }
void operator delete(void* p, size_t) noexcept { mem::Free(p); }
void operator delete[](void* p, size_t) noexcept { mem::Free(p); }
void operator delete(void* p, std::align_val_t) noexcept { mem::Free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { mem::Free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { mem::Free(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { mem::Free(p); }
namespace {
struct Seen {
  int status = 0;
  size_t peak = 0;      // C++ heap held at most while decoding
  size_t estimate = 0;
  bool probe = false;
};
Seen Look(const Bytes& b, bool decode = true) {
  Seen s;
  codec::Exact e(b);
  s.probe = brunsli::IsBrunsli(e.p, e.n);
  size_t live = mem::live;
  s.estimate = brunsli::BrunsliEstimateDecoderPeakMemoryUsage(e.p, e.n);
  if (mem::live != live) s.status = -1;
  if (!decode) return s;
  mem::peak = live;
  {
    brunsli::JPEGData d;
    s.status = brunsli::BrunsliDecodeJpeg(e.p, e.n, &d);
    s.peak = mem::peak - live;
  }
  return s;
}
// The rules for a stream the decoder accepts.
void Accepted(vf::Case& c, const Bytes& b, const Seen& s, const std::string& what) {
  if (!s.probe) c.Fail("not-recognised", what + ": accepted by the decoder, not recognised by IsBrunsli", b);
  if (!s.estimate) { c.Fail("no-estimate", what + ": accepted by the decoder, estimate 0", b); return; }
  // The estimate is one, so a tenth and 64 KiB are granted; the other way, the
  // input, the output and the buffers of the writer come on top of the decoder's use.
  if (s.estimate + s.estimate / 10 + 65536 < s.peak) c.Fail("understated", vf::Fmt("%s: estimate %zu, the decoder held %zu bytes", what.c_str(), s.estimate, s.peak), b);
  if (s.estimate > s.peak + s.peak / 10 + 4 * b.size() + (1u << 20)) c.Fail("overstated", vf::Fmt("%s: estimate %zu, the decoder held %zu bytes", what.c_str(), s.estimate, s.peak), b);
}
}  // namespace
int main(int argc, char** argv) {
  vf::Runner r("C32", argc, argv);
  bool deep = r.thorough(), hostile = getenv("VERIF_HOSTILE");
  int acc = r.Counter("accepted"), cut = r.Counter("prefixes"), probes = r.Counter("probe_questions"), odd = r.Counter("damaged_and_refused");
  r.rule = "every member of every JPEG family encoded and probed: recognised, and an estimate that agrees with the measured peak of the C++ heap while decoding; every prefix of every corpus stream: no estimate; every listed value of every byte of the short streams, every removal, doubling and exchange of container elements; every string of up to 7 bytes that agrees with the signature up to one byte; non-trivial: the decoder accepted the stream";
  r.assumptions = {"memory taken by the brotli library and by the caller is not measured"};
  if (!hostile) {
    for (auto& f : fam::All(deep, StockIcc())) {
      auto fp = std::make_shared<fam::Family>(f);
      r.Add(f.name, f.size, [=](vf::Case& c) {
        fam::Made m = fp->make(c.index);
        if (!m.valid) return;
        c.hash = vf::Fnv(m.jpg);
        Bytes b;
        {
          brunsli::JPEGData j;
          if (!codec::Read(m.jpg, &j)) return;
          j.version = (c.index & 1) ? 2 : 0;
          if (!codec::Encode(j, &b)) return;
        }
        Seen s = Look(b);
        if (s.status != brunsli::BRUNSLI_OK) return;
        c.nontrivial = true;
        c.Count(acc);
        Accepted(c, b, s, m.desc);
      }, [=](uint64_t i) { return fp->make(i).desc; }, f.limit);
    }
  }
  auto corp = std::make_shared<std::vector<corpus::Entry>>(corpus::Load());
  if (hostile) {
    r.Add("prefixes", corp->size(), [=](vf::Case& c) {
      const corpus::Entry& e = (*corp)[c.index];
      c.hash = vf::Fnv(e.brn);
      Seen full = Look(e.brn);
      if (full.status != brunsli::BRUNSLI_OK) { c.Fail("corpus", e.name + ": not decodable", e.brn); return; }
      c.nontrivial = true;
      c.Count(acc);
      Accepted(c, e.brn, full, e.name);
      // Every cut of short streams; near the ends and spread over long ones.
      size_t n = e.brn.size(), step = n > 6000 && !deep ? 17 : 1;
      for (size_t k = 0; k < n; k += (k < 3000 || n - k < 300) ? 1 : step) {
        Bytes b = e.brn.substr(0, k);
        Seen s = Look(b, false);
        c.Count(cut);
        if (s.estimate) { c.Fail("truncated", vf::Fmt("%s cut to %zu of %zu bytes: estimate %zu", e.name.c_str(), k, n, s.estimate), b); return; }
        if (s.probe != (k >= 6)) { c.Fail("probe", vf::Fmt("%s cut to %zu bytes: IsBrunsli says %d", e.name.c_str(), k, (int)s.probe), b); return; }
      }
    }, [=](uint64_t i) { return (*corp)[i].name; });
    // Damages: one byte.
    auto small = std::make_shared<std::vector<corpus::Entry>>();
    for (auto& e : *corp) if (e.brn.size() < (deep ? 1500u : 500u)) small->push_back(e);
    r.Add("one-byte", small->size(), [=](vf::Case& c) {
      const corpus::Entry& e = (*small)[c.index];
      c.hash = vf::Fnv(e.brn);
      c.nontrivial = true;
      for (size_t k = 0; k < e.brn.size(); ++k) {
        // All values in the container part, bit flips in the coded data.
        bool all = deep || k < 60;
        for (int v = 1; v < 256; ++v) {
          if (!all && (v & (v - 1)) && v != 255) continue;
          Bytes b = e.brn;
          b[k] ^= (char)v;
          Seen s = Look(b);
          if (s.status == brunsli::BRUNSLI_OK) { c.Count(acc); Accepted(c, b, s, vf::Fmt("%s with byte %zu xor %d", e.name.c_str(), k, v)); }
          else c.Count(odd);
          if (s.status == -1) c.Fail("leak", vf::Fmt("%s with byte %zu xor %d: memory still held after the estimate", e.name.c_str(), k, v), b);
          if (k < 6 && (s.probe || s.estimate)) c.Fail("signature", vf::Fmt("%s with byte %zu xor %d: recognised", e.name.c_str(), k, v), b);
        }
      }
    }, [=](uint64_t i) { return (*small)[i].name; });
    // Damages: container elements.
    r.Add("elements", small->size(), [=](vf::Case& c) {
      const corpus::Entry& e = (*small)[c.index];
      sec::Stream st;
      if (!sec::Split(e.brn, &st)) return;
      c.hash = vf::Fnv(e.brn);
      c.nontrivial = true;
      size_t n = st.body.size();
      auto Try = [&](const sec::Stream& t, const std::string& what, bool cutoff) {
        Bytes b = t.Put();
        Seen s = Look(b);
        if (s.status == brunsli::BRUNSLI_OK) { c.Count(acc); Accepted(c, b, s, e.name + " " + what); }
        else c.Count(odd);
        if (s.status == -1) c.Fail("leak", e.name + " " + what + ": memory still held after the estimate", b);
        if (cutoff && s.estimate) c.Fail("refusable", vf::Fmt("%s %s: estimate %zu", e.name.c_str(), what.c_str(), s.estimate), b);
      };
      bool regular = e.kind == 0;
      for (uint32_t m = 0; m < (1u << n) && n <= 8; ++m) {
        sec::Stream t = st;
        t.body.clear();
        bool ac = false;
        for (size_t i = 0; i < n; ++i) if (m >> i & 1) { t.body.push_back(st.body[i]); ac |= st.body[i].tag == sec::AC; }
        Try(t, vf::Fmt("with the elements %x of %zu", m, n), regular ? !ac : m == 0);
      }
      for (size_t i = 0; i < n; ++i)
        for (size_t k = 0; k <= n; ++k) {
          sec::Stream t = st;
          sec::Elem x = t.body[i];
          t.body.erase(t.body.begin() + i);
          t.body.insert(t.body.begin() + std::min(k, t.body.size()), x);
          Try(t, vf::Fmt("with element %zu moved to %zu", i, k), false);
          t = st;
          t.body.insert(t.body.begin() + k, x);
          Try(t, vf::Fmt("with element %zu doubled at %zu", i, k), true);
        }
      // Header: every item removed or doubled, and refused values.
      for (size_t i = 0; i < st.header.size(); ++i) {
        sec::Stream t = st;
        t.header.erase(t.header.begin() + i);
        Try(t, vf::Fmt("without header item %zu", i), regular || st.header[i].tag == 3);
        t = st;
        t.header.insert(t.header.begin() + i, st.header[i]);
        Try(t, vf::Fmt("with header item %zu doubled", i), true);
        t = st;
        t.header[i].wire = 2;
        t.header[i].body = "ab";
        Try(t, vf::Fmt("with header item %zu as a section", i), true);
        for (uint64_t v : {0ull, 1ull, 2ull, 3ull, 4ull, 8ull, 9ull, 12ull, 16ull, 20ull, 32ull, 33ull, 255ull, 256ull, 0x11ull, 0x1111ull, 0xfull, 0xf0ull, 65535ull, 65536ull, 1ull << 31, 1ull << 32, ~0ull >> 2}) {
          t = st;
          t.header[i].value = v;
          // width and height: 0 and more than 65535 are refused
          bool dim = regular && (st.header[i].tag == 1 || st.header[i].tag == 2);
          Try(t, vf::Fmt("with header item %zu = %llu", i, (unsigned long long)v), dim && (v == 0 || v > 65535));
        }
      }
    }, [=](uint64_t i) { return (*small)[i].name; });
    r.Add("signature", 1, [=](vf::Case& c) {
      c.nontrivial = true;
      Bytes sig = sec::Sig();
      if (brunsli::BrunsliEstimateDecoderPeakMemoryUsage(nullptr, 0)) c.Fail("null", "estimate of no input is not 0", "");
      for (size_t n = 0; n <= 7; ++n) {
        Bytes base = (sig + "Z").substr(0, n);
        for (size_t k = 0; k < std::max<size_t>(n, 1); ++k)
          for (int v = 0; v < 256; ++v) {
            Bytes b = base;
            if (k < n) b[k] = (char)v;
            Seen s = Look(b, false);
            c.Count(probes);
            bool want = n >= 6 && !b.compare(0, 6, sig);
            if (s.probe != want) c.Fail("probe", "IsBrunsli wrong", b);
            if (s.estimate) c.Fail("estimate", "estimate of a fragment is not 0", b);
          }
      }
    }, [=](uint64_t) { return std::string("all"); });
  }
  return r.Main();
}
