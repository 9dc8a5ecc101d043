// C31: the functions exported to JavaScript (wasm/codec.cc), compiled natively
// with all allocations at addresses below 4 GiB.
#include <sys/mman.h>
#include <new>
#include "corpus.h"
#include "families.h"
#include "stock_icc.h"
#include "stream.h"
using codec::Bytes;
// --- low memory ------------------------------------------------------------------
namespace low {
struct Head { uint32_t magic, cls; uint64_t size; };
static char* base = nullptr;
static size_t used = 0, cap = 1536u << 20;
static Head* freelist[40];
static int64_t live = 0;
static bool damaged = false;
static void* Alloc(size_t n) {
  if (!base) {
    for (uintptr_t a = 0x10000000; a < 0x90000000; a += 0x10000000) {
      base = (char*)mmap((void*)a, cap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
      if (base != (char*)MAP_FAILED) break;
    }
    if (base == (char*)MAP_FAILED) { base = nullptr; fprintf(stderr, "no low memory\n"); _exit(2); }
  }
  uint32_t c = 5;
  while (((size_t)1 << c) < n + sizeof(Head)) ++c;
  Head* h = freelist[c];
  if (h) freelist[c] = *(Head**)(h + 1);
  else {
    if (used + ((size_t)1 << c) > cap) return nullptr;
    h = (Head*)(base + used);
    used += (size_t)1 << c;
  }
  h->magic = 0x11223344;
  h->cls = c;
  h->size = n;
  ++live;
  return h + 1;
}
static void Free(void* p) {
  if (!p) return;
  Head* h = (Head*)p - 1;
  if ((char*)p < base || (char*)p >= base + used || h->magic != 0x11223344) { damaged = true; return; }
  h->magic = 0xdeaddead;
  *(Head**)(h + 1) = freelist[h->cls];
  freelist[h->cls] = h;
  --live;
}
}  // namespace low
extern "C" void* low_malloc(size_t n) { return low::Alloc(n); }
extern "C" void low_free(void* p) { low::Free(p); }
extern "C" int quiet_printf(const char*, ...) { return 0; }
void* operator new(size_t n) { void* p = low::Alloc(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { low::Free(p); }
void operator delete[](void* p) noexcept { low::Free(p); }
void operator delete(void* p, size_t) noexcept { low::Free(p); }
void operator delete[](void* p, size_t) noexcept { low::Free(p); }
extern "C" {
std::string* BrunsliToJpeg(const uint8_t* data, size_t length);
uint32_t* BrunsliDecoderInit();
uint32_t BrunsliDecoderProcess(uint32_t* instance);
void BrunsliDecoderCleanup(uint32_t* instance);
const char* GetJpegData(std::string* jpeg);
size_t GetJpegLength(std::string* jpeg);
void FreeJpeg(std::string* jpeg);
std::string* JpegToBrunsli(const uint8_t* data, size_t length);
const char* GetBrunsliData(std::string* brunsli);
size_t GetBrunsliLength(std::string* brunsli);
void FreeBrunsli(std::string* brunsli);
}
int main(int argc, char** argv) {
  vf::Runner r("C31", argc, argv);
  bool deep = r.thorough();
  int ok_ = r.Counter("accepted"), rej = r.Counter("refused"), calls = r.Counter("process_calls");
  r.rule = "every corpus file, every listed damage and the listed families go through the exported one-shot functions and through the exported streaming decoder with every listed piece size, and through the C++ interface; statuses, bytes and the balance of allocations are compared; non-trivial: all cases";
  r.assumptions = {"wasm/codec.cc is compiled natively with every allocation below 4 GiB so that its 32-bit handles are exact; the WebAssembly compiler itself is not exercised"};
  auto oneshot = [=](vf::Case& c, bool decode, const std::string& what, const Bytes& in) {
    Bytes want;
    bool ok;
    if (decode) ok = codec::Decode(in, &want) == 0;
    else { brunsli::JPEGData j; ok = codec::Read(in, &j) && codec::Encode(j, &want); }
    c.Count(ok ? ok_ : rej);
    int64_t before = low::live;
    {
      codec::Exact ex(in);
      std::string* s = (decode ? BrunsliToJpeg : JpegToBrunsli)(ex.p, ex.n);
      const char* p = (decode ? GetJpegData : GetBrunsliData)(s);
      size_t n = (decode ? GetJpegLength : GetBrunsliLength)(s);
      bool same = n == want.size() && (!n || !memcmp(p, want.data(), n));
      bool got = s != nullptr;
      (decode ? FreeJpeg : FreeBrunsli)(s);
      if (got != ok) return c.Fail("status", vf::Fmt("%s: exported function gives %s, C++ interface %s", what.c_str(), got ? "data" : "null", ok ? "succeeds" : "fails"), in);
      if (ok && !same) return c.Fail("bytes", vf::Fmt("%s: exported function gives %zu bytes, C++ interface %zu or contents differ", what.c_str(), n, want.size()), in);
      if (!ok && (p || n)) return c.Fail("null", what + ": data or length of null", in);
    }
    if (low::live != before || low::damaged) c.Fail("balance", vf::Fmt("%s: %lld allocations left, damaged: %d", what.c_str(), (long long)(low::live - before), low::damaged), in);
  };
  auto streaming = [=](vf::Case& c, const std::string& what, const Bytes& in, size_t piece) {
    stream::Result w = stream::Uniform(in, piece, 65536);
    int64_t before = low::live;
    Bytes out;
    uint32_t status = 0;
    {
      uint32_t* i = BrunsliDecoderInit();
      if (i[1] < 1024 || !i[2] || !i[4]) return c.Fail("layout", "instance layout wrong");
      size_t pos = 0;
      piece = std::min<size_t>(piece, i[1]);
      for (int guard = 0; guard < 5000000; ++guard) {
        size_t n = std::min(piece, in.size() - pos);
        if (n) memcpy((void*)(uintptr_t)i[2], in.data() + pos, n);
        pos += n;
        i[3] = (uint32_t)n;
        status = BrunsliDecoderProcess(i);
        c.Count(calls);
        if (i[5] > 65536) { BrunsliDecoderCleanup(i); return c.Fail("layout", "more output than the buffer holds"); }
        out.append((char*)(uintptr_t)i[4], i[5]);
        if (status != 0) break;
        if (n == 0 && i[5] == 0) break;
      }
      BrunsliDecoderCleanup(i);
    }
    uint32_t want = w.end == stream::kDone ? 1 : w.end == stream::kError ? 2 : 0;
    Bytes wout = w.out;
    w = stream::Result();
    wout.shrink_to_fit();
    if (status != want) return c.Fail("stream-status", vf::Fmt("%s in pieces of %zu: exported decoder ends with %u, the C++ decoder with %u", what.c_str(), piece, status, want), in);
    if (want != 2 && out != wout) return c.Fail("stream-bytes", vf::Fmt("%s in pieces of %zu: %zu bytes, the C++ decoder %zu, first difference at %zu", what.c_str(), piece, out.size(), wout.size(), codec::FirstDiff(out, wout)), in);
    if (low::damaged) return c.Fail("balance", what + ": wrong deallocation", in);
  };
  auto corp = std::make_shared<std::vector<corpus::Entry>>(corpus::Load());
  static const size_t pieces[] = {1, 2, 13, 500, 65535, 65536, 1000000};
  r.Add("corpus", corp->size() * 9, [=](vf::Case& c) {
    auto& e = (*corp)[c.index / 9];
    int w = c.index % 9;
    c.nontrivial = true;
    c.hash = c.index;
    if (w < 2) oneshot(c, w, e.name, w ? e.brn : e.jpg);
    else streaming(c, e.name, e.brn, pieces[w - 2]);
  });
  struct Src { Bytes b; bool decode; uint64_t start; };
  auto src = std::make_shared<std::vector<Src>>();
  uint64_t n = 0;
  for (auto& e : *corp) for (int d = 0; d < 2; ++d) { src->push_back({d ? e.brn : e.jpg, d == 1, n}); n += src->back().b.size(); }
  const int V = 5;
  r.Add("damaged", n * V, [=](vf::Case& c) {
    uint64_t v = c.index / V;
    size_t k = src->size() - 1;
    while ((*src)[k].start > v) --k;
    size_t at = v - (*src)[k].start;
    Bytes b = (*src)[k].b;
    switch (c.index % V) {
      case 0: b[at] ^= 1; break;
      case 1: b[at] ^= 0x80; break;
      case 2: b.resize(at); break;
      case 3: b.erase(at, 1); break;
      case 4: b.insert(at, 1, (char)0xff); break;
    }
    c.nontrivial = true;
    c.hash = vf::Fnv(b);
    std::string w = vf::Fmt("corpus file %zu%s damage %d at %zu", k / 2, (*src)[k].decode ? ".brn" : ".jpg", (int)(c.index % V), at);
    oneshot(c, (*src)[k].decode, w, b);
    if (!c.failed && (*src)[k].decode) streaming(c, w, b, 29);
  }, nullptr, 60);
  // results longer than the wrapper's buffers
  r.Add("long", 9 * 7, [=](vf::Case& c) {
    vf::Radix x(c.index);
    size_t piece = pieces[x(7)];
    static const size_t len[] = {0, 1, 65535, 65536, 65537, 131071, 131072, 131073, 300000};
    size_t n = len[x(9)];
    if (n > 70000 && piece < 13) piece += 60;
    Bytes d(n, 0);
    for (size_t i = 0; i < n; ++i) d[i] = (char)(i * 37 + (i >> 9));
    Bytes b(n + 64, 0);
    size_t bn = b.size();
    c.nontrivial = true;
    c.hash = c.index + 99999999;
    if (!brunsli::BrunsliEncodeJpegBypass(codec::U8(d), n, (uint8_t*)&b[0], &bn)) return c.Fail("wrap", "cannot wrap");
    b.resize(bn);
    oneshot(c, true, vf::Fmt("wrapped %zu bytes", n), b);
    if (!c.failed) streaming(c, vf::Fmt("wrapped %zu bytes", n), b, piece);
  });
  for (auto& f : fam::All(deep, StockIcc())) {
    if (!deep && f.name != "chunk-edges" && f.name != "output-edges" && f.name != "sampling-factors") continue;
    auto fp = std::make_shared<fam::Family>(f);
    r.Add(f.name, f.size, [=](vf::Case& c) {
      auto m = fp->make(c.index);
      if (!m.valid) return;
      c.nontrivial = true;
      c.hash = vf::Fnv(m.jpg);
      oneshot(c, false, m.desc, m.jpg);
      if (c.failed) return;
      brunsli::JPEGData j;
      Bytes b;
      if (!codec::Read(m.jpg, &j)) return;
      j.version = (c.index & 1) ? 2 : 0;
      if (!codec::Encode(j, &b)) return;
      oneshot(c, true, m.desc, b);
      if (!c.failed) streaming(c, m.desc, b, 1 + c.index * 97 % 66000);
    }, [=](uint64_t i) { return fp->make(i).desc; }, f.limit);
  }
  r.Add("null", 4, [=](vf::Case& c) {
    c.nontrivial = true;
    c.hash = c.index;
    if (c.index == 0 && (GetJpegData(nullptr) || GetJpegLength(nullptr))) c.Fail("null", "GetJpeg of null");
    if (c.index == 1 && (GetBrunsliData(nullptr) || GetBrunsliLength(nullptr))) c.Fail("null", "GetBrunsli of null");
    if (c.index == 2) { FreeJpeg(nullptr); FreeBrunsli(nullptr); BrunsliDecoderCleanup(nullptr); }
    if (c.index == 3) {
      int64_t before = low::live;
      for (int k = 0; k < 3; ++k) BrunsliDecoderCleanup(BrunsliDecoderInit());
      if (low::live != before || low::damaged) c.Fail("balance", vf::Fmt("%lld allocations left after init and cleanup", (long long)(low::live - before)));
    }
  });
  return r.Main();
}
