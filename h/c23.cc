// C23: encoded and decoded bytes depend on nothing but the input and options.
#include <experimental/groups.h>
#include <new>
#include "corpus.h"
#include "families.h"
#include "stock_icc.h"
#include "stream.h"
using codec::Bytes;
// --- memory conditions -----------------------------------------------------------
namespace mem {
static int fill = -1;      // fresh memory is filled with this byte
static int shape = 0;      // 0: as malloc gives it, 1: displaced, 2: descending reuse
static uint64_t count = 0;
static void* Alloc(size_t n, size_t align = 16) {
  size_t pad = align > 16 ? align : 16;
  size_t off = pad * (1 + (shape == 1 ? (count++ * 7) % 5 : 0));
  size_t ask = n + off + (shape == 2 ? (16 - count++ % 13) * 48 : 0);
  char* p = (char*)(align > 16 ? aligned_alloc(align, (ask + align - 1) / align * align) : malloc(ask));
  if (!p) throw std::bad_alloc();
  if (fill >= 0) memset(p, fill, ask);
  char* u = p + off;
  ((uint64_t*)u)[-1] = off;
  ((uint64_t*)u)[-2] = n;
  return u;
}
static void Free(void* q) {
  if (!q) return;
  char* u = (char*)q;
  uint64_t off = ((uint64_t*)u)[-1], n = ((uint64_t*)u)[-2];
  if (fill >= 0) memset(u, fill ^ 0x3c, n);
  free(u - off);
}
__attribute__((noinline)) static void DirtyStack(int v) {
  volatile char b[300000];
  memset((void*)b, v, sizeof b);
  asm volatile("" ::"r"(b) : "memory");
}
struct Condition {
  Condition(int f, int s) { fill = f; shape = s; DirtyStack(f < 0 ? 0 : f); }
  ~Condition() { fill = -1; shape = 0; }
};
}  // namespace mem
void* operator new(size_t n) { return mem::Alloc(n); }
void* operator new[](size_t n) { return mem::Alloc(n); }
void* operator new(size_t n, std::align_val_t a) { return mem::Alloc(n, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a) { return mem::Alloc(n, (size_t)a); }
void operator delete(void* p) noexcept { mem::Free(p); }
void operator delete[](void* p) noexcept { mem::Free(p); }
void operator delete(void* p, size_t) noexcept { mem::Free(p); }
void operator delete[](void* p, size_t) noexcept { mem::Free(p); }
void operator delete(void* p, std::align_val_t) noexcept { mem::Free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { mem::Free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { mem::Free(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { mem::Free(p); }
namespace {
// Encodes into a block of |cap| bytes at the given misalignment, previously full of |dirt|.
bool EncodeInto(const brunsli::JPEGData& j, size_t cap, int dirt, size_t mis, Bytes* out) {
  uint8_t* block = (uint8_t*)aligned_alloc(64, (cap + 64 + 127) / 64 * 64);
  memset(block, dirt, cap + 64);
  size_t n = cap;
  bool ok = brunsli::BrunsliEncodeJpeg(j, block + mis, &n);
  out->assign(ok ? (char*)block + mis : "", ok ? n : 0);
  free(block);
  return ok;
}
struct Result {
  bool read = false, enc = false;
  Bytes brn, jpg;
  int dec = -1, st = 0;
  Bytes streamed;
  int end = -1;
  bool operator==(const Result& o) const { return read == o.read && enc == o.enc && brn == o.brn && jpg == o.jpg && dec == o.dec && st == o.st && streamed == o.streamed && end == o.end; }
  uint64_t Hash() const {
    uint64_t h = vf::Fnv(brn, 1 + read * 2 + enc * 4 + (uint64_t)(dec + 9) * 8 + (uint64_t)st * 1000);
    return vf::Fnv(jpg, h);
  }
  std::string Diff(const Result& o) const {
    if (read != o.read) return "the parser's verdict";
    if (enc != o.enc) return "the encoder's verdict";
    if (brn != o.brn) return vf::Fmt("the encoded bytes (%zu and %zu bytes, first at %zu)", brn.size(), o.brn.size(), codec::FirstDiff(brn, o.brn));
    if (dec != o.dec || st != o.st) return "the decoder's verdict";
    if (jpg != o.jpg) return "the decoded bytes";
    return "the streaming decoder's result";
  }
};
// Everything that is observable about one file, under the memory condition in force.
Result Observe(const Bytes& in, int version, int dirt, size_t mis, bool decode) {
  Result r;
  Bytes src = Bytes(mis, 'x') + in;
  brunsli::JPEGData j;
  r.read = brunsli::ReadJpeg(codec::U8(src) + mis, in.size(), brunsli::JPEG_READ_ALL, &j);
  if (!r.read) return r;
  j.version = version;
  r.enc = EncodeInto(j, brunsli::GetMaximumBrunsliEncodedSize(j), dirt, mis, &r.brn);
  if (!r.enc || !decode) return r;
  Bytes b = Bytes(mis, 'x') + r.brn;
  brunsli::JPEGData d;
  r.st = brunsli::BrunsliDecodeJpeg(codec::U8(b) + mis, r.brn.size(), &d);
  r.dec = r.st == brunsli::BRUNSLI_OK ? 0 : 1;
  if (!r.dec) r.dec = brunsli::WriteJpeg(d, brunsli::JPEGOutput(codec::StringSink, &r.jpg)) ? 0 : 2;
  return r;
}
bool Groups(const brunsli::JPEGData& j, int ac, int dc, int dirt, size_t mis, Bytes* out) {
  size_t cap = brunsli::GetMaximumBrunsliEncodedSize(j);
  uint8_t* block = (uint8_t*)aligned_alloc(64, (cap + 64 + 127) / 64 * 64);
  memset(block, dirt, cap + 64);
  size_t n = cap;
  brunsli::Executor ex = brunsli::SequentialExecutor;
  bool ok = brunsli::EncodeGroups(j, block + mis, &n, ac, dc, &ex);
  out->assign(ok ? (char*)block + mis : "", ok ? n : 0);
  free(block);
  return ok;
}
}  // namespace
int main(int argc, char** argv) {
  vf::Runner r("C23", argc, argv);
  bool deep = r.thorough();
  int pairs = r.Counter("compared_runs"), enc = r.Counter("encoded");
  r.rule = "every member of every JPEG family is parsed, encoded, decoded under two memory conditions (contents of fresh and released memory, heap layout, stack contents, previous destination contents, alignment of input and output); every listed condition on the corpus; every call history up to the stated length before the call under test; results compared bit for bit; non-trivial: the encoder accepted the picture";
  r.assumptions = {"the brotli library is deterministic"};
  static const int fills[] = {-1, 0, 0xff, 0x55, 0x01, 0x80, 0xaa, 0x7f};
  for (auto& f : fam::All(deep, StockIcc())) {
    auto fp = std::make_shared<fam::Family>(f);
    r.Add(f.name, f.size, [=](vf::Case& c) {
      fam::Made m = fp->make(c.index);
      if (!m.valid) return;
      c.hash = vf::Fnv(m.jpg);
      int version = (c.index & 1) ? 2 : 0;
      Result a, b;
      { mem::Condition q(0, 0); a = Observe(m.jpg, version, 0, 0, true); }
      { mem::Condition q((c.index & 2) ? 0xff : 0xa5, 1 + (c.index >> 2 & 1)); b = Observe(m.jpg, version, (c.index & 4) ? 0xff : 0x5a, 1 + c.index % 7, true); }
      c.nontrivial = a.enc;
      c.Count(pairs, 2);
      if (a.enc) c.Count(enc);
      if (!(a == b)) c.Fail("differs", m.desc + ": under other memory conditions, differs: " + a.Diff(b), m.jpg);
    }, [=](uint64_t i) { return fp->make(i).desc; }, f.limit);
  }
  auto corp = std::make_shared<std::vector<corpus::Entry>>();
  for (auto& e : corpus::Load()) if (!e.kind) corp->push_back(e);
  // all conditions on the corpus
  r.Add("conditions", corp->size() * 2 * 8 * 3 * 8 * 4, [=](vf::Case& c) {
    vf::Radix x(c.index);
    size_t mis = (size_t)x(4) * 5;
    int dirt = fills[x(8)] & 255, shape = (int)x(3), fill = fills[x(8)], version = x(2) ? 2 : 0;
    auto& e = (*corp)[x(corp->size())];
    Result a, b;
    { mem::Condition q(-1, 0); a = Observe(e.jpg, version, 0, 0, false); }
    { mem::Condition q(fill, shape); b = Observe(e.jpg, version, dirt, mis, false); }
    c.nontrivial = a.enc;
    c.hash = c.index;
    c.Count(pairs, 2);
    if (!(a == b)) c.Fail("differs", vf::Fmt("%s: fresh memory %d, layout %d, destination %d, misalignment %zu: differs: %s", e.name.c_str(), fill, shape, dirt, mis, a.Diff(b).c_str()), e.jpg);
  });
  // the destination dirty at every single byte's value (each size of leftover)
  r.Add("alignments", corp->size() * 64, [=](vf::Case& c) {
    auto& e = (*corp)[c.index / 64];
    brunsli::JPEGData j;
    if (!codec::Read(e.jpg, &j)) return;
    Bytes a, b;
    size_t cap = brunsli::GetMaximumBrunsliEncodedSize(j);
    bool x = EncodeInto(j, cap, 0, 0, &a), y = EncodeInto(j, cap, 0x91, c.index % 64, &b);
    c.nontrivial = x;
    c.hash = c.index + 99999999;
    c.Count(pairs, 2);
    if (x != y || a != b) c.Fail("alignment", vf::Fmt("%s: destination at address mod 64 = %d gives other bytes", e.name.c_str(), (int)(c.index % 64)), e.jpg);
  });
  // group coding
  r.Add("groups", corp->size() * 4 * 8, [=](vf::Case& c) {
    vf::Radix x(c.index);
    int fill = fills[x(8)];
    static const int dims[4][2] = {{1, 1}, {1, 2}, {2, 2}, {2, 4}};
    auto* d = dims[x(4)];
    auto& e = (*corp)[x(corp->size())];
    brunsli::JPEGData j;
    if (!codec::Read(e.jpg, &j)) return;
    j.version = 2;
    Bytes a, b;
    bool p, q;
    { mem::Condition k(-1, 0); p = Groups(j, d[0], d[1], 0, 0, &a); }
    { mem::Condition k(fill, 1); q = Groups(j, d[0], d[1], 0xee, 3, &b); }
    c.nontrivial = p;
    c.hash = c.index + 88888888;
    c.Count(pairs, 2);
    if (p != q || a != b) c.Fail("groups", vf::Fmt("%s: group encoding %d/%d depends on memory contents (%d %d, first difference at %zu)", e.name.c_str(), d[0], d[1], p, q, codec::FirstDiff(a, b)), e.jpg);
  });
  // histories: any sequence of earlier calls
  {
    std::vector<size_t> pick;
    for (size_t i = 0; i < corp->size() && pick.size() < (deep ? 10 : 6); i += 1 + corp->size() / (deep ? 10 : 6)) pick.push_back(i);
    size_t K = pick.size();
    auto pk = std::make_shared<std::vector<size_t>>(pick);
    // per file: encode, failing encode (small buffer), decode, damaged decode, abandoned streaming decode, damaged parse, partial parse, groups
    const int ops = 8;
    auto act = [=](size_t op) {
      auto& e = (*corp)[(*pk)[op / ops % K]];
      Bytes t;
      switch (op % ops) {
        case 0: { brunsli::JPEGData j; if (codec::Read(e.jpg, &j)) { j.version = 2; codec::Encode(j, &t); } break; }
        case 1: { brunsli::JPEGData j; if (codec::Read(e.jpg, &j)) EncodeInto(j, e.brn.size() / 2, 0x33, 1, &t); break; }
        case 2: codec::Decode(e.brn, &t); break;
        case 3: { Bytes b = e.brn; b[b.size() * 3 / 4] ^= 0xff; codec::Decode(b, &t); break; }
        case 4: { stream::Uniform(e.brn.substr(0, e.brn.size() * 2 / 3), 11, 7); break; }
        case 5: { brunsli::JPEGData j; Bytes b = e.jpg.substr(0, e.jpg.size() - 3); codec::Read(b, &j); break; }
        case 6: { brunsli::JPEGData j; codec::Read(e.jpg, &j, brunsli::JPEG_READ_TABLES); break; }
        case 7: { brunsli::JPEGData j; if (codec::Read(e.jpg, &j)) { j.version = 2; Groups(j, 1, 2, 0, 0, &t); } break; }
      }
    };
    // what a fresh process gives
    auto base = std::make_shared<std::map<std::string, uint64_t>>();
    for (size_t i : pick) for (int v : {0, 2}) {
      int fd[2];
      uint64_t h = 0;
      if (pipe(fd)) return 2;
      pid_t p = fork();
      if (!p) { h = Observe((*corp)[i].jpg, v, 0, 0, true).Hash(); _exit(write(fd[1], &h, 8) != 8); }
      close(fd[1]);
      if (read(fd[0], &h, 8) != 8) return 2;
      close(fd[0]);
      waitpid(p, nullptr, 0);
      (*base)[(*corp)[i].name + (v ? "2" : "0")] = h;
    }
    int L = deep ? 3 : 2;
    uint64_t n = K * 2;
    for (int i = 0; i < L; ++i) n *= K * ops;
    r.Add("histories", n, [=](vf::Case& c) {
      vf::Radix x(c.index);
      auto& e = (*corp)[(*pk)[x(K)]];
      int version = x(2) ? 2 : 0;
      std::vector<size_t> h;
      for (int i = 0; i < L; ++i) h.push_back(x(K * ops));
      mem::Condition q((int)(c.index % 251), 0);
      for (size_t o : h) act(o);
      Result a = Observe(e.jpg, version, 0, 0, true);
      c.nontrivial = a.enc;
      c.hash = c.index + 77777777;
      c.Count(pairs, 1);
      auto k = e.name + (version ? "2" : "0");
      if (a.Hash() != base->at(k)) c.Fail("history", vf::Fmt("%s: the result differs from the one in a fresh process (read %d, encode %d, %zu bytes, decode %d)", e.name.c_str(), a.read, a.enc, a.brn.size(), a.dec), e.jpg);
    });
    // the same structure encoded repeatedly, and the corpus' recorded streams
    r.Add("repeated", corp->size() * 2, [=](vf::Case& c) {
      auto& e = (*corp)[c.index / 2];
      brunsli::JPEGData j;
      if (!codec::Read(e.jpg, &j)) return;
      j.version = (c.index & 1) ? 2 : 0;
      Bytes a;
      bool p = codec::Encode(j, &a);
      c.nontrivial = p;
      c.hash = c.index + 66666666;
      for (int k = 0; k < 4; ++k) {
        Bytes b;
        bool q = codec::Encode(j, &b);
        c.Count(pairs);
        if (p != q || a != b) return c.Fail("repeated", vf::Fmt("%s: encoding the same structure again gives other bytes (run %d)", e.name.c_str(), k + 2), e.jpg);
        if (k == 1) { Bytes t; size_t n = a.size(); EncodeInto(j, n / 2, 1, 1, &t); }  // a failing attempt in between
        if (k == 2) { brunsli::JPEGData j2 = j; Bytes t; codec::Encode(j2, &t); if (t != a) return c.Fail("copy", e.name + ": a copy of the structure is encoded differently", e.jpg); }
      }
    });
  }
  return r.Main();
}
