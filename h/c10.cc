// C10: a sink that accepts too little is always reported.
#include <brunsli/decode.h>
#include <brunsli/encode.h>
#include "corpus.h"
#include "families.h"
#include "stock_icc.h"
#include "stream.h"
using codec::Bytes;
struct Fault {
  int64_t at = -1;     // call index
  int kind = 0;        // what it returns, see Ret
  bool sticky = false;
  int64_t calls = 0;
  Bytes got;
  std::vector<size_t> sizes;
  bool hit = false;
};
enum { kKinds = 7 };
static size_t Ret(int kind, size_t n) {
  switch (kind) {
    case 0: return 0;
    case 1: return n ? n - 1 : (size_t)-1;
    case 2: return n / 2 == n ? n + 1 : n / 2;
    case 3: return n > 1 ? 1 : n + 1;
    case 4: return n + 1;
    case 5: return (size_t)-1;
    default: return n > 2 ? n - 2 : n + 3;
  }
}
static size_t Sink(void* p, const uint8_t* b, size_t n) {
  Fault* f = (Fault*)p;
  int64_t i = f->calls++;
  f->sizes.push_back(n);
  if (f->at >= 0 && (i == f->at || (f->sticky && i > f->at))) {
    size_t r = Ret(f->kind, n);
    if (r != n) f->hit = true;
    if (r <= n) f->got.append((const char*)b, r);
    return r;
  }
  f->got.append((const char*)b, n);
  return n;
}
// Operation under test: returns success.
typedef std::function<bool(Fault*)> Op;

static int mc;
static void Explore(vf::Case& c, const std::string& what, const Op& op, const Bytes* want, int runs, bool all_calls) {
  Fault clean;
  bool ok = op(&clean);
  c.Count(runs);
  if (want && (!ok || clean.got != *want)) {
    c.Fail("clean-run", vf::Fmt("%s: with a willing sink: success=%d, %zu bytes, expected %zu, first difference at %zu", what.c_str(), ok, clean.got.size(), want->size(), codec::FirstDiff(clean.got, *want)));
    return;
  }
  c.Max(mc, clean.calls);
  if (!ok) return;
  for (int64_t i = 0; i < clean.calls; ++i) {
    if (!all_calls && clean.calls > 40 && i > 20 && i < clean.calls - 20 && i % 7) continue;
    for (int kind = 0; kind < kKinds; ++kind) for (int sticky = 0; sticky < 2; ++sticky) {
      if (clean.sizes[i] == 0 && kind == 0) continue;
      Fault f;
      f.at = i;
      f.kind = kind;
      f.sticky = sticky;
      bool r = op(&f);
      c.Count(runs);
      if (!f.hit) continue;
      c.nontrivial = true;
      if (r) {
        c.Fail("swallowed", vf::Fmt("%s: sink call %d of %d was offered %zu bytes and returned %zu%s, but success was reported", what.c_str(), (int)i,
               (int)clean.calls, clean.sizes[i], Ret(kind, clean.sizes[i]), sticky ? " (and so on)" : ""));
        return;
      }
      // Nothing but the file's own bytes may have been offered before the fault.
      size_t before = 0;
      for (int64_t q = 0; q < i; ++q) before += clean.sizes[q];
      if (f.got.compare(0, before, clean.got, 0, before)) {
        c.Fail("order", vf::Fmt("%s: bytes offered before the failing call differ from a clean run", what.c_str()));
        return;
      }
    }
  }
}
int main(int argc, char** argv) {
  vf::Runner r("C10", argc, argv);
  bool deep = r.thorough();
  int runs = r.Counter("operations_run");
  mc = r.Counter("max_sink_calls", true);
  r.rule = "for every file and entry point, every sink invocation index is made to return each of seven wrong counts, once or for good; non-trivial: a fault was actually delivered";
  auto corp = std::make_shared<std::vector<corpus::Entry>>(corpus::Load());
  static const char* opn[] = {"DecodeBrunsli", "EncodeBrunsli", "WriteJpeg of a parsed JPEG", "WriteJpeg of a decoded stream"};
  auto Do = [=](vf::Case& c, const std::string& name, int op, const Bytes& jpg, const Bytes& brn, bool bypass, bool all) {
    std::string what = name + ", " + opn[op];
    if (op == 0) {
      Explore(c, what, [&](Fault* f) { codec::Exact e(brn); return DecodeBrunsli(e.n, e.p, f, Sink) != 0; }, &jpg, runs, all);
    } else if (op == 1) {
      if (bypass) return;
      // the wanted bytes are whatever BrunsliEncodeJpeg gives with the same settings
      brunsli::JPEGData jd;
      Bytes w;
      if (!codec::Read(jpg, &jd) || !codec::Encode(jd, &w)) return;
      Explore(c, what, [&](Fault* f) { codec::Exact e(jpg); return EncodeBrunsli(e.n, e.p, f, Sink) != 0; }, &w, runs, all);
    } else if (op == 2) {
      if (bypass) return;
      brunsli::JPEGData jd;
      if (!codec::Read(jpg, &jd)) return;
      Explore(c, what, [&](Fault* f) { brunsli::JPEGOutput o(Sink, f); return brunsli::WriteJpeg(jd, o); }, &jpg, runs, all);
    } else {
      codec::Exact e(brn);
      brunsli::JPEGData jd;
      if (brunsli::BrunsliDecodeJpeg(e.p, e.n, &jd) != brunsli::BRUNSLI_OK) return;
      Explore(c, what, [&](Fault* f) { brunsli::JPEGOutput o(Sink, f); return brunsli::WriteJpeg(jd, o); }, &jpg, runs, all);
    }
  };
  r.Add("corpus", corp->size() * 4, [=](vf::Case& c) {
    auto& e = (*corp)[c.index / 4];
    Do(c, e.name, c.index % 4, e.jpg, e.brn, e.kind == 1, true);
  }, [=](uint64_t i) { return (*corp)[i / 4].name + ", " + opn[i % 4]; });
  // long pictures: many output blocks
  std::vector<std::pair<fam::Family, uint64_t>> fs = {{fam::MarkerSequence(false), 6000}, {fam::MarkerInsert(false), 2000}, {fam::MetaSequences(false), 2000}, {fam::Geometry(false), 1200}, {fam::Content(false), 500}, {fam::EobRuns(false), 300}, {fam::HuffmanSlots(false), 300}, {fam::ChunkEdges(false), 84}, {fam::MetaCounts(false), 100}, {fam::OutputEdges(false), 480}};
  for (auto& p : fs) {
    auto fp = std::make_shared<fam::Family>(p.first);
    uint64_t want = p.second * (deep ? 20 : 1), stride = std::max<uint64_t>(1, fp->size / want);
    if (stride > 1 && stride % 2 == 0) ++stride;
    r.Add("family-" + fp->name, fp->size / stride, [=](vf::Case& c) {
      fam::Made m = fp->make(c.index * stride);
      if (!m.valid) return;
      brunsli::JPEGData jd;
      Bytes brn, back;
      if (!codec::Read(m.jpg, &jd) || !codec::Encode(jd, &brn)) return;
      for (int op = 0; op < 4 && !c.failed; ++op) Do(c, m.desc, op, m.jpg, brn, false, false);
    }, [=](uint64_t i) { return fp->make(i * stride).desc; }, 60);
  }
  r.Add("long-scans", 6 * 3, [=](vf::Case& c) {
    gen::Jpeg j = fam::ChunkJpeg((int)(c.index % 6), (int)(c.index / 6 + 1) * 30000);
    bool ok = true;
    Bytes jpg = gen::Write(j, &ok), brn;
    brunsli::JPEGData jd;
    if (!ok || !codec::Read(jpg, &jd) || !codec::Encode(jd, &brn)) return;
    for (int op : {2, 3}) if (!c.failed) Do(c, vf::Fmt("long scan %d", (int)c.index), op, jpg, brn, false, true);
  }, nullptr, 120, 1);
  // a fallback stream of every length up to a bound, and big ones
  r.Add("fallback", 660, [=](vf::Case& c) {
    size_t n = c.index < 500 ? c.index : c.index < 600 ? (c.index - 499) * 1777 : ((c.index - 600) / 10 + 1) * 16384 - 5 + c.index % 10;
    Bytes p;
    for (size_t i = 0; i < n; ++i) p += (char)(i * 7 + (i >> 8));
    Bytes b(n + 100, 0);
    size_t len = b.size();
    if (!brunsli::BrunsliEncodeJpegBypass(codec::U8(p), p.size(), (uint8_t*)&b[0], &len)) return;
    b.resize(len);
    Do(c, vf::Fmt("fallback of %zu bytes", n), 0, p, b, true, true);
    if (!c.failed) Do(c, vf::Fmt("fallback of %zu bytes", n), 3, p, b, true, true);
  });
  return r.Main();
}
