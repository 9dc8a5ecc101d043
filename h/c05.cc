// C05: truncation is never mistaken for success.
#include <brunsli/decode.h>
#include "corpus.h"
#include "families.h"
#include "longs.h"
#include "stock_icc.h"
#include "stream.h"
using codec::Bytes;
static void Prefix(vf::Case& c, const std::string& name, const Bytes& brn, const Bytes& jpg, size_t n, int modes) {
  Bytes p = brn.substr(0, n), o;
  codec::Exact e(p);
  brunsli::JPEGData jd;
  brunsli::BrunsliStatus st = brunsli::BrunsliDecodeJpeg(e.p, e.n, &jd);
  if (st == brunsli::BRUNSLI_OK) { c.Fail("oneshot-accepts", vf::Fmt("%s: %zu of %zu bytes decoded with status OK", name.c_str(), n, brn.size()), p); return; }
  Bytes q;
  int r = DecodeBrunsli(e.n, e.p, &q, [](void* d, const uint8_t* b, size_t k) -> size_t { ((Bytes*)d)->append((const char*)b, k); return k; });
  if (r) { c.Fail("c-api-accepts", vf::Fmt("%s: DecodeBrunsli accepts %zu of %zu bytes", name.c_str(), n, brn.size()), p); return; }
  if (q.size() > jpg.size() || jpg.compare(0, q.size(), q)) { c.Fail("c-api-output", vf::Fmt("%s: DecodeBrunsli emitted bytes that are not a prefix of the file", name.c_str()), p); return; }
  static const struct { size_t i, o; } m[] = {{1u << 30, 6000}, {1, 100}, {13, 6000}};
  for (int k = 0; k < modes; ++k) {
    auto s = stream::Uniform(p, m[k].i, m[k].o);
    if (s.end == stream::kDone) { c.Fail("streaming-accepts", vf::Fmt("%s: streaming decoder reports completion after %zu of %zu bytes", name.c_str(), n, brn.size()), p); return; }
    if (s.end != stream::kStarved) { c.Fail("streaming-error", vf::Fmt("%s: streaming decoder ends with \"%s\" instead of asking for more after %zu of %zu bytes of a valid stream", name.c_str(), stream::EndName(s.end), n, brn.size()), p); return; }
    if (s.out.size() > jpg.size() || jpg.compare(0, s.out.size(), s.out)) { c.Fail("streaming-output", vf::Fmt("%s: after %zu of %zu bytes the output (%zu bytes) is not a prefix of the file, differs at %zu", name.c_str(), n, brn.size(), s.out.size(), codec::FirstDiff(s.out, jpg)), p); return; }
    if (s.out.size()) c.nontrivial = true;
  }
  if (n > 12) c.nontrivial = true;
}
int main(int argc, char** argv) {
  vf::Runner r("C05", argc, argv);
  bool deep = r.thorough();
  r.rule = "every proper prefix of every stream listed is decoded one-shot, through the C interface and in chunks; non-trivial: the prefix reaches past the signature, or produced output";
  auto corp = std::make_shared<std::vector<corpus::Entry>>(corpus::Load());
  {
    std::vector<uint64_t> st;
    uint64_t n = 0;
    for (auto& e : *corp) { st.push_back(n); n += e.brn.size(); }
    auto find = [=](uint64_t i) { size_t k = st.size() - 1; while (st[k] > i) --k; return k; };
    r.Add("corpus-prefixes", n, [=](vf::Case& c) {
      size_t k = find(c.index);
      auto& e = (*corp)[k];
      Bytes full;
      if (codec::Decode(e.brn, &full) || full != e.jpg) return;  // not this property
      Prefix(c, e.name, e.brn, e.jpg, c.index - st[k], 3);
    }, [=](uint64_t i) { size_t k = find(i); return vf::Fmt("%s, first %d bytes", (*corp)[k].name.c_str(), (int)(i - st[k])); });
  }
  std::vector<std::pair<fam::Family, uint64_t>> fs = {{fam::Geometry(false), 500}, {fam::Content(false), 250}, {fam::MarkerInsert(false), 300}, {fam::MetaSequences(false), 150}, {fam::HuffmanSlots(false), 150}, {fam::EobRuns(false), 150}, {fam::MetaSingles(StockIcc()), 300}, {fam::QuantQuality(false), 150}, {fam::ScanParams(false), 200}, {fam::MarkerSequence(false), 3000}, {fam::Coefficients(false), 100}};
  for (auto& p : fs) {
    auto fp = std::make_shared<fam::Family>(p.first);
    uint64_t want = p.second * (deep ? 60 : 5), stride = std::max<uint64_t>(1, fp->size / want);
    // an odd stride visits every radix digit
    if (stride > 1 && stride % 2 == 0) ++stride;
    r.Add("all-prefixes-" + fp->name, fp->size / stride, [=](vf::Case& c) {
      fam::Made m = fp->make(c.index * stride);
      if (!m.valid || m.jpg.size() > 20000) return;
      brunsli::JPEGData jpg;
      if (!codec::Read(m.jpg, &jpg)) return;
      if (c.index & 1) jpg.version = 2;
      Bytes brn, full;
      if (!codec::Encode(jpg, &brn) || codec::Decode(brn, &full) || full != m.jpg) return;
      size_t step = brn.size() > 1500 ? brn.size() / 700 : 1;
      for (size_t n = 0; n < brn.size() && !c.failed; n += (n + 60 > brn.size() ? 1 : step)) Prefix(c, m.desc, brn, m.jpg, n, 1);
      c.hash = vf::Fnv(brn);
    }, [=](uint64_t i) { return fp->make(i * stride).desc; }, 60);
  }
  // long sections: the decoder has given part of the picture when the prefix ends
  auto ls = std::make_shared<std::vector<corpus::Entry>>(longs::All());
  for (auto& e : longs::Clusters(2)) ls->push_back(e);
  const int N = deep ? 3000 : 240;
  r.Add("long-prefixes", ls->size() * N, [=](vf::Case& c) {
    vf::Radix x(c.index);
    size_t k = x(N);
    auto& e = (*ls)[x(ls->size())];
    size_t z = e.brn.size(), n;
    if (k < 30) n = z - 1 - k;
    else if (k < 100) n = z - 30 - (k - 30) * 11;
    else n = (k - 100) * (uint64_t)z / (N - 100);
    if (n >= z) return;
    Prefix(c, e.name, e.brn, e.jpg, n, 1 + (k % 8 == 0));
    c.hash = c.index;
  }, nullptr, 60);
  return r.Main();
}
