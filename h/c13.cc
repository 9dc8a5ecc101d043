// C13: the parsed structure is what the file says, before and after Brunsli.
#include "corpus.h"
#include "families.h"
#include "jcompare.h"
#include "stock_icc.h"
using codec::Bytes;
int main(int argc, char** argv) {
  vf::Runner r("C13", argc, argv);
  int acc = r.Counter("accepted"), rej = r.Counter("rejected"), coefs = r.Counter("coefficients_compared");
  r.rule = "every member of every JPEG family is parsed by the library and by an independent reader written from T.81; all fields and coefficients are compared, "
           "the structure is serialised directly, and compared again after a Brunsli round trip; non-trivial: accepted by the library";
  auto check = [=](vf::Case& c, const std::string& desc, const Bytes& jpg) {
    brunsli::JPEGData j;
    if (!codec::Read(jpg, &j)) { c.Count(rej); return; }
    c.Count(acc);
    c.nontrivial = true;
    c.hash = vf::Fnv(jpg);
    jm::Image m = jm::Read(jpg);
    if (!m.ok) { c.Fail("accepts-undecodable", vf::Fmt("%s: accepted, but by T.81 the file cannot be decoded: %s", desc.c_str(), m.why.c_str()), jpg); return; }
    std::string e = jm::Compare(m, j, jm::kAll);
    if (!e.empty()) { c.Fail("parse-differs", desc + ": " + e, jpg); return; }
    for (auto& q : m.comps) c.Count(coefs, q.coef.size());
    Bytes back;
    brunsli::JPEGOutput w(codec::StringSink, &back);
    if (!brunsli::WriteJpeg(j, w) || back != jpg) { c.Fail("write-differs", vf::Fmt("%s: parse and serialise gives a different file, at %zu", desc.c_str(), codec::FirstDiff(back, jpg)), jpg); return; }
    // (a second parse of the same bytes must not depend on the first)
    Bytes brn;
    if (!codec::Encode(j, &brn)) return;
    std::string e1 = jm::Compare(m, j, jm::kAll);
    if (!e1.empty()) { c.Fail("encoder-modifies", desc + ": the encoder changed its input: " + e1, jpg); return; }
    codec::Exact ex(brn);
    brunsli::JPEGData d;
    if (brunsli::BrunsliDecodeJpeg(ex.p, ex.n, &d) != brunsli::BRUNSLI_OK) return;  // C01's business
    std::string e2 = jm::Compare(m, d, jm::kDims | jm::kScans | jm::kCoefs);
    if (!e2.empty()) { c.Fail("roundtrip-differs", desc + ": after Brunsli: " + e2, jpg); return; }
  };
  for (auto& f : fam::All(r.thorough(), StockIcc())) {
    auto fp = std::make_shared<fam::Family>(f);
    r.Add(f.name, f.size, [=](vf::Case& c) {
      fam::Made m = fp->make(c.index);
      if (m.valid) check(c, m.desc, m.jpg);
    }, [=](uint64_t i) { return fp->make(i).desc; }, f.limit);
  }
  return r.Main();
}
