// C02: conforming files are accepted by the parser, the encoder and the decoder.
#include "codec.h"
#include "families.h"
#include "jmodel.h"
#include "stock_icc.h"
using codec::Bytes;
int main(int argc, char** argv) {
  vf::Runner r("C02", argc, argv);
  int wf = r.Counter("conforming"), other = r.Counter("not_constructed_as_conforming");
  r.rule = "every family member that is conforming by construction must pass the parser, the encoder (both context models) and the decoder; non-trivial: the member is conforming";
  r.assumptions = {"conformance of a member is decided by its construction and confirmed by an independent T.81 reader"};
  for (auto& f : fam::All(r.thorough(), StockIcc())) {
    auto fp = std::make_shared<fam::Family>(f);
    r.Add(f.name, f.size, [=](vf::Case& c) {
      fam::Made m = fp->make(c.index);
      if (!m.valid || !m.wellformed) { c.Count(other); return; }
      c.Count(wf);
      c.nontrivial = true;
      c.hash = vf::Fnv(m.jpg);
      brunsli::JPEGData j;
      if (!codec::Read(m.jpg, &j)) {
        jm::Image im = jm::Read(m.jpg);
        c.Fail(vf::Fmt("refused-by-parser-%d", (int)j.error), vf::Fmt("%s: conforming file refused with error %d (independent reader: %s)", m.desc.c_str(), (int)j.error, im.ok ? "readable" : im.why.c_str()), m.jpg);
        return;
      }
      for (int v : {0, 2}) {
        j.version = v;
        Bytes brn, out;
        if (!codec::Encode(j, &brn)) { c.Fail("refused-by-encoder", vf::Fmt("%s: version %d: conforming file refused by the encoder", m.desc.c_str(), v), m.jpg); return; }
        int st = 0;
        int rc = codec::Decode(brn, &out, &st);
        if (rc) { c.Fail("not-decodable", vf::Fmt("%s: version %d: rc %d status %d", m.desc.c_str(), v, rc, st), m.jpg); return; }
      }
    }, [=](uint64_t i) { return fp->make(i).desc; }, f.limit);
  }
  return r.Main();
}
