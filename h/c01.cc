// C01: whatever the encoder accepts comes back byte for byte.
#include "codec.h"
#include "families.h"
#include "runner.h"
#include "stock_icc.h"

int main(int argc, char** argv) {
  vf::Runner r("C01", argc, argv);
  int acc = r.Counter("accepted"), rej = r.Counter("rejected_by_reader"),
      rejw = r.Counter("wellformed_rejected"), eref = r.Counter("refused_by_encoder"),
      prog = r.Counter("max_jpeg_bytes", true), skip = r.Counter("meaningless_index");
  r.rule =
      "every index of every JPEG family is built with an independent writer, read, encoded with both "
      "context models, decoded and rewritten; a case is non-trivial when the encoder accepted it, and "
      "distinct by the hash of the JPEG bytes";
  r.assumptions = {"bounds are the finite families listed under spaces"};
  std::vector<fam::Family> fs = fam::All(r.thorough(), StockIcc());
  fs.push_back(fam::FarMarks(r.thorough()));
  for (auto& f : fs) {
    auto fp = std::make_shared<fam::Family>(f);
    r.Add(f.name, f.size, [=](vf::Case& c) {
      fam::Made m = fp->make(c.index);
      if (!m.valid) { c.Count(skip); return; }
      brunsli::JPEGData jpg;
      if (!codec::Read(m.jpg, &jpg)) {
        c.Count(rej);
        if (m.wellformed) c.Count(rejw);
        return;
      }
      c.Max(prog, m.jpg.size());
      for (int version : {0, 2}) {
        jpg.version = version;
        codec::Bytes brn, back;
        if (!codec::Encode(jpg, &brn)) { c.Count(eref); continue; }
        if (version == 0) c.Count(acc);
        c.nontrivial = true;
        c.hash = vf::Fnv(m.jpg);
        int st = 0;
        int e = codec::Decode(brn, &back, &st);
        if (e) {
          c.Fail("not-decodable", vf::Fmt("%s: accepted by the encoder (version %d, %zu bytes) but %s (status %d)",
                 m.desc.c_str(), version, brn.size(), e == 1 ? "the decoder rejects it" : "cannot be written", st), m.jpg);
          return;
        }
        if (back != m.jpg) {
          c.Fail("differs", vf::Fmt("%s: version %d: %zu bytes in, %zu out, first difference at %zu",
                 m.desc.c_str(), version, m.jpg.size(), back.size(), codec::FirstDiff(m.jpg, back)), m.jpg);
          return;
        }
      }
    }, [=](uint64_t i) { return fp->make(i).desc; }, f.limit);
  }
  return r.Main();
}
