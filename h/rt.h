// Round trip of one JPEG file, judged against the file itself.
#ifndef VERIF_RT_H_
#define VERIF_RT_H_
#include "families.h"
#include "stream.h"
namespace rt {
using codec::Bytes;
struct Counters {
  int acc, rej, eref;
  explicit Counters(vf::Runner* r) : acc(r->Counter("transcoded")), rej(r->Counter("refused_by_parser")), eref(r->Counter("refused_by_encoder")) {}
};
// must: a conforming file, refusal is a violation too.  must_encode: what the
// parser takes, the encoder must take.  The C01 property does
// the two-version round trip; here one version (by index) is taken, and the
// decoding is done one-shot and streaming.
inline void Check(vf::Case& c, const Counters& k, const std::string& desc, const Bytes& jpg, bool must, bool must_encode = false) {
  c.hash = vf::Fnv(jpg);
  brunsli::JPEGData j;
  if (!codec::Read(jpg, &j)) {
    c.Count(k.rej);
    if (must) c.Fail("refused", vf::Fmt("%s: refused by the parser, error %d", desc.c_str(), (int)j.error), jpg);
    return;
  }
  j.version = (c.index & 1) ? 2 : 0;
  Bytes brn, out;
  if (!codec::Encode(j, &brn)) {
    c.Count(k.eref);
    if (must || must_encode) c.Fail("refused-by-encoder", desc + ": refused by the encoder", jpg);
    return;
  }
  c.Count(k.acc);
  c.nontrivial = true;
  int st = 0, rc = codec::Decode(brn, &out, &st);
  if (rc) { c.Fail("not-decodable", vf::Fmt("%s: rc %d status %d", desc.c_str(), rc, st), jpg); return; }
  if (out != jpg) {
    size_t d = codec::FirstDiff(out, jpg);
    c.Fail("differs", vf::Fmt("%s: %zu bytes in, %zu out, first difference at %zu (%s instead of %s)", desc.c_str(), jpg.size(), out.size(), d, vf::Hex(out.substr(d, 4)).c_str(), vf::Hex(jpg.substr(d, 4)).c_str()), jpg);
    return;
  }
  stream::Result s = (c.index & 2) ? stream::Uniform(brn, 37, 251) : stream::Uniform(brn, (size_t)1 << 40, 100000);
  if (s.end != stream::kDone || s.out != jpg) c.Fail("streaming", vf::Fmt("%s: streaming decoder: %s, first difference at %zu", desc.c_str(), stream::EndName(s.end), codec::FirstDiff(s.out, jpg)), jpg);
}
inline void AddFamily(vf::Runner& r, const Counters& k, const fam::Family& f) {
  auto fp = std::make_shared<fam::Family>(f);
  r.Add(f.name, f.size, [=](vf::Case& c) {
    auto m = fp->make(c.index);
    if (m.valid) Check(c, k, m.desc, m.jpg, m.wellformed);
  }, [=](uint64_t i) { return fp->make(i).desc; }, f.limit);
}
}  // namespace rt
#endif
