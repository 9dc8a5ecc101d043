// Streams whose DC and AC sections are long enough for the streaming decoder to stop
// in the middle of them (it goes on only while some hundreds of bytes are left).
#ifndef VERIF_LONGS_H_
#define VERIF_LONGS_H_
#include "codec.h"
#include "corpus.h"
#include "families.h"
#include "sections.h"

namespace longs {
static const int kSamplings = 18;
// kind 0: all positions, small values; 1: few blocks not empty, wide values; 2: smooth
inline bool Make(int samp, int kind, int version, corpus::Entry* e) {
  gen::Jpeg j;
  switch (samp) {
    case 15: j.comps = {{1, 1, 6, 0}, {2, 1, 2, 1}}; break;
    case 16: j.comps = {{1, 1, 15, 0}}; break;
    case 17: j.comps = {{1, 3, 9, 0}, {2, 1, 3, 1}}; break;
    default: j.comps = fam::Sampling(samp);
  }
  int mh = 1, mv = 1, per = 0;
  for (auto& c : j.comps) mh = std::max(mh, c.h), mv = std::max(mv, c.v), per += c.h * c.v;
  // about 240 blocks, at least 3 rows of MCUs, edges not aligned
  int mcus = std::max(12, (kind == 1 ? 480 : 240) / per), rows = 3;
  while ((rows + 1) * (rows + 1) <= mcus) ++rows;
  int cols = (mcus + rows - 1) / rows;
  j.w = cols * 8 * mh - 3;
  j.h = rows * 8 * mv - 5;
  fam::Script(j, 0);
  fam::Plain(j, 0, 0);
  j.Layout();
  for (size_t c = 0; c < j.comps.size(); ++c)
    for (size_t i = 0; i < j.coef[c].size(); ++i) {
      uint32_t r = gen::H((uint32_t)(i * 31 + c * 7919 + kind * 104729 + samp * 15485863));
      int k = (int)(i % 64), &v = j.coef[c][i];
      bool empty = kind == 1 && gen::H((uint32_t)(i / 64 + c * 977)) % 3 != 0;
      if (kind == 0) v = k == 0 ? (int)(r % 801) - 400 : r % 4 == 0 ? (int)(r / 16 % 11) - 5 : 0;
      if (kind == 1) v = empty ? 0 : k == 0 ? (int)(r % 2001) - 1000 : r % 5 == 0 ? (int)(r / 16 % 601) - 300 : 0;
      if (kind == 2) { int y = (int)(i / 64) / 8, x = (int)(i / 64) % 8; v = k == 0 ? 10 * x - 6 * y : k < 20 ? (int)((x + y) * 8 / (k + 1) % 7) - 3 + (int)(r % 3) : 0; }
    }
  bool ok = true;
  e->jpg = gen::Write(j, &ok);
  e->kind = 0;
  e->name = vf::Fmt("long sampling %d kind %d version %d", samp, kind, version);
  if (!ok) return false;
  brunsli::JPEGData d;
  if (!codec::Read(e->jpg, &d)) return false;
  d.version = version;
  return codec::Encode(d, &e->brn);
}
inline std::vector<corpus::Entry> All() {
  std::vector<corpus::Entry> v;
  for (int s = 0; s < kSamplings; ++s)
    for (int k = 0; k < 3; ++k)
      for (int ver = 0; ver < 4; ver += 2) {
        corpus::Entry e;
        if (Make(s, k, ver, &e)) v.push_back(e);
      }
  return v;
}
// Streams with many histograms; the range of the section that holds them.
inline std::vector<corpus::Entry> Clusters(int count) {
  std::vector<corpus::Entry> v;
  auto f = fam::Clusters(false);
  static const int pick[] = {0 + 11 * 0, 1 + 11 * 0, 2 + 11 * 2, 4 + 11 * 3, 5 + 11 * 0, 8 + 11 * 1};
  for (int k = 0; k < count; ++k) {
    auto m = f.make(pick[k]);
    corpus::Entry e;
    e.jpg = m.jpg;
    e.name = m.desc;
    e.kind = 0;
    brunsli::JPEGData d;
    if (!m.valid || !codec::Read(e.jpg, &d)) continue;
    d.version = k % 2 * 2;
    if (codec::Encode(d, &e.brn)) v.push_back(e);
  }
  return v;
}
inline bool HistRange(const codec::Bytes& brn, size_t* a, size_t* b) {
  sec::Stream s;
  if (!sec::Split(brn, &s)) return false;
  size_t p = 6 + s.HeaderBytes().size();
  for (auto& e : s.body) {
    size_t n = e.Put().size();
    if (e.tag == sec::HIST) { *a = p; *b = p + n; return true; }
    p += n;
  }
  return false;
}
}  // namespace longs
#endif
