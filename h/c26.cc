// C26: the current library against the frozen one, in both directions.
#include "../ref/ref.h"
#include "corpus.h"
#include "crafted.h"
#include "families.h"
#include "histmodel.h"
#include "longs.h"
#include "sections.h"
#include "stock_icc.h"
#include "stream.h"
using codec::Bytes;
int main(int argc, char** argv) {
  vf::Runner r("C26", argc, argv);
  bool deep = r.thorough();
  int both = r.Counter("cross_decoded"), oldrej = r.Counter("released_refuses"), newrej = r.Counter("current_refuses"), same = r.Counter("same_stream"),
      dok = r.Counter("damaged_both_accept"), drej = r.Counter("damaged_both_refuse");
  r.rule = "every member of every JPEG family is encoded by the current library and decoded by a frozen copy of it, and the other way round, with both context models; "
           "every listed damage of every corpus stream is offered to both decoders, which must agree on the verdict and the bytes; non-trivial: accepted by an encoder, or damaged stream differs from the original";
  r.assumptions = {"the frozen copy in /verif/ref is the pinned commit plus the repairs of genuine defects made during this work"};
  for (auto& f : fam::All(deep, StockIcc())) {
    auto fp = std::make_shared<fam::Family>(f);
    r.Add(f.name, f.size, [=](vf::Case& c) {
      fam::Made m = fp->make(c.index);
      if (!m.valid) return;
      c.hash = vf::Fnv(m.jpg);
      int version = (c.index & 1) ? 2 : 0;
      Bytes a, b, back;
      int ra = refapi::Encode(m.jpg, version, &a);
      brunsli::JPEGData j;
      bool ok = codec::Read(m.jpg, &j);
      j.version = version;
      ok = ok && codec::Encode(j, &b);
      c.Count(ra ? oldrej : both);
      if (!ok) c.Count(newrej);
      if (!ra && ok && a == b) c.Count(same);
      int st = 0;
      if (!ra) {
        c.nontrivial = true;
        int e = codec::Decode(a, &back, &st);
        if (e || back != m.jpg) return c.Fail("old-to-new", vf::Fmt("%s: stream of the released encoder: current decoder rc %d status %d, first difference at %zu", m.desc.c_str(), e, st, codec::FirstDiff(back, m.jpg)), m.jpg);
      }
      if (ok) {
        c.nontrivial = true;
        back.clear();
        int e = refapi::Decode(b, &back, &st);
        if (e || back != m.jpg) return c.Fail("new-to-old", vf::Fmt("%s: stream of the current encoder: released decoder rc %d status %d, first difference at %zu", m.desc.c_str(), e, st, codec::FirstDiff(back, m.jpg)), m.jpg);
      }
    }, [=](uint64_t i) { return fp->make(i).desc; }, f.limit);
  }
  auto corp = std::make_shared<std::vector<corpus::Entry>>(corpus::Load());
  auto st = std::make_shared<std::vector<uint64_t>>();
  uint64_t n = 0;
  for (auto& e : *corp) { st->push_back(n); n += e.brn.size(); }
  // streams of the corpus, written when the corpus was made
  r.Add("corpus", corp->size() * 2, [=](vf::Case& c) {
    auto& e = (*corp)[c.index / 2];
    Bytes back;
    int s = 0;
    c.nontrivial = true;
    c.hash = vf::Fnv(e.brn) + (c.index & 1);
    int rc = (c.index & 1) ? refapi::Decode(e.brn, &back, &s) : codec::Decode(e.brn, &back, &s);
    if (rc || back != e.jpg) c.Fail("corpus", vf::Fmt("%s: rc %d status %d", e.name.c_str(), rc, s), e.brn);
  });
  auto judge = [=](vf::Case& c, const std::string& what, const Bytes& b) {
    Bytes o, w;
    int so = 0, sw = 0;
    c.nontrivial = true;
    c.hash = vf::Fnv(b);
    int ro = refapi::Decode(b, &o, &so), rw = codec::Decode(b, &w, &sw);
    c.Count(ro ? drej : dok);
    if ((ro == 0) != (rw == 0)) return c.Fail("verdict", vf::Fmt("%s: released decoder %s (status %d), current decoder %s (status %d)", what.c_str(), ro ? "refuses" : "accepts", so, rw ? "refuses" : "accepts", sw), b);
    if (!ro && o != w) return c.Fail("bytes", vf::Fmt("%s: decoded differently, first difference at %zu", what.c_str(), codec::FirstDiff(o, w)), b);
  };
  const int V = deep ? 256 : 14;
  r.Add("damaged", n * V, [=](vf::Case& c) {
    uint64_t v = c.index / V;
    size_t k = st->size() - 1;
    while ((*st)[k] > v) --k;
    size_t at = v - (*st)[k];
    int w = c.index % V;
    Bytes b = (*corp)[k].brn;
    uint8_t o = b[at], x = V == 256 ? w : w < 8 ? o ^ (1 << w) : w == 8 ? 0 : w == 9 ? 255 : w == 10 ? o + 1 : w == 11 ? o - 1 : w == 12 ? ~o : 0x55;
    if (x == o) return;
    b[at] = (char)x;
    judge(c, vf::Fmt("%s byte %zu = %#x", (*corp)[k].name.c_str(), at, x), b);
  }, nullptr, 60);
  r.Add("edited", n * 8, [=](vf::Case& c) {
    uint64_t v = c.index / 8;
    size_t k = st->size() - 1;
    while ((*st)[k] > v) --k;
    size_t at = v - (*st)[k];
    Bytes b = (*corp)[k].brn;
    switch (c.index % 8) {
      case 0: b.resize(at); break;
      case 1: b.erase(at, 1); break;
      case 2: b.erase(at, 2); break;
      case 3: b.insert(at, 1, 0); break;
      case 4: b.insert(at, 1, (char)0xff); break;
      case 5: b.insert(at, b.substr(at, 1)); break;
      case 6: if (at + 1 < b.size()) std::swap(b[at], b[at + 1]); break;
      case 7: b.insert(at, 1, (char)0x80); break;
    }
    if (b == (*corp)[k].brn) return;
    judge(c, vf::Fmt("%s edit %d at %zu", (*corp)[k].name.c_str(), (int)(c.index % 8), at), b);
  }, nullptr, 60);
  // unusual but well-formed fields
  auto cr = crafted::Make(*corp, deep);
  if (!cr->broken.empty()) { fprintf(stderr, "section model does not match %s\n", cr->broken.c_str()); return 2; }
  for (int two = 0; two < 2; ++two)
    r.Add(two ? "fields-pairs" : "fields", two ? cr->n2 : cr->n1, [=](vf::Case& c) {
      std::string what;
      Bytes b = crafted::Stream(*cr, two, c.index, &what);
      if (!b.empty()) judge(c, what, b);
    }, nullptr, 60);
  // context maps and histograms written in every way the format allows: all are the same picture
  {
    auto hs = hist::Make(*corp, deep, deep ? std::vector<std::string>{} : std::vector<std::string>{"tiny-zero-v0", "gray-v2", "420-v2", "prog-v0", "cmyk-v2", "wide-v2"});
    if (!hs->broken.empty()) { fprintf(stderr, "histogram model does not match %s\n", hs->broken.c_str()); return 2; }
    uint64_t n2 = hist::CountStreams(*hs);
    r.Add("histogram-codes", hs->n + n2, [=](vf::Case& c) {
      std::string what;
      Bytes b = c.index < hs->n ? hist::Stream(*hs, c.index, &what) : hist::CountStream(*hs, c.index - hs->n, &what), o;
      if (b.empty()) return;
      int s = 0;
      c.nontrivial = true;
      c.hash = vf::Fnv(b);
      int ro = refapi::Decode(b, &o, &s);
      if (ro) { fprintf(stderr, "%s: refused by the frozen decoder\n", what.c_str()); abort(); }
      judge(c, what, b);
    }, nullptr, 60);
  }
  // metadata contents behind the Brotli layer
  {
    auto base = std::make_shared<std::vector<sec::Stream>>();
    for (auto& e : *corp) if (e.name == "meta-v2" || e.name == "no-meta-v2") { sec::Stream s; if (sec::Split(e.brn, &s)) base->push_back(s); }
    uint64_t n = crafted::MetaCount(deep ? 5 : 4);
    r.Add("metadata", n * base->size(), [=](vf::Case& c) {
      vf::Radix x(c.index);
      auto& s = (*base)[x(base->size())];
      Bytes m = crafted::MetaText(x(n));
      judge(c, "metadata " + vf::Hex(m), crafted::WithMeta(s, crafted::MetaBody(m)));
    }, nullptr, 60);
    r.Add("metadata-size", crafted::kMetaSizes, [=](vf::Case& c) {
      std::string what;
      Bytes body = crafted::MetaSizeBody(c.index, &what);
      judge(c, what, crafted::WithMeta((*base)[0], body));
    }, nullptr, 60);
  }
  // every order of up to six elements
  {
    auto base = std::make_shared<sec::Stream>();
    Bytes jpg = corpus::Get(*corp, "tiny-v0").jpg;
    sec::Split(corpus::Get(*corp, "tiny-v0").brn, base.get());
    const int L = deep ? 7 : 6;
    uint64_t n = 0, k = 1;
    for (int d = 0; d <= L; ++d) n += k, k *= 9;
    r.Add("orders", n, [=](vf::Case& c) {
      uint64_t i = c.index, k = 1;
      int d = 0;
      while (i >= k) { i -= k; k *= 9; ++d; }
      sec::Stream s;
      s.header = base->header;
      std::string what = "elements";
      while (d--) {
        static const int tg[] = {4, 3, 5, 6, 7, 8, 9, 2, 12};
        int tag = tg[i % 9];
        i /= 9;
        const sec::Elem* e = base->Find(tag);
        s.body.push_back(e ? *e : sec::Section(tag, tag == 9 ? jpg : ""));
        what += vf::Fmt(" %d", tag);
      }
      judge(c, what, s.Put());
    }, nullptr, 60);
  }
  // one section of another stream
  {
    const uint64_t N = corp->size();
    r.Add("spliced", N * N * 7, [=](vf::Case& c) {
      vf::Radix x(c.index);
      auto &A = (*corp)[x(N)], &B = (*corp)[x(N)];
      int tag = 2 + (int)x(7);
      sec::Stream a, b;
      if (!sec::Split(A.brn, &a) || !sec::Split(B.brn, &b)) return;
      if (tag == 2) a.header = b.header;
      else {
        const sec::Elem* e = b.Find(tag);
        if (!e) return;
        for (auto& d : a.body) if (d.tag == tag) d = *e;
      }
      judge(c, vf::Fmt("%s with %d of %s", A.name.c_str(), tag, B.name.c_str()), a.Put());
    }, nullptr, 60);
  }
  // fallback streams
  r.Add("wrapped", 70000 / 7, [=](vf::Case& c) {
    size_t len = c.index < 4000 ? c.index : c.index < 8000 ? 14000 + c.index : 60000 + (c.index - 8000) * 5;
    Bytes d(len, 0);
    for (size_t i = 0; i < len; ++i) d[i] = (char)(i * 31 + (i >> 8) + c.index);
    Bytes a, b(len + 64, 0), o, w;
    size_t bn = b.size();
    bool ra = refapi::Wrap(d, &a), rb = brunsli::BrunsliEncodeJpegBypass(codec::U8(d), len, (uint8_t*)&b[0], &bn);
    b.resize(bn);
    c.nontrivial = true;
    c.hash = vf::Fnv(d);
    int s;
    if (!ra || !rb) return c.Fail("wrap", vf::Fmt("%zu bytes: %d %d", len, ra, rb));
    if (codec::Decode(a, &w) || w != d) return c.Fail("old-to-new", vf::Fmt("wrapped %zu bytes", len), d);
    if (refapi::Decode(b, &o, &s) || o != d) return c.Fail("new-to-old", vf::Fmt("wrapped %zu bytes", len), d);
  });
  // the context schemes the released encoder keeps for big pictures
  auto ls = std::make_shared<std::vector<corpus::Entry>>(longs::All());
  for (auto& e : *corp) ls->push_back(e);
  // damage of the section with many histograms
  {
    auto cl = std::make_shared<std::vector<corpus::Entry>>(longs::Clusters(deep ? 6 : 3));
    for (auto& e : *cl) ls->push_back(e);
    auto hs = std::make_shared<std::vector<std::array<size_t, 3>>>();  // first case, stream, offset of the section
    uint64_t hn = 0;
    for (size_t k = 0; k < cl->size(); ++k) {
      size_t a, b;
      if (!longs::HistRange((*cl)[k].brn, &a, &b)) continue;
      hs->push_back({hn, k, a});
      hn += std::min<size_t>(b - a, deep ? 1500 : 400);
    }
    r.Add("hist-damaged", hn * 8, [=](vf::Case& c) {
      uint64_t v = c.index / 8;
      size_t k = hs->size() - 1;
      while ((*hs)[k][0] > v) --k;
      auto& e = (*cl)[(*hs)[k][1]];
      size_t at = (*hs)[k][2] + (v - (*hs)[k][0]);
      Bytes b = e.brn;
      b[at] ^= (char)(1 << c.index % 8);
      judge(c, vf::Fmt("%s: bit %d of byte %zu", e.name.c_str(), (int)(c.index % 8), at), b);
    }, nullptr, 60);
  }
  for (int kind = 0; kind < 3; ++kind) {  // values that depend on the position and on what is left in the block
    gen::Jpeg j;
    j.w = j.h = kind == 1 ? 31 * 8 : 320;
    j.comps = fam::Sampling(0);
    fam::Script(j, 0);
    fam::Plain(j, 0, 0);
    j.Layout();
    for (size_t b = 0; b < j.coef[0].size() / 64; ++b) {
      uint32_t h = gen::H((uint32_t)(b * 7 + kind));
      int left = 0, step = 1 + (int)(h % 5), cap = (int)(h / 8 % 64);
      int* q = &j.coef[0][b * 64];
      q[0] = (int)(h / 64 % 40);
      for (int k = 63; k > 0; --k) {
        if (kind == 2 ? left >= cap : gen::H((uint32_t)(b * 64 + k)) % step) continue;
        ++left;
        int v = kind == 0 ? 1 + k * 5 % 13 : kind == 1 ? 1 + (k * 5 + left * 3) % 13 : 1 + left * 5 % 13;
        q[k] = gen::H((uint32_t)(b * 64 + k + 99)) % 2 ? v : -v;
      }
    }
    corpus::Entry e;
    bool ok = true;
    e.jpg = gen::Write(j, &ok);
    e.name = vf::Fmt("positions %d", kind);
    if (ok) ls->push_back(e);
  }
  const int V2 = deep ? 56 : 21;  // one scheme for all components, and mixed ones
  r.Add("schemes", ls->size() * V2, [=](vf::Case& c) {
    vf::Radix x(c.index);
    int v = (int)x(V2);
    auto& e = (*ls)[x(ls->size())];
    uint64_t sch = 0;
    for (int k = 0; k < 4; ++k) sch |= (uint64_t)((v % 7 + k * (v / 7)) % 7) << (4 * k);
    Bytes b, back;
    int st = 0;
    int version = (int)(c.index & 1) * 2;
    if (refapi::EncodeSchemes(e.jpg, version, sch | ~0xffffull, &b)) return;
    c.nontrivial = true;
    c.hash = vf::Fnv(b);
    c.Count(both);
    int rc = codec::Decode(b, &back, &st);
    if (rc || back != e.jpg) return c.Fail("old-to-new", vf::Fmt("%s, context schemes %04x: current decoder rc %d status %d, first difference at %zu", e.name.c_str(), (unsigned)sch, rc, st, codec::FirstDiff(back, e.jpg)), b);
  }, nullptr, 60);
  // pictures big enough to get these schemes from the encoder
  r.Add("big", deep ? 24 : 14, [=](vf::Case& c) {
    static const int kBlocks[] = {40, 120, 400, 1300, 5000, 17000, 270000, 60, 70, 1040, 70000, 600000};
    int i = (int)c.index / 2;
    int version = (c.index & 1) * 2;
    int blocks = kBlocks[i], cols = 16;
    while (cols * cols < blocks) cols *= 2;
    gen::Jpeg j;
    j.comps = fam::Sampling(i % 3 == 1 ? 4 : 0);
    int mh = 1, mv = 1;
    for (auto& q : j.comps) mh = std::max(mh, q.h), mv = std::max(mv, q.v);
    j.w = cols * 8;
    j.h = (blocks + cols - 1) / cols * 8;
    fam::Script(j, 0);
    fam::Plain(j, 0, 0);
    j.Layout();
    for (size_t q = 0; q < j.comps.size(); ++q)
      for (size_t k = 0; k < j.coef[q].size(); ++k) {
        uint32_t h = gen::H((uint32_t)(k * 31 + q * 7919));
        bool empty = blocks > 20000 && k / 64 % 5;  // only every fifth block is counted
        j.coef[q][k] = empty ? (int)(k % 64 == 0 ? h % 3 : 0) : k % 64 == 0 ? (int)(h % 401) - 200 : (int)(h / 8 % 9) - 4 ? (int)(h / 8 % 9) - 4 : 1;
      }
    bool ok = true;
    Bytes jpg = gen::Write(j, &ok), a, b, back;
    if (!ok) return;
    c.nontrivial = true;
    c.hash = vf::Fnv(jpg) + version;
    brunsli::JPEGData d;
    int st = 0;
    bool ra = !refapi::Encode(jpg, version, &a), rb = codec::Read(jpg, &d);
    d.version = version;
    rb = rb && codec::Encode(d, &b);
    std::string what = vf::Fmt("%d blocks, sampling %d, version %d", blocks, i % 3 == 1 ? 4 : 0, version);
    if (!ra || !rb) return c.Fail("encode", vf::Fmt("%s: %d %d", what.c_str(), ra, rb));
    c.Count(both);
    if (a == b) c.Count(same);
    int e = codec::Decode(a, &back, &st);
    if (e || back != jpg) return c.Fail("old-to-new", vf::Fmt("%s: rc %d status %d, first difference at %zu", what.c_str(), e, st, codec::FirstDiff(back, jpg)));
    back.clear();
    e = refapi::Decode(b, &back, &st);
    if (e || back != jpg) return c.Fail("new-to-old", vf::Fmt("%s: rc %d status %d, first difference at %zu", what.c_str(), e, st, codec::FirstDiff(back, jpg)));
  }, nullptr, 600);
  return r.Main();
}
