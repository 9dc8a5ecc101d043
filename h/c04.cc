// C04: the streaming decoder agrees with the one-shot decoder for every way of
// cutting the input and the output.
#include "corpus.h"
#include "crafted.h"
#include "families.h"
#include "histmodel.h"
#include "longs.h"
#include "sections.h"
#include "stock_icc.h"
#include "stream.h"

using codec::Bytes;
struct Want { int rc, status; Bytes out; };
static Want OneShot(const Bytes& in) {
  Want w;
  w.rc = codec::Decode(in, &w.out, &w.status);
  return w;
}
static void Compare(vf::Case& c, const std::string& name, const std::string& how,
                    const Bytes& in, const Want& w, const stream::Result& r) {
  std::string key;
  if (!r.contract.empty()) return;  // C28's business
  if (w.rc == 0) {
    if (r.end != stream::kDone) key = "streaming-fails";
    else if (r.out != w.out) key = "streaming-differs";
  } else {
    if (r.end == stream::kDone && r.consumed == in.size()) key = "streaming-accepts";
  }
  if (!key.empty())
    c.Fail(key, vf::Fmt("%s, %s: one-shot %s (%zu bytes), streaming ended with \"%s\" after %d calls, %zu bytes, first difference at %zu",
           name.c_str(), how.c_str(), w.rc ? "fails" : "succeeds", w.out.size(), stream::EndName(r.end), r.calls,
           r.out.size(), codec::FirstDiff(r.out, w.out)), in);
}
static const size_t kInf = 6000;

int main(int argc, char** argv) {
  vf::Runner r("C04", argc, argv);
  int calls = r.Counter("decoder_calls"), accepted = r.Counter("accepted_by_oneshot"), rejd = r.Counter("rejected_by_oneshot");
  r.rule = "every schedule of the listed spaces is run against a fresh streaming decoder whose input and output blocks are exact "
           "heap allocations freed after each call; non-trivial: more than one call was needed";
  auto corp = std::make_shared<std::vector<corpus::Entry>>(corpus::Load());
  auto wants = std::make_shared<std::vector<Want>>();
  for (auto& e : *corp) wants->push_back(OneShot(e.brn));
  bool deep = r.thorough();

  // sections and header items of unknown kinds, of any size, between the known ones
  {
    static const size_t sz[] = {0, 1, 7, 100, 300, 590, 598, 599, 600, 601, 700, 1198, 1199, 1200, 1201, 1300, 2500, 5000, 20000};
    static const size_t step[] = {1, 2, 7, 64, 100, 299, 450, 599, 600, 601, 1199, 1200, 1201, 4096};
    struct F { std::string name; sec::Stream s; };
    auto fs = std::make_shared<std::vector<F>>();
    for (const char* n : {"tiny-v2", "420-v0", "meta-v2", "no-scan-v2"}) {
      F f;
      f.name = n;
      if (!sec::Split(corpus::Get(*corp, n).brn, &f.s)) { fprintf(stderr, "%s: unexpected structure\n", n); return 2; }
      fs->push_back(f);
    }
    const uint64_t kAt = 10;  // 0..6: before the k-th section or at the end; 7, 8, 9: header item first, second, last
    r.Add("unknown-sections", fs->size() * kAt * 19 * 14 * 3 * 2, [=](vf::Case& c) {
      vf::Radix x(c.index);
      auto& f = (*fs)[x(fs->size())];
      size_t at = x(kAt), n = sz[x(19)], st = step[x(14)], how = x(3), cap = x(2) ? kInf : 33;
      if (at <= 6 && at > f.s.body.size()) return;
      sec::Stream s = f.s;
      auto& v = at <= 6 ? s.body : s.header;
      size_t pos = at <= 6 ? at : at == 7 ? 0 : at == 8 ? 1 : v.size();
      // one; two; one with a length field longer than necessary and a number behind it
      sec::Elem e = sec::Section(at <= 6 ? 12 : 9, Bytes(n, 'x'));
      if (how == 2) e.width = 5;
      v.insert(v.begin() + pos, e);
      if (how == 1) v.insert(v.begin() + pos + 1, sec::Section(at <= 6 ? 14 : 11, Bytes(n / 2 + 1, (char)0xfa)));
      if (how == 2) v.insert(v.begin() + pos + 1, sec::Varint(at <= 6 ? 13 : 10, 12345678));
      Bytes in = s.Put();
      Want w = OneShot(in);
      auto q = stream::Uniform(in, st, cap);
      c.nontrivial = q.calls > 1;
      c.hash = vf::Fnv(in, st * 2 + (cap == kInf));
      c.Count(calls, q.calls);
      c.Count(w.rc ? rejd : accepted);
      Compare(c, f.name, vf::Fmt("unknown section(s) of %zu bytes at place %zu (form %zu), pieces of %zu, output blocks of %zu", n, at, how, st, cap), in, w, q);
    });
  }

  // one cut at every place, for several output capacities
  {
    static const size_t oc[] = {kInf, 1, 7, 64};
    std::vector<std::pair<int, uint64_t>> start;
    uint64_t n = 0;
    for (size_t k = 0; k < corp->size(); ++k) { start.push_back({(int)k, n}); n += ((*corp)[k].brn.size() + 1) * 4; }
    auto find = [=](uint64_t i) { size_t k = start.size() - 1; while (start[k].second > i) --k; return std::make_pair(k, i - start[k].second); };
    r.Add("one-cut", n, [=](vf::Case& c) {
      auto p = find(c.index);
      auto& e = (*corp)[p.first];
      size_t cut = p.second / 4, cap = oc[p.second % 4];
      auto s = stream::Chunks(e.brn, {cut}, cap);
      c.nontrivial = s.calls > 1;
      c.Count(calls, s.calls);
      Compare(c, e.name, vf::Fmt("cut at %zu, output blocks of %zu", cut, cap), e.brn, (*wants)[p.first], s);
    }, [=](uint64_t i) { auto p = find(i); return vf::Fmt("%s cut at %zu", (*corp)[p.first].name.c_str(), (size_t)(p.second / 4)); });
  }
  // streams with long sections: the decoder stops inside of them
  {
    struct L { std::vector<corpus::Entry> v; std::vector<Want> w; std::vector<uint64_t> start; uint64_t n = 0; };
    auto l = std::make_shared<L>();
    const size_t step = deep ? 1 : 5;
    l->v = longs::All();
    for (auto& e : l->v) { l->w.push_back(OneShot(e.brn)); l->start.push_back(l->n); l->n += (e.brn.size() + step - 1) / step; }
    if (l->v.size() < 60) { fprintf(stderr, "long streams missing\n"); return 2; }
    auto find = [=](uint64_t i) { size_t k = l->start.size() - 1; while (l->start[k] > i) --k; return std::make_pair(k, i - l->start[k]); };
    r.Add("long-one-cut", l->n, [=](vf::Case& c) {
      auto p = find(c.index);
      auto& e = l->v[p.first];
      size_t cut = p.second * step + p.first % step;
      if (cut > e.brn.size()) return;
      auto s = stream::Chunks(e.brn, {cut}, c.index % 3 ? 100000 : 1000);
      c.nontrivial = s.calls > 1;
      c.Count(calls, s.calls);
      if (l->w[p.first].rc) c.Fail("one-shot", e.name + ": one-shot decoding fails", e.brn);
      Compare(c, e.name, vf::Fmt("cut at %zu", cut), e.brn, l->w[p.first], s);
    }, [=](uint64_t i) { auto p = find(i); return vf::Fmt("%s cut at %zu", l->v[p.first].name.c_str(), (size_t)p.second * step); });
    static const size_t sz[] = {1, 7, 50, 250, 593, 594, 595, 596, 700, 1000, 1500, 2500};
    r.Add("long-uniform", l->v.size() * 12 * 3, [=](vf::Case& c) {
      vf::Radix x(c.index);
      size_t k = x(l->v.size()), n = sz[x(12)], cap = x(3);
      auto& e = l->v[k];
      auto s = stream::Chunks(e.brn, std::vector<size_t>(e.brn.size() / n, n), cap == 0 ? 100000 : cap == 1 ? 777 : 40);
      c.nontrivial = s.calls > 1;
      c.Count(calls, s.calls);
      Compare(c, e.name, vf::Fmt("blocks of %zu", n), e.brn, l->w[k], s);
    }, [=](uint64_t i) { return l->v[i % l->v.size()].name; });
    r.Add("long-two-cuts", l->v.size() * 40 * 40, [=](vf::Case& c) {
      vf::Radix x(c.index);
      size_t k = x(l->v.size()), a = x(40), b = x(40);
      if (a >= b || (!deep && (a * 3 + b + k) % 8)) return;
      auto& e = l->v[k];
      a = e.brn.size() * a / 40;
      b = e.brn.size() * b / 40;
      auto s = stream::Chunks(e.brn, {a, b - a}, 100000);
      c.nontrivial = s.calls > 2;
      c.Count(calls, s.calls);
      Compare(c, e.name, vf::Fmt("cuts at %zu and %zu", a, b), e.brn, l->w[k], s);
    }, [=](uint64_t i) { return l->v[i % l->v.size()].name; });
  }
  // many histograms: every cut inside the section that holds them
  {
    struct L { std::vector<corpus::Entry> v; std::vector<Want> w; std::vector<uint64_t> start, at; uint64_t n = 0; };
    auto l = std::make_shared<L>();
    l->v = longs::Clusters(deep ? 6 : 4);
    for (auto& e : l->v) {
      size_t a = 0, b = 0;
      if (!longs::HistRange(e.brn, &a, &b)) { fprintf(stderr, "no histograms in %s\n", e.name.c_str()); return 2; }
      l->w.push_back(OneShot(e.brn));
      l->start.push_back(l->n);
      l->at.push_back(a - 2);
      l->n += b - a + 4;
    }
    r.Add("histogram-cuts", l->n, [=](vf::Case& c) {
      size_t k = l->start.size() - 1;
      while (l->start[k] > c.index) --k;
      auto& e = l->v[k];
      size_t cut = l->at[k] + (c.index - l->start[k]);
      auto s = c.index % 4 ? stream::Chunks(e.brn, {cut}, 100000) : stream::Chunks(e.brn, {cut, 1, 5, 29}, 100000);
      c.nontrivial = s.calls > 1;
      c.Count(calls, s.calls);
      if (l->w[k].rc) c.Fail("one-shot", e.name + ": one-shot decoding fails", e.brn);
      Compare(c, e.name, vf::Fmt("cut at %zu", cut), e.brn, l->w[k], s);
    }, nullptr, 60);
  }
  // streams with unusual but well-formed fields, accepted or not
  {
    auto cr = crafted::Make(*corp, deep);
    if (!cr->broken.empty()) { fprintf(stderr, "section model does not match %s\n", cr->broken.c_str()); return 2; }
    for (int two = 0; two < 2; ++two)
      r.Add(two ? "fields-pairs" : "fields", two ? cr->n2 : cr->n1, [=](vf::Case& c) {
        std::string what;
        Bytes b = crafted::Stream(*cr, two, c.index, &what);
        if (b.empty()) return;
        Want w = OneShot(b);
        c.Count(w.rc ? rejd : accepted);
        if (two && !deep && c.index % (w.rc ? 7 : 3)) return;
        for (int k = 0; k < 3; ++k) {
          if (two && k != (int)(c.index % 3)) continue;
          auto s = k == 0 ? stream::Uniform(b, 1, 5000) : k == 1 ? stream::Uniform(b, (size_t)1 << 40, 41) : stream::Uniform(b, 13, 7);
          c.nontrivial |= s.calls > 1;
          c.Count(calls, s.calls);
          Compare(c, what, vf::Fmt("schedule %d", k), b, w, s);
        }
      }, nullptr);
  }
  // context maps and histograms written in every way the format allows
  {
    auto hs = hist::Make(*corp, deep, deep ? std::vector<std::string>{} : std::vector<std::string>{"tiny-zero-v0", "prog-v0"});
    if (!hs->broken.empty()) { fprintf(stderr, "histogram model does not match %s\n", hs->broken.c_str()); return 2; }
    uint64_t n2 = hist::CountStreams(*hs);
    r.Add("histogram-codes", hs->n + n2, [=](vf::Case& c) {
      std::string what;
      Bytes b = c.index < hs->n ? hist::Stream(*hs, c.index, &what) : hist::CountStream(*hs, c.index - hs->n, &what);
      if (b.empty()) return;
      Want w = OneShot(b);
      c.Count(w.rc ? rejd : accepted);
      auto s = c.index % 5 ? stream::Uniform(b, 1, 5000) : stream::Uniform(b, 7 + c.index % 23, 100);
      c.nontrivial |= s.calls > 1;
      c.Count(calls, s.calls);
      Compare(c, what, "in pieces", b, w, s);
    }, nullptr, 60);
  }
  // uniform chunks
  {
    static const size_t oc[] = {1, 2, 3, 5, 8, 13, 100, kInf};
    static const int NI = 64;
    r.Add("uniform", corp->size() * NI * 8, [=](vf::Case& c) {
      vf::Radix x(c.index);
      size_t cap = oc[x(8)], ic = 1 + x(NI);
      size_t k = x(corp->size());
      if (cap == 1 && (*corp)[k].jpg.size() > 2000 && ic > 2) return;
      auto s = stream::Uniform((*corp)[k].brn, ic, cap);
      c.nontrivial = s.calls > 1;
      c.Count(calls, s.calls);
      Compare(c, (*corp)[k].name, vf::Fmt("chunks of %zu, output blocks of %zu", ic, cap), (*corp)[k].brn, (*wants)[k], s);
    }, [=](uint64_t i) { vf::Radix x(i); size_t a = x(8), b = 1 + x(NI); return vf::Fmt("%s in %zu out %zu", (*corp)[x(corp->size())].name.c_str(), b, oc[a]); });
  }
  // two cuts, every pair, on the small streams
  {
    std::vector<int> sel;
    size_t lim = deep ? 500 : 200;
    for (size_t k = 0; k < corp->size(); ++k)
      if ((*corp)[k].brn.size() <= lim && (deep || (k % 2) == 1)) sel.push_back((int)k);
    std::vector<uint64_t> start;
    uint64_t n = 0;
    for (int k : sel) { start.push_back(n); uint64_t L = (*corp)[k].brn.size() + 1; n += L * L; }
    r.Add("two-cuts", n, [=](vf::Case& c) {
      size_t q = sel.size() - 1;
      while (start[q] > c.index) --q;
      auto& e = (*corp)[sel[q]];
      uint64_t L = e.brn.size() + 1, v = c.index - start[q];
      size_t a = v / L, b = v % L;
      if (a > b) return;
      auto s = stream::Chunks(e.brn, {a, b - a}, 33);
      c.nontrivial = s.calls > 2;
      c.Count(calls, s.calls);
      Compare(c, e.name, vf::Fmt("cuts at %zu and %zu", a, b), e.brn, (*wants)[sel[q]], s);
    }, [=](uint64_t i) { size_t q = sel.size() - 1; while (start[q] > i) --q; uint64_t L = (*corp)[sel[q]].brn.size() + 1; uint64_t v = i - start[q];
        return vf::Fmt("%s cuts %d %d", (*corp)[sel[q]].name.c_str(), (int)(v / L), (int)(v % L)); });
  }
  // every way to cut a window of W bytes, at every offset
  {
    const int W = deep ? 10 : 6;
    std::vector<int> sel;
    for (size_t k = 0; k < corp->size(); ++k) if (deep || k % 3 == 1) if ((*corp)[k].brn.size() < 400) sel.push_back((int)k);
    std::vector<uint64_t> start;
    uint64_t n = 0;
    for (int k : sel) { start.push_back(n); n += (uint64_t)(*corp)[k].brn.size() << (W - 1); }
    r.Add("window-cuts", n, [=](vf::Case& c) {
      size_t q = sel.size() - 1;
      while (start[q] > c.index) --q;
      auto& e = (*corp)[sel[q]];
      uint64_t v = c.index - start[q];
      size_t off = v >> (W - 1), mask = v & ((1u << (W - 1)) - 1);
      std::vector<size_t> ch = {off};
      size_t run = 1;
      for (int k = 0; k < W - 1; ++k) {
        if (mask >> k & 1) { ch.push_back(run); run = 1; } else ++run;
      }
      ch.push_back(run);
      auto s = stream::Chunks(e.brn, ch, 50);
      c.nontrivial = s.calls > 1;
      c.Count(calls, s.calls);
      Compare(c, e.name, vf::Fmt("window at %zu cut by mask %#zx", off, mask), e.brn, (*wants)[sel[q]], s);
    }, [=](uint64_t i) { size_t q = sel.size() - 1; while (start[q] > i) --q; return vf::Fmt("%s window %llu", (*corp)[sel[q]].name.c_str(), (unsigned long long)(i - start[q])); });
  }
  // schedules of (chunk, capacity) pairs over a small alphabet, repeated
  {
    static const size_t ia[] = {0, 1, 3, 17, 600, 601}, oa[] = {0, 1, 10, 4000};
    const int A = 24, D = deep ? 3 : 2;
    uint64_t per = 1;
    for (int k = 0; k < D; ++k) per *= A;
    std::vector<int> sel;
    for (size_t k = 0; k < corp->size(); ++k) sel.push_back((int)k);
    r.Add("mixed-schedules", per * sel.size(), [=](vf::Case& c) {
      vf::Radix x(c.index);
      std::vector<size_t> is, os;
      for (int k = 0; k < D; ++k) { size_t a = x(A); is.push_back(ia[a % 6]); os.push_back(oa[a / 6]); }
      // at least one non-zero of each so that the schedule makes progress
      size_t si = 0, so = 0;
      for (auto v : is) si += v;
      for (auto v : os) so += v;
      auto& e = (*corp)[sel[x(sel.size())]];
      size_t idx = &e - &(*corp)[0];
      if (!si || !so || (so < 20 && e.jpg.size() > 2000)) return;
      auto s = stream::Run(e.brn, [&](size_t k) { return is[k % D]; }, [&](size_t k) { return os[k % D]; });
      c.nontrivial = s.calls > 1;
      c.Count(calls, s.calls);
      std::string how = "repeating (in,out):";
      for (int k = 0; k < D; ++k) how += vf::Fmt(" (%zu,%zu)", is[k], os[k]);
      Compare(c, e.name, how, e.brn, (*wants)[idx], s);
    }, nullptr);
  }
  // every byte replaced by every value in turn: same verdict however cut
  {
    std::vector<int> sel;
    std::vector<std::string> names = {"meta-v2", "420-v0", "padding-v2", "intermarker-v2", "bypass-2", "prog-v2", "quant16-v2", "resets-v2", "comp-id-v2"};
    for (size_t k = 0; k < corp->size(); ++k)
      for (auto& nm : names) if ((*corp)[k].name == nm) sel.push_back((int)k);
    
    static const uint8_t vals[] = {0x00, 0x01, 0x7f, 0x80, 0xff};
    const int V = deep ? 256 : 13;
    std::vector<uint64_t> start;
    uint64_t n = 0;
    for (int k : sel) { start.push_back(n); n += (*corp)[k].brn.size() * V; }
    r.Add("one-byte-changed", n, [=](vf::Case& c) {
      size_t q = sel.size() - 1;
      while (start[q] > c.index) --q;
      auto& e = (*corp)[sel[q]];
      uint64_t v = c.index - start[q];
      size_t at = v / V, w = v % V;
      Bytes b = e.brn;
      uint8_t nv = deep ? (uint8_t)w : w < 5 ? vals[w] : (uint8_t)(b[at] ^ (1 << (w - 5)));
      if ((uint8_t)b[at] == nv) return;
      b[at] = (char)nv;
      Want one = OneShot(b);
      c.Count(one.rc ? rejd : accepted);
      for (int mode = 0; mode < 3; ++mode) {
        auto s = mode == 0 ? stream::Uniform(b, 1, 1000) : mode == 1 ? stream::Chunks(b, {at}, 97) : stream::Uniform(b, kInf, kInf);
        c.nontrivial |= s.calls > 1;
        c.Count(calls, s.calls);
        // A stream the one-shot decoder accepts but cannot serialize is not a success either way.
        Compare(c, e.name, vf::Fmt("byte %zu := %#x, mode %d", at, nv, mode), b, one, s);
      }
    }, [=](uint64_t i) { size_t q = sel.size() - 1; while (start[q] > i) --q; return vf::Fmt("%s change %llu", (*corp)[sel[q]].name.c_str(), (unsigned long long)(i - start[q])); }, 60);
  }
  // wide variety of files, a few schedules each
  {
    std::vector<fam::Family> fs = {fam::HuffmanSlots(deep), fam::MetaSingles(StockIcc()), fam::MarkerInsert(deep), fam::EobRuns(false), fam::ScanParams(false), fam::QuantQuality(false), fam::Geometry(false)};
    for (auto& f : fs) {
      auto fp = std::make_shared<fam::Family>(f);
      uint64_t stride = 1;
      if (!deep) stride = std::max<uint64_t>(1, f.size / 6000);
      r.Add("family-" + f.name, (f.size + stride - 1) / stride, [=](vf::Case& c) {
        fam::Made m = fp->make(c.index * stride);
        if (!m.valid) return;
        brunsli::JPEGData jpg;
        if (!codec::Read(m.jpg, &jpg)) return;
        if (c.index & 1) jpg.version = 2;
        Bytes brn;
        if (!codec::Encode(jpg, &brn)) return;
        Want one = OneShot(brn);
        c.Count(one.rc ? rejd : accepted);
        c.hash = vf::Fnv(brn);
        for (int mode = 0; mode < 3; ++mode) {
          auto s = mode == 0 ? stream::Uniform(brn, 1, 1000) : mode == 1 ? stream::Uniform(brn, 11, 97) : stream::Uniform(brn, kInf, kInf);
          c.nontrivial |= s.calls > 1;
          c.Count(calls, s.calls);
          Compare(c, m.desc, vf::Fmt("mode %d", mode), brn, one, s);
        }
      }, [=](uint64_t i) { return fp->make(i * stride).desc; }, 60);
    }
  }
  return r.Main();
}
