// C06: damaged or hostile Brunsli input is handled safely.
#include <brotli/encode.h>
#include <memory>
#include "corpus.h"
#include "crafted.h"
#include "families.h"
#include "histmodel.h"
#include "sections.h"
#include "stream.h"
using codec::Bytes;
static void FixLengths(sec::Stream* s) {
  for (auto& e : s->header) if (e.wire == 2) e.width = 0;
  for (auto& e : s->body) if (e.wire == 2) e.width = 0;
}
int main(int argc, char** argv) {
  vf::Runner r("C06", argc, argv);
  bool deep = r.thorough();
  int ok = r.Counter("decoded_and_written"), wr = r.Counter("decoded_but_not_writable"), er = r.Counter("refused"), sd = r.Counter("streaming_done"), se = r.Counter("streaming_error"), ss = r.Counter("streaming_wants_more");
  r.rule =
      "every listed damage of every corpus stream goes through the one-shot decoder and serialiser and through the streaming decoder (whole input with a small output buffer, and one byte at a time), with AddressSanitizer, bounds/null/division/unreachable checks, exactly sized heap blocks and a time limit; "
      "non-trivial: the damaged stream still has the signature and differs from the original";
  auto check = [=](vf::Case& c, const std::string& what, const Bytes& b, int how = 3) {
    c.hash = vf::Fnv(b);
    c.nontrivial = b.compare(0, 6, sec::Sig()) == 0;
    Bytes out;
    int st = 0;
    int rc = codec::Decode(b, &out, &st);
    c.Count(rc == 0 ? ok : rc == 2 ? wr : er);
    for (int k = 0; k < 2; ++k) {
      if (!(how >> k & 1)) continue;
      stream::Result s = k ? stream::Uniform(b, 1, 1000) : stream::Uniform(b, (size_t)1 << 40, 333);
      c.Count(s.end == stream::kDone ? sd : s.end == stream::kError ? se : ss);
      if (!s.contract.empty()) { c.Fail("contract", what + ": " + s.contract, b); return; }
      if (s.end == stream::kStalled) { c.Fail("stalled", what + ": streaming decoder makes no progress", b); return; }
      // a bit more: agreement of verdicts is C04's and C09's business
    }
  };
  struct File { std::string name; Bytes b; sec::Stream s; };
  auto files = std::make_shared<std::vector<File>>();
  for (auto& e : corpus::Load()) {
    File f{e.name, e.brn, {}};
    if (!sec::Split(e.brn, &f.s)) abort();
    files->push_back(f);
  }
  auto starts = std::make_shared<std::vector<uint64_t>>();
  uint64_t total = 0;
  for (auto& f : *files) { starts->push_back(total); total += f.b.size(); }
  auto find = [=](uint64_t i) { size_t k = starts->size() - 1; while ((*starts)[k] > i) --k; return std::make_pair(k, (size_t)(i - (*starts)[k])); };
  {
    static const uint8_t sv[] = {0x00, 0x01, 0x03, 0x0f, 0x3f, 0x55, 0x7f, 0x80, 0xaa, 0xfe, 0xff};
    const int V = deep ? 256 : 11 + 8 + 2;
    r.Add("one-byte", total * V, [=](vf::Case& c) {
      auto p = find(c.index / V);
      int w = c.index % V;
      Bytes b = (*files)[p.first].b;
      uint8_t o = b[p.second];
      uint8_t n = deep ? w : w < 11 ? sv[w] : w < 19 ? o ^ (1 << (w - 11)) : w == 19 ? o + 1 : o - 1;
      if (n == o) return;
      b[p.second] = (char)n;
      check(c, vf::Fmt("%s byte %zu = %#x", (*files)[p.first].name.c_str(), p.second, n), b, deep ? 3 : 1 + (c.index % 8 == 0) * 2);
    }, [=](uint64_t i) { auto p = find(i / V); return vf::Fmt("%s byte %zu variant %d", (*files)[p.first].name.c_str(), p.second, (int)(i % V)); });
  }
  {
    const int V = 14;
    r.Add("edits", total * V, [=](vf::Case& c) {
      auto p = find(c.index / V);
      int w = c.index % V;
      Bytes b = (*files)[p.first].b;
      static const Bytes ins[] = {Bytes("\0", 1), "\xff", "\x80", Bytes("\xff\xff\xff\xff\xff\xff\xff\xff\xff\x01", 10)};
      if (w == 0) b.resize(p.second);
      else if (w < 5) b.erase(p.second, 1 << (w - 1));
      else if (w < 9) b.insert(p.second, ins[w - 5]);
      else if (w < 11) b.insert(p.second, b.substr(p.second, w == 9 ? 1 : 8));
      else { uint8_t f = w == 11 ? 0 : w == 12 ? 0xff : 0xa5; for (size_t k = p.second; k < b.size(); ++k) b[k] = (char)f; }
      check(c, vf::Fmt("%s at %zu edit %d", (*files)[p.first].name.c_str(), p.second, w), b, 1);
    }, [=](uint64_t i) { auto p = find(i / V); return vf::Fmt("%s at %zu edit %d", (*files)[p.first].name.c_str(), p.second, (int)(i % V)); });
  }
  // a section of one stream in place of that of another; also under another header
  {
    const uint64_t N = files->size();
    r.Add("splice", N * N * 7 * 2, [=](vf::Case& c) {
      vf::Radix x(c.index);
      auto &A = (*files)[x(N)], &B = (*files)[x(N)];
      int tag = 2 + (int)x(7);
      bool from_here = x(2);
      sec::Stream s = A.s;
      if (tag == 2) s.header = B.s.header;
      else if (!from_here) {
        const sec::Elem* e = B.s.Find(tag);
        bool done = false;
        for (auto& d : s.body) if (d.tag == tag) { if (e) d = *e; else d.body.clear(); done = true; }
        if (!done && e) s.body.insert(s.body.begin(), *e);
      } else {
        // all sections up to `tag` from A, the rest from B
        std::vector<sec::Elem> n;
        static const int ord[] = {4, 3, 5, 6, 7, 8};
        for (int k = 0; k < 6; ++k) { const sec::Elem* e = (k < tag - 2 ? A.s : B.s).Find(ord[k]); if (e) n.push_back(*e); }
        s.body = n;
      }
      check(c, vf::Fmt("%s with %d%s of %s", A.name.c_str(), tag, from_here ? "+" : "", B.name.c_str()), s.Put());
    }, nullptr);
  }
  // section bodies cut short or extended, lengths made consistent
  {
    struct Site { int f, e; size_t n; };
    auto sites = std::make_shared<std::vector<Site>>();
    for (size_t k = 0; k < files->size(); ++k)
      for (size_t e = 0; e < (*files)[k].s.body.size(); ++e)
        for (size_t n = 0; n <= (*files)[k].s.body[e].body.size(); ++n) sites->push_back({(int)k, (int)e, n});
    r.Add("section-cut", sites->size() * 5, [=](vf::Case& c) {
      vf::Radix x(c.index);
      int op = (int)x(5);
      auto& t = (*sites)[x(sites->size())];
      sec::Stream s = (*files)[t.f].s;
      Bytes& b = s.body[t.e].body;
      if (op == 0) b.resize(t.n);
      else if (op == 1) b.erase(t.n, 1);
      else if (op == 2) b.insert(t.n, 1, '\0');
      else if (op == 3) b.insert(t.n, 1, '\xff');
      else for (size_t k = t.n; k < b.size(); ++k) b[k] = '\xff';
      FixLengths(&s);
      check(c, vf::Fmt("%s section %d op %d at %zu", (*files)[t.f].name.c_str(), s.body[t.e].tag, op, t.n), s.Put(), 1 + (c.index % 4 == 0) * 2);
    }, nullptr);
    // two bits of the table sections at once
    struct Bit { int f, e; size_t bit; };
    auto bits = std::make_shared<std::vector<Bit>>();
    for (size_t k = 0; k < files->size(); ++k) {
      if (!deep && k % 3) continue;
      for (size_t e = 0; e < (*files)[k].s.body.size(); ++e) {
        auto& s = (*files)[k].s.body[e];
        if (s.tag == 3 || s.tag == 9) continue;
        for (size_t b = 0; b < std::min<size_t>(8 * s.body.size(), deep ? 2000 : 500); ++b) bits->push_back({(int)k, (int)e, b});
      }
    }
    const int W = deep ? 40 : 10;
    r.Add("two-bits", bits->size() * W, [=](vf::Case& c) {
      vf::Radix x(c.index);
      int d = 1 + (int)x(W);
      auto& t = (*bits)[x(bits->size())];
      sec::Stream s = (*files)[t.f].s;
      Bytes& b = s.body[t.e].body;
      size_t q = t.bit + d;
      if (q >= 8 * b.size()) return;
      b[t.bit / 8] ^= 1 << (t.bit % 8);
      b[q / 8] ^= 1 << (q % 8);
      check(c, vf::Fmt("%s section %d bits %zu and %zu flipped", (*files)[t.f].name.c_str(), s.body[t.e].tag, t.bit, q), s.Put(), c.index % 8 == 0);
    }, nullptr);
  }
  // header values
  {
    static const uint64_t dim[] = {0, 1, 8, 9, 17, 65535, 65536, 1ull << 31, (1ull << 32) - 1, 1ull << 40, 11586};
    static const uint64_t smp[] = {0, 0x00, 0x01, 0x05, 0x0f, 0x50, 0x55, 0xff, 0x111, 0x115, 0x511, 0x550, 0x5550, 0xfff, 0xffff, 1ull << 40};
    static const uint64_t ver[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 0xc, 1ull << 35};
    auto idx = std::make_shared<std::vector<int>>();
    for (size_t k = 0; k < files->size(); ++k) if (deep ? k < 34 : (k == 0 || k == 8 || k == 9 || k == 13)) idx->push_back((int)k);
    r.Add("header", idx->size() * 11 * 11 * 12 * 11, [=](vf::Case& c) {
      vf::Radix x(c.index);
      auto& f = (*files)[(*idx)[x(idx->size())]];
      int a = (int)x(11), b = (int)x(11), q = (int)x(12), v = (int)x(11);
      if (!deep && a != 2 && b != 2 && v != 0 && v != 2) return;
      sec::Stream s = f.s;
      int n = 0;
      for (auto& e : s.header) {
        if (e.tag == 1) e.value = dim[a], e.width = 0;
        if (e.tag == 2) e.value = dim[b], e.width = 0;
        if (e.tag == 3) e.value = ver[v], e.width = 0;
        if (e.tag == 4) { e.value = q < 16 ? smp[q] : 0; e.width = 0; }
        ++n;
      }
      check(c, vf::Fmt("%s %llux%llu version %llu sampling %#llx", f.name.c_str(), (unsigned long long)dim[a], (unsigned long long)dim[b], (unsigned long long)ver[v], (unsigned long long)smp[q]), s.Put(), 1);
    }, nullptr, 60);
  }
  // short section bodies
  {
    auto base = std::make_shared<std::vector<int>>();
    for (size_t k = 0; k < files->size(); ++k) if (deep ? k < 32 : k == 9 || k == 11) base->push_back((int)k);
    r.Add("short-body", base->size() * 6 * (1 + 256 + 65536), [=](vf::Case& c) {
      vf::Radix x(c.index);
      uint64_t n = x(1 + 256 + 65536);
      int tag = 3 + (int)x(6);
      auto& f = (*files)[(*base)[x(base->size())]];
      Bytes body;
      if (n >= 257) { body += (char)((n - 257) & 255); body += (char)((n - 257) >> 8); }
      else if (n >= 1) body += (char)(n - 1);
      sec::Stream s = f.s;
      bool done = false;
      for (auto& e : s.body) if (e.tag == tag) e.body = body, e.width = 0, done = true;
      if (!done) s.body.insert(s.body.begin() + 1, sec::Section(tag, body));
      check(c, vf::Fmt("%s section %d = %s", f.name.c_str(), tag, vf::Hex(body).c_str()), s.Put(), c.index % 16 == 0);
    }, nullptr);
  }
  // metadata contents behind the Brotli layer
  {
    uint64_t n = crafted::MetaCount(deep ? 5 : 4);
    auto base = std::make_shared<std::vector<int>>();
    for (size_t k = 0; k < files->size(); ++k) if ((*files)[k].name == "meta-v2" || (*files)[k].name == "no-meta-v2") base->push_back((int)k);
    r.Add("metadata", n * base->size(), [=](vf::Case& c) {
      vf::Radix x(c.index);
      auto& f = (*files)[(*base)[x(base->size())]];
      Bytes m = crafted::MetaText(x(n));
      check(c, f.name + " metadata " + vf::Hex(m), crafted::WithMeta(f.s, crafted::MetaBody(m)), 1 + (c.index % 8 == 0) * 2);
    }, nullptr);
    r.Add("metadata-size", crafted::kMetaSizes, [=](vf::Case& c) {
      std::string what;
      Bytes body = crafted::MetaSizeBody(c.index, &what);
      check(c, what, crafted::WithMeta((*files)[(*base)[0]].s, body));
    }, nullptr, 60);
  }
  // tiny streams
  {
    static const uint8_t al[] = {0x00, 0x01, 0x02, 0x08, 0x0a, 0x10, 0x12, 0x18, 0x1a, 0x20, 0x22, 0x2a, 0x32, 0x3a, 0x42, 0x4a, 0x4b, 0x52, 0x7f, 0x80, 0xff};
    const int A = 21, D = deep ? 5 : 4;
    uint64_t n = 0, k = 1;
    for (int d = 0; d <= D; ++d) n += k, k *= A;
    r.Add("tiny", n * 2, [=](vf::Case& c) {
      uint64_t i = c.index / 2, k = 1;
      int d = 0;
      while (i >= k) { i -= k; k *= A; ++d; }
      Bytes b;
      while (d--) { b += (char)al[i % A]; i /= A; }
      // either right after the signature, or after a complete header
      Bytes p = sec::Sig();
      if (c.index & 1) p += (*files)[0].s.HeaderBytes();
      check(c, "tiny " + vf::Hex(p + b), p + b, 1 + (c.index % 8 == 0) * 2);
    }, nullptr);
    // well-formed sections with unusual fields
    auto cr = crafted::Make(corpus::Load(), deep);
    if (!cr->broken.empty()) { fprintf(stderr, "section model does not match %s\n", cr->broken.c_str()); return 2; }
    for (int two = 0; two < 2; ++two)
      r.Add(two ? "fields-pairs" : "fields", two ? cr->n2 : cr->n1, [=](vf::Case& c) {
        std::string what;
        Bytes b = crafted::Stream(*cr, two, c.index, &what);
        if (!b.empty()) check(c, what, b, two ? c.index % 16 == 0 : 3);
      }, nullptr);
    // damage in unusual context maps and histograms
    auto hs = hist::Make(corpus::Load(), deep, {"tiny-zero-v0"});
    if (!hs->broken.empty()) { fprintf(stderr, "histogram model does not match %s\n", hs->broken.c_str()); return 2; }
    const uint64_t step = deep ? 7 : 61, V = 8 * 40;
    r.Add("histogram-damaged", hs->n / step * V, [=](vf::Case& c) {
      std::string what;
      Bytes b = hist::Stream(*hs, c.index / V * step, &what);
      if (b.empty()) return;
      sec::Stream s;
      if (!sec::Split(b, &s)) return;
      for (auto& e : s.body) {
        if (e.tag != sec::HIST) continue;
        // the first bytes hold the code, the last ones the histograms
        size_t k = c.index % V / 8, at = k < 30 ? k : e.body.size() - 1 - (k - 30) * 2;
        if (at >= e.body.size()) return;
        e.body[at] ^= (char)(1 << c.index % 8);
      }
      check(c, vf::Fmt("%s, damage %d", what.c_str(), (int)(c.index % V)), s.Put(), c.index % 32 == 0 ? 2 : 0);
    }, nullptr, 60);
    // undamaged streams that take the serialiser's buffers to their ends
    for (auto& f : {fam::ChunkEdges(deep), fam::OutputEdges(deep), fam::LongEob(deep), fam::RefineBits(deep)}) {
      auto fp = std::make_shared<fam::Family>(f);
      r.Add(f.name, f.size, [=](vf::Case& c) {
        fam::Made m = fp->make(c.index);
        if (!m.valid) return;
        Bytes b;
        brunsli::JPEGData j;
        if (!codec::Read(m.jpg, &j)) return;
        j.version = (c.index & 1) * 2;
        if (!codec::Encode(j, &b)) return;
        check(c, m.desc, b, 1);
      }, [=](uint64_t i) { return fp->make(i).desc; }, f.limit);
    }
    r.Add("signature", 6 * 256 + 7, [=](vf::Case& c) {
      Bytes b = (*files)[1].b;
      if (c.index < 6 * 256) b[c.index / 256] = (char)(c.index % 256);
      else b.resize(c.index - 6 * 256);
      check(c, vf::Fmt("signature variant %d", (int)c.index), b);
    }, nullptr);
  }
  return r.Main();
}
