// C07: damaged JPEG input is refused or reproduced.
#include "codec.h"
#include <memory>
#include <set>
#include "corpus.h"
#include "families.h"
#include "jmodel.h"
#include "stock_icc.h"
#include <brunsli/decode.h>
#include <brunsli/encode.h>
using codec::Bytes;
struct File { std::string name; Bytes jpg; };
int main(int argc, char** argv) {
  vf::Runner r("C07", argc, argv);
  bool deep = r.thorough();
  int acc = r.Counter("parsed"), rej = r.Counter("refused_by_parser"), enc = r.Counter("transcoded"), eref = r.Counter("refused_by_encoder");
  r.rule = "every listed damage of every corpus file is parsed, serialised, encoded and decoded under AddressSanitizer and bounds checks; whatever is accepted must come back as the damaged file itself; non-trivial: the damaged file got past the signature and differs from the original";
  auto check = [=](vf::Case& c, const std::string& what, const Bytes& jpg) {
    c.hash = vf::Fnv(jpg);
    brunsli::JPEGData j;
    if (!codec::Read(jpg, &j)) {
      c.Count(rej);
      c.nontrivial = j.error != brunsli::JPEGReadError::SOI_NOT_FOUND;
      if (j.error == brunsli::JPEGReadError::OK) c.Fail("no-reason", what + ": refused without an error code", jpg);
      return;
    }
    c.Count(acc);
    c.nontrivial = true;
    Bytes back;
    brunsli::JPEGOutput w(codec::StringSink, &back);
    if (!brunsli::WriteJpeg(j, w)) { c.Fail("not-writable", what + ": accepted but cannot be serialised", jpg); return; }
    if (back != jpg) { c.Fail("altered", vf::Fmt("%s: accepted and serialised as a different file (first difference at %zu)", what.c_str(), codec::FirstDiff(back, jpg)), jpg); return; }
    for (int v : {0, 2}) {
      if (!deep && v != (int)(c.index & 1) * 2) continue;
      j.version = v;
      Bytes brn, out;
      if (!codec::Encode(j, &brn)) { c.Count(eref); return; }
      c.Count(enc);
      int st = 0;
      int rc = codec::Decode(brn, &out, &st);
      if (rc) { c.Fail("not-decodable", vf::Fmt("%s: encoded (version %d) but not decodable (rc %d status %d)", what.c_str(), v, rc, st), jpg); return; }
      if (out != jpg) { c.Fail("altered-by-brunsli", vf::Fmt("%s: version %d decodes to a different file, at %zu", what.c_str(), v, codec::FirstDiff(out, jpg)), jpg); return; }
    }
  };
  auto files = std::make_shared<std::vector<File>>();
  {
    std::set<Bytes> seen;
    for (auto& e : corpus::Load()) if (e.kind == 0 && seen.insert(e.jpg).second && e.jpg.size() < 2500) files->push_back({e.name, e.jpg});
  }
  auto starts = std::make_shared<std::vector<uint64_t>>();
  uint64_t total = 0;
  for (auto& f : *files) { starts->push_back(total); total += f.jpg.size(); }
  auto find = [=](uint64_t i) { size_t k = starts->size() - 1; while ((*starts)[k] > i) --k; return std::make_pair(k, (size_t)(i - (*starts)[k])); };
  // one byte replaced
  {
    static const uint8_t sv[] = {0x00, 0x01, 0x02, 0x03, 0x04, 0x10, 0x11, 0x3f, 0x40, 0x7f, 0x80, 0xfe, 0xff, 0xd9, 0xda, 0xc4, 0xc2, 0xd0};
    const int V = deep ? 256 : 18 + 8 + 2;
    r.Add("one-byte", total * V, [=](vf::Case& c) {
      auto p = find(c.index / V);
      int w = c.index % V;
      Bytes b = (*files)[p.first].jpg;
      uint8_t o = b[p.second];
      uint8_t n = deep ? w : w < 18 ? sv[w] : w < 26 ? o ^ (1 << (w - 18)) : w == 26 ? o + 1 : o - 1;
      if (n == o) return;
      b[p.second] = (char)n;
      check(c, vf::Fmt("%s byte %zu = %#x", (*files)[p.first].name.c_str(), p.second, n), b);
    }, [=](uint64_t i) { auto p = find(i / V); return vf::Fmt("%s byte %zu variant %d", (*files)[p.first].name.c_str(), p.second, (int)(i % V)); }, 20);
  }
  // truncation, deletion, insertion, duplication
  {
    const int V = 16;
    static const Bytes ins[] = {Bytes("\0", 1), "\xff", Bytes("\xff\0", 2), "\xff\xd9", "\xff\xd0", Bytes("\xff\xe5\0\2", 4), Bytes("\xff\xc4\0\2", 4), "\xff\xff"};
    r.Add("edits", total * V, [=](vf::Case& c) {
      auto p = find(c.index / V);
      int w = c.index % V;
      Bytes b = (*files)[p.first].jpg;
      std::string t;
      if (w == 0) { b.resize(p.second); t = "truncated"; }
      else if (w < 5) { b.erase(p.second, w); t = vf::Fmt("%d bytes deleted", w); }
      else if (w < 13) { b.insert(p.second, ins[w - 5]); t = "inserted " + vf::Hex(ins[w - 5]); }
      else { int n = w == 13 ? 1 : w == 14 ? 2 : 16; b.insert(p.second, b.substr(p.second, n)); t = vf::Fmt("%d bytes doubled", n); }
      check(c, vf::Fmt("%s at %zu: %s", (*files)[p.first].name.c_str(), p.second, t.c_str()), b);
    }, [=](uint64_t i) { auto p = find(i / V); return vf::Fmt("%s at %zu edit %d", (*files)[p.first].name.c_str(), p.second, (int)(i % V)); }, 20);
  }
  // whole segments: dropped, doubled, moved, swapped, taken from another file
  {
    struct Seg { size_t f; Bytes b; bool scan; };
    auto segs = std::make_shared<std::vector<std::vector<Bytes>>>();
    for (auto& f : *files) {
      std::vector<Bytes> v;
      const Bytes& b = f.jpg;
      size_t p = 2;
      while (p + 1 < b.size()) {
        size_t q = p + 2;
        int m = (uint8_t)b[p + 1];
        if ((uint8_t)b[p] != 0xff) { v.push_back(b.substr(p)); break; }
        if (m == 0xd9) { v.push_back(b.substr(p, 2)); p += 2; if (p < b.size()) v.push_back(b.substr(p)); break; }
        if (m < 0xd0 || m > 0xd8) q += (uint8_t)b[p + 2] * 256 + (uint8_t)b[p + 3];
        if (m == 0xda) while (q + 1 < b.size() && !((uint8_t)b[q] == 0xff && b[q + 1] != 0 && ((uint8_t)b[q + 1] & 0xf8) != 0xd0)) ++q;
        if (q > b.size()) q = b.size();
        v.push_back(b.substr(p, q - p));
        p = q;
      }
      segs->push_back(v);
    }
    // own-segment surgery
    std::vector<std::pair<int, uint64_t>> st;
    uint64_t n = 0;
    for (size_t k = 0; k < segs->size(); ++k) { st.push_back({(int)k, n}); uint64_t s = (*segs)[k].size(); n += s * s * 3; }
    r.Add("segment-surgery", n, [=](vf::Case& c) {
      size_t q = st.size() - 1;
      while (st[q].second > c.index) --q;
      auto v = (*segs)[q];
      size_t s = v.size();
      uint64_t i = c.index - st[q].second;
      size_t a = i % s, b = i / s % s;
      int op = (int)(i / s / s);
      if (op == 0) { if (a == b) v.erase(v.begin() + a); else std::swap(v[a], v[b]); }
      else if (op == 1) v.insert(v.begin() + b, Bytes(v[a]));
      else { Bytes t = v[a]; v.erase(v.begin() + a); v.insert(v.begin() + std::min(b, v.size()), t); }
      Bytes j("\xff\xd8");
      for (auto& x : v) j += x;
      check(c, vf::Fmt("%s segments op %d (%zu,%zu)", (*files)[q].name.c_str(), op, a, b), j);
    }, nullptr, 20);
    // a segment of one file put into another, replacing or added
    auto pool = std::make_shared<std::vector<Bytes>>();
    { std::set<Bytes> seen; for (auto& v : *segs) for (auto& s : v) if (s.size() < 500 && seen.insert(s).second) pool->push_back(s); }
    uint64_t P = pool->size();
    std::vector<uint64_t> st2;
    n = 0;
    for (auto& v : *segs) { st2.push_back(n); n += v.size() * P * 2; }
    r.Add("segment-transplant", n, [=](vf::Case& c) {
      size_t q = st2.size() - 1;
      while (st2[q] > c.index) --q;
      auto v = (*segs)[q];
      uint64_t i = c.index - st2[q];
      const Bytes& s = (*pool)[i % P];
      size_t a = i / P % v.size();
      int op = (int)(i / P / v.size());
      if (op == 0) v[a] = s; else v.insert(v.begin() + a, s);
      Bytes j("\xff\xd8");
      for (auto& x : v) j += x;
      check(c, vf::Fmt("%s segment %zu %s segment %d of the pool", (*files)[q].name.c_str(), a, op ? "preceded by" : "replaced by", (int)(i % P)), j);
    }, nullptr, 20);
  }
  // a table defined twice in a slot: nothing of the first one may remain
  {
    typedef std::vector<std::pair<int, int>> Shape;  // (length, words)
    static const Shape shapes[] = {
        {{1, 1}, {2, 1}, {3, 1}, {4, 1}, {5, 1}, {6, 1}, {7, 1}, {8, 1}, {9, 1}, {10, 1}, {11, 1}, {12, 1}, {13, 1}, {14, 1}, {15, 1}, {16, 1}},
        {{1, 1}, {2, 1}, {3, 1}, {4, 1}, {5, 1}, {6, 1}, {7, 1}, {9, 2}},
        {{1, 1}}, {{1, 1}, {3, 1}}, {{2, 3}}, {{8, 200}}, {{8, 255}}, {{9, 150}}, {{16, 162}}, {{4, 15}}, {{1, 1}, {16, 1}},
        {{1, 1}, {2, 1}, {3, 1}, {4, 1}, {5, 1}, {6, 1}, {7, 1}, {8, 1}, {10, 1}},
        {{2, 1}, {3, 1}, {9, 60}, {10, 40}}, {{1, 1}, {2, 1}, {10, 100}, {16, 60}}};
    const int S = 14;
    auto table = [](int slot, const Shape& sh) {
      Bytes b(1, (char)slot);
      int cnt[17] = {0}, n = 0;
      for (auto& x : sh) cnt[x.first] = x.second;
      for (int l = 1; l <= 16; ++l) b += (char)cnt[l], n += cnt[l];
      for (int i = 0, v = 0; i < n; ++v) {
        // symbols by size, then run: 00 01 11 21 ... 02 12 ...; the others last
        int y = v < 176 ? (v % 16) << 4 | v / 16 : v;
        if (v >= 176) y = ((v - 176) % 16) << 4 | (11 + (v - 176) / 16);
        b += (char)y;
        ++i;
      }
      return gen::Marker(0xc4, b);
    };
    const int W = deep ? 15 : 10;
    r.Add("table-defined-twice", (uint64_t)S * S * 2 << W, [=](vf::Case& c) {
      vf::Radix x(c.index);
      uint64_t bits = x(1u << W);
      int kind = (int)x(2);
      const Shape &a = shapes[x(S)], &b = shapes[x(S)];
      int mid = (int)(c.index / 7 % 2);
      Bytes q(1, '\0');
      q += Bytes(64, '\1');
      Bytes dc(1, '\0');
      dc += '\1' + Bytes(15, '\0') + '\0';
      Bytes j = "\xff\xd8" + gen::Marker(0xdb, q) + gen::Marker(0xc0, Bytes("\x08\x00\x08\x00\x08\x01\x01\x11\x00", 9)) + gen::Marker(0xc4, dc);
      j += table(0x10, a);
      if (mid) j += gen::Marker(0xfe, "x");
      j += table(0x10, b) + gen::Marker(0xda, Bytes("\x01\x01\x00\x00\x3f\x00", 6));
      // DC difference 0; eight ones in front (kind 1) lead to the long words
      std::string t = "0";
      if (kind == 1) t += "11111111";
      for (int i = W; i-- > 0;) t += (bits >> i & 1) ? '1' : '0';
      t += std::string(12, '0');
      while (t.size() % 8) t += '1';
      for (size_t i = 0; i < t.size(); i += 8) { int v = 0; for (int k = 0; k < 8; ++k) v = v * 2 + (t[i + k] == '1'); j += (char)v; if (v == 255) j += '\0'; }
      j += "\xff\xd9";
      check(c, vf::Fmt("table %d, then %d, data %llu kind %d", (int)(&a - shapes), (int)(&b - shapes), (unsigned long long)bits, kind), j);
    }, [=](uint64_t i) { return vf::Fmt("data %llu", (unsigned long long)(i & ((1u << W) - 1))); });
  }
  // two fields of one segment header at once
  {
    auto sites = std::make_shared<std::vector<std::pair<size_t, size_t>>>();  // file, offset of a header byte
    for (size_t k = 0; k < files->size(); ++k) {
      const Bytes& b = (*files)[k].jpg;
      if (!deep && k % 4) continue;
      for (size_t p = 2; p + 4 < b.size(); ++p)
        if ((uint8_t)b[p] == 0xff && ((uint8_t)b[p + 1] == 0xc0 || (uint8_t)b[p + 1] == 0xc2 || (uint8_t)b[p + 1] == 0xda || (uint8_t)b[p + 1] == 0xdd || (uint8_t)b[p + 1] == 0xc4)) {
          size_t n = (uint8_t)b[p + 2] * 256 + (uint8_t)b[p + 3];
          for (size_t q = 1; q < std::min<size_t>(n + 2, 21) && p + q < b.size(); ++q) sites->push_back({k, p + q});
        }
    }
    static const uint8_t v[] = {0, 1, 2, 3, 17, 0x3f, 0x7f, 0xff};
    const int V = 8, NB = 10;
    r.Add("two-bytes", sites->size() * NB * V * V, [=](vf::Case& c) {
      vf::Radix x(c.index);
      int a = (int)x(V), b2 = (int)x(V), d = 1 + (int)x(NB);
      auto s = (*sites)[x(sites->size())];
      Bytes b = (*files)[s.first].jpg;
      if (s.second + d >= b.size()) return;
      if ((uint8_t)b[s.second] == v[a] || (uint8_t)b[s.second + d] == v[b2]) return;
      b[s.second] = (char)v[a];
      b[s.second + d] = (char)v[b2];
      check(c, vf::Fmt("%s bytes %zu=%d %zu=%d", (*files)[s.first].name.c_str(), s.second, v[a], s.second + d, v[b2]), b);
    }, nullptr, 20);
  }
  // tiny files
  {
    static const int al[] = {0x00, 0x01, 0x02, 0x03, 0x08, 0x11, 0x3f, 0xc0, 0xc2, 0xc4, 0xd8, 0xd9, 0xda, 0xdb, 0xdd, 0xe0, 0xfe, 0xff};
    const int D = deep ? 6 : 5;
    uint64_t n = 0, k = 1;
    for (int d = 0; d <= D; ++d) { n += k; k *= 18; }
    r.Add("tiny", n * 2, [=](vf::Case& c) {
      uint64_t i = c.index / 2;
      Bytes b;
      uint64_t k = 1;
      int d = 0;
      while (i >= k) { i -= k; k *= 18; ++d; }
      while (d--) { b += (char)al[i % 18]; i /= 18; }
      if (c.index & 1) b = "\xff\xd8" + b;
      check(c, "tiny file " + vf::Hex(b), b);
    }, nullptr);
  }
  // arbitrary entropy-coded bytes
  for (size_t k = 0; k < fam::RawCfgs().size(); ++k) {
    auto fp = std::make_shared<fam::Family>(fam::RawScan(deep, (int)k));
    r.Add(fp->name, fp->size, [=](vf::Case& c) { auto m = fp->make(c.index); check(c, m.desc, m.jpg); }, [=](uint64_t i) { return fp->make(i).desc; });
  }
  return r.Main();
}
