// C35: adaptive binary coding - the probability estimates, the arithmetic decoder and the bits kept beside it.
#include <common/platform.h>
#include <common/distributions.h>
#include <dec/brunsli_input.h>
#include <dec/arith_decode.h>
#include <memory>
#include <vector>
#include <unordered_set>
#include "runner.h"
using brunsli::Prob;
namespace {
// What the format says of an estimate: two counters, and their quotient by way of a table of reciprocals.
struct Model {
  uint32_t total = 3, count = 3 * 134, prob = 134;
  void Init(uint32_t p) { total = 3; count = 3 * p; prob = p; }
  void Add(int bit) {
    ++total;
    count += bit ? 1 : 256;
    prob = count * ((1u << 17) / total) >> 17;
    if (total == 254) { count >>= 1; total = 127; }
  }
};
// The coder the format is defined by.
struct Coder {
  uint32_t lo = 0, hi = ~0u;
  std::vector<uint16_t> words;
  void Bit(uint32_t prob, int bit) {
    uint32_t split = lo + (uint32_t)((uint64_t)(hi - lo) * prob >> 8);
    if (bit) lo = split + 1; else hi = split;
    if (!((lo ^ hi) >> 16)) { words.push_back((uint16_t)(hi >> 16)); lo <<= 16; hi = hi << 16 | 0xffff; }
  }
  void Flush() { words.push_back((uint16_t)(hi >> 16)); words.push_back((uint16_t)hi); }
};
struct Step { uint8_t prob; uint8_t bit; };
// Decodes and compares; after the bits come |tail| words that belong to others.
void RoundTrip(vf::Case& c, const std::vector<Step>& s, int odd) {
  Coder e;
  for (auto& x : s) e.Bit(x.prob, x.bit);
  e.Flush();
  size_t n = e.words.size() * 2;
  uint8_t* b = (uint8_t*)malloc(n + odd);  // exactly sized; an odd byte at the end is nobody's
  for (size_t k = 0; k < e.words.size(); ++k) { b[2 * k] = (uint8_t)e.words[k]; b[2 * k + 1] = (uint8_t)(e.words[k] >> 8); }
  if (odd) b[n] = 0xff;
  brunsli::WordSource in(b, n + odd, true);
  brunsli::BinaryArithmeticDecoder d;
  d.Init(&in);
  auto show = [&](size_t upto) {
    std::string t;
    for (size_t k = upto > 40 ? upto - 40 : 0; k <= upto; ++k) t += vf::Fmt("%d@%d ", s[k].bit, s[k].prob);
    return t;
  };
  size_t bad = s.size();
  for (size_t k = 0; k < s.size(); ++k) if (d.ReadBit(s[k].prob, &in) != s[k].bit) { bad = k; break; }
  bool past = in.error_;
  size_t pos = in.pos_;
  free(b);
  if (bad < s.size()) return c.Fail("bit", vf::Fmt("bit %zu of %zu comes back different: %s", bad, s.size(), show(bad).c_str()));
  if (past) return c.Fail("past-end", "the decoder reads more words than were written: " + show(s.size() - 1));
  if (pos != n) return c.Fail("position", vf::Fmt("the decoder stands at byte %zu of %zu: %s", pos, n, s.empty() ? "" : show(s.size() - 1).c_str()));
}
}  // namespace

int main(int argc, char** argv) {
  vf::Runner r("C35", argc, argv);
  bool deep = r.thorough();
  int states = r.Counter("estimate_states"), trans = r.Counter("estimate_transitions");
  r.rule = "estimates: every state reachable from every start value is visited, in step with a model; coder: every sequence of (probability, bit) up to a length behind every listed history is coded by the model and decoded; "
           "non-trivial: at least one bit";
  r.assumptions = {"the model of the coder is the one of the repository's own test"};
  // every state reachable from one start value (the 256-th: the default), by breadth-first search
  r.Add("estimates", 257, [=](vf::Case& c) {
    struct Node { Prob p; Model m; };
    std::vector<std::vector<bool>> seen(256, std::vector<bool>(65536));
    std::vector<Node> cur, next;
    Node n0;
    if (c.index < 256) { n0.p.Init((uint8_t)c.index); n0.m.Init((uint32_t)c.index); }
    cur.push_back(n0);
    seen[n0.m.total][n0.m.count] = true;
    uint64_t ns = 1, nt = 0;
    c.nontrivial = true;
    c.hash = c.index;
    if (n0.p.get_proba() != n0.m.prob) return c.Fail("start", vf::Fmt("start value %d: estimate %d instead of %u", (int)c.index, n0.p.get_proba(), n0.m.prob));
    while (!cur.empty()) {
      next.clear();
      for (auto& n : cur) for (int bit = 0; bit < 2; ++bit) {
        Node k = n;
        k.p.Add(bit);
        k.m.Add(bit);
        ++nt;
        if (k.p.get_proba() != k.m.prob || k.m.prob > 255) return c.Fail("estimate", vf::Fmt("start value %d, counters %u/%u, bit %d: estimate %d instead of %u", (int)c.index, n.m.count, n.m.total, bit, k.p.get_proba(), k.m.prob));
        if (k.m.count > 65535) return c.Fail("counter", vf::Fmt("start value %d, counters %u/%u: overflow", (int)c.index, n.m.count, n.m.total));
        if (seen[k.m.total][k.m.count]) continue;
        seen[k.m.total][k.m.count] = true;
        ++ns;
        next.push_back(k);
      }
      cur.swap(next);
    }
    c.Count(states, ns);
    c.Count(trans, nt);
  });
  static const uint8_t kProb[] = {0, 1, 127, 128, 200, 254, 255};
  {
    const int D = deep ? 6 : 5;
    uint64_t n = 1;
    for (int k = 0; k < D; ++k) n *= 14;
    // histories that leave the coder's interval in all kinds of places: |k| times one step, then another
    const int H = 25 * 16;
    r.Add("sequences", n, [=](vf::Case& c) {
      std::vector<Step> s;
      uint64_t i = c.index;
      for (int k = 0; k < D; ++k) { s.push_back({kProb[i % 14 / 2], (uint8_t)(i & 1)}); i /= 14; }
      c.nontrivial = true;
      c.hash = c.index;
      RoundTrip(c, s, c.index % 3 == 0);
    });
    r.Add("histories", (uint64_t)H * 14 * 14 * 14, [=](vf::Case& c) {
      static const Step kA[] = {{255, 0}, {255, 1}, {0, 0}, {0, 1}, {128, 0}, {128, 1}, {127, 1}, {85, 0}, {170, 1}, {254, 0}, {1, 1}, {3, 0}, {200, 1}, {77, 1}, {131, 0}, {252, 0}};
      vf::Radix x(c.index);
      Step a = kA[x(16)];
      int n = (int)x(25);
      n = n < 18 ? n : n < 24 ? 1 << (n - 13) : 5000;
      std::vector<Step> s;
      for (int k = 0; k < n; ++k) s.push_back(a);
      for (int k = 0; k < 3; ++k) { uint64_t v = x(14); s.push_back({kProb[v / 2], (uint8_t)(v & 1)}); }
      for (int k = 0; k < 12; ++k) s.push_back({(uint8_t)(90 + 7 * k), (uint8_t)(k * 5 >> 2 & 1)});
      c.nontrivial = true;
      c.hash = c.index;
      RoundTrip(c, s, 0);
    });
    r.Add("straddle", 65536 * (deep ? 8 : 2), [=](vf::Case& c) {  // steps that keep the interval across a word boundary and shrink it
      std::vector<Step> s;
      Coder e;
      uint64_t bits = c.index & 0xffff;
      int kind = (int)(c.index >> 16);
      for (int k = 0; k < 48; ++k) {
        uint8_t p = (uint8_t)(kind & 1 ? 255 - k % 3 : 128 + (k * 37 + kind) % 64);
        if (kind & 4) p = (uint8_t)(k % 5);
        // prefer the side that keeps the boundary between the ends, unless the case says otherwise
        uint32_t split = e.lo + (uint32_t)((uint64_t)(e.hi - e.lo) * p >> 8);
        int keep = ((e.lo ^ split) >> 16) ? 0 : 1;
        int bit = keep ^ (k >= 8 && k % 3 == 0 ? bits >> (k / 3) & 1 : kind & 2 ? bits >> (k & 15) & 1 : 0);
        s.push_back({p, (uint8_t)bit});
        e.Bit(p, bit);
      }
      c.nontrivial = true;
      c.hash = c.index;
      RoundTrip(c, s, 0);
    });
    // the estimates and the coder together, as the codec uses them
    const int A = deep ? 20 : 16;
    r.Add("adaptive", ((uint64_t)1 << A) * 3, [=](vf::Case& c) {
      uint64_t i = c.index / 3;
      int kind = (int)(c.index % 3), n = kind == 2 ? 40 * A : 3 * A;
      Coder e;
      Model m[2][3];
      std::vector<int> bits;
      for (int k = 0; k < n; ++k) bits.push_back((int)(i >> (kind == 1 ? k / 3 : k) % A & 1));
      auto ctx = [&](int k) { return kind == 0 ? 0 : k % 3; };
      for (int k = 0; k < n; ++k) { Model& p = m[0][ctx(k)]; e.Bit(p.prob, bits[k]); p.Add(bits[k]); }
      e.Flush();
      std::vector<uint8_t> b;
      for (auto w : e.words) { b.push_back((uint8_t)w); b.push_back((uint8_t)(w >> 8)); }
      brunsli::WordSource in(b.data(), b.size(), true);
      brunsli::BinaryArithmeticDecoder d;
      d.Init(&in);
      Prob q[3];
      c.nontrivial = true;
      c.hash = c.index;
      for (int k = 0; k < n; ++k) {
        int got = d.ReadBit(q[ctx(k)].get_proba(), &in);
        q[ctx(k)].Add(got);
        if (got != bits[k]) return c.Fail("adaptive", vf::Fmt("bit %d of %d of pattern %#llx kind %d", k, n, (unsigned long long)i, kind));
      }
      if (in.error_ || in.pos_ != b.size()) c.Fail("position", vf::Fmt("pattern %#llx kind %d: the decoder stands at byte %zu of %zu", (unsigned long long)i, kind, (size_t)in.pos_, b.size()));
    });
  }
  {
    // raw bits taken from the same words, a word at a time and only when needed; in between, words taken by others
    const int D = deep ? 6 : 5;
    uint64_t n = 1;
    for (int k = 0; k < D; ++k) n *= 18;
    r.Add("raw-bits", n * 4, [=](vf::Case& c) {
      static const int kSizes[] = {1, 2, 3, 4, 8, 15, 16, 0, 11};  // and each followed by a word for others
      uint64_t i = c.index / 4;
      int len = 2 * D, odd = (int)(c.index & 1), pat = (int)(c.index >> 1 & 1);
      uint8_t* b = (uint8_t*)malloc(2 * len + odd);
      for (int k = 0; k < 2 * len + odd; ++k) b[k] = (uint8_t)(pat ? k * 37 + 211 : 255 - k);
      brunsli::WordSource in(b, 2 * len + odd, false);
      brunsli::BitSource bits;
      size_t at = 0;  // model: words taken
      auto word = [&](size_t k) { return (uint32_t)(b[2 * k] | b[2 * k + 1] << 8); };
      uint64_t buf = word(at++);
      int have = 16;
      bits.Init(&in);
      std::string t, err;
      for (int k = 0; k < D && err.empty(); ++k) {
        int v = (int)(i % 18);
        i /= 18;
        int want = kSizes[v / 2];
        t += vf::Fmt(" %d%s", want, v & 1 ? "+word" : "");
        while (have < want) { buf |= (uint64_t)word(at++) << have; have += 16; }
        uint32_t got = bits.ReadBits(want, &in);
        if (got != (buf & ((1u << want) - 1))) err = vf::Fmt("bits %#x instead of %#llx", got, (unsigned long long)(buf & ((1u << want) - 1)));
        buf >>= want;
        have -= want;
        if (v & 1 && err.empty()) { uint32_t w = in.GetNextWord(); if (w != word(at)) err = vf::Fmt("word %#x instead of %#x", w, word(at)); ++at; }
        if (err.empty() && in.pos_ != 2 * at) err = vf::Fmt("%zu bytes taken instead of %zu", (size_t)in.pos_, 2 * at);
        if (err.empty()) for (size_t q = 0; q < 2 * D + 2u; ++q) if (in.CanRead(q) != (at + q <= (size_t)len)) err = vf::Fmt("%zu words can%s be read after %zu of %d", q, in.CanRead(q) ? "" : "not", at, len);
      }
      if (err.empty() && bits.Finish() != (buf == 0)) err = vf::Fmt("%d bits %#llx left over: finish says %d", have, (unsigned long long)buf, buf != 0);
      if (err.empty()) {
        while (at < (size_t)len) { if (in.GetNextWord() != word(at) || in.error_) err = "words lost"; ++at; }
        if (err.empty() && (in.GetNextWord() != 0 || !in.error_)) err = "reading past the end goes unnoticed";
      }
      free(b);
      c.nontrivial = true;
      c.hash = c.index;
      if (!err.empty()) c.Fail("raw-bits", vf::Fmt("%d bytes, pattern %d, reading%s: %s", 2 * len + odd, pat, t.c_str(), err.c_str()));
    });
  }
  // every transition of the model is taken by the implementation as well
  r.extra["states"] = "$estimate_states";
  r.extra["transitions"] = "$estimate_transitions";
  r.extra["traces_validated_against_impl"] = "$estimate_transitions";
  return r.Main();
}
