// C28: per-call contract of the streaming decoder.
#include "corpus.h"
#include "crafted.h"
#include "longs.h"
#include "stream.h"
using codec::Bytes;
static const size_t kInf = 6000;
static void Judge(vf::Case& c, const std::string& name, const Bytes& in, const stream::Result& s) {
  if (!s.contract.empty()) c.Fail("contract", vf::Fmt("%s: %s", name.c_str(), s.contract.c_str()), in);
  else if (s.end == stream::kStalled) c.Fail("stall", vf::Fmt("%s: the decoder neither finishes nor makes progress (%d calls, %zu bytes out, %zu of %zu bytes consumed)", name.c_str(), s.calls, s.out.size(), s.consumed, in.size()), in);
  else if (s.end == stream::kStarved && s.consumed != in.size()) c.Fail("unconsumed", vf::Fmt("%s: asks for more input with %zu bytes unconsumed", name.c_str(), in.size() - s.consumed), in);
  else if (s.end == stream::kDone && s.consumed != s.delivered) c.Fail("early-done", vf::Fmt("%s: reports completion with %zu offered bytes unconsumed", name.c_str(), s.delivered - s.consumed), in);
  c.nontrivial |= s.calls > 1;
}
int main(int argc, char** argv) {
  vf::Runner r("C28", argc, argv);
  bool deep = r.thorough();
  int calls = r.Counter("decoder_calls"), dn = r.Counter("ended_done"), er = r.Counter("ended_error"), sv = r.Counter("ended_needs_input");
  r.rule = "every schedule of (input chunk, output capacity) sequences listed is run on valid, damaged and truncated streams and every return of the decoder is checked against the contract automaton; non-trivial: more than one call";
  auto corp = std::make_shared<std::vector<corpus::Entry>>(corpus::Load());
  auto tally = [=](vf::Case& c, const stream::Result& s) { c.Count(calls, s.calls); c.Count(s.end == 0 ? dn : s.end == 1 ? er : sv); };
  // all sequences of D (chunk, capacity) steps, repeated until the stream ends
  {
    static const size_t ia[] = {0, 1, 5, 64, 700}, oa[] = {0, 1, 9, 500};
    const int A = 20, D = deep ? 3 : 2;
    uint64_t per = 1;
    for (int k = 0; k < D; ++k) per *= A;
    r.Add("schedules", per * corp->size(), [=](vf::Case& c) {
      vf::Radix x(c.index);
      size_t is[3], os[3], si = 0, so = 0;
      for (int k = 0; k < D; ++k) { size_t a = x(A); is[k] = ia[a % 5]; os[k] = oa[a / 5]; si += is[k]; so += os[k]; }
      auto& e = (*corp)[x(corp->size())];
      if (!si || !so || (so < 15 && e.jpg.size() > 2000)) return;
      auto s = stream::Run(e.brn, [&](size_t k) { return is[k % D]; }, [&](size_t k) { return os[k % D]; });
      tally(c, s);
      Judge(c, e.name, e.brn, s);
    });
  }
  // output granted only once at call k, nothing otherwise until then
  {
    r.Add("late-output", corp->size() * 64, [=](vf::Case& c) {
      vf::Radix x(c.index);
      size_t k0 = x(64);
      auto& e = (*corp)[x(corp->size())];
      auto s = stream::Run(e.brn, [&](size_t) { return 1 + e.brn.size() / 40; }, [&](size_t k) { return k < k0 % 32 ? 0 : k0 < 32 ? kInf : (size_t)77; });
      tally(c, s);
      Judge(c, e.name, e.brn, s);
    });
  }
  // every truncation
  {
    std::vector<uint64_t> st;
    uint64_t n = 0;
    for (auto& e : *corp) { st.push_back(n); n += e.brn.size(); }
    r.Add("truncated", n * 2, [=](vf::Case& c) {
      uint64_t v = c.index / 2;
      size_t k = st.size() - 1;
      while (st[k] > v) --k;
      Bytes b = (*corp)[k].brn.substr(0, v - st[k]);
      auto s = (c.index & 1) ? stream::Uniform(b, 1, 40) : stream::Uniform(b, kInf, kInf);
      tally(c, s);
      Judge(c, (*corp)[k].name + " truncated", b, s);
    });
  }
  // every byte damaged, and trailing bytes
  {
    std::vector<uint64_t> st;
    uint64_t n = 0;
    const int V = deep ? 256 : 40;
    for (auto& e : *corp) { st.push_back(n); n += (e.brn.size() + 3) * V; }
    r.Add("damaged", n, [=](vf::Case& c) {
      size_t k = st.size() - 1;
      while (st[k] > c.index) --k;
      uint64_t v = c.index - st[k];
      Bytes b = (*corp)[k].brn;
      size_t at = v / V;
      int w = (int)(v % V);
      if (at >= b.size()) b.append(at - b.size() + 1, (char)(w * 23));
      else if (w < 8) b[at] = (char)(b[at] ^ (1 << w));
      else b[at] = (char)(w == 8 ? 0 : w == 9 ? 255 : w * 29);
      auto s = (c.index & 1) ? stream::Uniform(b, 3, 40) : stream::Uniform(b, kInf, 1000);
      tally(c, s);
      if ((*corp)[k].kind == 0 || at < 18) {}
      Judge(c, (*corp)[k].name + " damaged", b, s);
    }, nullptr, 60);
  }
  // long sections: the decoder stops inside the coefficient data
  auto ls = std::make_shared<std::vector<corpus::Entry>>(longs::All());
  for (auto& e : longs::Clusters(2)) ls->push_back(e);
  {
    static const size_t ia[] = {61, 300, 594, 595, 596, 1000, 4096, 1u << 20}, oa[] = {29, 400, 6000, 1u << 20};
    r.Add("long", ls->size() * 32, [=](vf::Case& c) {
      vf::Radix x(c.index);
      size_t i = ia[x(8)], o = oa[x(4)];
      auto& e = (*ls)[x(ls->size())];
      if (i * o < 100) return;
      auto s = stream::Uniform(e.brn, i, o);
      tally(c, s);
      Judge(c, vf::Fmt("%s, %zu in, %zu out", e.name.c_str(), i, o), e.brn, s);
    }, nullptr, 60);
    const int N = deep ? 2000 : 200;
    r.Add("long-damaged", ls->size() * N * 3, [=](vf::Case& c) {
      vf::Radix x(c.index);
      int w = (int)x(3);
      size_t k = x(N);
      auto& e = (*ls)[x(ls->size())];
      size_t at = k < 40 ? e.brn.size() - 1 - k : (k - 40) * (uint64_t)e.brn.size() / (N - 40);
      if (at >= e.brn.size()) return;
      Bytes b = e.brn;
      if (w == 0) b[at] = (char)(b[at] ^ (1 << k % 8));
      else if (w == 1) b.resize(at);
      else b.erase(at, 1 + k % 3);
      auto s = k % 2 ? stream::Uniform(b, 700, 1000) : stream::Uniform(b, 1u << 20, 1u << 20);
      tally(c, s);
      Judge(c, vf::Fmt("%s, damage %d at %zu", e.name.c_str(), w, at), b, s);
    }, nullptr, 60);
  }
  // unusual but well-formed fields
  auto cr = crafted::Make(*corp, deep);
  r.Add("fields", cr->n1, [=](vf::Case& c) {
    std::string what;
    Bytes b = crafted::Stream(*cr, false, c.index, &what);
    if (b.empty()) return;
    auto s = c.index % 2 ? stream::Uniform(b, 2, 100) : stream::Uniform(b, 1u << 20, 1000);
    tally(c, s);
    Judge(c, what, b, s);
  }, nullptr, 60);
  return r.Main();
}
