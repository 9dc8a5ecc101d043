// C16: Lehmer codes and the permutation coder, against their definitions.
#include <common/lehmer_code.h>
#include <memory>
#include "runner.h"
typedef std::vector<uint32_t> V;
namespace {
struct Block {  // exactly sized heap block
  uint32_t* p;
  size_t n;
  explicit Block(size_t k) : p((uint32_t*)malloc(k ? 4 * k : 1)), n(k) { for (size_t i = 0; i < k; ++i) p[i] = 0xDEADBEEF; }
  explicit Block(const V& v) : Block(v.size()) { for (size_t i = 0; i < n; ++i) p[i] = v[i]; }
  ~Block() { free(p); }
  V Get() const { return V(p, p + n); }
};
// digit i = how many later elements are smaller than element i
V ModelCode(const V& s) {
  V c(s.size());
  for (size_t i = 0; i < s.size(); ++i)
    for (size_t j = i + 1; j < s.size(); ++j) c[i] += s[j] < s[i];
  return c;
}
bool ModelDecode(const V& c, V* s) {
  V left;
  for (size_t i = 0; i < c.size(); ++i) left.push_back((uint32_t)i);
  s->clear();
  for (uint32_t d : c) {
    if (d >= left.size()) return false;
    s->push_back(left[d]);
    left.erase(left.begin() + d);
  }
  return true;
}
std::string Str(const V& v) {
  std::string r;
  for (auto x : v) r += vf::Fmt(r.empty() ? "%u" : " %u", x);
  return "[" + r + "]";
}
void CheckPerm(vf::Case& c, const V& s) {
  c.nontrivial = s.size() > 1;
  c.hash = vf::Fnv(s.data(), 4 * s.size(), s.size() + 77);
  Block in(s), code(s.size()), out(s.size());
  brunsli::ComputeLehmerCode(in.p, s.size(), code.p);
  if (in.Get() != s) return c.Fail("input-modified", "permutation modified: " + Str(s));
  V m = ModelCode(s), g = code.Get();
  for (size_t i = 0; i < s.size(); ++i)
    if (g[i] >= s.size() - i) return c.Fail("digit-range", "code of " + Str(s) + " has a digit out of range: " + Str(g));
  if (g != m) return c.Fail("code-differs", "code of " + Str(s) + " is " + Str(g) + ", by definition " + Str(m));
  if (!brunsli::DecodeLehmerCode(code.p, s.size(), out.p)) return c.Fail("valid-refused", "code " + Str(g) + " refused");
  if (out.Get() != s) return c.Fail("not-inverse", "code of " + Str(s) + " decodes to " + Str(out.Get()));
}
void CheckCode(vf::Case& c, const V& d) {
  c.nontrivial = true;
  c.hash = vf::Fnv(d.data(), 4 * d.size(), d.size() + 7777);
  Block in(d), out(d.size());
  V s;
  bool want = ModelDecode(d, &s);
  bool got = brunsli::DecodeLehmerCode(in.p, d.size(), out.p);
  if (in.Get() != d) return c.Fail("input-modified", "code modified: " + Str(d));
  if (want != got) return c.Fail(got ? "invalid-accepted" : "valid-refused", "code " + Str(d) + (got ? " accepted" : " refused"));
  if (got && out.Get() != s) return c.Fail("decode-differs", "code " + Str(d) + " decodes to " + Str(out.Get()) + ", by definition " + Str(s));
  if (got) {
    Block back(d.size());
    brunsli::ComputeLehmerCode(out.p, d.size(), back.p);
    if (back.Get() != d) c.Fail("not-onto", "code " + Str(d) + " is not the code of its permutation, but " + Str(back.Get()));
  }
}
int CeilLog2(size_t n) { int b = 0; while (((size_t)1 << b) < n) ++b; return b; }
// One step of the coder on the model list; returns "" or what went wrong.
std::string Step(brunsli::PermutationCoder* p, std::vector<uint8_t>* m, bool by_value, size_t arg) {
  if (!m->empty() && p->num_bits() != CeilLog2(m->size())) return vf::Fmt("num_bits() = %d with %zu values left", p->num_bits(), m->size());
  if (by_value) {
    int code = -1, nbits = -1;
    bool ok = p->RemoveValue((uint8_t)arg, &code, &nbits);
    size_t at = 0;
    while (at < m->size() && (*m)[at] != arg) ++at;
    if (ok != (at < m->size())) return vf::Fmt("RemoveValue(%zu) = %d", arg, ok);
    if (ok && (code != (int)at || nbits != CeilLog2(m->size()))) return vf::Fmt("RemoveValue(%zu) gives code %d in %d bits, expected %zu in %d", arg, code, nbits, at, CeilLog2(m->size()));
    if (ok) m->erase(m->begin() + at);
  } else {
    uint8_t v = 0xEE;
    bool ok = p->Remove(arg, &v);
    if (ok != (arg < m->size())) return vf::Fmt("Remove(%zu) = %d with %zu values left", arg, ok, m->size());
    if (ok && v != (*m)[arg]) return vf::Fmt("Remove(%zu) gives %d, expected %d", arg, v, (*m)[arg]);
    if (ok) m->erase(m->begin() + arg);
  }
  return "";
}
}  // namespace
int main(int argc, char** argv) {
  vf::Runner r("C16", argc, argv);
  bool deep = r.thorough();
  r.rule = "all permutations of small lengths, all digit strings over small and extreme digits, structured permutations and all single-digit changes of full-length codes, "
           "all operation sequences of the permutation coder on small value lists; every result is compared with the definition; non-trivial: at least two elements";
  for (int n = 0; n <= (deep ? 10 : 8); ++n) {
    uint64_t f = 1;
    for (int i = 2; i <= n; ++i) f *= i;
    r.Add(vf::Fmt("permutations-%d", n), f, [=](vf::Case& c) {
      vf::Radix x(c.index);
      V left, s;
      for (int i = 0; i < n; ++i) left.push_back(i);
      for (int i = 0; i < n; ++i) { size_t k = x(left.size()); s.push_back(left[k]); left.erase(left.begin() + k); }
      CheckPerm(c, s);
    });
  }
  for (int n = 0; n <= (deep ? 6 : 5); ++n) {
    static const uint32_t big[] = {0x7fffffff, 0x80000000, 0xffffffff, 0x10000, 256};
    int A = n + 2 + 5;
    uint64_t f = 1;
    for (int i = 0; i < n; ++i) f *= A;
    r.Add(vf::Fmt("digit-strings-%d", n), f, [=](vf::Case& c) {
      vf::Radix x(c.index);
      V d;
      for (int i = 0; i < n; ++i) { uint32_t k = x(A); d.push_back(k < (uint32_t)n + 2 ? k : big[k - n - 2]); }
      CheckCode(c, d);
    });
  }
  // lengths used by the format and beyond
  static const int lens[] = {2, 3, 4, 16, 17, 63, 64, 65, 255, 256, 257, 1000};
  for (int n : lens) {
    r.Add(vf::Fmt("structured-%d", n), (uint64_t)(n <= 65 ? 3 * n * n : 6 * n), [=](vf::Case& c) {
      vf::Radix x(c.index);
      V s;
      for (int i = 0; i < n; ++i) s.push_back(i);
      if (n <= 65) {
        int kind = x(3), a = x(n), b = x(n);
        if (kind == 0) std::swap(s[a], s[b]);
        if (kind == 1) { auto v = s[a]; s.erase(s.begin() + a); s.insert(s.begin() + b, v); }
        if (kind == 2) { for (int i = 0; i < n; ++i) s[i] = (i + a) % n; std::reverse(s.begin(), s.begin() + b); }
      } else {
        int kind = x(6), a = x(n);
        if (kind == 0) for (int i = 0; i < n; ++i) s[i] = (i + a) % n;
        if (kind == 1) std::reverse(s.begin(), s.begin() + a);
        if (kind == 2) std::reverse(s.begin() + a, s.end());
        if (kind == 3) std::swap(s[a], s[n - 1]);
        if (kind == 4) std::swap(s[0], s[a]);
        if (kind == 5) for (int i = 0; i < n; ++i) s[i] = (n - 1 - i + a) % n;
      }
      CheckPerm(c, s);
    });
    if (n <= 65) {
      static const long add[] = {-2, -1, 0, 1, 2};
      r.Add(vf::Fmt("one-digit-%d", n), (uint64_t)n * 9 * 3, [=](vf::Case& c) {
        vf::Radix x(c.index);
        int base = x(3), v = x(9), at = x(n);
        V d;
        for (int i = 0; i < n; ++i) d.push_back(base == 0 ? 0 : base == 1 ? n - 1 - i : (n - 1 - i) / 2);
        d[at] = v < 5 ? (uint32_t)std::max(0l, n - at + add[v]) : v == 5 ? 0xffffffffu : v == 6 ? 0x80000000u : v == 7 ? (uint32_t)n : 0x40000000u;
        CheckCode(c, d);
      });
    }
  }
  // the coder: every operation sequence on small lists
  static const uint8_t lists[][5] = {{0, 1, 2, 3, 4}, {4, 3, 2, 1, 0}, {255, 0, 128, 127, 1}, {7, 250, 3, 251, 9}};
  for (int m = 0; m <= 5; ++m) {
    int A = 2 * m + 4, D = m < 5 ? std::min(m + 1, 5) : (deep ? 6 : 4);
    uint64_t f = 4;
    for (int i = 0; i < D; ++i) f *= A;
    r.Add(vf::Fmt("coder-operations-%d", m), f, [=](vf::Case& c) {
      vf::Radix x(c.index);
      const uint8_t* l = lists[x(4)];
      std::vector<uint8_t> model(l, l + m);
      brunsli::PermutationCoder p;
      p.Init(model);
      std::string w;
      c.nontrivial = m > 1;
      for (int i = 0; i < D; ++i) {
        size_t k = x(A);
        bool by_value = k < (size_t)m + 1;
        size_t arg = by_value ? (k < (size_t)m ? l[k] : 77) : k - m - 1;
        if (!by_value && arg == (size_t)m + 2) arg = (size_t)-1;
        w += vf::Fmt(" %s(%zu)", by_value ? "RemoveValue" : "Remove", arg);
        std::string e = Step(&p, &model, by_value, arg);
        if (!e.empty()) return c.Fail("coder", vf::Fmt("%d values,%s: %s", m, w.c_str(), e.c_str()));
      }
    });
  }
  r.Add("coder-sizes", 257 * 5, [=](vf::Case& c) {
    vf::Radix x(c.index);
    int kind = x(5), n = x(257);
    std::vector<uint8_t> m;
    for (int i = 0; i < n; ++i) m.push_back((uint8_t)(kind == 4 ? 255 - i : i));
    std::vector<uint8_t> order;
    for (int i = 0; i < n; ++i) order.push_back((uint8_t)(kind == 0 ? i : kind == 1 ? n - 1 - i : kind == 2 ? (i % 2 ? n - 1 - i / 2 : i / 2) : (n - 1 - (i % 2 ? n - 1 - i / 2 : i / 2))));
    if (kind == 4) order = m;
    brunsli::PermutationCoder e, d;
    e.Init(m);
    d.Init(m);
    c.nontrivial = n > 1;
    auto em = m, dm = m;
    for (int v : order) {
      size_t at = std::find(dm.begin(), dm.end(), v) - dm.begin();
      std::string s = Step(&e, &em, true, v);
      if (s.empty()) s = Step(&d, &dm, false, at);
      if (!s.empty()) return c.Fail("coder", vf::Fmt("%d values, order %d: %s", n, kind, s.c_str()));
    }
    std::string s = Step(&e, &em, true, 0);
    if (s.empty()) s = Step(&d, &dm, false, 0);
    if (!s.empty()) return c.Fail("coder", vf::Fmt("%d values, exhausted: %s", n, s.c_str()));
    // cleared and filled again
    d.Clear();
    std::vector<uint8_t> none;
    s = Step(&d, &none, false, 0);
    d.Init(m);
    dm = m;
    if (s.empty() && n) s = Step(&d, &dm, false, n - 1);
    if (!s.empty()) c.Fail("coder", vf::Fmt("%d values, refilled: %s", n, s.c_str()));
  });
  return r.Main();
}
