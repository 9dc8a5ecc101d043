// C37: ANS codes - normalised histograms, their transmission, coding and decoding of symbols, each against a model.
#include <common/platform.h>
#include <enc/ans_encode.h>
#include <enc/histogram_encode.h>
#include <enc/write_bits.h>
#include <dec/ans_decode.h>
#include <dec/bit_reader.h>
#include <dec/brunsli_input.h>
#include <dec/histogram_decode.h>
#include <algorithm>
#include <set>
#include "runner.h"
typedef std::vector<int> H;
typedef std::vector<uint8_t> B;
namespace {
const int N = 18;
int states, transitions, traces;  // counters
// The format's prefix codes, first bit lowest: length of a histogram minus 3, logarithm of a count plus 1.
const int kLenBits[] = {8, 8, 6, 6, 6, 5, 4, 3, 3, 3, 3, 3, 3, 4, 5, 7}, kLenCode[] = {127, 255, 15, 47, 31, 7, 3, 0, 4, 2, 6, 1, 5, 11, 23, 63};
const int kLogBits[] = {5, 4, 4, 4, 3, 3, 2, 3, 3, 6, 6}, kLogCode[] = {15, 3, 11, 7, 2, 6, 0, 1, 5, 31, 63};
int Log(uint32_t v) { int r = -1; while (v) { v >>= 1; ++r; } return r; }
int Prec(int l) { return (l + 1) / 2; }
template <class T> std::string Str(const std::vector<T>& v) {
  std::string r;
  for (size_t i = 0; i < v.size();) {
    size_t k = i;
    while (k < v.size() && v[k] == v[i]) ++k;
    r += vf::Fmt(r.empty() ? "%lld" : " %lld", (long long)v[i]);
    if (k - i > 1) r += vf::Fmt("x%zu", k - i);
    i = k;
  }
  return "[" + r + "]";
}
struct Exact {  // exactly sized heap block
  uint8_t* p;
  size_t n;
  explicit Exact(const B& v) : p((uint8_t*)malloc(v.empty() ? 1 : v.size())), n(v.size()) { if (n) memcpy(p, v.data(), n); }
  ~Exact() { free(p); }
};
// ---- model: bits, histogram descriptions
struct Bits {
  B v;
  size_t n = 0;
  void Put(int k, uint32_t x) { for (int i = 0; i < k; ++i, ++n) { if (n / 8 == v.size()) v.push_back(0); v[n / 8] |= (x >> i & 1) << n % 8; } }
};
struct In {
  const B& v;
  size_t n = 0;
  bool over = false;
  explicit In(const B& b) : v(b) {}
  uint32_t Get(int k) {
    uint32_t r = 0;
    for (int i = 0; i < k; ++i, ++n) { if (n >= v.size() * 8) over = true; else r |= (uint32_t)(v[n / 8] >> n % 8 & 1) << i; }
    return r;
  }
  int Code(const int* bits, const int* code, int m) {
    uint32_t x = 0;
    for (int l = 1; l <= 8; ++l) { x |= Get(1) << (l - 1); for (int s = 0; s < m; ++s) if (bits[s] == l && code[s] == (int)x) return s; }
    return -1;
  }
};
bool Read(In& in, H* h) {
  h->assign(N, 0);
  if (in.Get(1)) {
    int k = in.Get(1) + 1, s[2];
    for (int i = 0; i < k; ++i) s[i] = in.Get(5) % N;
    if (k == 1) { (*h)[s[0]] = 1024; return !in.over; }
    if (s[0] == s[1]) return false;
    int v = in.Get(10);
    (*h)[s[0]] = v;
    (*h)[s[1]] = 1024 - v;
    return !in.over;
  }
  int len = in.Code(kLenBits, kLenCode, 16) + 3, lg[N], om = 0, sum = 0;
  for (int i = 0; i < len; ++i) { lg[i] = in.Code(kLogBits, kLogCode, 11); if (lg[i] > lg[om]) om = i; }
  for (int i = 0; i < len; ++i) {
    if (i == om || !lg[i]) continue;
    int l = lg[i] - 1, b = Prec(l);
    (*h)[i] = (1 << l) + ((int)in.Get(b) << (l - b));
    sum += (*h)[i];
  }
  if (sum >= 1024) return false;
  (*h)[om] = 1024 - sum;
  return !in.over;
}
// ---- model: coding
struct Sym { int f, st; };
struct Table {
  std::vector<Sym> s;
  explicit Table(const H& h) { int t = 0; for (int x : h) { s.push_back({x, t}); t += x; } }
  int Find(int slot) const { for (size_t i = 0; i < s.size(); ++i) if (slot >= s[i].st && slot < s[i].st + s[i].f) return (int)i; return -1; }
};
struct Enc {
  uint64_t x = 0x130000;
  int Put(Sym s, uint32_t* w) {
    int k = 0;
    if (x >= (uint64_t)s.f << 22) { *w = x & 0xffff; x >>= 16; k = 16; }
    x = (x / s.f << 10) + x % s.f + s.st;
    return k;
  }
};
struct Dec {
  uint64_t x;
  const std::vector<uint16_t>& w;
  size_t at = 2;
  explicit Dec(const std::vector<uint16_t>& v) : x((uint64_t)v[0] << 16 | v[1]), w(v) {}
  int Get(const Table& t) {
    int slot = x & 1023, s = t.Find(slot);
    x = t.s[s].f * (x >> 10) + slot - t.s[s].st;
    if (x < 65536) x = x << 16 | (at < w.size() ? w[at] : 0), ++at;
    return s;
  }
};
B Bytes(const std::vector<uint16_t>& w) { B b; for (auto x : w) { b.push_back((uint8_t)x); b.push_back((uint8_t)(x >> 8)); } return b; }
std::vector<uint32_t> U(const H& h) { return std::vector<uint32_t>(h.begin(), h.end()); }
// Decodes with tables a, then b for the rest, in lockstep with the model.
bool Lockstep(vf::Case& c, const Table& ta, const brunsli::ANSDecodingData& a, const Table& tb, const brunsli::ANSDecodingData& b, const std::vector<uint16_t>& w, int k) {
  Exact e(Bytes(w));
  brunsli::WordSource src(e.p, e.n, false);
  brunsli::ANSDecoder d;
  d.Init(&src);
  Dec m(w);
  c.Count(traces, 1);
  c.Count(transitions, k);
  for (int i = 0; i < k; ++i) {
    uint64_t was = m.x;
    int s = m.Get(i ? tb : ta), g = d.ReadSymbol(i ? b : a, &src);
    if (s != g) { c.Fail("decode", vf::Fmt("state %#llx, symbol %d since words %04x %04x: %d instead of %d", (unsigned long long)was, i, w[0], w[1], g, s)); return false; }
    if (d.CheckCRC() != (m.x == 0x130000)) { c.Fail("final-state", vf::Fmt("state %#llx is %staken for the initial one", (unsigned long long)m.x, m.x == 0x130000 ? "not " : "")); return false; }
  }
  return true;
}
bool Text(vf::Case& c, const brunsli::ANSTable& at, const brunsli::ANSDecodingData& dd, const Table& t, const std::vector<int>& text, const std::string& where) {
  brunsli::ANSCoder real;
  Enc m;
  std::vector<uint16_t> w;
  for (size_t i = text.size(); i-- > 0;) {
    uint8_t nb = 77;
    uint32_t mw = 0, rw = real.PutSymbol(at.info_[text[i]], &nb);
    int mb = m.Put(t.s[text[i]], &mw);
    if (nb != mb || (mb && rw != mw) || real.GetState() != m.x) { c.Fail("encode", where + vf::Fmt("symbol %d: state %#x, %d bits %#x instead of state %#llx, %d bits %#x", text[i], real.GetState(), nb, rw, (unsigned long long)m.x, mb, mw)); return false; }
    if (mb) w.push_back((uint16_t)rw);
  }
  w.push_back((uint16_t)real.GetState());
  w.push_back((uint16_t)(real.GetState() >> 16));
  std::reverse(w.begin(), w.end());
  w.push_back(0xb5c3);
  Exact e(Bytes(w));
  brunsli::WordSource src(e.p, e.n, false);
  brunsli::ANSDecoder d;
  d.Init(&src);
  c.Count(traces, 1);
  c.Count(transitions, 2 * text.size());
  c.Count(states, text.size());
  for (size_t i = 0; i < text.size(); ++i) {
    int g = d.ReadSymbol(dd, &src);
    if (g != text[i]) { c.Fail("text", where + vf::Fmt("symbol %zu of %zu: %d read as %d", i, text.size(), text[i], g)); return false; }
  }
  if (!d.CheckCRC()) { c.Fail("text-end", where + "the state after the last symbol is not the initial one"); return false; }
  if (src.GetNextWord() != 0xb5c3) { c.Fail("text-words", where + "not exactly the coded words were read"); return false; }
  return true;
}
// A histogram through normalisation, transmission, tables, and all pairs of symbols through the coder.
void Stored(vf::Case& c, const H& h) {
  std::vector<int> used;
  for (int i = 0; i < N; ++i) if (h[i]) used.push_back(i);
  int n = (int)used.size();
  c.nontrivial = n > 1;
  c.hash = vf::Fnv(h.data(), h.size() * sizeof(int), 7);
  std::string t = "counts " + Str(h) + ": ";
  H q = h;
  int num = -1, omit = -1, first[4] = {-1, -1, -1, -1};
  brunsli::NormalizeCounts(q.data(), &omit, N, 10, &num, first);
  t += "normalised " + Str(q) + ", ";
  if (num != n) return c.Fail("number", t + vf::Fmt("%d symbols reported", num));
  for (int i = 0; i < std::min(n, 4); ++i) if (first[i] != used[i]) return c.Fail("first", t + vf::Fmt("symbol %d reported as %d-th", first[i], i));
  int sum = 0;
  for (int i = 0; i < N; ++i) {
    sum += q[i];
    if (!h[i] != !q[i] || q[i] < 0) return c.Fail("support", t + vf::Fmt("symbol %d", i));
    if (n > 1 && i != omit && q[i] > 0 && q[i] & ((1 << (Log(q[i]) - Prec(Log(q[i])))) - 1)) return c.Fail("step", t + vf::Fmt("count of symbol %d is not representable", i));
  }
  if (n && sum != 1024) return c.Fail("sum", t + vf::Fmt("sum %d", sum));
  brunsli::ANSTable at;
  B buf(64, 0);
  size_t bytes;
  {
    brunsli::Storage st(buf.data(), buf.size());
    H in = h;
    brunsli::BuildAndStoreANSEncodingData(in.data(), &at, &st);
    brunsli::WriteBits(16, 0xb5c3, &st);
    if (in != h) return c.Fail("input-modified", t);
    if (!st.IsHealthy()) return c.Fail("room", t + "does not fit 62 bytes");
    bytes = st.GetBytesUsed();
  }
  buf.resize(bytes);
  H want = q, got;
  if (!n) want[0] = 1024;
  In in(buf);
  if (!Read(in, &got) || got != want || in.Get(16) != 0xb5c3) return c.Fail("description", t + "described as " + Str(got));
  Exact e(buf);
  brunsli::BrunsliBitReader br;
  brunsli::BrunsliBitReaderInit(&br);
  brunsli::BrunsliBitReaderResume(&br, e.p, e.n);
  std::vector<uint32_t> counts(N, 99);
  if (!brunsli::ReadHistogram(10, &counts, &br)) return c.Fail("refused", t + "description refused");
  if (counts != U(want)) return c.Fail("read", t + "read as " + Str(counts));
  if (brunsli::BrunsliBitReaderRead(&br, 16) != 0xb5c3) return c.Fail("read-end", t + "bits behind the description are not where they should be");
  if (!n) return;
  Table tab(q);
  for (int i : used) if (at.info_[i].freq_ != q[i] || at.info_[i].start_ != tab.s[i].st) return c.Fail("table", t + vf::Fmt("symbol %d coded with %d at %d", i, at.info_[i].freq_, at.info_[i].start_));
  static thread_local brunsli::ANSDecodingData dd;
  if (!dd.Init(counts)) return c.Fail("init", t + "refused for decoding");
  std::vector<int> text;
  for (int a : used) for (int b : used) { text.push_back(a); text.push_back(b); if (n < 4) for (int k = 0; k < 9; ++k) text.push_back(b); }
  Text(c, at, dd, tab, text, t);
}
void Compare(vf::Case& c, const B& v, const std::string& what) {
  H m;
  In in(v);
  bool ok = Read(in, &m);
  Exact e(v);
  brunsli::BrunsliBitReader br;
  brunsli::BrunsliBitReaderInit(&br);
  brunsli::BrunsliBitReaderResume(&br, e.p, e.n);
  std::vector<uint32_t> counts(N, 99);
  bool g = brunsli::ReadHistogram(10, &counts, &br);
  c.hash = vf::Fnv(v.data(), v.size(), v.size());
  c.nontrivial = ok;
  std::string t = what + " (" + vf::Hex(std::string(v.begin(), v.end())) + "): ";
  if (g != ok) return c.Fail("verdict", t + (g ? "accepted as " + Str(counts) : "refused instead of " + Str(m)));
  if (!ok) return;
  if (counts != U(m)) return c.Fail("counts", t + Str(counts) + " instead of " + Str(m));
  if (in.n + 8 <= v.size() * 8 && brunsli::BrunsliBitReaderRead(&br, 8) != in.Get(8)) return c.Fail("position", t + "reading goes on in the wrong place");
}
H Place(const std::vector<int>& v, int how) {
  H h(N, 0);
  int n = (int)v.size();
  for (int i = 0; i < n; ++i) h[how == 0 ? i : how == 1 ? N - n + i : how == 2 ? (n > 1 ? i * (N - 1) / (n - 1) : 9) : (i * 7 + 3) % N] += v[i];
  return h;
}
}  // namespace

int main(int argc, char** argv) {
  vf::Runner r("C37", argc, argv);
  bool deep = r.thorough();
  states = r.Counter("coder_states");
  transitions = r.Counter("coder_steps");
  traces = r.Counter("coder_runs");
  r.extra["states"] = "$coder_states";
  r.extra["transitions"] = "$coder_steps";
  r.extra["traces_validated_against_impl"] = "$coder_runs";
  r.rule = "every listed histogram is normalised, transmitted, read back and used for coding, every listed description is read, and every listed coder and decoder state is stepped, in lockstep with the model; non-trivial: more than one symbol, or accepted";
  r.assumptions = {"counts are non-negative with a sum below 2^34"};
  {
    static const int val[] = {0, 1, 2, 3, 6, 40, 511, 1500, 70000, 1 << 30};
    const int L = deep ? 6 : 5;
    uint64_t n = 0, k = 1;
    for (int l = 1; l <= L; ++l) { k *= 10; n += 4 * k; }
    r.Add("few", n, [=](vf::Case& c) {
      uint64_t i = c.index, k = 10;
      int l = 1;
      while (i >= 4 * k) { i -= 4 * k; k *= 10; ++l; }
      vf::Radix x(i);
      int how = (int)x(4);
      std::vector<int> v;
      for (int q = 0; q < l; ++q) v.push_back(val[x(10)]);
      Stored(c, Place(v, how));
    });
  }
  // All sums of small counts: the exact borders of rounding.
  r.Add("pairs", (deep ? 2200ull * 2200 : 700ull * 700), [=](vf::Case& c) {
    vf::Radix x(c.index);
    int m = deep ? 2200 : 700, a = (int)x(m), b = (int)x(m);
    Stored(c, Place({a, b, (a + b) % 3 ? 1 : 0}, (a ^ b) & 3));
  });
  {  // many symbols: two values by all masks; one value against all others; geometric
    static const int lo[] = {0, 1, 2, 3, 7}, hi[] = {1, 2, 5, 16, 57, 58, 100, 1000, 1023, 1024, 1025, 100000, 1 << 30};
    r.Add("masks", 5 * 13 * (deep ? 1ull << 18 : 1ull << 12), [=](vf::Case& c) {
      vf::Radix x(c.index);
      int l = lo[x(5)], g = hi[x(13)];
      uint32_t mask = (uint32_t)x(deep ? 1 << 18 : 1 << 12);
      if (!deep) mask = (mask & 63) | (mask >> 6 & 7) << 7 | (mask >> 9 & 7) << 15 | (__builtin_popcount(mask) & 1) << 12;
      H h(N, 0);
      for (int i = 0; i < N; ++i) h[i] = mask >> i & 1 ? g : l;
      Stored(c, h);
    });
    r.Add("slopes", 18 * 40 * 30 * 2, [](vf::Case& c) {
      vf::Radix x(c.index);
      int top = (int)x(18), num = (int)x(40) + 10, start = (int)x(30) + 1;
      bool back = x(2);
      H h(N, 0);
      double v = start;
      for (int i = 0; i <= top; ++i) { h[back ? N - 1 - i : i] = (int)v; v = std::min(v * num / 10, 1e9); }
      Stored(c, h);
    });
    r.Add("flat", 18 * 400, [](vf::Case& c) {  // k equal counts and one extra
      vf::Radix x(c.index);
      int k = (int)x(18), e = (int)x(400);
      for (int base : {1, 3, 10, 56, 57, 1000}) for (int at : {0, 9, 17}) {
        H h(N, 0);
        for (int i = 0; i <= k; ++i) h[i] = base;
        h[at] += e;
        Stored(c, h);
        if (c.failed) return;
      }
    });
  }
  {  // descriptions: every beginning, with four continuations, whole and cut
    const int W = deep ? 22 : 18;
    r.Add("bits", (4ull << W), [=](vf::Case& c) {
      vf::Radix x(c.index);
      int fill = (int)x(4);
      uint32_t v = (uint32_t)x(1u << W);
      Bits b;
      b.Put(W, v);
      while (b.n < 200) b.Put(1, fill < 2 ? fill : fill == 2 ? b.n & 1 : (b.n / 3) & 1);
      Compare(c, b.v, "bits");
    });
    r.Add("short", 65536 * 3 + 256 + 1, [](vf::Case& c) {
      uint64_t i = c.index;
      B v;
      if (i < 65536 * 3) { v = {(uint8_t)i, (uint8_t)(i >> 8)}; int k = (int)(i >> 16); if (k) v.push_back(k == 1 ? 0 : 0xa7); }
      else if (i < 65536 * 3 + 256) v = {(uint8_t)i};
      Compare(c, v, "all of the data");
    });
  }
  {  // descriptions written by the model: logarithms and mantissas
    const int K = deep ? 6 : 4;
    uint64_t k = 1;
    for (int i = 0; i < K; ++i) k *= 11;
    r.Add("described", k * 4 * 16, [=](vf::Case& c) {
      vf::Radix x(c.index);
      int len = (int)x(16) + 3, man = (int)x(4), lg[8];
      for (int i = 0; i < K; ++i) lg[i] = (int)x(11);
      Bits b;
      b.Put(1, 0);
      b.Put(kLenBits[len - 3], kLenCode[len - 3]);
      int l[N], om = 0;
      for (int i = 0; i < len; ++i) { l[i] = len <= K ? lg[i] : i < K - 1 ? lg[i] : i == len - 1 ? lg[K - 1] : (i & 3) == 3; if (l[i] > l[om]) om = i; b.Put(kLogBits[l[i]], kLogCode[l[i]]); }
      for (int i = 0; i < len; ++i) if (i != om && l[i] > 1) b.Put(Prec(l[i] - 1), man == 0 ? 0 : man == 1 ? 31 : man == 2 ? 21 : 10);
      for (int i = 0; i < 3; ++i) b.Put(8, 0x5a);
      Compare(c, b.v, "a written description");
    });
  }
  // The decoder's step, from every listed state, followed by forty steps that show the state.
  r.Add("decoder-step", 1024 * 3, [](vf::Case& c) {
    vf::Radix x(c.index);
    int f = (int)x(1024) + 1, place = (int)x(3), st = place == 0 ? 0 : place == 1 ? (1024 - f) / 2 : 1024 - f;
    H h(N, 0), g(N, 0);
    h[2] = st;
    h[5] = f;
    h[9] = 1024 - f - st;
    g[0] = g[17] = 512;
    Table ta(h), tb(g);
    static thread_local brunsli::ANSDecodingData a, b;
    if (!a.Init(U(h)) || !b.Init(U(g))) return c.Fail("init", "refused");
    c.nontrivial = true;
    c.hash = vf::Fnv(&c.index, 8, 1);
    std::set<uint32_t> high = {64, 65, 127, 4096, 65535, 65536, 0x3ffffe, 0x3fffff, 0x4c0};
    for (int d = -2; d <= 2; ++d) for (uint64_t v : {65536ull / f, (65536ull << 16) / f, 0x130000ull / f}) if ((int64_t)v + d >= 64 && v + d < 1 << 22) high.insert((uint32_t)(v + d));
    std::set<int> slots = {0, 1023, st, st + f - 1, st + f / 2};
    if (st) slots.insert(st - 1);
    if (st + f < 1024) slots.insert(st + f);
    for (uint32_t hi : high) for (int s : slots) for (uint16_t w : {0x0000, 0x0001, 0xffff, 0x8421}) {
      uint32_t v = hi << 10 | s;
      c.Count(states, 1);
      if (!Lockstep(c, ta, a, tb, b, {(uint16_t)(v >> 16), (uint16_t)v, w, 0x1234, 0xfedc, 0x0f0f, 0x77, 0x8001}, 40)) return;
    }
  });
  {  // the coder: all sequences over codes of three symbols
    static const int F[][3] = {{1, 1, 1022}, {1, 511, 512}, {341, 341, 342}, {2, 3, 1019}, {16, 1000, 8}, {1, 1022, 1}, {512, 256, 256}, {63, 65, 896}};
    const int L = deep ? 11 : 8;
    uint64_t k = 1;
    for (int i = 0; i < L; ++i) k *= 3;
    r.Add("sequences", 8 * k, [=](vf::Case& c) {
      vf::Radix x(c.index);
      const int* f = F[x(8)];
      H h(N, 0);
      h[0] = f[0]; h[6] = f[1]; h[17] = f[2];
      static const int sym[] = {0, 6, 17};
      std::vector<int> text;
      for (int i = 0; i < L; ++i) text.push_back(sym[x(3)]);
      Table t(h);
      brunsli::ANSTable at;
      for (int i = 0; i < N; ++i) { at.info_[i].freq_ = (uint16_t)h[i]; at.info_[i].start_ = (uint16_t)t.s[i].st; }
      static thread_local brunsli::ANSDecodingData dd;
      static thread_local const int* is = nullptr;
      if (is != f) { if (!dd.Init(U(h))) return c.Fail("init", "refused"); is = f; }
      c.nontrivial = true;
      c.hash = vf::Fnv(&c.index, 8, 2);
      std::string where = vf::Fmt("codes %d %d %d, ", f[0], f[1], f[2]) + Str(text) + ": ";
      if (!Text(c, at, dd, t, text, where)) return;
      std::vector<int> five;
      for (int i = 0; i < 5; ++i) five.insert(five.end(), text.begin(), text.end());
      Text(c, at, dd, t, five, "five times " + where);
    });
  }
  // Too few counts are refused.
  r.Add("sums", 1024 * 4, [](vf::Case& c) {
    vf::Radix x(c.index);
    int s = (int)x(1024), how = (int)x(4);
    H h(how == 3 ? 1 : N, 0);
    if (how == 0) h[0] = s; else if (how == 1) h[17] = s; else if (how == 2) { h[3] = s / 2; h[4] = s - s / 2; } else h[0] = s;
    c.nontrivial = true;
    c.hash = vf::Fnv(&c.index, 8, 3);
    static thread_local brunsli::ANSDecodingData d;
    if (d.Init(U(h))) return c.Fail("sum-accepted", Str(h) + " accepted");
  });
  return r.Main();
}
