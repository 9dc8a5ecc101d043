// C34: prefix codes - the tree builder, the description of a code, the code words and the decoder's lookup table,
// each against its definition.
#include <common/platform.h>
#include <enc/huffman_tree.h>
#include <dec/bit_reader.h>
#include <dec/huffman_decode.h>
#include <dec/huffman_table.h>
#include <enc/huffman_encode.h>
#include <algorithm>
#include <memory>
#include <queue>
#include "runner.h"
typedef std::vector<uint32_t> V;
typedef std::vector<uint8_t> L;
namespace {
template <class T> struct Block {  // exactly sized heap block
  T* p;
  size_t n;
  Block(size_t k, T fill) : p((T*)malloc(k ? k * sizeof(T) : 1)), n(k) { for (size_t i = 0; i < k; ++i) p[i] = fill; }
  explicit Block(const std::vector<T>& v) : Block(v.size(), T()) { for (size_t i = 0; i < n; ++i) p[i] = v[i]; }
  ~Block() { free(p); }
  std::vector<T> Get() const { return std::vector<T>(p, p + n); }
};
template <class T> std::string Str(const std::vector<T>& v) {
  std::string r;
  for (size_t i = 0; i < v.size();) {
    size_t k = i;
    while (k < v.size() && v[k] == v[i]) ++k;
    r += vf::Fmt(r.empty() ? "%u" : " %u", (unsigned)v[i]);
    if (k - i > 1) r += vf::Fmt("x%zu", k - i);
    i = k;
  }
  return "[" + r + "]";
}
uint64_t Cost(const V& h) {  // of an optimal code
  std::priority_queue<uint64_t, std::vector<uint64_t>, std::greater<uint64_t>> q;
  for (auto x : h) if (x) q.push(x);
  uint64_t c = 0;
  while (q.size() > 1) { uint64_t a = q.top(); q.pop(); a += q.top(); q.pop(); c += a; q.push(a); }
  return c;
}
void Tree(vf::Case& c, const V& h, int limit) {
  size_t n = 0;
  for (auto x : h) n += x != 0;
  if (!n || (limit < 15 && n > (size_t)1 << limit)) return;
  c.nontrivial = n > 1;
  c.hash = vf::Fnv(h.data(), 4 * h.size(), limit + 1);
  Block<uint32_t> in(h);
  Block<uint8_t> out(h.size(), 0);
  brunsli::CreateHuffmanTree(in.p, h.size(), limit, out.p);
  L d = out.Get();
  std::string t = vf::Fmt("counts %s, limit %d: lengths %s", Str(h).c_str(), limit, Str(d).c_str());
  if (in.Get() != h) return c.Fail("input-modified", t);
  uint64_t kraft = 0, cost = 0;
  for (size_t i = 0; i < h.size(); ++i) {
    if (!h[i] != !d[i]) return c.Fail("wrong-symbols", t + vf::Fmt(": symbol %zu", i));
    if (d[i] > limit) return c.Fail("too-long", t + vf::Fmt(": symbol %zu", i));
    if (d[i]) kraft += (uint64_t)1 << (40 - d[i]);
    cost += (uint64_t)h[i] * d[i];
  }
  if (n == 1) return;  // documented: the only symbol gets a length that does not matter
  if (kraft != (uint64_t)1 << 40) return c.Fail("not-complete", t);
  if ((size_t)limit >= n - 1 && cost != Cost(h)) return c.Fail("not-optimal", t + vf::Fmt(": %llu bits instead of %llu", (unsigned long long)cost, (unsigned long long)Cost(h)));
}
// What a description says, by the format's rule.
bool Expand(const L& tree, const L& extra, L* d) {
  uint8_t prev = 8, rlen = 0;
  size_t rep = 0;
  for (size_t i = 0; i < tree.size(); ++i) {
    if (tree[i] < 16) {
      if (extra[i]) return false;
      rep = 0;
      d->push_back(tree[i]);
      if (tree[i]) prev = tree[i];
      continue;
    }
    if (tree[i] > 17) return false;
    int eb = tree[i] - 14;
    uint8_t nl = tree[i] == 16 ? prev : 0;
    if (extra[i] >> eb) return false;
    if (nl != rlen) { rep = 0; rlen = nl; }
    size_t old = rep;
    if (rep) rep = (rep - 2) << eb;
    rep += extra[i] + 3u;
    if (rep - old > 100000) return false;
    d->insert(d->end(), rep - old, rlen);
  }
  return true;
}
void Describe(vf::Case& c, const L& d) {
  c.nontrivial = !d.empty();
  c.hash = vf::Fnv(d.data(), d.size(), d.size() + 5);
  Block<uint8_t> in(d), tree(d.size(), 0xee), extra(d.size(), 0xee);
  size_t n = 0;
  brunsli::WriteHuffmanTree(in.p, d.size(), &n, tree.p, extra.p);
  std::string t = "lengths " + Str(d);
  if (in.Get() != d) return c.Fail("input-modified", t);
  if (n > d.size()) return c.Fail("too-many", t + vf::Fmt(": %zu codes", n));
  L a = tree.Get(), b = extra.Get(), e;
  a.resize(n);
  b.resize(n);
  bool ok = Expand(a, b, &e);
  if (ok && e.size() <= d.size()) { e.resize(d.size(), 0); ok = e == d; } else ok = false;
  if (!ok) return c.Fail("description", t + " described by " + Str(a) + " with extra bits " + Str(b) + ", that is " + Str(e));
}
uint32_t Rev(uint32_t v, int n) { uint32_t r = 0; for (int i = 0; i < n; ++i) r = r << 1 | (v >> i & 1); return r; }
std::vector<uint16_t> Words(const L& d) {  // canonical, first bit lowest
  std::vector<uint16_t> w(d.size(), 0x7777);
  uint32_t code = 0;
  for (int l = 1; l <= 15; ++l, code <<= 1) for (size_t i = 0; i < d.size(); ++i) if (d[i] == l) w[i] = (uint16_t)Rev(code++, l);
  return w;
}
void Assign(vf::Case& c, const L& d) {
  c.nontrivial = true;
  c.hash = vf::Fnv(d.data(), d.size(), d.size() + 5);
  Block<uint8_t> in(d);
  Block<uint16_t> out(d.size(), 0x7777);
  brunsli::ConvertBitDepthsToSymbols(in.p, d.size(), out.p);
  auto w = Words(d), g = out.Get();
  if (in.Get() != d) return c.Fail("input-modified", Str(d));
  for (size_t i = 0; i < d.size(); ++i) if (d[i] && g[i] != w[i]) return c.Fail("code-word", vf::Fmt("lengths %s: symbol %zu gets %#x instead of %#x", Str(d).c_str(), i, g[i], w[i]));
}
// Through the whole chain: histogram, transmitted description, lookup table, symbols.
void Stored(vf::Case& c, const V& h) {
  size_t n = 0;
  for (auto x : h) n += x != 0;
  c.nontrivial = n > 1;
  c.hash = vf::Fnv(h.data(), 4 * h.size(), h.size() + 99);
  Block<uint32_t> in(h);
  Block<uint8_t> depth(h.size(), 0);
  Block<uint16_t> word(h.size(), 0);
  Block<uint8_t> buf(16 * h.size() + 400, 0);
  size_t bytes;
  std::vector<size_t> text;
  std::string t = "counts " + Str(h) + ": ";
  {
    brunsli::Storage st(buf.p, buf.n);
    brunsli::BuildAndStoreHuffmanTree(in.p, h.size(), depth.p, word.p, &st);
    for (size_t i = 0; i < h.size(); ++i) if (h[i]) text.push_back(i);
    if (n <= 1) for (auto x : depth.Get()) if (x) return c.Fail("stored-depth", t + "a code of one symbol has lengths");
    for (size_t i = text.size(); i-- > 0;) text.push_back(text[i]);
    for (auto s : text) brunsli::WriteBits(depth.p[s], word.p[s], &st);
    brunsli::WriteBits(16, 0xb5c3, &st);
    if (!st.IsHealthy()) return c.Fail("stored-room", t + "description does not fit");
    bytes = st.GetBytesUsed();
  }
  Block<uint8_t> exact(L(buf.p, buf.p + bytes));
  brunsli::BrunsliBitReader br;
  brunsli::BrunsliBitReaderInit(&br);
  brunsli::BrunsliBitReaderResume(&br, exact.p, bytes);
  brunsli::HuffmanDecodingData hd;
  if (!hd.ReadFromBitStream(h.size(), &br)) return c.Fail("stored-refused", t + "description refused");
  for (size_t k = 0; k < text.size(); ++k) {
    size_t got = hd.ReadSymbol(&br);
    if (got != text[k]) return c.Fail("stored-symbol", t + vf::Fmt("symbol %zu read as %zu (lengths %s)", text[k], got, Str(depth.Get()).c_str()));
  }
  if (brunsli::BrunsliBitReaderRead(&br, 16) != 0xb5c3) c.Fail("stored-end", t + "bits behind the code are not where they should be");
}
// all: look up every string of 15 bits; otherwise every word followed by ones and by zeros
void Lookup(vf::Case& c, const L& d, int root, bool all) {
  c.nontrivial = true;
  c.hash = vf::Fnv(d.data(), d.size(), d.size() + 5 + root * 100003);
  std::vector<uint16_t> counts(16, 0);
  size_t n = 0, only = 0;
  for (size_t i = 0; i < d.size(); ++i) { ++counts[d[i]]; if (d[i]) { ++n; only = i; } }
  size_t cap = root == 8 ? d.size() + 376 : ((size_t)1 << root) + ((size_t)1 << 15) + d.size();
  Block<brunsli::HuffmanCode> table(cap, brunsli::HuffmanCode{0xee, 0xeeee});
  Block<uint8_t> in(d);
  Block<uint16_t> cnt(counts);
  uint32_t size = brunsli::BuildHuffmanTable(table.p, root, in.p, d.size(), cnt.p);
  std::string t = vf::Fmt("lengths %s, root of %d bits: ", Str(d).c_str(), root);
  if (size < 1u << root || size > cap) return c.Fail("size", t + vf::Fmt("table of %u entries", size));
  auto w = Words(d);
  auto find = [&](uint32_t bits, uint32_t* used) -> int {
    const brunsli::HuffmanCode* e = table.p + (bits & ((1u << root) - 1));
    *used = 0;
    if (e->bits > root) {
      if (e->bits > 15) return -1;
      uint32_t nb = e->bits - root, at = (uint32_t)(e - table.p) + e->value + (bits >> root & ((1u << nb) - 1));
      if (at >= size) return -1;
      *used = root;
      e = table.p + at;
    }
    *used += e->bits;
    return e->value;
  };
  auto check = [&](size_t s, uint32_t bits) {
    uint32_t used = 0;
    int got = find(bits, &used);
    if (got == (int)s && used == (n == 1 ? 0u : d[s])) return true;
    c.Fail("lookup", t + vf::Fmt("bits %#x (first lowest) give symbol %d with %u bits instead of %zu with %u", bits, got, used, s, n == 1 ? 0u : (unsigned)d[s]));
    return false;
  };
  if (n == 1) {
    for (uint32_t b = 0; b < 32768; b += all ? 1 : 321) if (!check(only, b)) return;
    return;
  }
  for (size_t s = 0; s < d.size(); ++s) {
    if (!d[s]) continue;
    if (!all) { if (!check(s, w[s]) || !check(s, (w[s] | ~0u << d[s]) & 0x7fff)) return; continue; }
    for (uint32_t h = 0; h < 1u << (15 - d[s]); ++h) if (!check(s, w[s] | h << d[s])) return;
  }
}
// Profiles of complete codes: how many words of each length.  The k-th in lexicographic order is found by walking.
typedef std::vector<int> Profile;
void Profiles(int n, int maxlen, std::vector<Profile>* out) {
  Profile p(maxlen + 1, 0);
  struct R {
    int n, maxlen;
    std::vector<Profile>* out;
    void Go(Profile& p, int len, int open, int left) {  // open nodes at depth len
      if (open == left) { p[len] = open; out->push_back(p); p[len] = 0; }
      if (len == maxlen) return;
      for (int k = 0; k < open; ++k) {
        int inner = open - k;
        if (2 * inner > left - k) continue;
        p[len] = k;
        Go(p, len + 1, 2 * inner, left - k);
        p[len] = 0;
      }
    }
  } r{n, maxlen, out};
  r.Go(p, 1, 2, n);
}
L Order(const Profile& p, int how, size_t alphabet) {  // which symbol gets which length
  L d;
  for (size_t l = 0; l < p.size(); ++l) d.insert(d.end(), p[l], (uint8_t)l);
  size_t n = d.size();
  if (how == 1) std::reverse(d.begin(), d.end());
  if (how == 2) { L e(n); for (size_t i = 0; i < n; ++i) e[i] = d[i % 2 ? n - 1 - i / 2 : i / 2]; d = e; }
  if (how == 3) { size_t st = n % 7 ? 7 : n % 5 ? 5 : 3; if (n % st) { L e(n); for (size_t i = 0; i < n; ++i) e[i * st % n] = d[i]; d = e; } }
  if (how == 4) { L e; for (auto x : d) { e.push_back(0); e.push_back(x); } d = e; }
  if (d.size() < alphabet) d.resize(alphabet, 0);
  return d;
}
}  // namespace

int main(int argc, char** argv) {
  vf::Runner r("C34", argc, argv);
  bool deep = r.thorough();
  r.rule = "every listed count vector, length vector and complete code is given to the function, in exactly sized heap blocks under AddressSanitizer, and compared with the definition; non-trivial: more than one symbol";
  r.assumptions = {"count vectors have at least one non-zero entry, sums below 2^32, and no more used symbols than the limit can tell apart"};
  {
    static const uint32_t val[] = {0, 1, 2, 3, 5, 8, 1000, 100000000};
    static const int lim[] = {0, 1, 2, 7, 15};  // added to what the symbols need at least, except the last
    const int N = deep ? 8 : 6;
    uint64_t n = 0, k = 1;
    for (int l = 1; l <= N; ++l) { k *= 8; n += k * 5; }
    r.Add("counts", n, [=](vf::Case& c) {
      uint64_t i = c.index, k = 8;
      int l = 1;
      while (i >= k * 5) { i -= k * 5; k *= 8; ++l; }
      vf::Radix x(i);
      int li = (int)x(5), need = 1, used = 0;
      V h;
      for (int q = 0; q < l; ++q) { h.push_back(val[x(8)]); used += h.back() != 0; }
      while (1 << need < used) ++need;
      Tree(c, h, li == 4 ? 15 : std::min(15, need + lim[li]));
    });
  }
  r.Add("shapes", 64 * 16 * 15 * 3, [=](vf::Case& c) {  // long alphabets of growing counts, tight limits
    static const int len[] = {1, 2, 3, 4, 5, 8, 15, 16, 17, 18, 19, 30, 31, 32, 33, 40, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 272, 300, 400, 500, 704};
    vf::Radix x(c.index);
    int n = len[x(64) / 2], shape = (int)x(16), limit = 1 + (int)x(15), gap = (int)x(3);
    V h;
    uint64_t a = 1, b = 1;
    for (int q = 0; q < n; ++q) {
      uint64_t v = 1;
      switch (shape / 2) {
        case 0: v = a; if (a < 3000000) { b += a; std::swap(a, b); } break;  // Fibonacci
        case 1: v = a; if (a < 3000000) a *= 2; break;
        case 2: v = 1 + q; break;
        case 3: v = 1 + q * q; break;
        case 4: v = 7; break;
        case 5: v = q % 3 ? 1 : 3000000; break;
        case 6: v = q + 1 == n ? 3000000 : 1; break;
        case 7: v = 1 + (uint64_t)q * q * q * 2654435761u % 4093; break;
      }
      h.push_back((uint32_t)v);
    }
    if (shape & 1) std::reverse(h.begin(), h.end());
    if (gap) { V g; for (auto v : h) { g.push_back(v); for (int q = 0; q < gap; ++q) g.push_back(0); } h = g; }
    if (c.index & 1 && gap) h.insert(h.begin(), 3, 0);
    Tree(c, h, limit);
  });
  {
    const int N = deep ? 9 : 8;
    uint64_t n = 0, k = 1;
    for (int l = 1; l <= N; ++l) { k *= 5; n += k; }
    r.Add("stored-short", n, [=](vf::Case& c) {
      static const uint32_t val[] = {0, 1, 2, 3, 9};
      uint64_t i = c.index, k = 5;
      int l = 1;
      while (i >= k) { i -= k; k *= 5; ++l; }
      V h;
      for (int q = 0; q < l; ++q) { h.push_back(val[i % 5]); i /= 5; }
      Stored(c, h);
    });
    // k used symbols in a long alphabet, equally or unequally frequent, near its start, spread, or at its end
    r.Add("stored-long", 272 * 40 * 5 * 3, [=](vf::Case& c) {
      vf::Radix x(c.index);
      int len = 1 + (int)x(272), used = 1 + (int)x(40), shape = (int)x(5), where = (int)x(3);
      if (used == 40) used = len;
      if (used > len) return;
      V h(len, 0);
      uint32_t a = 1, b = 1;
      for (int q = 0; q < used; ++q) {
        uint32_t v = 1;
        if (shape == 1) { v = a; if (a < 1000000) { b += a; std::swap(a, b); } }
        if (shape == 2) v = 1 + q * q;
        if (shape == 3) v = q % 2 ? 1 : 50;
        if (shape == 4) v = q + 1 == used ? 1000 : 1;
        int at = where == 0 ? q : where == 1 ? (int)((int64_t)q * len / used) : len - 1 - q;
        h[at] = v;
      }
      Stored(c, h);
    });
  }
  {
    static const uint8_t al[] = {0, 1, 2, 7, 8, 15};
    const int N = deep ? 9 : 8;
    uint64_t n = 0, k = 1;
    for (int l = 0; l <= N; ++l) { n += k; k *= 6; }
    r.Add("describe-short", n * 2, [=](vf::Case& c) {  // as they are, and behind 48 zeros or ones, where runs are coded
      uint64_t i = c.index / 2, k = 1;
      int l = 0;
      while (i >= k) { i -= k; k *= 6; ++l; }
      L d;
      if (c.index & 1) for (int q = 0; q < 48; ++q) d.push_back(c.index / 2 % 5 ? (uint8_t)(q % 3 ? 0 : 3) : 0);
      for (int q = 0; q < l; ++q) { d.push_back(al[i % 6]); i /= 6; }
      Describe(c, d);
    });
    const int R = deep ? 150 : 90;
    r.Add("describe-runs", (uint64_t)4 * R * 4 * R * 4 * 14, [=](vf::Case& c) {
      static const uint8_t v[] = {0, 1, 8, 15};
      static const int third[] = {0, 1, 2, 3, 4, 6, 7, 8, 10, 11, 12, 18, 50, 300};
      vf::Radix x(c.index);
      L d;
      uint8_t p = v[x(4)];
      d.insert(d.end(), 1 + x(R), p);
      p = v[x(4)];
      d.insert(d.end(), 1 + x(R), p);
      p = v[x(4)];
      d.insert(d.end(), third[x(14)], p);
      Describe(c, d);
    });
    r.Add("describe-long", 704 * 16 * 3, [=](vf::Case& c) {
      vf::Radix x(c.index);
      int n = 1 + (int)x(704), val = (int)x(16), where = (int)x(3);
      L d(n, (uint8_t)val);
      if (where == 1) d.insert(d.begin(), 60, 0);
      if (where == 2) { d.insert(d.begin(), 5, 8); d.insert(d.end(), 70, 0); d.push_back(2); }
      Describe(c, d);
    });
    const int M = deep ? 8 : 7;
    uint64_t m = 1;
    for (int q = 0; q < M; ++q) m *= 8;
    r.Add("words", m, [=](vf::Case& c) {
      static const uint8_t lens[] = {0, 1, 2, 3, 4, 5, 9, 15};
      vf::Radix x(c.index);
      L d;
      uint32_t kraft = 0;
      for (int q = 0; q < M; ++q) { d.push_back(lens[x(8)]); if (d.back()) kraft += 1u << (15 - d.back()); }
      if (kraft > 1u << 15) return;  // no code has these lengths
      Assign(c, d);
    });
  }
  auto prof = std::make_shared<std::vector<Profile>>();
  std::vector<size_t> small;
  const int P = deep ? 20 : 17;
  for (int n = 2; n <= P; ++n) Profiles(n, 15, prof.get());
  r.Add("lookup-small", prof->size() * 5 * 3, [=](vf::Case& c) {
    vf::Radix x(c.index);
    const Profile& p = (*prof)[x(prof->size())];
    int how = (int)x(5);
    static const int roots[] = {8, 5, 10};
    int root = roots[x(3)];
    L d = Order(p, how, how == 2 ? 272 : 0);
    Lookup(c, d, root, true);
    if (!c.failed) Assign(c, d);
  });
  {
    // bulk profiles: a complete code of n words with lengths as even as possible, then words pushed deeper
    static const int ns[] = {2, 3, 17, 18, 100, 255, 256, 257, 258, 271, 272, 300, 512, 704, 1000, 2048, 2560, 4096};
    r.Add("lookup-large", 18 * 40 * 5, [=](vf::Case& c) {
      vf::Radix x(c.index);
      int n = ns[x(18)], push = (int)x(40), how = (int)x(5);
      // begin with a chain of |push| % 14 words of lengths 1, 2, ..., the rest even below it
      int chain = push % 14, kind = push / 14;
      Profile p(16, 0);
      int left = n, depth = 0;
      for (; depth < chain && left > 1; ++depth) { p[depth + 1] += 1; --left; }
      int l = depth;
      while (1 << (l - depth) < left) ++l;
      if (l > 15) return;
      int full = 1 << (l - depth), up = full - left;  // words one shorter
      if (kind == 1 && l < 15 && left >= 4) {  // a deep tail instead: one word split down to 15
        int room = 15 - l;
        if (left - room < 2) return;
        left -= room;
        l = depth;
        while (1 << (l - depth) < left) ++l;
        full = 1 << (l - depth);
        up = full - left;
        p[l] += left - up - 1;
        if (l > depth) p[l - 1] += up;
        if (left - up - 1 < 0) return;
        int q = l;
        int rest = n - chain - (left - 1);
        while (rest > 2 && q < 15) { ++q; p[q] += 1; --rest; }
        if (q >= 15 || rest != 2) return;
        p[q + 1] += 2;
      } else if (kind) {
        return;
      } else {
        p[l] += left - up;
        if (up) p[l - 1] += up;
      }
      uint32_t kraft = 0;
      int sum = 0;
      for (int q = 1; q <= 15; ++q) { kraft += (uint32_t)p[q] << (15 - q); sum += p[q]; }
      if (kraft != 1u << 15 || p[0]) return;
      L d = Order(p, how, 0);
      Lookup(c, d, 8, false);
      if (!c.failed) Assign(c, d);
      if (!c.failed) Describe(c, d);
    });
    // the longest tables there are
    r.Add("lookup-longest", 3 * 5, [=](vf::Case& c) {
      static const int bulk[] = {258, 1922, 2434};
      vf::Radix x(c.index);
      int k = (int)x(3), how = (int)x(5);
      Profile p(16, 0);
      p[9] = 1; p[10] = 1; p[11] = 9;
      p[12] = k ? 17 : 1; p[13] = k ? 33 : 1; p[14] = k ? 65 : 1; p[15] = bulk[k];
      // completed with words of eight bits
      uint32_t kraft = 0;
      for (int q = 1; q <= 15; ++q) kraft += (uint32_t)p[q] << (15 - q);
      if (kraft > 1u << 15) return;
      uint32_t rest = (1u << 15) - kraft;
      for (int q = 1; q <= 15; ++q) while (rest >= 1u << (15 - q)) { rest -= 1u << (15 - q); ++p[q]; }
      L d = Order(p, how, 0);
      Lookup(c, d, 8, false);
    });
    r.Add("lookup-single", 300 * 15 * 2, [=](vf::Case& c) {
      vf::Radix x(c.index);
      int at = (int)x(300), len = 1 + (int)x(15), root = x(2) ? 8 : 5;
      L d(at + 1 + at % 5, 0);
      d[at] = (uint8_t)len;
      Lookup(c, d, root, at < 20);
    });
  }
  return r.Main();
}
