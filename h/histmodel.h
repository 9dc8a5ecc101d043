// The section with the context map and the histograms (tag 6): taken apart by a model written from the
// format, and written again in every way the format allows, including ways the encoder never chooses.
#ifndef VERIF_HISTMODEL_H_
#define VERIF_HISTMODEL_H_
#include <algorithm>
#include <memory>
#include <vector>
#include "codec.h"
#include "corpus.h"
#include "crafted.h"
#include "runner.h"
#include "sections.h"

namespace hist {
typedef std::string Bytes;
using crafted::Rd;
using crafted::Wr;
static const int kOrder[18] = {1, 2, 3, 4, 0, 5, 17, 6, 16, 7, 8, 9, 10, 11, 12, 13, 14, 15};
static const int kSkip[7] = {8, 15, 31, 61, 120, 231, 412};

// Prefix code given by its lengths: the codes are canonical, written from their most significant bit.
struct Code {
  std::vector<int> len, code;
  explicit Code(const std::vector<int>& l = {}) : len(l), code(l.size(), 0) {
    int next = 0;
    for (int b = 1; b <= 15; ++b, next <<= 1)
      for (size_t s = 0; s < len.size(); ++s) if (len[s] == b) code[s] = next++;
  }
  void Write(Wr& w, int s) const { for (int b = len[s] - 1; b >= 0; --b) w.Put(1, code[s] >> b & 1); }
  int Read(Rd& r) const {
    int n = 0, c = 0, only = -1;
    for (size_t s = 0; s < len.size(); ++s) if (len[s] < 0) only = (int)s;
    if (only >= 0) return only;  // a single symbol takes no bits
    while (n < 15 && !r.bad) {
      c = c << 1 | (int)r.Get(1);
      ++n;
      for (size_t s = 0; s < len.size(); ++s) if (len[s] == n && code[s] == c) return (int)s;
    }
    r.bad = true;
    return 0;
  }
};
inline int CeilLog(int n) { int k = 0; while ((1 << k) < n) ++k; return k; }
// lengths of a complete code for `n` symbols: `chain` of them take 1, 2, ... bits, the others the rest evenly
inline std::vector<int> Shape(int n, int chain) {
  std::vector<int> l;
  while (chain > 0 && (n - chain < 1 || chain + CeilLog(n - chain) > 15)) --chain;
  for (int k = 1; k <= chain; ++k) l.push_back(k);
  int m = n - chain, k = CeilLog(m), lng = 2 * m - (1 << k);
  for (int i = 0; i < m; ++i) l.push_back(chain + (i < m - lng ? k - 1 : k));
  return l;
}
// how a prefix code is stored
struct Store {
  int simple = 0;      // 0 lengths listed, 1 the short form if possible
  int order = 0;       // short form: order of the symbols
  int chain = 0;       // shape of the code
  int back = 0;        // short codes for the symbols at the end
  int extra = 0;       // 1: unused symbols get codes as well; 2: until their number is a power of two
  int repeats = 0;     // 0 none, 1 the shortest runs, 2 the longest runs, chained
  int clchain = 0;     // shape of the code for the lengths
  int noskip = 0;      // leading lengths of zero written out
};
inline void WriteLengths(Wr& w, const Store& st, const std::vector<int>& len) {
  struct Op { int s, bits, v; };
  std::vector<Op> ops;
  size_t n = len.size();
  while (n && !len[n - 1]) --n;
  int prev = 8;
  for (size_t i = 0; i < n;) {
    size_t run = 1;
    while (i + run < n && len[i + run] == len[i]) ++run;
    int l = len[i];
    size_t use = st.repeats == 1 ? std::min<size_t>(run, 3) : run;
    // a run of earlier code directly before would extend it, so runs are written whole or with plain codes between
    if (st.repeats && l == 0 && use >= 3) {
      std::vector<Op> d;
      size_t k = use - 3;
      while (true) { d.push_back({17, 3, (int)(k & 7)}); k >>= 3; if (!k) break; --k; }
      ops.insert(ops.end(), d.rbegin(), d.rend());
      i += use;
      if (i < n && len[i] == 0) { ops.push_back({0, 0, 0}); ++i; }
    } else if (st.repeats && l && l == prev && use >= 3) {
      std::vector<Op> d;
      size_t k = use - 3;
      while (true) { d.push_back({16, 2, (int)(k & 3)}); k >>= 2; if (!k) break; --k; }
      ops.insert(ops.end(), d.rbegin(), d.rend());
      i += use;
      if (i < n && len[i] == l) { ops.push_back({l, 0, 0}); ++i; }
    } else {
      ops.push_back({l, 0, 0});
      if (l) prev = l;
      ++i;
    }
  }
  std::vector<int> cl(18, 0), used;
  for (auto& o : ops) if (std::find(used.begin(), used.end(), o.s) == used.end()) used.push_back(o.s);
  int chain = std::min(st.clchain, 4);
  while (chain > 0 && chain + CeilLog(std::max<int>(1, (int)used.size() - chain)) > 5) --chain;
  bool one = used.size() == 1;
  auto sh = Shape((int)used.size(), chain);
  for (size_t i = 0; i < used.size(); ++i) cl[used[i]] = one ? 1 + st.clchain % 5 : sh[i];
  int skip = 0;
  if (!st.noskip && !cl[1] && !cl[2]) skip = cl[3] ? 2 : 3;
  w.Put(2, skip);
  int space = 32;
  static const int sym[6] = {0, 7, 3, 2, 1, 15}, bits[6] = {2, 4, 3, 2, 2, 4};
  for (int i = skip; i < 18 && space > 0; ++i) {
    int l = cl[kOrder[i]];
    w.Put(bits[l], sym[l]);
    if (l) space -= 32 >> l;
  }
  Code c(cl);
  for (auto& o : ops) {
    if (!one) c.Write(w, o.s);
    w.Put(o.bits, o.v);
  }
}
// chooses a code for the used symbols, writes it down and returns it
inline Code WriteCode(Wr& w, const Store& st, std::vector<int> used, int alphabet) {
  std::vector<int> len(alphabet, 0);
  auto add = [&](size_t want) { for (int s = 0; s < alphabet && used.size() < want; ++s) if (std::find(used.begin(), used.end(), s) == used.end()) used.push_back(s); };
  if (st.simple && used.size() <= 4) {
    if (st.extra) add(std::min<size_t>(4, used.size() + st.extra));
    size_t n = used.size();
    for (int k = 0; k < st.order; ++k) std::next_permutation(used.begin(), used.end());
    w.Put(2, 1);
    w.Put(2, n - 1);
    int bits = alphabet > 1 ? 32 - __builtin_clz(alphabet - 1) : 0;
    for (int s : used) w.Put(bits, s);
    int five = n == 4 && st.chain;
    if (n == 4) w.Put(1, five);
    static const int L[5][4] = {{-1}, {1, 1}, {1, 2, 2}, {2, 2, 2, 2}, {1, 2, 3, 3}};
    for (size_t i = 0; i < n; ++i) len[used[i]] = L[five ? 4 : n - 1][i];
    return Code(len);
  }
  if (used.size() < 2) add(2);
  if (st.extra == 1) add(alphabet);
  if (st.extra == 2) { size_t p = 2; while (p < used.size()) p *= 2; if ((int)p <= alphabet) add(p); }
  auto sh = Shape((int)used.size(), st.chain);
  std::sort(used.begin(), used.end());
  for (size_t i = 0; i < used.size(); ++i) len[used[st.back ? used.size() - 1 - i : i]] = sh[i];
  WriteLengths(w, st, len);
  return Code(len);
}
inline Code ReadCode(Rd& r, int alphabet) {
  std::vector<int> len(alphabet, 0);
  int skip = (int)r.Get(2);
  if (skip == 1) {
    int n = (int)r.Get(2) + 1, bits = alphabet > 1 ? 32 - __builtin_clz(alphabet - 1) : 0;
    std::vector<int> s;
    for (int k = 0; k < n; ++k) s.push_back((int)r.Get(bits));
    int five = n == 4 ? (int)r.Get(1) : 0;
    static const int L[5][4] = {{-1}, {1, 1}, {1, 2, 2}, {2, 2, 2, 2}, {1, 2, 3, 3}};
    for (int k = 0; k < n; ++k) { if (s[k] >= alphabet) { r.bad = true; break; } len[s[k]] = L[five ? 4 : n - 1][k]; }
    return Code(len);
  }
  std::vector<int> cl(18, 0);
  int space = 32, n = 0, only = 0;
  for (int i = skip; i < 18 && space > 0; ++i) {
    int b = 0, v;
    static const int val[4] = {0, 4, 3, 2};
    b = (int)r.Get(2);
    if (b < 3) v = val[b]; else if (!r.Get(1)) v = 2; else v = r.Get(1) ? 5 : 1;
    cl[kOrder[i]] = v;
    if (v) { space -= 32 >> v; ++n; only = kOrder[i]; }
  }
  if (n == 1) cl[only] = -1;
  Code c(cl);
  int full = 1 << 15, i = 0, prev = 8, rep = 0, replen = 0;
  while (i < alphabet && full > 0 && !r.bad) {
    int s = c.Read(r);
    if (s < 16) { rep = 0; len[i++] = s; if (s) { prev = s; full -= (1 << 15) >> s; } continue; }
    int bits = s - 14, l = s == 16 ? prev : 0, old;
    if (replen != l) rep = 0, replen = l;
    old = rep;
    if (rep) rep = (rep - 2) << bits;
    rep += (int)r.Get(bits) + 3;
    for (int k = 0; k < rep - old && i < alphabet; ++k) { len[i++] = l; if (l) full -= (1 << 15) >> l; }
  }
  if (full) r.bad = true;
  return Code(len);
}
struct Map { int prefix = 0, mtf = 1; Store st; };
// 18 counts that add up to 1024
struct Counts {
  std::vector<int> v = std::vector<int>(18, 0);
  int how = 0;  // 0 as short as possible, 1 the long form always, 2 the long form with all 18 places, 3 two symbols where one would do
};
inline void WriteLog(Wr& w, int v) {
  static const int len[11] = {5, 4, 4, 4, 3, 3, 2, 3, 3, 6, 6}, sym[11] = {15, 3, 11, 7, 2, 6, 0, 1, 5, 31, 63};
  w.Put(len[v], sym[v]);
}
inline void WriteLen(Wr& w, int n) {
  static const int len[16] = {8, 8, 6, 6, 6, 5, 4, 3, 3, 3, 3, 3, 3, 4, 5, 7}, sym[16] = {127, 255, 15, 47, 31, 7, 3, 0, 4, 2, 6, 1, 5, 11, 23, 63};
  w.Put(len[n - 3], sym[n - 3]);
}
inline int ReadTab(Rd& r, const int* len, const int* sym, int n) {
  int c = 0;
  for (int b = 0; b < 9 && !r.bad; ++b) {
    for (int k = 0; k < n; ++k) if (len[k] == b && sym[k] == c) return k;
    c |= (int)r.Get(1) << b;
  }
  r.bad = true;
  return 0;
}
inline int Log(int v) { return v ? 32 - __builtin_clz(v) : 0; }
inline int Keep(int log) { return log > 1 ? log / 2 : 0; }  // bits kept below the leading one
inline bool WriteCounts(Wr& w, const Counts& c) {
  std::vector<int> s;
  for (int k = 0; k < 18; ++k) if (c.v[k]) s.push_back(k);
  if (c.how == 3 && s.size() == 1) s.insert(s.begin(), (s[0] + 7) % 18);
  if (s.size() <= 2 && c.how != 1 && c.how != 2) {
    w.Put(1, 1);
    w.Put(1, s.size() - 1);
    for (int k : s) w.Put(5, k);
    if (s.size() == 2) { if (c.v[s[0]] > 1023) return false; w.Put(10, c.v[s[0]]); }
    return true;
  }
  // one position is left out: the first with the greatest logarithm
  int last = 3;
  for (int k = 0; k < 18; ++k) if (c.v[k]) last = std::max(last, k + 1);
  if (c.how == 2) last = 18;
  for (int o = 0; o < last; ++o) {
    if (!c.v[o]) continue;
    int need = 0;
    bool ok = true;
    for (int k = 0; k < 18; ++k) {
      if (k == o || !c.v[k]) continue;
      int l = Log(c.v[k]), drop = l - 1 - Keep(l);
      if (c.v[k] & ((1 << drop) - 1)) ok = false;
      need = std::max(need, k < o ? l + 1 : l);
    }
    if (!ok || need > 10) continue;
    if (!need) need = 1;
    w.Put(1, 0);
    WriteLen(w, last);
    for (int k = 0; k < last; ++k) WriteLog(w, k == o ? need : Log(c.v[k]));
    for (int k = 0; k < last; ++k) {
      if (k == o || c.v[k] < 2) continue;
      int l = Log(c.v[k]), b = Keep(l), drop = l - 1 - b;
      w.Put(b, (c.v[k] >> drop) - (1 << b));
    }
    return true;
  }
  return false;
}
inline Counts ReadCounts(Rd& r) {
  Counts c;
  if (r.Get(1)) {
    int n = (int)r.Get(1) + 1, s[2];
    for (int k = 0; k < n; ++k) s[k] = (int)r.Get(5) % 18;
    if (n == 1) c.v[s[0]] = 1024;
    else { int v = (int)r.Get(10); c.v[s[0]] = v; c.v[s[1]] = 1024 - v; }
    return c;
  }
  static const int ll[16] = {8, 8, 6, 6, 6, 5, 4, 3, 3, 3, 3, 3, 3, 4, 5, 7}, ls[16] = {127, 255, 15, 47, 31, 7, 3, 0, 4, 2, 6, 1, 5, 11, 23, 63};
  static const int gl[11] = {5, 4, 4, 4, 3, 3, 2, 3, 3, 6, 6}, gs[11] = {15, 3, 11, 7, 2, 6, 0, 1, 5, 31, 63};
  int n = ReadTab(r, ll, ls, 16) + 3, lg[18], o = 0, sum = 0;
  for (int k = 0; k < n; ++k) { lg[k] = ReadTab(r, gl, gs, 11); if (lg[k] > lg[o]) o = k; }
  for (int k = 0; k < n; ++k) {
    if (k == o || !lg[k]) continue;
    int b = Keep(lg[k]);
    c.v[k] = lg[k] == 1 ? 1 : (1 << (lg[k] - 1)) + (int)(r.Get(b) << (lg[k] - 1 - b));
    sum += c.v[k];
  }
  c.v[o] = 1024 - sum;
  if (sum >= 1024) r.bad = true;
  return c;
}
struct Section {
  std::vector<int> schemes, map;
  std::vector<Counts> counts;
  bool Get(const Bytes& b, int ncomp) {
    Rd r(b);
    int ctx = ncomp;
    for (int k = 0; k < ncomp; ++k) { schemes.push_back((int)r.Get(3)); if (schemes.back() > 6) return false; ctx += kSkip[schemes.back()]; }
    int n = 0;
    if (r.Get(1)) { int k = (int)r.Get(3); n = (1 << k) + (int)r.Get(k); }
    ++n;
    map.assign(ctx * 9, 0);
    if (n > 1) {
      int p = r.Get(1) ? (int)r.Get(4) + 1 : 0;
      Code c = ReadCode(r, n + p);
      for (size_t i = 0; i < map.size() && !r.bad;) {
        int s = c.Read(r);
        if (s == 0) ++i;
        else if (s <= p) i += (1u << s) + r.Get(s);
        else map[i++] = s - p;
      }
      if (r.Get(1)) {
        std::vector<int> m(256);
        for (int k = 0; k < 256; ++k) m[k] = k;
        for (int& x : map) { int v = m[x]; m.erase(m.begin() + x); m.insert(m.begin(), v); x = v; }
      }
    }
    for (int k = 0; k < n; ++k) counts.push_back(ReadCounts(r));
    while (r.n % 8) if (r.Get(1)) r.bad = true;
    return !r.bad && r.n / 8 == b.size();
  }
  bool Put(const Map& m, Bytes* out) const {
    Wr w;
    for (int s : schemes) w.Put(3, s);
    int n = (int)counts.size() - 1;
    w.Put(1, n > 0);
    if (n) { int k = Log(n) - 1; w.Put(3, k); w.Put(k, n - (1 << k)); }
    if (n) {
      std::vector<int> v = map;
      if (m.mtf) {
        std::vector<int> l(256);
        for (int k = 0; k < 256; ++k) l[k] = k;
        for (int& x : v) { int at = (int)(std::find(l.begin(), l.end(), x) - l.begin()); l.erase(l.begin() + at); l.insert(l.begin(), x); x = at; }
      }
      struct Op { int s, e; };
      std::vector<Op> ops;
      for (size_t i = 0; i < v.size();) {
        if (v[i]) { ops.push_back({v[i] + m.prefix, 0}); ++i; continue; }
        size_t run = 1;
        while (i + run < v.size() && !v[i + run]) ++run;
        i += run;
        while (run) {
          int p = std::min(Log((int)run) - 1, m.prefix);
          size_t most = p ? (2u << p) - 1 : 1, use = std::min(run, most);
          ops.push_back({p, p ? (int)(use - (1u << p)) : 0});
          run -= use;
        }
      }
      w.Put(1, m.prefix > 0);
      if (m.prefix) w.Put(4, m.prefix - 1);
      std::vector<int> used;
      std::vector<bool> seen(512);
      for (auto& o : ops) if (!seen[o.s]) { seen[o.s] = true; used.push_back(o.s); }
      std::sort(used.begin(), used.end());
      Code c = WriteCode(w, m.st, used, n + 1 + m.prefix);
      for (auto& o : ops) { c.Write(w, o.s); if (o.s && o.s <= m.prefix) w.Put(o.s, o.e); }
      w.Put(1, m.mtf);
    }
    for (auto& c : counts) if (!WriteCounts(w, c)) return false;
    *out = w.b;
    return true;
  }
};
// Every way to write the section that is tried.  Histograms are repeated so that the context map can be
// anything: entry c may be replaced by c + n * k, where n is the number of different histograms.
struct Base { std::string name; Bytes jpg; sec::Stream s; Section h; };
struct Set {
  std::vector<Base> base;
  std::string broken;
  bool deep = false;
  uint64_t n = 0;
};
static const int kSizes[] = {0, 2, 3, 4, 5, 8, 9, 17, 64, 129, 255, 256};
static const int kPrefixes[] = {0, 1, 2, 6, 9, 16};
static const int kPatterns = 9, kNSizes = 12, kNPrefixes = 6;
inline const std::vector<Store>& Stores() {
  static const std::vector<Store> v = [] {
    std::vector<Store> r;
    auto put = [&](int simple, int order, int chain, int back, int extra, int repeats, int cl, int noskip) {
      Store s;
      s.simple = simple; s.order = order; s.chain = chain; s.back = back; s.extra = extra; s.repeats = repeats; s.clchain = cl; s.noskip = noskip;
      r.push_back(s);
    };
    for (int o = 0; o < 6; ++o) put(1, o, o & 1, 0, 0, 1 + o % 2, 0, 0);
    for (int e = 1; e < 4; ++e) put(1, 7 * e, e & 1, 0, e, 2, 1, 0);
    put(1, 23, 1, 0, 3, 1, 0, 0);
    put(0, 0, 0, 0, 0, 0, 0, 0);
    put(0, 0, 3, 0, 0, 1, 1, 0);
    put(0, 0, 7, 1, 0, 2, 0, 1);
    put(0, 0, 14, 0, 1, 2, 2, 0);
    put(0, 0, 9, 1, 1, 1, 3, 0);
    put(0, 0, 0, 0, 2, 2, 4, 1);
    put(0, 0, 0, 0, 1, 0, 0, 0);
    put(0, 0, 0, 1, 2, 1, 1, 0);
    return r;
  }();
  return v;
}
inline uint32_t Mix(uint32_t x) { x ^= x >> 16; x *= 0x7feb352du; x ^= x >> 15; x *= 0x846ca68bu; return x ^ x >> 16; }
// names: the corpus streams to use, all if empty
inline std::shared_ptr<Set> Make(const std::vector<corpus::Entry>& c, bool deep, const std::vector<std::string>& names) {
  auto r = std::make_shared<Set>();
  r->deep = deep;
  for (auto& e : c) {
    if (!names.empty() && std::find(names.begin(), names.end(), e.name) == names.end()) continue;
    Base b;
    b.name = e.name;
    b.jpg = e.jpg;
    brunsli::JPEGData j;
    if (!sec::Split(e.brn, &b.s) || !codec::Read(e.jpg, &j)) continue;
    const sec::Elem* h = b.s.Find(sec::HIST);
    if (!h) continue;
    if (!b.h.Get(h->body, (int)j.components.size())) { r->broken = e.name; continue; }
    Map m;
    Bytes back;
    Section again;
    if (!b.h.Put(m, &back) || !again.Get(back, (int)j.components.size()) || again.map != b.h.map || again.counts.size() != b.h.counts.size()) r->broken = e.name + " (rewritten)";
    r->base.push_back(b);
  }
  r->n = r->base.size() * kNSizes * kPatterns * kNPrefixes * 2 * Stores().size();
  return r;
}
inline Bytes With(const Base& b, const Bytes& body) {
  sec::Stream s = b.s;
  for (auto& e : s.body) if (e.tag == sec::HIST) e = sec::Section(sec::HIST, body);
  return s.Put();
}
inline Bytes Stream(const Set& t, uint64_t index, std::string* what) {
  vf::Radix x(index);
  Map m;
  int st = (int)x(Stores().size());
  m.st = Stores()[st];
  m.mtf = (int)x(2);
  m.prefix = kPrefixes[x(kNPrefixes)];
  int pat = (int)x(kPatterns);
  const Base& b = t.base[x(t.base.size())];
  int size = kSizes[x(kNSizes)], n = (int)b.h.counts.size();
  if (size ? size <= n : n == 1 || pat) return "";
  Section h = b.h;
  while ((int)h.counts.size() < size) h.counts.push_back(h.counts[h.counts.size() - n]);
  size_t L = h.map.size();
  if (size) for (size_t i = 0; i < L; ++i) {
    uint32_t k = (size - 1 - h.map[i]) / n, j = 0;  // 0..k are the choices
    switch (pat) {
      case 0: j = k; break;
      case 1: j = i % (k + 1); break;
      case 2: j = Mix((uint32_t)i) % (k + 1); break;
      case 3: j = (i / 50) % (k + 1); break;
      case 4: j = i % 2 ? k : 0; break;
      case 5: j = i + 1 == L ? k : 0; break;
      case 6: j = std::min<uint32_t>(k, __builtin_ctz(Mix((uint32_t)i) | 1 << 20)); break;
      case 7: j = i % 33 == 7 ? k / 2 : 0; break;
      case 8: j = (i & (i + 1)) == 0 ? k : 0; break;  // runs of growing length
    }
    h.map[i] += (int)j * n;
  }
  Bytes body;
  if (!h.Put(m, &body)) return "";
  *what = vf::Fmt("%s: %d histograms, map %d, run prefix %d, %sprefix code %d", b.name.c_str(), size ? size : n, pat, m.prefix, m.mtf ? "move to front, " : "", st);
  return With(b, body);
}
// the counts written in other ways
inline Bytes CountStream(const Set& t, uint64_t index, std::string* what) {
  vf::Radix x(index);
  int how = (int)x(4), every = 1 + (int)x(3);
  const Base& b = t.base[x(t.base.size())];
  Section h = b.h;
  Map m;
  for (size_t k = 0; k < h.counts.size(); k += every) {
    h.counts[k].how = how;
    Wr w;
    if (!WriteCounts(w, h.counts[k])) h.counts[k].how = 0;
  }
  Bytes body;
  if (!h.Put(m, &body)) return "";
  *what = vf::Fmt("%s: every histogram number %d in form %d", b.name.c_str(), every, how);
  return With(b, body);
}
inline uint64_t CountStreams(const Set& t) { return t.base.size() * 12; }
}  // namespace hist
#endif
