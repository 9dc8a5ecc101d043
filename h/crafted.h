// Well-formed INTERNALS and QUANT sections with any field changed: the sections are taken apart into
// their fields by a model written from the format, edited, and put together again with consistent
// counts.  On unchanged files the model reproduces the section exactly.
#ifndef VERIF_CRAFTED_H_
#define VERIF_CRAFTED_H_
#include <algorithm>
#include <brotli/encode.h>
#include <functional>
#include <memory>
#include "corpus.h"
#include "sections.h"
#include "runner.h"

namespace crafted {
typedef std::string Bytes;
struct Wr {
  Bytes b;
  int n = 0;
  void Put(int k, uint64_t v) {
    for (int i = 0; i < k; ++i, ++n) {
      if (n % 8 == 0) b += (char)0;
      b.back() |= (char)((v >> i & 1) << (n % 8));
    }
  }
  void Varint(uint64_t v, int max) {  // bit by bit with continuation flags
    int k = 0;
    for (; v && k < max; ++k, v >>= 1) { if (k + 1 != max) Put(1, 1); Put(1, v & 1); }
    if (k < max) Put(1, 0);
  }
  void Limited(uint64_t v, int bits, int max) {
    for (int k = 0; k < max; ++k, v >>= bits) { Put(1, v != 0); if (!v) break; Put(bits, v); }
  }
};
struct Rd {
  const Bytes& b;
  size_t n = 0;
  bool bad = false;
  explicit Rd(const Bytes& x) : b(x) {}
  uint64_t Get(int k) {
    uint64_t v = 0;
    for (int i = 0; i < k; ++i, ++n) {
      if (n / 8 >= b.size()) { bad = true; return 0; }
      v |= (uint64_t)((uint8_t)b[n / 8] >> (n % 8) & 1) << i;
    }
    return v;
  }
  uint64_t Varint(int max) {
    uint64_t v = 0;
    for (int k = 0; k < max; ++k) { if (k + 1 != max && !Get(1)) return v; v |= Get(1) << k; }
    return v;
  }
  uint64_t Limited(int bits, int max) {
    uint64_t v = 0;
    for (int k = 0; k < max; ++k) { if (!Get(1)) return v; v |= Get(bits) << (k * bits); }
    return v;
  }
};
struct Huff {
  int slot = 0, ac = 0, last = 0, match = 0, which = 0, max_len = 1;
  int counts[17] = {0};  // as coded: one less than in the file for the longest codes
  std::vector<int> codes;
};
struct Scan {
  int Ss = 0, Se = 63, Ah = 0, Al = 0;
  struct C { int c = 0, dc = 0, ac = 0; };
  std::vector<C> comps;
  std::vector<uint64_t> resets, zruns;  // coded differences
};
struct Quant { int index = 0, last = 0, precision = 0; };
struct QTable {
  int raw = 0, code = 0;           // code: a stock table, or the scale of the predictor if raw
  std::vector<int> diffs;          // 64 if raw
};
struct QModel {                    // section 5
  int count = -1;                  // -1: the real one
  std::vector<QTable> tables;
  std::vector<int> idx;
  int end_bits = 0;
  Bytes tail;
  Bytes Put() const {
    Wr w;
    w.Put(2, count >= 0 ? count : tables.size() - 1);
    for (auto& t : tables) {
      w.Put(1, t.raw);
      w.Put(t.raw ? 6 : 3, t.code);
      if (t.raw) for (int k = 0; k < 64; ++k) {
        int d = k < (int)t.diffs.size() ? t.diffs[k] : 0;
        w.Put(1, d != 0);
        if (d) { w.Put(1, d < 0); w.Varint((uint64_t)(d < 0 ? -(int64_t)d : d) - 1, 16); }
      }
    }
    for (int i : idx) w.Put(2, i);
    for (int k = 0; w.n % 8; ++k) w.Put(1, end_bits >> k & 1);
    return w.b + tail;
  }
  bool Get(const Bytes& b, int nc) {
    Rd r(b);
    tables.resize(r.Get(2) + 1);
    for (auto& t : tables) {
      t.raw = (int)r.Get(1);
      t.code = (int)r.Get(t.raw ? 6 : 3);
      if (t.raw) for (int k = 0; k < 64 && !r.bad; ++k) {
        int d = 0;
        if (r.Get(1)) { int neg = (int)r.Get(1); d = (int)r.Varint(16) + 1; if (neg) d = -d; }
        t.diffs.push_back(d);
      }
    }
    for (int k = 0; k < nc; ++k) idx.push_back((int)r.Get(2));
    return !r.bad && (r.n + 7) / 8 == b.size();
  }
};
struct Model {
  QModel q;
  std::vector<int> markers;  // 0xc0..0xff, ends with 0xd9
  int dri = 0;
  std::vector<Huff> huffs;
  std::vector<Scan> scans;
  std::vector<Quant> quants;
  int scheme = 0;
  std::vector<int> ids;
  int ncomp = 0;
  std::vector<int> padding;
  int64_t padding_count = -1;  // -1: the real one
  std::vector<Bytes> between;
  int end_bits = 0;  // in place of zero bits at the end of the bit fields
  int Count(int m) const {
    int n = 0;
    for (int x : markers) { n += x == m; if (x == 0xd9) break; }
    return n;
  }
  void Sync() {  // as many of each as the markers announce
    if (markers.empty() || markers.back() != 0xd9) markers.push_back(0xd9);
    size_t n = Count(0xda);
    while (scans.size() < n) scans.push_back(scans.empty() ? Scan() : scans.back());
    scans.resize(n);
    for (auto& s : scans) if (s.comps.empty()) s.comps.resize(1);
    between.resize(Count(0xff));
    if (!huffs.empty()) {
      int want = Count(0xc4), have = 0;
      huffs.back().last = 1;
      for (auto& h : huffs) have += h.last;
      while (have < want) { huffs.push_back(huffs.back()); ++have; }
      while (have > want && have > 1) { huffs.pop_back(); while (huffs.size() > 1 && !huffs.back().last) huffs.pop_back(); --have; }
    }
  }
  static int Space(int max_len) { return (1 << 16) - (1 << (16 - max_len)); }
  static int NBits(int n) { int k = 0; while (n >> k) ++k; return k; }
  Bytes Put() const {
    Wr w;
    for (int m : markers) { w.Put(6, m - 0xc0); if (m == 0xd9) break; }
    if (Count(0xdd)) w.Put(16, dri);
    for (size_t i = 0; i < huffs.size(); ++i) {
      auto& h = huffs[i];
      bool known = i + 1 == huffs.size();
      w.Put(1, known);
      w.Put(2, h.slot);
      w.Put(1, h.ac);
      if (!known) w.Put(1, h.last);
      w.Put(1, h.match);
      if (h.match) { w.Put(1, h.which); continue; }
      w.Put(4, h.max_len - 1);
      int space = Space(h.max_len), total = 0, alpha = h.ac ? 256 : 12;
      for (int l = 1; l <= h.max_len; ++l) {
        int lim = std::min(alpha - total, space >> (16 - l));
        if (lim <= 0) continue;
        w.Put(NBits(lim), h.counts[l]);
        int c = h.counts[l] & ((1 << NBits(lim)) - 1);
        total += c;
        space -= c << (16 - l);
      }
      for (int k = 0; k < total; ++k) {
        int left = (h.ac ? 256 : 16) - k;
        int nb = left <= 1 ? 0 : NBits(left - 1);
        w.Limited(k < (int)h.codes.size() ? h.codes[k] : 0, 2, (nb + 1) / 2);
      }
    }
    for (auto& s : scans) {
      w.Put(6, s.Ss); w.Put(6, s.Se); w.Put(4, s.Ah); w.Put(4, s.Al);
      w.Put(2, s.comps.size() - 1);
      for (auto& c : s.comps) { w.Put(2, c.c); w.Put(2, c.dc); w.Put(2, c.ac); }
      for (auto v : s.resets) { w.Put(1, 1); w.Varint(v, 28); }
      w.Put(1, 0);
      for (auto v : s.zruns) { w.Put(1, 1); w.Varint(v, 28); }
      w.Put(1, 0);
    }
    w.Put(2, quants.size() - 1);
    for (size_t i = 0; i < quants.size(); ++i) {
      w.Put(2, quants[i].index);
      if (i + 1 < quants.size()) w.Put(1, quants[i].last);
      w.Put(4, quants[i].precision);
    }
    w.Put(2, scheme);
    if (scheme == 3) for (int k = 0; k < ncomp; ++k) w.Put(8, k < (int)ids.size() ? ids[k] : 0);
    w.Limited(padding_count >= 0 ? padding_count : padding.size(), 8, 4);
    for (int p : padding) w.Put(1, p);
    for (int k = 0; w.n % 8; ++k) w.Put(1, end_bits >> k & 1);
    Bytes r = w.b;
    size_t k = 0;
    for (int m : markers) {
      if (m == 0xff && k < between.size()) { r += sec::B128(between[k].size()) + between[k]; ++k; }
      if (m == 0xd9) break;
    }
    return r;
  }
  bool Get(const Bytes& b, int nc) {
    Rd r(b);
    ncomp = nc;
    do { markers.push_back(0xc0 + (int)r.Get(6)); } while (markers.back() != 0xd9 && !r.bad);
    if (Count(0xdd)) dri = (int)r.Get(16);
    for (bool known = false; !known && !r.bad;) {
      Huff h;
      known = r.Get(1);
      h.slot = (int)r.Get(2);
      h.ac = (int)r.Get(1);
      h.last = known || r.Get(1);
      h.match = (int)r.Get(1);
      if (h.match) h.which = (int)r.Get(1);
      else {
        h.max_len = (int)r.Get(4) + 1;
        int space = Space(h.max_len), total = 0, alpha = h.ac ? 256 : 12;
        for (int l = 1; l <= h.max_len; ++l) {
          int lim = std::min(alpha - total, space >> (16 - l));
          if (lim <= 0) continue;
          h.counts[l] = (int)r.Get(NBits(lim));
          total += h.counts[l];
          space -= h.counts[l] << (16 - l);
        }
        for (int k = 0; k < total; ++k) {
          int left = (h.ac ? 256 : 16) - k, nb = left <= 1 ? 0 : NBits(left - 1);
          h.codes.push_back((int)r.Limited(2, (nb + 1) / 2));
        }
      }
      huffs.push_back(h);
    }
    for (int i = Count(0xda); i > 0 && !r.bad; --i) {
      Scan s;
      s.Ss = (int)r.Get(6); s.Se = (int)r.Get(6); s.Ah = (int)r.Get(4); s.Al = (int)r.Get(4);
      s.comps.resize(r.Get(2) + 1);
      for (auto& c : s.comps) { c.c = (int)r.Get(2); c.dc = (int)r.Get(2); c.ac = (int)r.Get(2); }
      while (r.Get(1)) s.resets.push_back(r.Varint(28));
      while (r.Get(1)) s.zruns.push_back(r.Varint(28));
      scans.push_back(s);
    }
    quants.resize(r.Get(2) + 1);
    for (size_t i = 0; i < quants.size(); ++i) {
      quants[i].index = (int)r.Get(2);
      quants[i].last = i + 1 < quants.size() ? (int)r.Get(1) : 1;
      quants[i].precision = (int)r.Get(4);
    }
    scheme = (int)r.Get(2);
    if (scheme == 3) for (int k = 0; k < nc; ++k) ids.push_back((int)r.Get(8));
    for (uint64_t n = r.Limited(8, 4); n > 0 && !r.bad; --n) padding.push_back((int)r.Get(1));
    size_t p = (r.n + 7) / 8;
    for (int m : markers) if (m == 0xff) {
      uint64_t v = 0;
      for (int s = 0; p < b.size(); s += 7) { uint8_t c = b[p++]; v |= (uint64_t)(c & 127) << s; if (!(c & 128)) break; }
      if (v > b.size() - p) return false;
      between.push_back(b.substr(p, v));
      p += v;
    }
    return !r.bad && p == b.size();
  }
};
struct Edit { std::string name; std::function<void(Model&)> f; bool pair; };
// All single edits of a model; |pair|: also combined with one another.
inline std::vector<Edit> Edits(const Model& m0) {
  std::vector<Edit> v;
  auto add = [&](const std::string& n, bool pair, std::function<void(Model&)> f) { v.push_back({n, f, pair}); };
  using vf::Fmt;
  static const int mk[] = {0xc0, 0xc1, 0xc2, 0xc3, 0xc4, 0xd0, 0xd8, 0xd9, 0xda, 0xdb, 0xdd, 0xe0, 0xe1, 0xfe, 0xff};
  size_t nm = m0.markers.size();
  for (size_t i = 0; i < nm; ++i) {
    add(Fmt("marker %zu removed", i), true, [=](Model& m) { if (i < m.markers.size()) m.markers.erase(m.markers.begin() + i); m.Sync(); });
    add(Fmt("marker %zu twice", i), false, [=](Model& m) { if (i < m.markers.size()) m.markers.insert(m.markers.begin() + i, m.markers[i]); m.Sync(); });
    add(Fmt("marker %zu swapped", i), true, [=](Model& m) { if (i + 1 < m.markers.size()) std::swap(m.markers[i], m.markers[i + 1]); m.Sync(); });
    for (int k : mk) {
      add(Fmt("marker %zu = %#x", i, k), k == 0xda || k == 0xc2 || k == 0xdd, [=](Model& m) { if (i < m.markers.size()) m.markers[i] = k; m.Sync(); });
      add(Fmt("marker %#x before %zu", k, i), false, [=](Model& m) { if (i < m.markers.size()) m.markers.insert(m.markers.begin() + i, k); m.Sync(); });
    }
  }
  for (int d : {0, 1, 2, 3, 5, 100, 65535}) add(Fmt("dri = %d", d), d == 1 || d == 2, [=](Model& m) { m.dri = d; });
  for (size_t i = 0; i < m0.huffs.size(); ++i) {
    auto H = [&](const std::string& n, bool pair, std::function<void(Huff&)> f) { add(Fmt("table %zu: ", i) + n, pair, [=](Model& m) { if (i < m.huffs.size()) f(m.huffs[i]); }); };
    for (int k = 0; k < 4; ++k) H(Fmt("slot %d", k), k < 2, [=](Huff& h) { h.slot = k; });
    H("other class", true, [](Huff& h) { h.ac ^= 1; });
    H("last flag", true, [](Huff& h) { h.last ^= 1; });
    for (int k = 0; k < 2; ++k) H(Fmt("stock %d", k), true, [=](Huff& h) { h.match = 1; h.which = k; });
    for (int k : {1, 2, 7, 8, 15, 16}) H(Fmt("depth %d", k), k == 16, [=](Huff& h) { h.match = 0; h.max_len = k; });
    for (int l = 1; l <= 16; ++l) for (int d : {-1, 1, 3}) H(Fmt("counts[%d] %+d", l, d), false, [=](Huff& h) { h.match = 0; h.counts[l] = std::max(0, h.counts[l] + d); });
    H("no codes", true, [](Huff& h) { h.match = 0; memset(h.counts, 0, sizeof h.counts); });
    for (size_t k : {0, 1, 5, 11, 100, 255}) for (int c : {0, 1, 3, 11, 255}) H(Fmt("code %zu = %d", k, c), false, [=](Huff& h) { h.match = 0; if (k < h.codes.size()) h.codes[k] = c; });
    add(Fmt("table %zu removed", i), true, [=](Model& m) { if (m.huffs.size() > 1 && i < m.huffs.size()) { int l = m.huffs[i].last; m.huffs.erase(m.huffs.begin() + i); if (l && i) m.huffs[i - 1].last = 1; } });
    add(Fmt("table %zu twice", i), true, [=](Model& m) { if (i < m.huffs.size()) { Huff h = m.huffs[i]; h.last = 0; m.huffs.insert(m.huffs.begin() + i, h); } });
  }
  for (size_t i = 0; i < m0.scans.size(); ++i) {
    auto S = [&](const std::string& n, bool pair, std::function<void(Scan&)> f) { add(Fmt("scan %zu: ", i) + n, pair, [=](Model& m) { if (i < m.scans.size()) f(m.scans[i]); }); };
    for (int k : {0, 1, 2, 5, 62, 63}) {
      S(Fmt("Ss %d", k), k != 2 && k != 62, [=](Scan& s) { s.Ss = k; });
      S(Fmt("Se %d", k), k != 2 && k != 62, [=](Scan& s) { s.Se = k; });
    }
    for (int k = 0; k < 16; ++k) {
      S(Fmt("Ah %d", k), k < 2 || k == 15, [=](Scan& s) { s.Ah = k; });
      S(Fmt("Al %d", k), k < 2 || k == 15 || k == 13, [=](Scan& s) { s.Al = k; });
    }
    for (size_t k = 1; k <= 4; ++k) S(Fmt("%zu components", k), true, [=](Scan& s) { while (s.comps.size() < k) s.comps.push_back(s.comps.back()); s.comps.resize(k); });
    for (size_t c = 0; c < m0.scans[i].comps.size(); ++c) for (int k = 0; k < 4; ++k) {
      S(Fmt("component %zu is %d", c, k), true, [=](Scan& s) { if (c < s.comps.size()) s.comps[c].c = k; });
      S(Fmt("component %zu dc table %d", c, k), k == 1 || k == 3, [=](Scan& s) { if (c < s.comps.size()) s.comps[c].dc = k; });
      S(Fmt("component %zu ac table %d", c, k), k == 1 || k == 3, [=](Scan& s) { if (c < s.comps.size()) s.comps[c].ac = k; });
    }
    static const uint64_t dl[] = {0, 1, 2, 3, 4, 7, 31, 1000, (1 << 28) - 1};
    for (auto d : dl) {
      S(Fmt("reset %d", (int)d), d < 2, [=](Scan& s) { s.resets.push_back(d); });
      S(Fmt("first reset %d", (int)d), false, [=](Scan& s) { s.resets.insert(s.resets.begin(), d); });
      S(Fmt("zero run %d", (int)d), d < 2, [=](Scan& s) { s.zruns.push_back(d); });
      S(Fmt("two zero runs %d", (int)d), false, [=](Scan& s) { s.zruns.push_back(d); s.zruns.push_back(0); });
    }
    S("no resets", true, [](Scan& s) { s.resets.clear(); });
    S("no zero runs", true, [](Scan& s) { s.zruns.clear(); });
    for (int n : {3, 4, 5, 6}) {
      S(Fmt("%d far resets", n), false, [=](Scan& s) { s.resets.insert(s.resets.end(), n, (1 << 28) - 1); });
      S(Fmt("%d far zero runs", n), false, [=](Scan& s) { s.zruns.insert(s.zruns.end(), n, (1 << 28) - 1); });
    }
    for (int n : {16, 64, 300}) {
      S(Fmt("%d resets", n), n == 64, [=](Scan& s) { s.resets.insert(s.resets.end(), n, 0); });
      S(Fmt("%d zero runs", n), n == 16, [=](Scan& s) { s.zruns.insert(s.zruns.end(), n, 0); });
      S(Fmt("%d zero runs, one each", n), false, [=](Scan& s) { s.zruns.insert(s.zruns.end(), n, 1); });
    }
  }
  for (size_t k = 1; k <= 4; ++k) add(Fmt("%zu quant tables", k), true, [=](Model& m) { while (m.quants.size() < k) m.quants.push_back(m.quants.back()); m.quants.resize(k); });
  for (size_t i = 0; i < m0.quants.size(); ++i) {
    for (int k = 0; k < 4; ++k) add(Fmt("quant %zu index %d", i, k), k < 2, [=](Model& m) { if (i < m.quants.size()) m.quants[i].index = k; });
    for (int k = 0; k < 16; ++k) add(Fmt("quant %zu precision %d", i, k), k < 2, [=](Model& m) { if (i < m.quants.size()) m.quants[i].precision = k; });
    add(Fmt("quant %zu last flag", i), true, [=](Model& m) { if (i < m.quants.size()) m.quants[i].last ^= 1; });
  }
  for (int k = 0; k < 4; ++k) add(Fmt("id scheme %d", k), k == 3, [=](Model& m) { m.scheme = k; });
  for (int k = 0; k < m0.ncomp; ++k) for (int d : {0, 1, 2, 255}) add(Fmt("id[%d] = %d", k, d), d == 1, [=](Model& m) { m.scheme = 3; m.ids.resize(m.ncomp); m.ids[k] = d; });
  for (size_t n : {0, 1, 2, 3, 5, 6, 7, 8, 12, 14, 15, 60, 400}) for (int k = 0; k < 2; ++k) add(Fmt("%zu padding bits %d", n, k), n == 0 || n == 7, [=](Model& m) { m.padding.assign(n, k); });
  for (size_t i = 0; i < std::min<size_t>(m0.padding.size(), 64); ++i) add(Fmt("padding bit %zu", i), i == 0, [=](Model& m) { if (i < m.padding.size()) m.padding[i] ^= 1; });
  for (int64_t n : {(int64_t)255, (int64_t)65536, (int64_t)1 << 24, (int64_t)0xffffffff}) add(Fmt("%lld padding bits said", (long long)n), false, [=](Model& m) { m.padding_count = n; });
  for (int k : {1, 2, 64, 127}) add(Fmt("end bits %d", k), false, [=](Model& m) { m.end_bits = k; });
  for (size_t i = 0; i < m0.between.size() + 1; ++i) for (int k = 0; k < 6; ++k) {
    static const char* t[] = {"", "\1", "\xff", "\xff\xd8", "abcdefgh", "\xff\xda"};
    add(Fmt("data %zu kind %d", i, k), k < 3, [=](Model& m) { if (i < m.between.size()) m.between[i] = t[k]; else if (m.markers.size() > 1) { m.markers.insert(m.markers.end() - 1, 0xff); m.Sync(); if (!m.between.empty()) m.between.back() = t[k]; } });
  }
  // section 5
  for (int k = 0; k < 4; ++k) add(Fmt("tables said %d", k), true, [=](Model& m) { m.q.count = k; });
  for (size_t i = 0; i < m0.q.tables.size(); ++i) {
    auto Q = [&](const std::string& n, bool pair, std::function<void(QTable&)> f) { add(Fmt("values %zu: ", i) + n, pair, [=](Model& m) { if (i < m.q.tables.size()) f(m.q.tables[i]); }); };
    for (int k = 0; k < 8; ++k) Q(Fmt("stock %d", k), k == 0 || k == 7, [=](QTable& t) { t.raw = 0; t.code = k; t.diffs.clear(); });
    for (int k : {0, 1, 2, 8, 16, 32, 62, 63}) {
      Q(Fmt("scale %d", k), k == 63, [=](QTable& t) { t.raw = 1; t.code = k; });
      Q(Fmt("plain scale %d", k), k == 0 || k == 8, [=](QTable& t) { t.raw = 1; t.code = k; t.diffs.clear(); });
    }
    static const int df[] = {0, 1, -1, 2, -2, 254, 255, -254, -255, 256, 65279, 65280, 65534, 65535, 65536, -65534, -65535, -65536};
    for (int at : {0, 1, 2, 31, 62, 63}) for (int d : df) {
      bool p = (at == 0 || at == 63) && (d == 255 || d == -65535 || d == 65535 || d == 0);
      Q(Fmt("diff[%d] = %d", at, d), p, [=](QTable& t) { if (!t.raw) { t.raw = 1; t.code = 8; } t.diffs.resize(64); t.diffs[at] = d; });
      if (d == 0) continue;
      Q(Fmt("diff[%d] %+d", at, d), false, [=](QTable& t) { if (!t.raw) { t.raw = 1; t.code = 8; } t.diffs.resize(64); int x = t.diffs[at] + d; t.diffs[at] = std::min(65536, std::max(-65536, x)); });
      Q(Fmt("one value %d larger at %d", d, at), false, [=](QTable& t) { if (!t.raw) { t.raw = 1; t.code = 8; } t.diffs.assign(64, 0); t.diffs[at] = d; if (at < 63) t.diffs[at + 1] = -d; });
    }
    // exactly the limits: values 0, 1, 255, 256, 65535, 65536 from predictors of known value
    static const int want[] = {-1, 0, 1, 255, 256, 65535, 65536, 65537};
    for (int at : {0, 1, 63}) for (int wv : want) for (int one = 0; one < 2; ++one)
      Q(Fmt("value %d at %d%s", wv, at, one ? " only" : " on"), at == 0 && one, [=](QTable& t) {
        t.raw = 1; t.code = 0; t.diffs.assign(64, 0);  // scale 0: all predictors are 1
        t.diffs[at] = wv - 1;
        if (one && at < 63) t.diffs[at + 1] = 1 - wv;
      });
    Q("all values 65535, 1 by turns", true, [](QTable& t) { t.raw = 1; t.code = 0; t.diffs.clear(); for (int k = 0; k < 64; ++k) t.diffs.push_back(k % 2 ? -65534 : 65534); });
    add(Fmt("values %zu removed", i), true, [=](Model& m) { if (m.q.tables.size() > 1 && i < m.q.tables.size()) m.q.tables.erase(m.q.tables.begin() + i); });
    add(Fmt("values %zu twice", i), true, [=](Model& m) { if (m.q.tables.size() < 4 && i < m.q.tables.size()) m.q.tables.insert(m.q.tables.begin() + i, m.q.tables[i]); });
  }
  for (size_t i = 0; i < m0.q.idx.size(); ++i) for (int k = 0; k < 4; ++k) add(Fmt("component %zu values %d", i, k), true, [=](Model& m) { if (i < m.q.idx.size()) m.q.idx[i] = k; });
  add("one component's values more", false, [](Model& m) { m.q.idx.push_back(0); });
  add("one component's values less", false, [](Model& m) { if (!m.q.idx.empty()) m.q.idx.pop_back(); });
  for (int k : {1, 2, 64, 127}) add(Fmt("values' end bits %d", k), false, [=](Model& m) { m.q.end_bits = k; });
  for (int k = 0; k < 3; ++k) add(Fmt("byte %d after the values", k), false, [=](Model& m) { m.q.tail = Bytes(1, (char)(k == 2 ? 255 : k)); });
  return v;
}
struct File { std::string name; sec::Stream s; size_t at, qat; Model m; std::vector<Edit> edits; std::vector<int> pair; };
struct Set {
  std::vector<File> files;
  std::vector<uint64_t> start1, start2;
  uint64_t n1 = 0, n2 = 0;
  std::string broken;  // the model does not reproduce an undamaged section
};
// |all|: pairs of all edits, not only of those marked
inline std::shared_ptr<Set> Make(const std::vector<corpus::Entry>& corp, bool all) {
  auto v = std::make_shared<Set>();
  for (auto& e : corp) {
    if (e.kind) continue;
    File f;
    f.name = e.name;
    if (!sec::Split(e.brn, &f.s)) { v->broken = e.name; continue; }
    for (f.at = 0; f.at < f.s.body.size() && f.s.body[f.at].tag != sec::INTERNALS; ++f.at) {}
    if (f.at == f.s.body.size()) continue;
    for (f.qat = 0; f.qat < f.s.body.size() && f.s.body[f.qat].tag != sec::QUANT; ++f.qat) {}
    if (f.qat == f.s.body.size()) continue;
    // the number of components: at the position given by JPEG's frame header
    size_t p = 0;
    int nc = 0;
    for (size_t q = 2; q + 9 < e.jpg.size(); ++q) if ((uint8_t)e.jpg[q] == 0xff && (uint8_t)e.jpg[q + 1] >= 0xc0 && (uint8_t)e.jpg[q + 1] <= 0xc2 && e.jpg[q + 4] == 8) { p = q; break; }
    if (p) nc = e.jpg[p + 9];
    const Bytes& b = f.s.body[f.at].body;
    if (!p || !f.m.Get(b, nc) || f.m.Put() != b || !f.m.q.Get(f.s.body[f.qat].body, nc) || f.m.q.Put() != f.s.body[f.qat].body) { v->broken = e.name; continue; }
    f.edits = Edits(f.m);
    static const char* chosen[] = {"tiny-v0", "420-v0", "444-sep-dri-v2", "prog-v2", "padding-v2", "intermarker-v2", "resets-v2", "zruns-v2", "quant2-v2", "no-scan-v2"};
    bool few = true;
    for (auto* q : chosen) few &= e.name != q;
    if (!few) for (size_t k = 0; k < f.edits.size(); ++k) if (all || f.edits[k].pair) f.pair.push_back((int)k);
    v->start1.push_back(v->n1);
    v->n1 += f.edits.size();
    v->start2.push_back(v->n2);
    v->n2 += (uint64_t)f.pair.size() * f.pair.size();
    v->files.push_back(f);
  }
  return v;
}
// The |i|-th stream with one (or two) edits; "" if there is none.
inline Bytes Stream(const Set& v, bool two, uint64_t i, std::string* what) {
  auto& st = two ? v.start2 : v.start1;
  size_t k = std::upper_bound(st.begin(), st.end(), i) - st.begin() - 1;
  i -= st[k];
  auto& f = v.files[k];
  Model m = f.m;
  if (two) {
    size_t a = i / f.pair.size(), b = i % f.pair.size();
    if (a >= b) return Bytes();
    auto &x = f.edits[f.pair[a]], &y = f.edits[f.pair[b]];
    *what = f.name + ": " + x.name + ", " + y.name;
    x.f(m);
    y.f(m);
  } else {
    *what = f.name + ": " + f.edits[i].name;
    f.edits[i].f(m);
  }
  if (m.quants.empty() || m.q.tables.empty()) return Bytes();
  for (auto& s : m.scans) if (s.comps.empty()) return Bytes();
  sec::Stream s = f.s;
  s.body[f.at].body = m.Put();
  s.body[f.qat].body = m.q.Put();
  if (s.body[f.at].body == f.s.body[f.at].body && s.body[f.qat].body == f.s.body[f.qat].body) return Bytes();
  s.body[f.at].width = s.body[f.qat].width = 0;
  return s.Put();
}
// Sections 3: a declared size and Brotli data.
inline Bytes Brotli(const Bytes& in) {
  Bytes out(BrotliEncoderMaxCompressedSize(in.size()) + 64, 0);
  size_t n = out.size();
  if (!BrotliEncoderCompress(5, 18, BROTLI_DEFAULT_MODE, in.size(), (const uint8_t*)in.data(), &n, (uint8_t*)&out[0])) abort();
  out.resize(n);
  return out;
}
const int kMetaAlphabet = 19;
inline uint64_t MetaCount(int depth) {
  uint64_t n = 0, k = 1;
  for (int d = 0; d <= depth; ++d) n += k, k *= kMetaAlphabet;
  return n;
}
inline Bytes MetaText(uint64_t i) {  // all strings over the alphabet, shortest first
  static const uint8_t al[] = {0x00, 0x01, 0x7f, 0x80, 0x81, 0x82, 0x83, 0x84, 0xd9, 0xe0, 0xe1, 0xe2, 0xef, 0xfe, 0xff, 0x02, 0x03, 0xc0, 0xda};
  uint64_t k = 1;
  int d = 0;
  while (i >= k) { i -= k; k *= kMetaAlphabet; ++d; }
  Bytes m;
  while (d--) { m += (char)al[i % kMetaAlphabet]; i /= kMetaAlphabet; }
  return m;
}
inline Bytes MetaBody(const Bytes& m) { return m.size() < 2 ? m : sec::B128(m.size()) + Brotli(m); }
const int kMetaSizes = 200 * 40;
inline Bytes MetaSizeBody(uint64_t i, std::string* what) {  // declared size against the real one
  int decl = (int)(i % 200), real = (int)(i / 200);
  Bytes m;
  for (int k = 0; k < real; ++k) m += k == 0 ? '\xfe' : k == 1 ? '\0' : k == 2 ? (char)(real - 1) : 'x';
  uint64_t dv = decl < 100 ? decl : decl < 150 ? (1ull << (decl - 100)) : (1ull << (decl - 150)) - 1;
  *what = vf::Fmt("metadata of %d bytes declared as %llu", real, (unsigned long long)dv);
  return sec::B128(dv) + Brotli(m);
}
inline Bytes WithMeta(const sec::Stream& s0, const Bytes& body) {
  sec::Stream s = s0;
  bool done = false;
  for (auto& e : s.body) if (e.tag == sec::META) e.body = body, e.width = 0, done = true;
  if (!done) s.body.insert(s.body.begin() + 1, sec::Section(sec::META, body));
  return s.Put();
}
}  // namespace crafted
#endif
