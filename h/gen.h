// Independent JPEG writer: builds JPEG files from an explicit description,
// following ITU-T T.81.  Shares no code with the library under test.
#ifndef VERIF_GEN_H_
#define VERIF_GEN_H_
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

#include <algorithm>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace gen {

typedef std::string Bytes;

static const int kZZ[64] = {
    0,  1,  8,  16, 9,  2,  3,  10, 17, 24, 32, 25, 18, 11, 4,  5,
    12, 19, 26, 33, 40, 48, 41, 34, 27, 20, 13, 6,  7,  14, 21, 28,
    35, 42, 49, 56, 57, 50, 43, 36, 29, 22, 15, 23, 30, 37, 44, 51,
    58, 59, 52, 45, 38, 31, 39, 46, 53, 60, 61, 54, 47, 55, 62, 63};

struct Huff {
  int slot = 0;  // 0..3 DC, 0x10..0x13 AC
  int counts[17] = {0};
  std::vector<int> vals;
  int code[256], len[256];
  void Build() {
    for (int i = 0; i < 256; ++i) len[i] = 0, code[i] = 0;
    int c = 0, k = 0;
    for (int l = 1; l <= 16; ++l) {
      for (int i = 0; i < counts[l]; ++i) {
        int v = vals[k++];
        code[v] = c++;
        len[v] = l;
      }
      c <<= 1;
    }
  }
};

// Shapes: 0 = balanced, 1 = skewed (1,2,3,...,16), 2 = balanced, longest
// possible depth for the tail (pushes to 16 bits), 3 = all 16 bits.
inline Huff MakeHuff(int slot, const std::vector<int>& vals, int shape) {
  Huff h;
  h.slot = slot;
  h.vals = vals;
  int n = (int)vals.size();
  if (shape == 0) {
    int l = 1;
    while ((1 << l) < n + 1) ++l;
    // n+1 leaves (one reserved): use l-1 bits for as many as possible
    int longer = 0;
    int total = 1 << l;
    int spare = total - (n + 1);
    int shorter = std::min(spare, n);
    // each shorter code consumes one extra slot
    if (l - 1 < 1) shorter = 0;
    longer = n - shorter;
    if (longer == 0 && shorter > 0) { longer = 1; shorter -= 1; }
    if (l > 1) h.counts[l - 1] = shorter;
    h.counts[l] = longer;
  } else if (shape == 1) {
    int left = n;
    int l = 1;
    // one code per length, then spread the rest at the deepest level
    // find depth d: codes 1..d-1 one each, then remaining at <=16
    int d = 1;
    while (d < 16) {
      // if we put one code at each length 1..d, capacity at length 16 of the
      // remaining is 2^(16-d)-1
      if (left - d <= (1 << (16 - d)) - 1 && d < n) {
        ++d;
        if (left - d > (1 << (16 - d)) - 1) { --d; break; }
      } else {
        break;
      }
    }
    (void)l;
    if (d > n) d = n;
    for (int i = 1; i <= d; ++i) h.counts[i] = 1;
    int rest = n - d;
    if (rest > 0) {
      int b = d;
      while (((1 << (b - d)) - 1) < rest) ++b;
      if (b > 16) abort();
      h.counts[b] += rest;
    }
  } else if (shape == 2) {
    // 16-bit tail: half balanced, half at 16 bits
    int a = n / 2, b = n - a;
    int l = 1;
    while ((1 << l) < a + 2) ++l;
    h.counts[l] = a;
    h.counts[16] += b;
    if (l == 16) h.counts[16] = n;
  } else {
    h.counts[16] = n;
  }
  h.Build();
  return h;
}

inline std::vector<int> Iota(int a, int b) {
  std::vector<int> r;
  for (int i = a; i < b; ++i) r.push_back(i);
  return r;
}
inline std::vector<int> AllDC() { return Iota(0, 12); }
// Every AC symbol a sequential scan can need (runs 0..15, sizes 1..10/11, EOB,
// ZRL).
inline std::vector<int> AllAC() {
  std::vector<int> r;
  r.push_back(0);
  for (int s = 1; s <= 11; ++s)
    for (int run = 0; run < 16; ++run) r.push_back(run * 16 + s);
  r.push_back(0xf0);
  return r;
}
// ... plus EOBn for progressive.
inline std::vector<int> AllACProg() {
  std::vector<int> r;
  for (int e = 0; e < 15; ++e) r.push_back(e << 4);
  r.push_back(0xf0);
  for (int s = 1; s <= 11; ++s)
    for (int run = 0; run < 16; ++run) r.push_back(run * 16 + s);
  return r;
}

struct Quant {
  int index = 0, precision = 0;
  int v[64];  // zig-zag order as stored in the file
};

struct Comp {
  int id = 1, h = 1, v = 1, tq = 0;
};

struct Scan {
  struct C { int comp, dc, ac; };
  std::vector<C> comps;
  int Ss = 0, Se = 63, Ah = 0, Al = 0;
  std::set<int> resets;          // block indices where EOB runs get cut
  std::map<int, int> zruns;      // block index -> redundant ZRL codes
  size_t max_refbits = 1000 - 63;  // correction bits kept for one EOB run
  bool raw = false;              // entropy coded data given verbatim
  Bytes raw_data;
  Scan() {}
  Scan(std::vector<C> c, int ss, int se, int ah, int al)
      : comps(c), Ss(ss), Se(se), Ah(ah), Al(al) {}
};

struct Item {
  enum Kind { DQT, DHT, SOF, SOS, DRI, RAW, EOI, RST } kind;
  std::vector<int> list;  // DQT: indices into quants; DHT: indices into huffs
  int n = 0;              // SOS: scan index; DRI: interval; RST: n
  Bytes raw;
  Item(Kind k) : kind(k) {}
  Item(Kind k, int nn) : kind(k), n(nn) {}
  Item(Kind k, std::vector<int> l) : kind(k), list(l) {}
  Item(Kind k, Bytes b) : kind(k), raw(b) {}
};

struct Jpeg {
  int w = 8, h = 8;
  int sof = 0xc0;
  std::vector<Comp> comps;
  std::vector<Quant> quants;
  std::vector<Huff> huffs;
  std::vector<Scan> scans;
  std::vector<Item> items;
  std::vector<std::vector<int>> coef;  // per component, natural block layout,
                                       // zig-zag within a block
  int pad = 0;                         // 0 ones, 1 zeros, 2.. pattern
  int pad_ctr = 0;
  int maxh = 1, maxv = 1, mcux = 0, mcuy = 0;

  void Layout() {
    maxh = maxv = 1;
    for (auto& c : comps) {
      maxh = std::max(maxh, c.h);
      maxv = std::max(maxv, c.v);
    }
    mcux = (w + 8 * maxh - 1) / (8 * maxh);
    mcuy = (h + 8 * maxv - 1) / (8 * maxv);
    coef.resize(comps.size());
    for (size_t i = 0; i < comps.size(); ++i)
      coef[i].assign((size_t)64 * Wb(i) * Hb(i), 0);
  }
  int Wb(int c) const { return mcux * comps[c].h; }
  int Hb(int c) const { return mcuy * comps[c].v; }
  int* Block(int c, int y, int x) {
    return &coef[c][64 * ((size_t)y * Wb(c) + x)];
  }
};

struct BitW {
  Bytes* out;
  uint32_t acc = 0;
  int n = 0;
  void Put(int bits, uint32_t v) {
    for (int i = bits - 1; i >= 0; --i) {
      acc = (acc << 1) | ((v >> i) & 1);
      if (++n == 8) {
        out->push_back((char)acc);
        if ((acc & 0xff) == 0xff) out->push_back(0);
        acc = 0;
        n = 0;
      }
    }
  }
};

inline int NBits(int v) {
  v = abs(v);
  int n = 0;
  while (v) ++n, v >>= 1;
  return n;
}

struct ScanWriter {
  Jpeg& j;
  Scan& s;
  BitW bw;
  const Huff* dc[4];
  const Huff* ac[4];
  int eobrun = 0;
  const Huff* eobh = nullptr;
  std::vector<int> refbits;
  bool bad = false;

  ScanWriter(Jpeg& jj, Scan& ss, Bytes* out) : j(jj), s(ss) { bw.out = out; }

  void Sym(const Huff* h, int sym) {
    if (!h || h->len[sym] == 0) { bad = true; return; }
    bw.Put(h->len[sym], h->code[sym]);
  }
  void FlushEob() {
    if (eobrun > 0) {
      int n = 0;
      while ((2 << n) <= eobrun) ++n;
      Sym(eobh, n << 4);
      if (n) bw.Put(n, eobrun - (1 << n));
      eobrun = 0;
    }
    for (int b : refbits) bw.Put(1, b);
    refbits.clear();
  }
  void Value(int v, int nb) {
    bw.Put(nb, v < 0 ? (uint32_t)(v + (1 << nb) - 1) : (uint32_t)v);
  }
  void Pad() {
    while (bw.n) {
      int bit = 1;
      if (j.pad == 1) bit = 0;
      else if (j.pad >= 2) bit = (j.pad >> (j.pad_ctr++ % 8)) & 1;
      bw.Put(1, bit);
    }
  }
  void Dc(int v, int* pred, const Huff* h) {
    int d = v - *pred;
    *pred = v;
    int nb = NBits(d);
    if (nb > 11) { bad = true; return; }
    Sym(h, nb);
    if (nb) Value(d, nb);
  }
  // First pass (or sequential) AC
  void AcFirst(const int* b, int ss, int se, int al, int zr, const Huff* h,
               bool runs) {
    int r = 0;
    for (int k = ss; k <= se; ++k) {
      int v = b[k] < 0 ? -((-b[k]) >> al) : (b[k] >> al);
      if (v == 0) { ++r; continue; }
      FlushEob();
      while (r > 15) { Sym(h, 0xf0); r -= 16; }
      int nb = NBits(v);
      if (nb + al > 11) bad = true;
      Sym(h, r * 16 + nb);
      Value(v, nb);
      r = 0;
    }
    if (zr) FlushEob();
    while (zr > 0 && r >= 16) { Sym(h, 0xf0); r -= 16; --zr; }
    if (r > 0) {
      if (runs) {
        ++eobrun;
        eobh = h;
        if (eobrun == 0x7fff) FlushEob();
      } else {
        Sym(h, 0);
      }
    }
  }
  void AcRefine(const int* b, int ss, int se, int al, const Huff* h,
                bool runs) {
    int av[64], eob = 0;
    for (int k = ss; k <= se; ++k) {
      av[k] = abs(b[k]) >> al;
      if (av[k] == 1) eob = k;
    }
    int r = 0;
    std::vector<int> br;
    for (int k = ss; k <= se; ++k) {
      if (av[k] == 0) { ++r; continue; }
      while (r > 15 && k <= eob) {
        FlushEob();
        Sym(h, 0xf0);
        r -= 16;
        for (int x : br) bw.Put(1, x);
        br.clear();
      }
      if (av[k] > 1) { br.push_back(av[k] & 1); continue; }
      FlushEob();
      Sym(h, r * 16 + 1);
      bw.Put(1, b[k] < 0 ? 0 : 1);
      for (int x : br) bw.Put(1, x);
      br.clear();
      r = 0;
    }
    if (r > 0 || !br.empty()) {
      ++eobrun;
      eobh = h;
      refbits.insert(refbits.end(), br.begin(), br.end());
      if (!runs || eobrun == 0x7fff || refbits.size() > s.max_refbits) FlushEob();
    }
  }

  void Run(int interval) {
    bool inter = s.comps.size() > 1;
    int pred[4] = {0, 0, 0, 0};
    int rows, cols;
    const Comp& c0 = j.comps[s.comps[0].comp];
    if (inter) {
      rows = j.mcuy;
      cols = j.mcux;
    } else {
      cols = (j.w * c0.h + 8 * j.maxh - 1) / (8 * j.maxh);
      rows = (j.h * c0.v + 8 * j.maxv - 1) / (8 * j.maxv);
    }
    bool prog = j.sof == 0xc2;
    int Ss = prog ? s.Ss : 0, Se = prog ? s.Se : 63;
    int Ah = prog ? s.Ah : 0, Al = prog ? s.Al : 0;
    int togo = interval, rst = 0, bi = 0;
    for (int y = 0; y < rows; ++y)
      for (int x = 0; x < cols; ++x) {
        if (interval && togo == 0) {
          FlushEob();
          Pad();
          bw.out->push_back((char)0xff);
          bw.out->push_back((char)(0xd0 + rst));
          rst = (rst + 1) & 7;
          togo = interval;
          memset(pred, 0, sizeof pred);
        }
        for (size_t i = 0; i < s.comps.size(); ++i) {
          int ci = s.comps[i].comp;
          const Comp& c = j.comps[ci];
          int nv = inter ? c.v : 1, nh = inter ? c.h : 1;
          for (int iy = 0; iy < nv; ++iy)
            for (int ix = 0; ix < nh; ++ix) {
              const int* b = j.Block(ci, y * nv + iy, x * nh + ix);
              if (s.resets.count(bi)) FlushEob();
              int zr = 0;
              auto it = s.zruns.find(bi);
              if (it != s.zruns.end()) zr = it->second;
              ++bi;
              if (Ah == 0) {
                int k = Ss;
                if (Ss == 0) {
                  Dc(b[0] >> Al, &pred[ci], dc[i]);
                  k = 1;
                }
                if (k <= Se) AcFirst(b, k, Se, Al, zr, ac[i], Ss > 0);
              } else {
                int k = Ss;
                if (Ss == 0) {
                  bw.Put(1, (b[0] >> Al) & 1);
                  k = 1;
                }
                if (k <= Se) AcRefine(b, k, Se, Al, ac[i], Ss > 0);
              }
            }
        }
        --togo;
      }
    FlushEob();
    Pad();
  }
};

inline void P16(Bytes* o, int v) {
  o->push_back((char)(v >> 8));
  o->push_back((char)v);
}

// Serializes; *ok is cleared if the description is not codable (for instance a
// needed Huffman symbol does not exist).
inline Bytes Write(Jpeg& j, bool* ok = nullptr) {
  Bytes o("\xff\xd8", 2);
  bool good = true;
  int interval = 0;
  std::map<int, const Huff*> cur;
  j.pad_ctr = 0;
  for (auto& it : j.items) {
    switch (it.kind) {
      case Item::RAW: o += it.raw; break;
      case Item::EOI: o += Bytes("\xff\xd9", 2); break;
      case Item::RST:
        o.push_back((char)0xff);
        o.push_back((char)(0xd0 + it.n));
        break;
      case Item::DRI:
        o += Bytes("\xff\xdd\0\4", 4);
        P16(&o, it.n);
        interval = it.n;
        break;
      case Item::DQT: {
        Bytes b;
        for (int q : it.list) {
          Quant& t = j.quants[q];
          b.push_back((char)(t.precision << 4 | t.index));
          for (int i = 0; i < 64; ++i) {
            if (t.precision) b.push_back((char)(t.v[i] >> 8));
            b.push_back((char)t.v[i]);
          }
        }
        o += Bytes("\xff\xdb", 2);
        P16(&o, (int)b.size() + 2);
        o += b;
        break;
      }
      case Item::DHT: {
        Bytes b;
        for (int q : it.list) {
          Huff& t = j.huffs[q];
          b.push_back((char)t.slot);
          for (int i = 1; i <= 16; ++i) b.push_back((char)t.counts[i]);
          for (int v : t.vals) b.push_back((char)v);
          cur[t.slot] = &t;
        }
        o += Bytes("\xff\xc4", 2);
        P16(&o, (int)b.size() + 2);
        o += b;
        break;
      }
      case Item::SOF: {
        o.push_back((char)0xff);
        o.push_back((char)j.sof);
        P16(&o, 8 + 3 * (int)j.comps.size());
        o.push_back(8);
        P16(&o, j.h);
        P16(&o, j.w);
        o.push_back((char)j.comps.size());
        for (auto& c : j.comps) {
          o.push_back((char)c.id);
          o.push_back((char)(c.h << 4 | c.v));
          o.push_back((char)c.tq);
        }
        break;
      }
      case Item::SOS: {
        Scan& s = j.scans[it.n];
        o += Bytes("\xff\xda", 2);
        P16(&o, 6 + 2 * (int)s.comps.size());
        o.push_back((char)s.comps.size());
        for (auto& c : s.comps) {
          o.push_back((char)j.comps[c.comp].id);
          o.push_back((char)(c.dc << 4 | c.ac));
        }
        o.push_back((char)s.Ss);
        o.push_back((char)s.Se);
        o.push_back((char)(s.Ah << 4 | s.Al));
        if (s.raw) {
          o += s.raw_data;
        } else {
          ScanWriter w(j, s, &o);
          for (size_t i = 0; i < s.comps.size(); ++i) {
            auto d = cur.find(s.comps[i].dc);
            auto a = cur.find(0x10 + s.comps[i].ac);
            w.dc[i] = d == cur.end() ? nullptr : d->second;
            w.ac[i] = a == cur.end() ? nullptr : a->second;
          }
          w.Run(interval);
          if (w.bad) good = false;
        }
        break;
      }
    }
  }
  if (ok) *ok = good;
  return o;
}

inline Quant FlatQuant(int index, int val, int prec = 0) {
  Quant q;
  q.index = index;
  q.precision = prec;
  for (int i = 0; i < 64; ++i) q.v[i] = val;
  return q;
}

inline Bytes Marker(int m, const Bytes& payload) {
  Bytes o;
  o.push_back((char)0xff);
  o.push_back((char)m);
  P16(&o, (int)payload.size() + 2);
  return o + payload;
}

inline uint64_t H(uint64_t x) {
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}

// Coefficient content patterns (index -> deterministic content).
enum { kPatterns = 12 };
inline const char* PatternName(int p) {
  static const char* n[] = {"zero",     "dc-ramp",  "dc-extreme", "sparse",
                            "low-band", "dense-pm1", "dense-wide", "last-only",
                            "ac-extreme", "mixed-empty", "checker", "edge-rows"};
  return n[p];
}
inline void FillPattern(Jpeg& j, int p, int salt = 0) {
  for (size_t c = 0; c < j.comps.size(); ++c)
    for (int y = 0; y < j.Hb(c); ++y)
      for (int x = 0; x < j.Wb(c); ++x) {
        int* b = j.Block(c, y, x);
        uint64_t h = H(salt * 1000003ull + c * 7919 + y * 131071ull + x * 31 + p);
        switch (p) {
          case 0: break;
          case 1: b[0] = (int)((x + y) * 7 - 20 + 3 * (int)c); break;
          case 2:  // successive differences reach +-2047
            b[0] = ((x + y + c) & 1) ? 1023 : -1024;
            break;
          case 3:
            b[0] = (int)(h % 41) - 20;
            for (int i = 0; i < 3; ++i) {
              int k = 1 + (int)((h >> (8 + 8 * i)) % 63);
              b[k] = (int)((h >> (40 + 3 * i)) % 7) - 3;
            }
            break;
          case 4:
            b[0] = (int)(h % 200) - 100;
            for (int k = 1; k < 12; ++k)
              b[k] = (int)(H(h + k) % 31) - 15;
            break;
          case 5:
            b[0] = (int)(h % 5) - 2;
            for (int k = 1; k < 64; ++k) b[k] = (H(h + k) & 1) ? 1 : -1;
            break;
          case 6:
            b[0] = (int)(h % 1001) - 500;
            for (int k = 1; k < 64; ++k) {
              int lim = 1 << (1 + H(h + k) % 10);
              b[k] = (int)(H(h * 3 + k) % (2 * lim - 1)) - (lim - 1);
            }
            break;
          case 7: b[63] = (h & 1) ? 1 : -1; break;
          case 8:
            b[0] = (h & 1) ? 2 : -2;
            for (int k = 1; k < 64; ++k)
              b[k] = (H(h + k) & 1) ? 1023 : -1023;
            break;
          case 9:
            if ((x + 2 * y) % 3 == 0) {
              b[0] = (int)(h % 60);
              b[1 + h % 62] = (int)(h % 9) - 4;
              b[2] = 1;
            }
            break;
          case 10:
            if ((x ^ y) & 1) {
              for (int k = 0; k < 64; k += 3) b[k] = (k & 1) ? -5 : 9;
            } else {
              b[0] = 100;
              b[17] = 1;
              b[40] = -2;
            }
            break;
          case 11: {
            // first row/column of the block only
            static const int rc[] = {1, 2, 3, 5, 6, 9, 14, 15, 20, 27, 35, 21, 28};
            b[0] = 30 * (x - y);
            for (int k : rc) b[k] = (int)(H(h + k) % 51) - 25;
            break;
          }
        }
      }
}

}  // namespace gen
#endif
