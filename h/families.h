// Families of JPEG files: finite, indexable sets.  Every member of every family
// is visited by the checks that use it.
#ifndef VERIF_FAMILIES_H_
#define VERIF_FAMILIES_H_
#include <functional>
#include <memory>
#include <string>
#include <vector>

#include "gen.h"
#include "runner.h"

namespace fam {
using gen::Bytes;
using gen::Comp;
using gen::Huff;
using gen::Item;
using gen::Jpeg;
using gen::Scan;
using vf::Fmt;
using vf::Radix;

struct Made {
  Bytes jpg;
  std::string desc;
  bool wellformed = false;  // a conforming file inside the documented limits
  bool valid = true;        // false: combination is meaningless, skip
  bool nontrivial = true;
};

struct Family {
  std::string name;
  uint64_t size;
  std::function<Made(uint64_t)> make;
  double limit = 20;
};

enum { kSampling = 15 };
inline std::vector<Comp> Sampling(int s) {
  switch (s) {
    case 0: return {{1, 1, 1, 0}};
    case 1: return {{1, 2, 2, 0}};
    case 2: return {{1, 1, 1, 0}, {2, 1, 1, 1}, {3, 1, 1, 1}};
    case 3: return {{1, 2, 2, 0}, {2, 1, 1, 1}, {3, 1, 1, 1}};
    case 4: return {{1, 2, 1, 0}, {2, 1, 1, 1}, {3, 1, 1, 1}};
    case 5: return {{1, 1, 2, 0}, {2, 1, 1, 1}, {3, 1, 1, 1}};
    case 6: return {{'R', 4, 1, 0}, {'G', 1, 1, 1}, {'B', 1, 1, 1}};
    case 7: return {{0, 4, 2, 0}, {1, 1, 1, 1}, {2, 1, 1, 1}};
    case 8: return {{1, 2, 2, 0}, {2, 2, 1, 1}, {3, 1, 2, 1}};
    case 9: return {{9, 2, 1, 0}, {200, 1, 1, 1}};
    case 10: return {{1, 1, 1, 0}, {2, 1, 1, 1}, {3, 1, 1, 1}, {4, 1, 1, 0}};
    case 11: return {{1, 2, 2, 0}, {2, 1, 1, 1}, {3, 1, 1, 1}, {4, 2, 2, 0}};
    case 12: return {{1, 1, 1, 0}, {2, 2, 2, 1}, {3, 1, 1, 0}};
    case 13: return {{1, 3, 1, 0}, {2, 1, 1, 1}};
    default: return {{5, 1, 4, 0}, {6, 1, 2, 1}, {7, 1, 1, 0}};
  }
}
inline const char* SamplingName(int s) {
  static const char* n[] = {"gray", "gray22", "444", "420", "422", "440", "411rgb",
                            "410", "mixed", "2comp", "cmyk", "cmyk420", "up", "3x1",
                            "1x4"};
  return n[s];
}

enum { kScripts = 10 };
inline const char* ScriptName(int s) {
  static const char* n[] = {"seq-inter", "seq-separate", "ext-seq", "prog-simple",
                            "prog-libjpeg", "prog-split", "prog-deep", "seq-mixed",
                            "prog-dconly", "prog-unrefined"};
  return n[s];
}

// Fills j.sof / j.scans; tables dc 0/1 and ac 0/1 (luma / rest).
inline bool Script(Jpeg& j, int s) {
  typedef std::vector<Scan::C> V;
  int n = (int)j.comps.size();
  auto C = [](int i) { return Scan::C{i, i ? 1 : 0, i ? 1 : 0}; };
  V all;
  for (int i = 0; i < n; ++i) all.push_back(C(i));
  int inter = 0;
  for (auto& c : j.comps) inter += c.h * c.v;
  bool can_inter = n == 1 || inter <= 10;
  bool prog = s == 3 || s == 4 || s == 5 || s == 6 || s == 8 || s == 9;
  j.sof = prog ? 0xc2 : s == 2 ? 0xc1 : 0xc0;
  auto dc = [&](int ah, int al) {
    if (can_inter) {
      j.scans.push_back(Scan(all, 0, 0, ah, al));
    } else {
      for (int i = 0; i < n; ++i) j.scans.push_back(Scan(V{C(i)}, 0, 0, ah, al));
    }
  };
  auto ac = [&](int i, int a, int b, int ah, int al) {
    j.scans.push_back(Scan(V{C(i)}, a, b, ah, al));
  };
  switch (s) {
    case 0:
    case 2:
      if (!can_inter) return false;
      j.scans.push_back(Scan(all, 0, 63, 0, 0));
      return true;
    case 1:
      if (n == 1) return false;
      for (int i = 0; i < n; ++i) j.scans.push_back(Scan(V{C(i)}, 0, 63, 0, 0));
      return true;
    case 3:
      dc(0, 0);
      for (int i = 0; i < n; ++i) ac(i, 1, 63, 0, 0);
      return true;
    case 4:
      dc(0, 1);
      ac(0, 1, 5, 0, 2);
      for (int i = 1; i < n; ++i) ac(i, 1, 63, 0, 1);
      ac(0, 6, 63, 0, 2);
      ac(0, 1, 63, 2, 1);
      dc(1, 0);
      for (int i = n - 1; i >= 0; --i) ac(i, 1, 63, 1, 0);
      return true;
    case 5:
      for (int i = n - 1; i >= 0; --i) j.scans.push_back(Scan(V{C(i)}, 0, 0, 0, 0));
      for (int i = 0; i < n; ++i) {
        ac(i, 1, 1, 0, 0);
        ac(i, 2, 62, 0, 0);
        ac(i, 63, 63, 0, 0);
      }
      return true;
    case 6:
      dc(0, 3);
      for (int i = 0; i < n; ++i) ac(i, 1, 63, 0, 4);
      for (int a = 4; a > 0; --a)
        for (int i = 0; i < n; ++i) ac(i, 1, 63, a, a - 1);
      for (int a = 3; a > 0; --a) dc(a, a - 1);
      return true;
    case 7: {
      if (n < 3) return false;
      V rest(all.begin() + 1, all.end());
      j.scans.push_back(Scan(V{C(0)}, 0, 63, 0, 0));
      j.scans.push_back(Scan(rest, 0, 63, 0, 0));
      return true;
    }
    case 8: dc(0, 0); return true;
    default:
      dc(0, 2);
      for (int i = 0; i < n; ++i) ac(i, 1, 30, 0, 1);
      return true;
  }
}

// Quantization, Huffman tables and the item list for a plain file.
inline void Plain(Jpeg& j, int shape, int dri) {
  bool two = false;
  for (auto& c : j.comps) two |= c.tq == 1;
  j.quants = {gen::FlatQuant(0, 3)};
  for (int k = 0; k < 64; ++k) j.quants[0].v[k] = 1 + k;
  if (two) {
    j.quants.push_back(gen::FlatQuant(1, 17));
  }
  bool prog = j.sof == 0xc2;
  auto acv = prog ? gen::AllACProg() : gen::AllAC();
  j.huffs = {gen::MakeHuff(0, gen::AllDC(), shape),
             gen::MakeHuff(0x10, acv, shape)};
  if (j.comps.size() > 1) {
    j.huffs.push_back(gen::MakeHuff(1, gen::AllDC(), shape ? 0 : 1));
    j.huffs.push_back(gen::MakeHuff(0x11, acv, shape ? 0 : 1));
  }
  j.items.clear();
  j.items.push_back(Item(Item::RAW, gen::Marker(0xe0, Bytes("JFIF\0\1\1\0\0\1\0\1\0\0", 14))));
  j.items.push_back(two ? Item(Item::DQT, std::vector<int>{0, 1})
                        : Item(Item::DQT, std::vector<int>{0}));
  j.items.push_back(Item(Item::SOF));
  std::vector<int> hs;
  for (size_t i = 0; i < j.huffs.size(); ++i) hs.push_back((int)i);
  j.items.push_back(Item(Item::DHT, hs));
  if (dri) j.items.push_back(Item(Item::DRI, dri));
  for (size_t i = 0; i < j.scans.size(); ++i)
    j.items.push_back(Item(Item::SOS, (int)i));
  j.items.push_back(Item(Item::EOI));
}

inline Made Finish(Jpeg& j, const std::string& desc, bool wf) {
  Made m;
  bool ok = true;
  m.jpg = gen::Write(j, &ok);
  m.desc = desc;
  m.valid = ok;
  m.wellformed = ok && wf;
  return m;
}

// --- A: geometry x sampling x scan script x restart interval --------------
inline Family Geometry(bool deep) {
  static const int dq[] = {1, 8, 9, 16, 17, 33};
  static const int dd[] = {1, 7, 8, 9, 15, 16, 17, 24, 25, 32, 33, 49, 65};
  std::vector<int> d = deep ? std::vector<int>(dd, dd + 13) : std::vector<int>(dq, dq + 6);
  std::vector<int> pats = deep ? std::vector<int>{1, 3, 4, 5, 9, 10, 11} : std::vector<int>{3, 9};
  std::vector<int> dris = {0, 1, 3};
  uint64_t n = (uint64_t)d.size() * d.size() * pats.size() * dris.size() * kSampling * kScripts;
  return Family{"geometry", n, [=](uint64_t i) {
    Radix r(i);
    int w = d[r(d.size())], h = d[r(d.size())];
    int p = pats[r(pats.size())], dri = dris[r(dris.size())];
    int sa = (int)r(kSampling), sc = (int)r(kScripts);
    Jpeg j;
    j.w = w;
    j.h = h;
    j.comps = Sampling(sa);
    j.Layout();
    Made bad;
    bad.valid = false;
    if (!Script(j, sc)) return bad;
    gen::FillPattern(j, p, (int)(i % 7));
    Plain(j, 0, dri);
    return Finish(j, Fmt("%dx%d %s %s pattern=%s dri=%d", w, h, SamplingName(sa),
                         ScriptName(sc), gen::PatternName(p), dri), true);
  }};
}

// --- B: content x tables x padding ----------------------------------------
inline Family Content(bool deep) {
  static const int sizes[][2] = {{8, 8}, {40, 24}, {88, 72}};
  std::vector<int> samp = deep ? std::vector<int>{0, 2, 3, 4, 8, 10, 12} : std::vector<int>{0, 3, 10};
  std::vector<int> scr = deep ? std::vector<int>{0, 1, 3, 4, 6, 9} : std::vector<int>{0, 3, 4, 6};
  std::vector<int> pads = {0, 1, 0x35, 0xfe};
  int salts = deep ? 3 : 1;
  uint64_t n = (uint64_t)gen::kPatterns * 3 * samp.size() * scr.size() * 4 * pads.size() * 2 * salts;
  return Family{"content", n, [=](uint64_t i) {
    Radix r(i);
    int p = (int)r(gen::kPatterns), sz = (int)r(3);
    int sa = samp[r(samp.size())], sc = scr[r(scr.size())], shape = (int)r(4);
    int pad = pads[r(pads.size())], dri = r(2) ? 2 : 0, salt = (int)r(salts);
    Jpeg j;
    j.w = sizes[sz][0];
    j.h = sizes[sz][1];
    j.comps = Sampling(sa);
    j.Layout();
    Made bad;
    bad.valid = false;
    if (!Script(j, sc)) return bad;
    gen::FillPattern(j, p, salt + 11);
    j.pad = pad;
    Plain(j, shape, dri);
    return Finish(j, Fmt("%dx%d %s %s pattern=%s tables=%d pad=%#x dri=%d salt=%d", j.w, j.h,
                         SamplingName(sa), ScriptName(sc), gen::PatternName(p),
                         shape, pad, dri, salt), true);
  }};
}

// --- C: single coefficient values ----------------------------------------
inline std::vector<int> EdgeValues(bool deep) {
  std::vector<int> v;
  if (deep) {
    for (int a = 1; a <= 1023; ++a) { v.push_back(a); v.push_back(-a); }
  } else {
    for (int a = 1; a <= 40; ++a) { v.push_back(a); v.push_back(-a); }
    for (int b = 6; b <= 10; ++b)
      for (int d = -2; d <= 1; ++d) {
        int a = (1 << b) + d;
        if (a > 40 && a <= 1023) { v.push_back(a); v.push_back(-a); }
      }
  }
  v.push_back(1024); v.push_back(-1024); v.push_back(2047); v.push_back(-2047);
  return v;
}
inline Family Coefficients(bool deep) {
  auto vals = EdgeValues(deep);
  // position x value x neighbourhood (alone / between equal neighbours)
  uint64_t n = 64ull * vals.size() * 3;
  return Family{"coefficient", n, [=](uint64_t i) {
    Radix r(i);
    int v = vals[r(vals.size())], k = (int)r(64), nb = (int)r(3);
    Jpeg j;
    j.w = nb == 0 ? 8 : 24;
    j.h = nb == 0 ? 8 : 16;
    j.comps = Sampling(0);
    j.Layout();
    Made bad;
    bad.valid = false;
    if (k == 0 && (v > 1023 || v < -1024)) return bad;
    Script(j, 0);
    if (nb == 0) {
      j.Block(0, 0, 0)[k] = v;
    } else {
      for (int y = 0; y < 2; ++y)
        for (int x = 0; x < 3; ++x) {
          int* b = j.Block(0, y, x);
          b[k] = (nb == 1 || ((x ^ y) & 1)) ? v : -v;
          if (k == 0) b[k] /= 2;
          b[1 + (k + 5) % 63] += nb;
        }
    }
    Plain(j, 0, 0);
    return Finish(j, Fmt("coef[%d]=%d neighbourhood=%d", k, v, nb), true);
  }};
}
// All pairs of non-zero positions with small values.
inline Family CoefPairs(bool deep) {
  std::vector<int> vals = deep ? std::vector<int>{1, -1, 2, -3, 9, -200} : std::vector<int>{1, -1, 9};
  uint64_t nv = vals.size();
  uint64_t n = 64 * 64 * nv * nv;
  return Family{"coefficient-pairs", n, [=](uint64_t i) {
    Radix r(i);
    int a = vals[r(nv)], b = vals[r(nv)], k1 = (int)r(64), k2 = (int)r(64);
    Made bad;
    bad.valid = false;
    if (k1 >= k2) return bad;
    Jpeg j;
    j.w = 16;
    j.h = 16;
    j.comps = Sampling(0);
    j.Layout();
    Script(j, 0);
    j.Block(0, 0, 0)[k1] = a;
    j.Block(0, 0, 1)[k2] = b;
    j.Block(0, 1, 0)[k2] = a;
    j.Block(0, 1, 0)[k1] = b;
    j.Block(0, 1, 1)[k1] = a;
    j.Block(0, 1, 1)[k2] = b;
    Plain(j, 0, 0);
    return Finish(j, Fmt("coef[%d]=%d coef[%d]=%d", k1, a, k2, b), true);
  }};
}

// --- D: every entropy-coded byte string of a given length ------------------
// A one- or two-block image whose scan data is the case index written out.
struct RawCfg {
  const char* name;
  int sof, w, h;
  std::vector<int> dcv, acv;
  int dcshape, acshape;
  int ss, se, ah, al;
  int dri;
  bool prelude;  // an earlier DC scan and AC first scan precede
};
inline const std::vector<RawCfg>& RawCfgs() {
  static const std::vector<RawCfg> c = {
      {"seq-1blk-tiny", 0xc0, 8, 8, {0, 1}, {0, 1, 0x11, 0xf0}, 0, 0, 0, 63, 0, 0, 0, false},
      {"seq-2blk-tiny", 0xc0, 16, 8, {0, 1}, {0, 0xf0, 0xe1}, 0, 1, 0, 63, 0, 0, 0, false},
      {"seq-2blk-dri1", 0xc0, 16, 8, {0, 2}, {0, 0x31, 0xf0}, 1, 0, 0, 63, 0, 0, 1, false},
      {"seq-1blk-wide", 0xc0, 8, 8, {0, 3, 11}, {0, 0x05, 0xf1, 0x1a}, 0, 0, 0, 63, 0, 0, 0, false},
      {"seq-no-eob", 0xc0, 8, 8, {0}, {0xf0, 0xe1, 0x01}, 0, 0, 0, 63, 0, 0, 0, false},
      {"prog-dc", 0xc2, 24, 16, {0, 1, 2}, {0}, 0, 0, 0, 0, 0, 1, 0, false},
      {"prog-dc-refine", 0xc2, 40, 24, {0, 1}, {0}, 0, 0, 0, 0, 1, 0, 0, true},
      {"prog-ac-first", 0xc2, 40, 8, {0, 1}, {0, 0x10, 0x20, 0x01, 0xf0, 0xe1}, 0, 0, 1, 63, 0, 1, 0, true},
      {"prog-ac-band", 0xc2, 40, 8, {0, 1}, {0, 0x10, 0x30, 0x11, 0xf0}, 0, 0, 1, 20, 0, 0, 0, true},
      {"prog-ac-refine", 0xc2, 24, 8, {0, 1}, {0, 0x10, 0x01, 0x11, 0xf0}, 0, 0, 1, 63, 1, 0, 0, true},
      {"prog-ac-refine-dri", 0xc2, 24, 8, {0, 1}, {0, 0x10, 0x01, 0xf0}, 0, 0, 1, 63, 1, 0, 2, true},
      {"prog-ac-refine-long", 0xc2, 16, 8, {0, 1}, {0, 0x10, 0xf0, 0xf1}, 0, 1, 1, 63, 1, 0, 0, true},
  };
  return c;
}
inline Family RawScan(bool deep, int ci) {
  const RawCfg& c = RawCfgs()[ci];
  int bytes = deep ? 3 : 2;
  // lengths 0..bytes, plus for quick the 20-bit prefixes
  uint64_t n = 0;
  std::vector<uint64_t> start;
  for (int b = 0; b <= bytes; ++b) {
    start.push_back(n);
    n += 1ull << (8 * b);
  }
  return Family{std::string("raw-") + c.name, n, [=](uint64_t i) {
    const RawCfg& c = RawCfgs()[ci];
    int b = bytes;
    while (start[b] > i) --b;
    uint64_t v = i - start[b];
    Bytes data;
    for (int k = b - 1; k >= 0; --k) {
      uint8_t ch = (v >> (8 * k)) & 255;
      data.push_back((char)ch);
    }
    Jpeg j;
    j.w = c.w;
    j.h = c.h;
    j.sof = c.sof;
    j.comps = Sampling(0);
    j.Layout();
    j.quants = {gen::FlatQuant(0, 1)};
    Scan raw({{0, 0, 0}}, c.ss, c.se, c.ah, c.al);
    raw.raw = true;
    raw.raw_data = data;
    j.items.push_back(Item(Item::DQT, std::vector<int>{0}));
    j.items.push_back(Item(Item::SOF));
    if (c.prelude) {
      j.huffs.push_back(gen::MakeHuff(0, gen::AllDC(), 0));
      j.huffs.push_back(gen::MakeHuff(0x10, gen::AllACProg(), 0));
      j.items.push_back(Item(Item::DHT, std::vector<int>{0, 1}));
      int nb = j.Wb(0) * j.Hb(0);
      for (int q = 0; q < nb; ++q) {
        int* bl = j.Block(0, q / j.Wb(0), q % j.Wb(0));
        bl[0] = 2 * (q % 3);
        if (c.ah > 0 && c.ss > 0) {
          bl[1] = 2;
          bl[7 + q] = -2;
          if (q == 1) bl[63] = 4;
        }
      }
      j.scans.push_back(Scan({{0, 0, 0}}, 0, 0, 0, 1));
      j.items.push_back(Item(Item::SOS, (int)j.scans.size() - 1));
      if (c.ah > 0 && c.ss > 0) {
        j.scans.push_back(Scan({{0, 0, 0}}, 1, 63, 0, 1));
        j.items.push_back(Item(Item::SOS, (int)j.scans.size() - 1));
      }
    }
    int h0 = (int)j.huffs.size();
    j.huffs.push_back(gen::MakeHuff(0, c.dcv, c.dcshape));
    j.huffs.push_back(gen::MakeHuff(0x10, c.acv, c.acshape));
    j.items.push_back(Item(Item::DHT, std::vector<int>{h0, h0 + 1}));
    if (c.dri) j.items.push_back(Item(Item::DRI, c.dri));
    j.scans.push_back(raw);
    j.items.push_back(Item(Item::SOS, (int)j.scans.size() - 1));
    j.items.push_back(Item(Item::EOI));
    Made m = Finish(j, Fmt("%s scan data %s", c.name, vf::Hex(data).c_str()), false);
    m.wellformed = false;
    return m;
  }};
}

// --- E: every sequence of marker segments up to a length -------------------
inline const std::vector<Item>& MarkerAlphabet() {
  static const std::vector<Item> a = [] {
    std::vector<Item> v;
    v.push_back(Item(Item::RAW, gen::Marker(0xe0, Bytes("JFIF\0\1\1\0\0\1\0\1\0\0", 14))));
    v.push_back(Item(Item::RAW, gen::Marker(0xfe, "c")));
    v.push_back(Item(Item::RAW, gen::Marker(0xe5, "")));
    v.push_back(Item(Item::DQT, std::vector<int>{1}));
    v.push_back(Item(Item::DQT, std::vector<int>{0}));
    v.push_back(Item(Item::DHT, std::vector<int>{2}));
    v.push_back(Item(Item::DHT, std::vector<int>{0, 1}));
    v.push_back(Item(Item::DRI, 0));
    v.push_back(Item(Item::DRI, 1));
    v.push_back(Item(Item::RST, 3));
    v.push_back(Item(Item::RAW, Bytes("\x00\x41", 2)));
    v.push_back(Item(Item::RAW, Bytes("\xff", 1)));
    v.push_back(Item(Item::RAW, Bytes("\xff\x01", 2)));
    v.push_back(Item(Item::RAW, gen::Marker(0xf0, "x")));
    v.push_back(Item(Item::SOF));
    v.push_back(Item(Item::SOS, 0));
    v.push_back(Item(Item::EOI));
    return v;
  }();
  return a;
}
inline const char* MarkerName(int i) {
  static const char* n[] = {"APP0", "COM", "APP5e", "DQT1", "DQT0", "DHTx", "DHT",
                            "DRI0", "DRI1", "RST3", "junk", "ff", "TEM", "JPG0",
                            "SOF", "SOS", "EOI"};
  return n[i];
}
inline void MarkerBase(Jpeg& j) {
  j.w = 16;
  j.h = 8;
  j.comps = Sampling(0);
  j.Layout();
  gen::FillPattern(j, 3, 2);
  j.quants = {gen::FlatQuant(0, 5), gen::FlatQuant(1, 7)};
  j.huffs = {gen::MakeHuff(0, gen::AllDC(), 0), gen::MakeHuff(0x10, gen::AllAC(), 0),
             gen::MakeHuff(0x12, {0, 1, 2}, 0)};
  j.scans = {Scan({{0, 0, 0}}, 0, 63, 0, 0)};
}
// mode 0: extra segments inserted into a good file at one place.
// mode 1: arbitrary sequences after SOI.
inline Family MarkerInsert(bool deep) {
  const int A = (int)MarkerAlphabet().size();
  int len = deep ? 3 : 2;
  uint64_t per = 0, p = 1;
  std::vector<uint64_t> start;
  for (int l = 0; l <= len; ++l) {
    start.push_back(per);
    per += p;
    p *= A;
  }
  // insertion point: before DQT, SOF, DHT, SOS, EOI, after EOI
  return Family{"marker-insert", per * 6, [=](uint64_t i) {
    Radix r(i);
    int at = (int)r(6);
    uint64_t q = r(per);
    int l = len;
    while (start[l] > q) --l;
    q -= start[l];
    Jpeg j;
    MarkerBase(j);
    std::string d = Fmt("insert at %d:", at);
    std::vector<Item> base = {Item(Item::DQT, std::vector<int>{0}), Item(Item::SOF),
                              Item(Item::DHT, std::vector<int>{0, 1}),
                              Item(Item::SOS, 0), Item(Item::EOI)};
    for (int k = 0; k <= 5; ++k) {
      if (k == at)
        for (int x = 0; x < l; ++x) {
          int s = (int)(q % A);
          q /= A;
          d += std::string(" ") + MarkerName(s);
          j.items.push_back(MarkerAlphabet()[s]);
        }
      if (k < 5) j.items.push_back(base[k]);
    }
    return Finish(j, d, false);
  }};
}
inline Family MarkerSequence(bool deep) {
  const int A = (int)MarkerAlphabet().size();
  // full sequences over the alphabet restricted to the structural segments
  static const int sub[] = {4, 6, 8, 14, 15, 16, 1, 9, 5, 3};
  const int S = deep ? 10 : 7;
  const int len = deep ? 7 : 6;
  (void)A;
  uint64_t n = 1;
  for (int k = 0; k < len; ++k) n *= S;
  return Family{"marker-sequence", n, [=](uint64_t i) {
    Jpeg j;
    MarkerBase(j);
    std::string d = "sequence:";
    uint64_t q = i;
    bool has_sof = false;
    for (int k = 0; k < len; ++k) {
      int s = sub[q % S];
      q /= S;
      d += std::string(" ") + MarkerName(s);
      j.items.push_back(MarkerAlphabet()[s]);
      has_sof |= s == 14;
    }
    Made m;
    bool ok = true;
    m.jpg = gen::Write(j, &ok);
    m.desc = d;
    m.valid = has_sof;  // anything else is rejected at once
    return m;
  }};
}

// --- F: metadata -----------------------------------------------------------
inline const std::vector<Bytes>& MetaAlphabet() {
  static const std::vector<Bytes> a = [] {
    std::vector<Bytes> v;
    auto jfif = [](int ver, int unit, int xd, int yd) {
      Bytes b("JFIF\0\1", 6);
      b.push_back((char)ver);
      b.push_back((char)unit);
      b.push_back((char)(xd >> 8));
      b.push_back((char)xd);
      b.push_back((char)(yd >> 8));
      b.push_back((char)yd);
      b += Bytes("\0\0", 2);
      return gen::Marker(0xe0, b);
    };
    static const int dens[] = {1, 72, 96, 100, 150, 300, 320, 400, 500, 600, 1200, 2};
    for (int ver = 0; ver <= 3; ++ver)
      for (int unit = 0; unit <= 4; ++unit)
        for (int d : dens) v.push_back(jfif(ver, unit, d, d));
    v.push_back(jfif(1, 1, 72, 73));
    v.push_back(jfif(1, 1, 73, 72));
    // thumbnails / longer / shorter APP0
    v.push_back(gen::Marker(0xe0, Bytes("JFIF\0\1\1\0\0\1\0\1\1\0", 14)));
    v.push_back(gen::Marker(0xe0, Bytes("JFIF\0\1\1\0\0\1\0\1\0\1", 14)));
    v.push_back(gen::Marker(0xe0, Bytes("JFIF\0\1\1\0\0\1\0\1\0\0\0", 15)));
    v.push_back(gen::Marker(0xe0, Bytes("JFIF\0\1\1\0\0\1\0\1\0", 13)));
    v.push_back(gen::Marker(0xe0, Bytes("JFXX\0\1\1\0\0\1\0\1\0\0", 14)));
    v.push_back(gen::Marker(0xe0, Bytes("JFIF\0\2\1\0\0\1\0\1\0\0", 14)));
    // Ducky (APP12) and Adobe (APP14) with each parameter byte and a mutation
    for (int q = 0; q < 256; q += 17) {
      Bytes b("Ducky\0\1\0\4\0\0\0", 12);
      b.push_back((char)q);
      b += Bytes("\0\0", 2);
      v.push_back(gen::Marker(0xec, b));
    }
    for (int q = 0; q < 15; ++q) {
      Bytes b("Ducky\0\1\0\4\0\0\0\x3c\0\0", 15);
      b[q] = (char)(b[q] ^ 1);
      v.push_back(gen::Marker(0xec, b));
    }
    for (int q = 0; q < 256; q += 15) {
      Bytes b("Adobe\0d", 7);
      b.push_back((char)q);
      b += Bytes("\0\0\0\1", 4);
      v.push_back(gen::Marker(0xee, b));
      b[11] = 2;
      v.push_back(gen::Marker(0xee, b));
    }
    for (int q = 0; q < 12; ++q) {
      Bytes b("Adobe\0d\0\0\0\0\1", 12);
      b[q] = (char)(b[q] ^ 0x10);
      v.push_back(gen::Marker(0xee, b));
    }
    // every APPn and COM, with several payloads
    for (int m = 0xe0; m <= 0xef; ++m) {
      v.push_back(gen::Marker(m, ""));
      v.push_back(gen::Marker(m, Bytes("\x80", 1)));
      v.push_back(gen::Marker(m, Bytes("\xff\xd8\xff\xd9", 4)));
      v.push_back(gen::Marker(m, Bytes(300, 'q')));
    }
    v.push_back(gen::Marker(0xfe, ""));
    v.push_back(gen::Marker(0xfe, Bytes("\0", 1)));
    v.push_back(gen::Marker(0xfe, Bytes("\xd9\xff\xfe", 3)));
    v.push_back(gen::Marker(0xfe, Bytes(65533, 'z')));
    v.push_back(gen::Marker(0xe1, Bytes(65533, '\xe1')));
    Bytes inc;
    for (int k = 0; k < 4000; ++k) inc.push_back((char)gen::H(k));
    v.push_back(gen::Marker(0xe2, inc));
    return v;
  }();
  return a;
}
// tails after EOI
inline const std::vector<Bytes>& Tails() {
  static const std::vector<Bytes> t = {"", Bytes("\0", 1), Bytes("\xff\xd9", 2), "tail",
                                       Bytes("\xff\xd8\xff", 3), Bytes(1000, 'T')};
  return t;
}
inline void MetaBase(Jpeg& j) {
  j.w = 8;
  j.h = 8;
  j.comps = Sampling(0);
  j.Layout();
  gen::FillPattern(j, 3, 1);
  Script(j, 0);
  Plain(j, 0, 0);
  j.items.erase(j.items.begin());
}
// stock ICC profile supplied by the caller (3158 bytes of marker content)
inline Family MetaSingles(const Bytes& icc) {
  auto list = std::make_shared<std::vector<Bytes>>(MetaAlphabet());
  // Exact stock profile and single-byte departures from it.
  if (icc.size() > 90) {
    list->push_back(Bytes("\xff", 1) + icc);
    for (int k = 3; k < (int)icc.size(); k += (k < 100 ? 1 : 61)) {
      Bytes b = icc;
      b[k] = (char)(b[k] ^ 1);
      list->push_back(Bytes("\xff", 1) + b);
    }
  }
  const uint64_t nt = Tails().size();
  return Family{"metadata-single", list->size() * nt * 3, [=](uint64_t i) {
    Radix r(i);
    const Bytes& m = (*list)[r(list->size())];
    const Bytes& t = Tails()[r(nt)];
    int at = (int)r(3);
    Jpeg j;
    MetaBase(j);
    size_t pos = at == 0 ? 0 : at == 1 ? 2 : j.items.size() - 1;
    j.items.insert(j.items.begin() + pos, Item(Item::RAW, m));
    j.items.push_back(Item(Item::RAW, t));
    return Finish(j, Fmt("segment %s (%zu bytes) at %d, tail %zu bytes",
                         vf::Hex(m, 24).c_str(), m.size(), at, t.size()), true);
  }};
}
// sequences of metadata segments (order must survive)
inline Family MetaSequences(bool deep) {
  static const std::vector<Bytes> v = {
      gen::Marker(0xe0, Bytes("JFIF\0\1\1\0\0\1\0\1\0\0", 14)),
      gen::Marker(0xfe, "A"),
      gen::Marker(0xe1, "BB"),
      gen::Marker(0xee, Bytes("Adobe\0d\0\0\0\0\1", 12)),
      gen::Marker(0xfe, ""),
      gen::Marker(0xe1, Bytes(129, 'L')),
      Bytes("\x01\x02", 2),  // bytes between markers
      gen::Marker(0xec, Bytes("Ducky\0\1\0\4\0\0\0\x3c\0\0", 15)),
  };
  const int S = (int)v.size();
  int len = deep ? 6 : 4;
  uint64_t per = 1;
  for (int k = 0; k < len; ++k) per *= S;
  return Family{"metadata-sequence", per * 2, [=](uint64_t i) {
    Radix r(i);
    int split = (int)r(2);
    uint64_t q = r(per);
    Jpeg j;
    MetaBase(j);
    std::string d = split ? "split:" : "front:";
    size_t pos = 0;
    for (int k = 0; k < len; ++k) {
      int s = (int)(q % S);
      q /= S;
      d += Fmt(" %d", s);
      if (split && k == len / 2) pos = j.items.size() - 1;
      j.items.insert(j.items.begin() + pos++, Item(Item::RAW, v[s]));
    }
    // bytes between markers are tolerated, not conforming
    bool junk = d.find(" 6") != std::string::npos;
    return Finish(j, d, !junk);
  }};
}
// many segments: limits on the number of markers
inline Family MetaCounts(bool deep) {
  static const int counts[] = {1, 2, 126, 127, 128, 129, 255, 256, 257, 1000, 2000};
  return Family{"metadata-count", 11 * 3, [=](uint64_t i) {
    Radix r(i);
    int c = counts[r(11)], kind = (int)r(3);
    Jpeg j;
    MetaBase(j);
    Bytes m = kind == 0 ? gen::Marker(0xe0, Bytes("JFIF\0\1\1\0\0\1\0\1\0\0", 14))
              : kind == 1 ? gen::Marker(0xe3, "xy") : gen::Marker(0xfe, "com");
    for (int k = 0; k < c; ++k) j.items.insert(j.items.begin(), Item(Item::RAW, m));
    return Finish(j, Fmt("%d segments of kind %d", c, kind), false);
  }};
}

// --- G: quantization tables ------------------------------------------------
inline Family QuantTables(bool deep) {
  // position x value x precision; plus table indices and number of tables
  static const int vq[] = {1, 2, 3, 16, 127, 128, 254, 255, 256, 257, 4095, 32768, 65534, 65535};
  std::vector<int> vals(vq, vq + 14);
  if (deep) {
    vals.clear();
    for (int v = 1; v <= 65535; v += (v < 700 ? 1 : 97)) vals.push_back(v);
    vals.push_back(65535);
  }
  uint64_t n = 64ull * vals.size() * 3;
  return Family{"quant-value", n, [=](uint64_t i) {
    Radix r(i);
    int v = vals[r(vals.size())], k = (int)r(64), base = (int)r(3);
    Jpeg j;
    MetaBase(j);
    static const int bv[] = {1, 16, 255};
    gen::Quant q = gen::FlatQuant(0, bv[base], v > 255);
    q.v[k] = v;
    j.quants[0] = q;
    return Finish(j, Fmt("quant[%d]=%d others=%d", k, v, bv[base]), true);
  }};
}
// Scaled standard tables (quality settings of common encoders) and neighbours
inline Family QuantQuality(bool deep) {
  static const int luma[64] = {16, 11, 10, 16, 24, 40, 51, 61, 12, 12, 14, 19, 26, 58, 60, 55,
                               14, 13, 16, 24, 40, 57, 69, 56, 14, 17, 22, 29, 51, 87, 80, 62,
                               18, 22, 37, 56, 68, 109, 103, 77, 24, 35, 55, 64, 81, 104, 113, 92,
                               49, 64, 78, 87, 103, 121, 120, 101, 72, 92, 95, 98, 112, 100, 103, 99};
  static const int chroma[64] = {17, 18, 24, 47, 99, 99, 99, 99, 18, 21, 26, 66, 99, 99, 99, 99,
                                 24, 26, 56, 99, 99, 99, 99, 99, 47, 66, 99, 99, 99, 99, 99, 99,
                                 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99,
                                 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99};
  uint64_t n = 100 * 4 * 3 * 3;
  return Family{"quant-quality", n, [=](uint64_t i) {
    Radix r(i);
    int ql = 1 + (int)r(100), mode = (int)r(4), pert = (int)r(3), ntab = (int)r(3);
    Jpeg j;
    j.w = j.h = 16;
    j.comps = Sampling(3);
    j.Layout();
    Script(j, 0);
    gen::FillPattern(j, 3, ql);
    Plain(j, 0, 0);
    int s = ql < 50 ? 5000 / ql : 200 - 2 * ql;
    for (int t = 0; t < 2; ++t) {
      const int* src = (t == (mode & 1)) ? luma : chroma;
      for (int k = 0; k < 64; ++k) {
        int v = (src[gen::kZZ[k]] * s + 50) / 100;
        v = std::max(1, std::min(255, v));
        j.quants[t].v[k] = v;
      }
      if (pert == 1) j.quants[t].v[63] = std::min(255, j.quants[t].v[63] + 1);
      if (pert == 2) j.quants[t].v[0] = std::max(1, j.quants[t].v[0] - 1);
      if (mode & 2) j.quants[t].precision = 1;
    }
    // number of tables / extra unused ones, repeated definitions
    if (ntab == 1) {
      gen::Quant q = j.quants[0];
      q.index = 3;
      j.quants.push_back(q);
      j.items[1] = Item(Item::DQT, std::vector<int>{0, 2, 1});
    } else if (ntab == 2) {
      gen::Quant q = j.quants[1];
      q.index = 2;
      j.quants.push_back(q);
      q = j.quants[0];
      q.index = 3;
      j.quants.push_back(q);
      j.items[1] = Item(Item::DQT, std::vector<int>{1});
      j.items.insert(j.items.begin() + 2, Item(Item::DQT, std::vector<int>{0, 3, 2}));
    }
    return Finish(j, Fmt("quality %d swapped/precision=%d perturbation=%d tables=%d", ql, mode,
                         pert, ntab), true);
  }};
}

// --- H: Huffman tables -----------------------------------------------------
// Every shape of a small AC table: number of codes per length for up to N
// symbols and every rotation of the symbol list.
inline Family HuffmanShapes(bool deep) {
  // compositions: for symbols s=1..S, lengths assigned non-decreasing
  const int S = deep ? 6 : 5, L = deep ? 8 : 6;
  auto shapes = std::make_shared<std::vector<std::vector<int>>>();
  std::function<void(std::vector<int>&, int, int)> rec = [&](std::vector<int>& cur, int from, int left) {
    if (!cur.empty()) shapes->push_back(cur);
    if (left == 0) return;
    for (int l = from; l <= 16; ++l) {
      if (l > L && l != 16) continue;
      cur.push_back(l);
      // Kraft with the all-ones code reserved
      uint64_t k = 0;
      for (int x : cur) k += 1ull << (16 - x);
      if (k < (1u << 16)) rec(cur, l, left - 1);
      cur.pop_back();
    }
  };
  std::vector<int> cur;
  rec(cur, 1, S);
  // six symbols that suffice for the content used
  return Family{"huffman-shape", (uint64_t)shapes->size() * 6 * 2, [=](uint64_t i) {
    Radix r(i);
    const auto& sh = (*shapes)[r(shapes->size())];
    int rot = (int)r(6), dc = (int)r(2);
    Jpeg j;
    MetaBase(j);
    for (auto& c : j.coef) std::fill(c.begin(), c.end(), 0);
    static const int acs[6] = {0x00, 0x01, 0x02, 0x11, 0x21, 0xf0};
    static const int dcs[6] = {0, 1, 2, 3, 4, 5};
    Huff h;
    h.slot = dc ? 0 : 0x10;
    for (size_t k = 0; k < sh.size(); ++k) {
      h.counts[sh[k]]++;
      h.vals.push_back((dc ? dcs : acs)[(k + rot) % 6]);
    }
    h.Build();
    // content that only needs the first symbol present
    int* b = j.Block(0, 0, 0);
    if (dc) {
      b[0] = h.vals[0] ? (1 << (h.vals[0] - 1)) : 0;
    } else {
      bool eob = false;
      for (int v : h.vals) eob |= v == 0;
      if (!eob) {
        // the block must be full: repeat a run/size symbol; only run 0 works
        bool one = false, two = false;
        for (int v : h.vals) one |= v == 1, two |= v == 2;
        if (!one && !two) { Made bad; bad.valid = false; return bad; }
        for (int k = 1; k < 64; ++k) b[k] = one ? ((k & 1) ? 1 : -1) : 3;
      } else {
        for (int v : h.vals) {
          if (v == 1) b[1] = 1;
          if (v == 0x11) b[b[1] ? 3 : 2] = -1;
        }
      }
    }
    j.huffs[dc ? 0 : 1] = h;
    std::string d;
    for (int x : sh) d += Fmt(" %d", x);
    return Finish(j, Fmt("%s code lengths%s rotation %d", dc ? "DC" : "AC", d.c_str(), rot), true);
  }};
}
// Redefinition of tables between scans, number of tables per segment, slots.
inline Family HuffmanSlots(bool deep) {
  // dc slot, ac slot, redefine before 2nd scan, grouped or separate, unused
  // extra tables, stock or custom
  uint64_t n = 4 * 4 * 3 * 3 * 3 * 2 * 2;
  return Family{"huffman-slots", n, [=](uint64_t i) {
    Radix r(i);
    int ds = (int)r(4), as = (int)r(4), redef = (int)r(3), group = (int)r(3), extra = (int)r(3);
    int prog = (int)r(2), sep = (int)r(2);
    Jpeg j;
    j.w = 24;
    j.h = 16;
    j.comps = Sampling(2);
    j.Layout();
    gen::FillPattern(j, 9, (int)(i % 5));
    j.sof = prog ? 0xc2 : 0xc1;
    auto acv = prog ? gen::AllACProg() : gen::AllAC();
    j.quants = {gen::FlatQuant(0, 4), gen::FlatQuant(1, 9)};
    auto addscan = [&](std::vector<Scan::C> c) {
      if (!prog) {
        j.scans.push_back(Scan(c, 0, 63, 0, 0));
        return;
      }
      j.scans.push_back(Scan(c, 0, 0, 0, 0));
      for (auto& x : c) j.scans.push_back(Scan({x}, 1, 63, 0, 0));
    };
    if (sep) {
      for (int c = 0; c < 3; ++c) addscan({{c, (ds + c) & 3, (as + c) & 3}});
    } else {
      addscan({{0, ds, as}, {1, (ds + 1) & 3, (as + 1) & 3}, {2, ds, (as + 2) & 3}});
    }
    for (int t = 0; t < 4; ++t) {
      j.huffs.push_back(gen::MakeHuff(t, gen::AllDC(), t));
      j.huffs.push_back(gen::MakeHuff(0x10 + t, acv, t));
    }
    for (int t = 0; t < 4; ++t) {
      j.huffs.push_back(gen::MakeHuff(t, gen::AllDC(), 3 - t));
      j.huffs.push_back(gen::MakeHuff(0x10 + t, acv, 3 - t));
    }
    j.items.push_back(Item(Item::DQT, std::vector<int>{1, 0}));
    j.items.push_back(Item(Item::SOF));
    if (group == 0) {
      j.items.push_back(Item(Item::DHT, std::vector<int>{0, 1, 2, 3, 4, 5, 6, 7}));
    } else if (group == 1) {
      for (int t = 7; t >= 0; --t) j.items.push_back(Item(Item::DHT, std::vector<int>{t}));
    } else {
      j.items.push_back(Item(Item::DHT, std::vector<int>{0, 2, 4, 6}));
      j.items.push_back(Item(Item::DHT, std::vector<int>{1, 3, 5, 7}));
    }
    if (extra == 1) j.items.push_back(Item(Item::DHT, std::vector<int>{0, 0, 1, 1}));
    if (extra == 2) j.items.insert(j.items.end() - 1, Item(Item::DHT, std::vector<int>{14}));
    for (size_t s = 0; s < j.scans.size(); ++s) {
      if (s == 1 && redef == 1) j.items.push_back(Item(Item::DHT, std::vector<int>{8, 9, 10, 11, 12, 13, 14, 15}));
      if (s >= 1 && redef == 2) j.items.push_back(Item(Item::DHT, std::vector<int>{8 + (int)(s * 2) % 8, 9 + (int)(s * 2) % 8}));
      j.items.push_back(Item(Item::SOS, (int)s));
    }
    j.items.push_back(Item(Item::EOI));
    return Finish(j, Fmt("dc slot %d ac slot %d redefine=%d group=%d extra=%d prog=%d sep=%d", ds, as,
                         redef, group, extra, prog, sep), true);
  }};
}

// --- I: end-of-band runs and redundant zero runs ---------------------------
// A strip of blocks; each subset of blocks has AC content, each subset of a
// few cut points forces an early end of an EOB run.
inline Family EobRuns(bool deep) {
  const int N = deep ? 10 : 8;  // blocks
  uint64_t subsets = 1ull << N;
  return Family{"eob-runs", subsets * 16 * 3, [=](uint64_t i) {
    Radix r(i);
    uint64_t mask = r(subsets);
    int cut = (int)r(16), mode = (int)r(3);
    Jpeg j;
    j.w = 8 * N;
    j.h = 8;
    j.comps = Sampling(0);
    j.Layout();
    j.sof = 0xc2;
    for (int x = 0; x < N; ++x) {
      int* b = j.Block(0, 0, x);
      b[0] = x;
      if (mask >> x & 1) {
        b[1 + (x * 7) % 20] = (x & 1) ? -3 : 2;
        b[40] = mode == 2 ? 1 : 5;
      }
      if (mode >= 1) b[3] = 4;
    }
    Scan s({{0, 0, 0}}, 1, 63, 0, mode ? 1 : 0);
    for (int k = 0; k < 4; ++k)
      if (cut >> k & 1) s.resets.insert(1 + 2 * k);
    j.scans.push_back(Scan({{0, 0, 0}}, 0, 0, 0, 0));
    j.scans.push_back(s);
    if (mode) {
      Scan s2({{0, 0, 0}}, 1, 63, 1, 0);
      s2.resets = s.resets;
      j.scans.push_back(s2);
    }
    Plain(j, 0, mode == 2 ? 3 : 0);
    return Finish(j, Fmt("blocks with AC %#llx cuts %#x mode %d", (unsigned long long)mask, cut, mode), true);
  }};
}
inline Family ZeroRuns(bool deep) {
  // redundant ZRL codes before EOB: count x last position x block
  return Family{"zero-runs", 4 * 64 * 3 * 2, [=](uint64_t i) {
    Radix r(i);
    int zr = (int)r(4), last = (int)r(64), blk = (int)r(3), prog = (int)r(2);
    Jpeg j;
    j.w = 24;
    j.h = 8;
    j.comps = Sampling(0);
    j.Layout();
    j.sof = prog ? 0xc2 : 0xc0;
    int* b = j.Block(0, 0, blk);
    if (last) b[last] = 1;
    Scan s({{0, 0, 0}}, prog ? 1 : 0, 63, 0, 0);
    for (int k = 0; k < 3; ++k)
      if (k == blk || (blk == 2 && k == 0)) s.zruns[k] = zr;
    if (prog) j.scans.push_back(Scan({{0, 0, 0}}, 0, 0, 0, 0));
    j.scans.push_back(s);
    Plain(j, 0, 0);
    return Finish(j, Fmt("%d extra zero runs, last=%d, block %d, prog=%d", zr, last, blk, prog), true);
  }};
}
// Long EOB runs
inline Family LongEob(bool deep) {
  static const int sizes[] = {1, 2, 3, 7, 8, 63, 64, 127, 128, 255, 256, 1000};
  return Family{"eob-long", 12 * 3 * 3, [=](uint64_t i) {
    Radix r(i);
    int nx = sizes[r(12)], ny = (int)r(3), mode = (int)r(3);
    static const int rows[] = {1, 2, 33};
    Jpeg j;
    j.w = 8 * nx;
    j.h = 8 * rows[ny];
    j.comps = Sampling(0);
    j.Layout();
    j.sof = 0xc2;
    if (mode >= 1) j.Block(0, rows[ny] - 1, nx - 1)[5] = 1;
    if (mode == 2) j.Block(0, rows[ny] / 2, nx / 2)[63] = -1;
    j.scans.push_back(Scan({{0, 0, 0}}, 0, 0, 0, 0));
    j.scans.push_back(Scan({{0, 0, 0}}, 1, 63, 0, 0));
    Plain(j, 0, 0);
    return Finish(j, Fmt("%dx%d blocks, mode %d", nx, rows[ny], mode), true);
  }};
}

// Correction bits kept back by an EOB run: every pair of counts in two
// neighbouring blocks, and runs of up to 32767 blocks.
inline Family RefineBits(bool deep, bool bigs = false) {
  struct Big { int nx, ny, n, cut; };
  static const Big big[] = {
      {16, 16, 63, 0}, {24, 22, 63, 0}, {24, 22, 62, 1}, {24, 22, 63, 2}, {40, 40, 21, 0}, {40, 40, 63, 1},
      {182, 181, 1, 0}, {182, 181, 2, 1}, {182, 181, 63, 0}, {182, 181, 63, 2}, {217, 151, 63, 0}, {217, 151, 63, 3}};
  uint64_t pairs = 64 * 64 * (deep ? 4 : 1);
  return Family{"refine-bits", pairs + (bigs ? 12 * 2 : 0), [=](uint64_t i) {
    Jpeg j;
    j.comps = Sampling(0);
    j.sof = 0xc2;
    size_t cap = (size_t)-1;
    Bytes what;
    auto corr = [&](int x, int y, int n, unsigned salt) {  // n coefficients to refine
      int* b = j.Block(0, y, x);
      for (int k = 0; k < n; ++k) {
        unsigned v = (k * 7 + x * 5 + y * 3 + salt) * 2654435761u >> 28;
        b[63 - k] = (v & 2) ? -(int)(2 + (v & 1)) : (int)(2 + (v & 1));
      }
    };
    if (i < pairs) {
      Radix r(i);
      int n = (int)r(64), m = (int)r(64), third = (int)r(4);
      j.w = 32;
      j.h = 8;
      j.Layout();
      corr(0, 0, n, 1);
      corr(1, 0, m, 2);
      if (third == 1) j.Block(0, 0, 2)[1] = 1;
      if (third == 2) corr(2, 0, n, 3);
      if (third == 3) { corr(2, 0, 9, 4); j.Block(0, 0, 2)[50] = -1; }
      what = Fmt("%d then %d correction bits, third block %d", n, m, third);
    } else {
      Radix r(i - pairs);
      Big g = big[r(12)];
      cap = r(2) ? (size_t)-1 : 1000 - 63;
      j.w = 8 * g.nx;
      j.h = 8 * g.ny;
      j.Layout();
      for (int y = 0; y < g.ny; ++y) for (int x = 0; x < g.nx; ++x) corr(x, y, g.n, 5);
      if (g.cut & 1) j.Block(0, g.ny - 1, g.nx - 1)[1] = 1;
      if (g.cut & 2) j.Block(0, g.ny / 2, 0)[1] = -1;
      what = Fmt("%dx%d blocks of %d corrections, cut %d, cap %d", g.nx, g.ny, g.n, g.cut, (int)cap);
    }
    j.scans.push_back(Scan({{0, 0, 0}}, 0, 0, 0, 0));
    j.scans.push_back(Scan({{0, 0, 0}}, 1, 63, 0, 1));
    Scan s({{0, 0, 0}}, 1, 63, 1, 0);
    s.max_refbits = cap;
    j.scans.push_back(s);
    Plain(j, 0, 0);
    return Finish(j, what, true);
  }};
}

// Marks (EOB runs cut, redundant zero runs) far from one another: a scan over
// many blocks with one or two marks, or a dense stretch after a gap.
inline Family FarMarks(bool deep) {
  static const int at[] = {0, 1, 255, 4096, 16384, 32766, 32767, 32768, 65535, 65536, 65537, 90298};
  const int P = 12;
  // pairs (a <= b), 3 kinds; kind 2: both kinds of marks
  return Family{"far-marks", (uint64_t)P * P * 3, [=](uint64_t i) {
    Radix r(i);
    int a = (int)r(P), b = (int)r(P), kind = (int)r(3);
    Jpeg j;
    if (a > b || (!deep && a != b && (a + b + kind) % 3)) return Made();
    j.w = 8 * 301;
    j.h = 8 * 300;
    j.comps = Sampling(0);
    j.Layout();
    j.sof = kind == 2 ? 0xc0 : 0xc2;
    Scan s({{0, 0, 0}}, kind == 2 ? 0 : 1, kind ? 63 : 1, 0, 0);
    // A run that reaches its longest is cut anyway; few blocks are empty, so that
    // the next cut is far.
    if (kind == 0) for (int y = 0; y < 300; ++y) for (int x = 0; x < 301; ++x) j.Block(0, y, x)[1] = 1;
    for (int m : {at[a], at[b]}) {
      if (kind == 0) for (int q : {m, m + 1}) j.Block(0, q / 301, q % 301)[1] = 0;
      if (kind == 0) s.resets.insert(m + 1);
      if (kind == 1) { s.zruns[m] = 1 + m % 3; }
      if (kind == 2) s.zruns[m] = 3 - m % 3;
      if (kind == 1 && m != at[b]) s.resets.insert(m + 2);
    }
    if (kind != 2) j.scans.push_back(Scan({{0, 0, 0}}, 0, 0, 0, 0));
    j.scans.push_back(s);
    Plain(j, 0, 0);
    return Finish(j, Fmt("marks at blocks %d and %d, kind %d", at[a], at[b], kind), true);
  }};
}

// So many marks that what describes them outgrows everything else in the file.
inline Family ManyMarks(bool deep) {
  static const int num[] = {300, 3000, 12000, 21000, 22000, 24000, 30000, 90300, 45000, 60000};
  const int N = deep ? 10 : 8;
  return Family{"many-marks", (uint64_t)N * 6 * 2, [=](uint64_t i) {
    Radix r(i);
    int n = num[r(N)], kind = (int)r(6), stride = 1 + (int)r(2);
    Jpeg j;
    j.w = 8 * 301;
    j.h = 8 * 300;
    j.comps = Sampling(0);
    j.Layout();
    j.sof = kind == 2 || kind == 4 || kind == 5 ? 0xc0 : 0xc2;
    Scan s({{0, 0, 0}}, j.sof == 0xc0 ? 0 : 1, 63, 0, 0);
    int padding = 0x5a;
    for (int k = 0; k < n; ++k) {
      int b = k * stride;
      if (b >= 90300) break;
      if (kind == 0) s.resets.insert(b + 1);
      if (kind == 1 || kind == 2) s.zruns[b] = 1;
      if (kind == 3) { if (k & 1) s.zruns[b] = 1 + k % 3; else s.resets.insert(b + 1); }
      if (kind == 5) s.zruns[b] = 3;
      if (kind == 4) j.Block(0, b / 301, b % 301)[1 + k % 63] = k % 3 - 1;
    }
    if (j.sof == 0xc2) j.scans.push_back(Scan({{0, 0, 0}}, 0, 0, 0, 0));
    j.scans.push_back(s);
    int dri = 0;
    if (kind == 4) { dri = std::max(1, 90300 / n); j.pad = padding; }  // the bits before each restart marker
    Plain(j, 0, dri);
    return Finish(j, Fmt("%d marks of kind %d, every %d blocks", n, kind, stride), true);
  }};
}

// --- J: component / scan header parameters ---------------------------------
// Every (h, v) pair for up to two components.
inline Family SamplingFactors(bool deep) {
  const int M = deep ? 8 : 4;
  uint64_t n = (uint64_t)M * M * M * M * 2 * 2;
  return Family{"sampling-factors", n, [=](uint64_t i) {
    Radix r(i);
    int h1 = 1 + (int)r(M), v1 = 1 + (int)r(M), h2 = 1 + (int)r(M), v2 = 1 + (int)r(M);
    int inter = (int)r(2), big = (int)r(2);
    Jpeg j;
    j.w = big ? 41 : 17;
    j.h = big ? 70 : 9;
    j.comps = {{1, h1, v1, 0}, {2, h2, v2, 1}};
    j.Layout();
    gen::FillPattern(j, 3, (int)(i % 3));
    if (inter) {
      j.scans.push_back(Scan({{0, 0, 0}, {1, 1, 1}}, 0, 63, 0, 0));
    } else {
      j.scans.push_back(Scan({{1, 1, 1}}, 0, 63, 0, 0));
      j.scans.push_back(Scan({{0, 0, 0}}, 0, 63, 0, 0));
    }
    Plain(j, 0, 0);
    int mh = std::max(h1, h2), mv = std::max(v1, v2);
    // fractional ratios are outside what the reader documents
    bool wf = mh % h1 == 0 && mh % h2 == 0 && mv % v1 == 0 && mv % v2 == 0 &&
              mh <= 4 && mv <= 4 && (!inter || h1 * v1 + h2 * v2 <= 10);
    return Finish(j, Fmt("factors %dx%d,%dx%d inter=%d %dx%d", h1, v1, h2, v2, inter, j.w, j.h), wf);
  }};
}
// Spectral selection / approximation values of two AC scans
inline Family ScanParams(bool deep) {
  std::vector<int> b = deep ? std::vector<int>{1, 2, 5, 31, 32, 62, 63} : std::vector<int>{1, 5, 62, 63};
  uint64_t nb = b.size();
  uint64_t n = nb * nb * 11 * 12 * 2 * 2;
  return Family{"scan-params", n, [=](uint64_t i) {
    Radix r(i);
    int s1 = b[r(nb)], e1 = b[r(nb)], al = (int)r(11), dal = (int)r(12), dri = (int)r(2), p = r(2) ? 6 : 4;
    Made bad;
    bad.valid = false;
    if (s1 > e1) return bad;
    Jpeg j;
    j.w = 24;
    j.h = 16;
    j.comps = Sampling(0);
    j.Layout();
    gen::FillPattern(j, p, 3);
    j.sof = 0xc2;
    j.scans.push_back(Scan({{0, 0, 0}}, 0, 0, 0, dal));
    j.scans.push_back(Scan({{0, 0, 0}}, s1, e1, 0, al));
    if (al > 0) j.scans.push_back(Scan({{0, 0, 0}}, s1, e1, al, al - 1));
    if (dal > 0) j.scans.push_back(Scan({{0, 0, 0}}, 0, 0, dal, dal - 1));
    Plain(j, 0, dri ? 4 : 0);
    return Finish(j, Fmt("Ss=%d Se=%d Al=%d dcAl=%d dri=%d pat=%d", s1, e1, al, dal, dri, p), al <= 10 && dal <= 10);
  }};
}

// Block-count thresholds that switch coding decisions (number of contexts,
// sampling of statistics, adaptive coefficient order).
inline Family Sizes(bool deep) {
  static const int q[][2] = {{31, 33}, {32, 32}, {33, 31}, {64, 64}, {65, 63}, {1, 1025}, {1024, 1}, {100, 90}};
  static const int d[][2] = {{300, 300}, {512, 512}, {8191, 1}, {1, 8191}, {130, 2000}};
  std::vector<std::pair<int, int>> s;
  for (auto& x : q) s.push_back({x[0], x[1]});
  if (deep) for (auto& x : d) s.push_back({x[0], x[1]});
  uint64_t n = s.size() * 8 * 4;
  Family f{"sizes", n, [=](uint64_t i) {
    Radix r(i);
    auto wh = s[r(s.size())];
    static const int pats[] = {0, 3, 5, 4, 6, 9, 10, 8};
    int p = pats[r(8)], k = (int)r(4);
    Jpeg j;
    j.w = 8 * wh.first;
    j.h = 8 * wh.second;
    j.comps = Sampling(k < 2 ? 0 : k == 2 ? 3 : 2);
    j.Layout();
    Script(j, k == 1 ? 3 : 0);
    gen::FillPattern(j, p, 4);
    Plain(j, 0, 0);
    return Finish(j, Fmt("%dx%d blocks pattern=%s kind=%d", wh.first, wh.second, gen::PatternName(p), k), true);
  }};
  f.limit = 60;
  return f;
}

// Entropy-coded segments whose length passes a multiple of the serialiser's
// block size (any power of two from 4 KiB to 64 KiB): every number of coded
// coefficients in a window around the crossing.
inline Jpeg ChunkJpeg(int mode, int k) {
  Jpeg j;
  j.w = j.h = 8 * 48;
  j.comps = Sampling(0);
  j.Layout();
  const int nb = 48 * 48;
  for (int t = 0; t < k && t < nb * 63; ++t) {
    int b = t % nb, z = 1 + t / nb;
    j.Block(0, b / 48, b % 48)[z] = mode == 1 || mode == 6 || mode == 7 ? 1023 : mode == 3 ? -3 : mode >= 8 ? 3 : 1;
  }
  if (mode == 2 || mode == 4 || mode >= 8) {
    j.sof = 0xc2;
    j.scans.push_back(Scan({{0, 0, 0}}, 0, 0, 0, 0));
    if (mode == 2) {
      j.scans.push_back(Scan({{0, 0, 0}}, 1, 63, 0, 0));
    } else {
      j.scans.push_back(Scan({{0, 0, 0}}, 1, 63, 0, 1));
      j.scans.push_back(Scan({{0, 0, 0}}, 1, 63, 1, 0));
    }
  } else {
    j.scans.push_back(Scan({{0, 0, 0}}, 0, 63, 0, 0));
  }
  Plain(j, mode == 5 ? 1 : 0, mode == 3 || mode == 7 ? 1 : mode == 9 ? 5 : mode == 10 ? 2 : 0);
  if (mode == 6 || mode == 7) {  // nearly every byte is 0xff
    gen::Huff h;
    h.slot = 0x10;
    for (int l = 1; l <= 16; ++l) h.counts[l] = 1;
    h.vals = {0x00, 0x01, 0x02, 0x03, 0x04, 0x05, 0x06, 0x07, 0x08, 0x09, 0x11, 0x21, 0x31, 0x41, 0xf0, 0x0a};
    h.Build();
    j.huffs[1] = h;
  }
  return j;
}
inline Family ChunkEdges(bool deep) {
  std::vector<int> targets = {16384, 32768};
  if (deep) targets = {4096, 8192, 16384, 32768, 65536};
  const int half = deep ? 200 : 70, modes = 11;  // 8..10: correction bits, all ones
  auto mid = std::make_shared<std::vector<int>>();
  for (int m = 0; m < modes; ++m) for (int t : targets) {
    int lo = 0, hi = 48 * 48 * 60;
    while (lo < hi) {
      int k = (lo + hi) / 2;
      Jpeg j = ChunkJpeg(m, k);
      Made d = Finish(j, "", true);
      size_t p = d.jpg.rfind("\xff\xda");
      int n = (int)(d.jpg.size() - p - 2 - (unsigned char)d.jpg[p + 3] - 2);
      if (n > t) hi = k; else lo = k + 1;
    }
    mid->push_back(lo);
  }
  uint64_t per = 2 * half;
  size_t nt = targets.size();
  return Family{"chunk-edges", per * mid->size(), [=](uint64_t i) {
    int q = (int)(i / per), k = (*mid)[q] - half + (int)(i % per);
    int m = q / (int)nt;
    Made bad;
    bad.valid = false;
    if (k < 0) return bad;
    Jpeg j = ChunkJpeg(m, k);
    return Finish(j, Fmt("entropy data near %d bytes, mode %d, %d coefficients", targets[q % nt], m, k), true);
  }};
}

// Files whose total size passes a multiple of the output block size.
inline Family OutputEdges(bool deep) {
  std::vector<int> t = deep ? std::vector<int>{1024, 4096, 8192, 16384, 32768, 49152, 65536, 131072} : std::vector<int>{4096, 16384, 32768, 65536};
  uint64_t nt = t.size();
  return Family{"output-edges", nt * 40 * 3, [=](uint64_t i) {
    Radix r(i);
    int target = t[r(nt)], d = (int)r(40) - 20, mode = (int)r(3);
    Jpeg j;
    MetaBase(j);
    bool ok;
    size_t base = gen::Write(j, &ok).size();
    int pad = target + d - (int)base;
    Bytes fill;
    for (int k = 0; k < pad; ++k) fill += (char)(1 + (k * 37 + (k >> 7)) % 250);
    if (mode == 0) {
      j.items.push_back(Item(Item::RAW, fill));  // after EOI
    } else {
      size_t at = 0;
      int n = 0;
      while (at < fill.size()) {
        size_t k = std::min<size_t>(fill.size() - at, mode == 1 ? 65533 : 3000);
        if (k < 5) { j.items.push_back(Item(Item::RAW, fill.substr(at, k))); break; }
        j.items.insert(j.items.begin(), Item(Item::RAW, gen::Marker(0xe1 + n++ % 12, fill.substr(at, k - 4))));
        at += k;
      }
    }
    return Finish(j, Fmt("total size %d%+d mode %d", target, d, mode), true);
  }};
}

// Every family. The scan-data families come last (they are the large ones).
// Every coefficient position of every component has a distribution of its own, so that the
// encoder keeps from a few to all 256 histograms (and, from 80 columns on with four
// components, has to merge what the components ask for).
inline Family Clusters(bool deep) {
  static const int shape[][2] = {{16, 0}, {20, 2}, {28, 2}, {40, 0}, {44, 10}, {56, 2}, {80, 0}, {80, 13}, {80, 2}, {80, 10}, {100, 3}, {100, 10}, {140, 2}, {140, 10}};
  static const int top[] = {10, 3, 6, 2};
  const int S = deep ? 14 : 11, T = 4, R = deep ? 6 : 1;
  auto desc = [=](uint64_t i) {
    Radix x(i);
    int s = (int)x(S), t = (int)x(T), k = (int)x(R);
    return Fmt("clusters %dx%d blocks, %s, sizes below %d, kind %d", shape[s][0], shape[s][0], SamplingName(shape[s][1]), top[t], k);
  };
  return Family{"clusters", (uint64_t)S * T * R, [=](uint64_t i) {
    Radix x(i);
    int s = (int)x(S), t = (int)x(T), kind = (int)x(R);
    Jpeg j;
    j.w = j.h = shape[s][0] * 8;
    j.comps = Sampling(shape[s][1]);
    Script(j, 0);
    Plain(j, 0, 0);
    j.Layout();
    for (size_t q = 0; q < j.coef.size(); ++q)
      for (size_t n = 0; n < j.coef[q].size(); ++n) {
        int k = (int)(n % 64);
        uint32_t h = gen::H((uint32_t)(n * 31 + q * 7919 + kind * 104729)), m = gen::H((uint32_t)(k * 64 + q * 4096 + kind * 77));
        if (k == 0) { j.coef[q][n] = (int)(h % 401) - 200; continue; }
        int cls[4], nc = 2 + (int)(m % 3);
        for (int z = 0; z < nc; ++z) cls[z] = (int)(gen::H(m + z * 13) / 8 % (uint32_t)top[t]);
        int c = cls[h / 16 % nc];
        int v = c == 0 ? 0 : (1 << (c - 1)) + (int)(h / 4096 % (1u << (c - 1)));
        j.coef[q][n] = (h >> 31) ? -v : v;
      }
    return Finish(j, desc(i), true);
  }, 120};
}
inline std::vector<Family> All(bool deep, const Bytes& icc) {
  std::vector<Family> v = {Geometry(deep), Content(deep), Coefficients(deep), CoefPairs(deep),
                           MarkerInsert(deep), MarkerSequence(deep), MetaSingles(icc),
                           MetaSequences(deep), MetaCounts(deep), QuantTables(deep),
                           QuantQuality(deep), HuffmanShapes(deep), HuffmanSlots(deep),
                           EobRuns(deep), ZeroRuns(deep), LongEob(deep), RefineBits(deep), SamplingFactors(deep),
                           ScanParams(deep), Sizes(deep), ChunkEdges(deep), OutputEdges(deep), Clusters(deep)};
  for (size_t k = 0; k < RawCfgs().size(); ++k) v.push_back(RawScan(deep, (int)k));
  return v;
}

}  // namespace fam
#endif
