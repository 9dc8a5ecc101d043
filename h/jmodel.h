// An independent JPEG reader used as an oracle: marker segments and entropy
// decoding straight from ITU-T T.81, bit by bit, without tables.
#ifndef VERIF_JMODEL_H_
#define VERIF_JMODEL_H_
#include <stdint.h>
#include <string>
#include <vector>
namespace jm {
typedef std::string Bytes;
static const int kNat[64] = {
    0,  1,  8,  16, 9,  2,  3,  10, 17, 24, 32, 25, 18, 11, 4,  5,
    12, 19, 26, 33, 40, 48, 41, 34, 27, 20, 13, 6,  7,  14, 21, 28,
    35, 42, 49, 56, 57, 50, 43, 36, 29, 22, 15, 23, 30, 37, 44, 51,
    58, 59, 52, 45, 38, 31, 39, 46, 53, 60, 61, 54, 47, 55, 62, 63};
struct Table { int slot; int counts[17]; std::vector<int> vals; bool last; };
struct Quant { int index, precision; int v[64]; bool last; };
struct Comp { int id, h, v, tq, wb, hb; std::vector<int> coef; };
struct Scan { std::vector<int> ci, dc, ac; int Ss, Se, Ah, Al; };
struct Image {
  bool ok = false;
  std::string why;
  int w = 0, h = 0, dri = 0, mh = 1, mv = 1, mcux = 0, mcuy = 0;
  bool prog = false;
  std::vector<Comp> comps;
  std::vector<Quant> quants;
  std::vector<Table> tables;
  std::vector<Scan> scans;
  std::vector<int> markers;
  std::vector<Bytes> app, com, inter;
  Bytes tail;
};
struct Bits {
  const Bytes& d;
  size_t p;
  int n = 0, cur = 0;
  bool out = false;  // ran into a marker or the end
  Bits(const Bytes& b, size_t pos) : d(b), p(pos) {}
  int Get() {
    if (!n) {
      if (p >= d.size()) { out = true; return 0; }
      int c = (uint8_t)d[p];
      if (c == 0xff) {
        if (p + 1 >= d.size() || d[p + 1] != 0) { out = true; return 0; }
        p += 2;
      } else {
        ++p;
      }
      cur = c;
      n = 8;
    }
    return cur >> --n & 1;
  }
  int Get(int k) { int v = 0; while (k--) v = v * 2 + Get(); return v; }
  int Sym(const Table* t) {
    if (!t) return -1;
    int code = 0, first = 0, idx = 0;
    for (int l = 1; l <= 16; ++l) {
      code = code * 2 + Get();
      if (out) return -1;
      if (code - first < t->counts[l]) return t->vals[idx + code - first];
      idx += t->counts[l];
      first = (first + t->counts[l]) << 1;
    }
    return -1;
  }
};
inline int Ext(int v, int s) { return s && v < (1 << (s - 1)) ? v - (1 << s) + 1 : v; }
struct Reader {
  const Bytes& b;
  Image& im;
  const Table* dc[4] = {0};
  const Table* ac[4] = {0};
  std::vector<Table> cur_dc, cur_ac;
  Reader(const Bytes& bb, Image& i) : b(bb), im(i), cur_dc(4), cur_ac(4) {}
  int U8(size_t p) { return (uint8_t)b[p]; }
  int U16(size_t p) { return U8(p) * 256 + U8(p + 1); }
  bool Bad(const char* w) { im.why = w; return false; }
  static bool Known(int m) {
    return m == 0xc0 || m == 0xc1 || m == 0xc2 || m == 0xc4 || (m >= 0xd0 && m <= 0xd7) || m == 0xd9 || m == 0xda ||
           m == 0xdb || m == 0xdd || (m >= 0xe0 && m <= 0xef) || m == 0xfe;
  }
  bool Run() {
    if (b.size() < 2 || U8(0) != 0xff || U8(1) != 0xd8) return Bad("SOI");
    size_t p = 2;
    while (true) {
      size_t q = p;
      // d8 and dc count as markers for finding, and then are not supported
      while (q + 1 < b.size() && !(U8(q) == 0xff && (Known(U8(q + 1)) ))) ++q;
      if (q + 1 >= b.size()) return Bad("no marker");
      if (q > p) { im.markers.push_back(0xff); im.inter.push_back(b.substr(p, q - p)); }
      int m = U8(q + 1);
      p = q + 2;
      im.markers.push_back(m);
      if (m >= 0xd0 && m <= 0xd7) continue;
      if (m == 0xd9) break;
      if (p + 2 > b.size()) return Bad("length");
      size_t n = U16(p);
      if (n < 2 || p + n > b.size()) return Bad("length");
      size_t e = p + n, s = p + 2;
      if (m >= 0xe0 && m <= 0xef) im.app.push_back(b.substr(q + 1, n + 1));
      else if (m == 0xfe) im.com.push_back(b.substr(q + 1, n + 1));
      else if (m == 0xdd) { im.dri = U16(s); }
      else if (m == 0xdb) {
        while (s < e) {
          Quant t;
          t.index = U8(s) & 15;
          t.precision = U8(s) >> 4;
          ++s;
          for (int k = 0; k < 64; ++k) { t.v[kNat[k]] = t.precision ? U16(s) : U8(s); s += 1 + t.precision; }
          t.last = s == e;
          im.quants.push_back(t);
        }
      } else if (m == 0xc4) {
        while (s < e) {
          Table t;
          t.slot = U8(s++);
          int tot = 0;
          t.counts[0] = 0;
          for (int l = 1; l <= 16; ++l) tot += t.counts[l] = U8(s++);
          for (int k = 0; k < tot; ++k) t.vals.push_back(U8(s++));
          t.last = s == e;
          im.tables.push_back(t);
          auto& v = t.slot & 16 ? cur_ac : cur_dc;
          v[t.slot & 3] = t;
          (t.slot & 16 ? ac : dc)[t.slot & 3] = &v[t.slot & 3];
        }
      } else if (m == 0xda) {
        Scan sc;
        int nc = U8(s++);
        for (int k = 0; k < nc; ++k) {
          int id = U8(s), ci = -1;
          for (size_t c = 0; c < im.comps.size(); ++c) if (im.comps[c].id == id) ci = (int)c;
          if (ci < 0) return Bad("component");
          sc.ci.push_back(ci);
          sc.dc.push_back(U8(s + 1) >> 4);
          sc.ac.push_back(U8(s + 1) & 15);
          s += 2;
        }
        sc.Ss = U8(s);
        sc.Se = U8(s + 1);
        sc.Ah = U8(s + 2) >> 4;
        sc.Al = U8(s + 2) & 15;
        im.scans.push_back(sc);
        p = e;
        if (!DoScan(sc, &p)) return false;
        continue;
      } else {
        im.prog = m == 0xc2;
        im.h = U16(s + 1);
        im.w = U16(s + 3);
        int nc = U8(s + 5);
        for (int k = 0; k < nc; ++k) {
          Comp c;
          c.id = U8(s + 6 + 3 * k);
          c.h = U8(s + 7 + 3 * k) >> 4;
          c.v = U8(s + 7 + 3 * k) & 15;
          c.tq = U8(s + 8 + 3 * k);
          im.mh = std::max(im.mh, c.h);
          im.mv = std::max(im.mv, c.v);
          im.comps.push_back(c);
        }
        im.mcux = (im.w + 8 * im.mh - 1) / (8 * im.mh);
        im.mcuy = (im.h + 8 * im.mv - 1) / (8 * im.mv);
        for (auto& c : im.comps) {
          c.wb = im.mcux * c.h;
          c.hb = im.mcuy * c.v;
          c.coef.assign((size_t)c.wb * c.hb * 64, 0);
        }
      }
      p = e;
    }
    im.tail = b.substr(p);
    return true;
  }
  bool Block(const Scan& s, size_t k, int* c, Bits& br, int* pred, int* eob) {
    int Ss = im.prog ? s.Ss : 0, Se = im.prog ? s.Se : 63, Ah = im.prog ? s.Ah : 0, Al = im.prog ? s.Al : 0;
    int z = Ss;
    if (Ss == 0) {
      if (Ah == 0) {
        int t = br.Sym(dc[s.dc[k] & 3]);
        if (t < 0) return Bad("dc symbol");
        *pred += Ext(br.Get(t), t);
        c[0] = *pred * (1 << Al);
      } else if (br.Get()) {
        c[0] |= 1 << Al;
      }
      z = 1;
      if (z > Se) return true;
    }
    if (Ah == 0) {
      if (*eob > 0) { --*eob; return true; }
      while (z <= Se) {
        int rs = br.Sym(ac[s.ac[k] & 3]);
        if (rs < 0) return Bad("ac symbol");
        int r = rs >> 4, t = rs & 15;
        if (t) {
          z += r;
          if (z > Se) return Bad("band");
          c[kNat[z++]] = Ext(br.Get(t), t) * (1 << Al);
        } else if (r == 15) {
          z += 16;
        } else {
          *eob = (1 << r) + br.Get(r) - 1;
          return true;
        }
      }
      return true;
    }
    // refinement
    auto Fix = [&](int& v) { if (br.Get()) v += v > 0 ? 1 << Al : -(1 << Al); };
    if (*eob == 0) {
      while (z <= Se) {
        int rs = br.Sym(ac[s.ac[k] & 3]);
        if (rs < 0) return Bad("ac symbol");
        int r = rs >> 4, t = rs & 15, val = 0;
        if (t) {
          val = br.Get() ? 1 << Al : -(1 << Al);
        } else if (r < 15) {
          *eob = (1 << r) + br.Get(r);
          break;
        }
        while (z <= Se) {
          int& v = c[kNat[z]];
          if (v) Fix(v);
          else if (r-- == 0) { if (val) v = val; ++z; val = 0; goto next; }
          ++z;
        }
        if (val) return Bad("band");
      next:;
      }
    }
    if (*eob > 0) {
      for (; z <= Se; ++z) if (c[kNat[z]]) Fix(c[kNat[z]]);
      --*eob;
    }
    return true;
  }
  bool DoScan(const Scan& s, size_t* p) {
    Bits br(b, *p);
    bool inter = s.ci.size() > 1;
    int nx, ny;
    if (inter) { nx = im.mcux; ny = im.mcuy; }
    else {
      auto& c = im.comps[s.ci[0]];
      nx = (im.w * c.h + 8 * im.mh - 1) / (8 * im.mh);
      ny = (im.h * c.v + 8 * im.mv - 1) / (8 * im.mv);
    }
    std::vector<int> pred(im.comps.size(), 0);
    int eob = 0, togo = im.dri, rst = 0;
    for (int y = 0; y < ny; ++y) for (int x = 0; x < nx; ++x) {
      if (im.dri) {
        if (!togo) {
          if (br.p + 2 > b.size() || U8(br.p) != 0xff || U8(br.p + 1) != 0xd0 + rst) return Bad("restart");
          br.p += 2; br.n = 0; br.out = false;
          rst = (rst + 1) & 7;
          togo = im.dri;
          std::fill(pred.begin(), pred.end(), 0);
          eob = 0;
        }
        --togo;
      }
      for (size_t k = 0; k < s.ci.size(); ++k) {
        auto& c = im.comps[s.ci[k]];
        int bw = inter ? c.h : 1, bh = inter ? c.v : 1;
        for (int iy = 0; iy < bh; ++iy) for (int ix = 0; ix < bw; ++ix)
          if (!Block(s, k, &c.coef[64 * ((size_t)(y * bh + iy) * c.wb + x * bw + ix)], br, &pred[s.ci[k]], &eob)) return false;
      }
    }
    if (br.out) return Bad("scan data ends early");
    *p = br.p;
    return true;
  }
};
inline Image Read(const Bytes& b) {
  Image im;
  Reader r(b, im);
  im.ok = r.Run();
  return im;
}
}  // namespace jm
#endif
