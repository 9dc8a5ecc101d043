// C19: quantisation tables survive.
#include "rt.h"
using codec::Bytes;
using gen::Item;
using gen::Jpeg;
static const int kLuma[64] = {16, 11, 10, 16, 24, 40, 51, 61, 12, 12, 14, 19, 26, 58, 60, 55, 14, 13, 16, 24, 40, 57, 69, 56, 14, 17, 22, 29, 51, 87, 80, 62,
                              18, 22, 37, 56, 68, 109, 103, 77, 24, 35, 55, 64, 81, 104, 113, 92, 49, 64, 78, 87, 103, 121, 120, 101, 72, 92, 95, 98, 112, 100, 103, 99};
static const int kChroma[64] = {17, 18, 24, 47, 99, 99, 99, 99, 18, 21, 26, 66, 99, 99, 99, 99, 24, 26, 56, 99, 99, 99, 99, 99, 47, 66, 99, 99, 99, 99, 99, 99,
                                99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99};
static void Scaled(gen::Quant* t, bool chroma, int ql, int rnd = 50) {
  int s = ql < 50 ? 5000 / ql : 200 - 2 * ql;
  for (int k = 0; k < 64; ++k) t->v[k] = std::max(1, std::min(255, ((chroma ? kChroma : kLuma)[gen::kZZ[k]] * s + rnd) / 100));
}
int main(int argc, char** argv) {
  vf::Runner r("C19", argc, argv);
  bool deep = r.thorough();
  rt::Counters k(&r);
  r.rule = "every file of the quantisation families is transcoded and decoded one-shot and streaming; the oracle is the file; non-trivial: transcoded";
  for (auto f : {fam::QuantTables(deep), fam::QuantQuality(deep)}) rt::AddFamily(r, k, f);
  // each scaled standard table with each single entry changed
  {
    static const int dq[] = {-1, 1, 2, -7, 100, 65535};
    const int D = 6, Q = 100;
    r.Add("near-standard", Q * 2 * 64 * D * 2, [=](vf::Case& c) {
      vf::Radix x(c.index);
      int d = dq[x(D)], pos = (int)x(64), ql = 1 + (int)x(Q), chroma = (int)x(2), slot = (int)x(2);
      Jpeg j;
      j.w = j.h = 8;
      j.comps = fam::Sampling(2);
      j.Layout();
      fam::Script(j, 0);
      gen::FillPattern(j, 3, 1);
      fam::Plain(j, 0, 0);
      Scaled(&j.quants[0], 0, ql);
      Scaled(&j.quants[1], 1, ql);
      Scaled(&j.quants[slot], chroma, ql);
      int& v = j.quants[slot].v[pos];
      v = d == 65535 ? 65535 : std::max(1, v + d);
      if (v > 255) j.quants[slot].precision = 1;
      std::string t = vf::Fmt("table %d: %s quality %d entry %d %+d", slot, chroma ? "chroma" : "luma", ql, pos, d);
      rt::Check(c, k, t, fam::Finish(j, t, true).jpg, true);
    }, nullptr);
  }
  // other roundings, clamps and 16-bit scalings of the standard tables
  r.Add("scaled", 2 * 400 * 3 * 2, [=](vf::Case& c) {
    vf::Radix x(c.index);
    int chroma = (int)x(2), s = 1 + (int)x(400), rnd = (int)x(3) * 49, prec = (int)x(2);
    Jpeg j;
    fam::MetaBase(j);
    int mul = prec ? s * 7 : s;
    for (int q = 0; q < 64; ++q) j.quants[0].v[q] = std::max(1, std::min(prec ? 65535 : 255, ((chroma ? kChroma : kLuma)[gen::kZZ[q]] * mul + rnd) / 100));
    j.quants[0].precision = prec;
    std::string t = vf::Fmt("%s scaled by %d/100 rounding %d precision %d", chroma ? "chroma" : "luma", mul, rnd, prec);
    rt::Check(c, k, t, fam::Finish(j, t, true).jpg, true);
  }, nullptr);
  // flat and two-valued tables: value pairs x pattern
  {
    static const int vv[] = {1, 2, 3, 7, 8, 15, 16, 63, 64, 127, 128, 129, 254, 255, 256, 1023, 4096, 32767, 32768, 65534, 65535};
    const int N = 21, P = 14;
    r.Add("two-valued", N * N * P, [=](vf::Case& c) {
      vf::Radix x(c.index);
      int a = vv[x(N)], b = vv[x(N)], p = (int)x(P);
      Jpeg j;
      fam::MetaBase(j);
      for (int q = 0; q < 64; ++q) {
        int n = gen::kZZ[q], row = n / 8, col = n % 8;
        bool s = p == 0 ? false : p == 1 ? (q & 1) : p == 2 ? (row & 1) : p == 3 ? (col & 1) : p == 4 ? q < 32 : p == 5 ? row < 4 : p == 6 ? row + col > 7 : p == 7 ? q == 0 : p == 8 ? q == 63 : p == 9 ? (row ^ col) & 1 : p == 10 ? row == col : p == 11 ? q % 7 == 3 : p == 12 ? n == 8 : n == 56;
        j.quants[0].v[q] = s ? b : a;
      }
      j.quants[0].precision = a > 255 || b > 255;
      std::string t = vf::Fmt("values %d and %d pattern %d", a, b, p);
      rt::Check(c, k, t, fam::Finish(j, t, true).jpg, true);
    }, nullptr);
    // monotone, random-like and extreme tables
    r.Add("wild", 64 * 40, [=](vf::Case& c) {
      int kind = (int)(c.index % 40), salt = (int)(c.index / 40);
      Jpeg j;
      fam::MetaBase(j);
      bool wide = kind & 1;
      for (int q = 0; q < 64; ++q) {
        uint64_t h = gen::H(salt * 1000 + q);
        int lim = wide ? 65535 : 255;
        int v = 0;
        switch (kind / 2) {
          case 0: v = 1 + (int)(h % lim); break;
          case 1: v = 1 + (int)(h % 4); break;
          case 2: v = (h & 1) ? 1 : lim; break;
          case 3: v = 1 + q * (salt + 1); break;
          case 4: v = 1 + (63 - q) * (salt + 1); break;
          case 5: v = q == salt ? lim : 1; break;
          case 6: v = q == salt ? 1 : lim; break;
          case 7: v = q < salt ? 1 : lim; break;
          case 8: v = 1 << (h % (wide ? 16 : 8)); break;
          case 9: v = (1 << (1 + h % (wide ? 16 : 8))) - 1; break;
          case 10: v = 16 + (int)(h % (salt + 1)); break;
          case 11: v = kLuma[gen::kZZ[q]] + (int)(h % (salt + 1)); break;
          case 12: v = kChroma[gen::kZZ[q]] + (int)(h % (salt + 1)); break;
          case 13: v = kLuma[q] + salt; break;
          case 14: v = kChroma[gen::kZZ[q]] * (salt + 1); break;
          case 15: v = kLuma[gen::kZZ[q]] * (salt + 1); break;
          case 16: v = lim - (int)(h % 3); break;
          case 17: v = (salt + 1) * 4; break;
          case 18: v = std::abs(kLuma[gen::kZZ[q]] - salt) + 1; break;
          default: v = 1 + (q * salt) % lim; break;
        }
        j.quants[0].v[q] = std::max(1, std::min(lim, v));
      }
      j.quants[0].precision = wide;
      std::string t = vf::Fmt("wild table kind %d salt %d", kind, salt);
      rt::Check(c, k, t, fam::Finish(j, t, true).jpg, true);
    }, nullptr);
  }
  // how tables are defined: every sequence of up to four definitions over the
  // four destinations, every grouping into segments, every reference
  {
    uint64_t n = 4 * 4 * 4 * 4 * 4 * 8 * 64 * 2;
    r.Add("definitions", n, [=](vf::Case& c) {
      vf::Radix x(c.index);
      int cnt = 1 + (int)x(4), idx[4];
      for (int q = 0; q < 4; ++q) idx[q] = (int)x(4);
      for (int q = cnt; q < 4; ++q) if (idx[q]) return;
      int split = (int)x(8), ref = (int)x(64), same = (int)x(2);
      if (split >> (cnt - 1)) return;
      
      Jpeg j;
      j.w = j.h = 8;
      j.comps = fam::Sampling(2);
      for (int q = 0; q < 3; ++q) j.comps[q].tq = ref >> (2 * q) & 3;
      j.Layout();
      fam::Script(j, 0);
      gen::FillPattern(j, 3, 1);
      fam::Plain(j, 0, 0);
      j.quants.clear();
      bool known[4] = {false, false, false, false}, twice = false;
      for (int q = 0; q < cnt; ++q) {
        gen::Quant t = gen::FlatQuant(idx[q], 16, (q + split) & 1);
        Scaled(&t, q & 1, same ? 50 : 40 + 10 * q);
        j.quants.push_back(t);
        twice |= known[idx[q]];
        known[idx[q]] = true;
      }
      std::vector<Item> d;
      std::vector<int> cur;
      for (int q = 0; q < cnt; ++q) {
        cur.push_back(q);
        if (q + 1 == cnt || (split >> q & 1)) { d.push_back(Item(Item::DQT, cur)); cur.clear(); }
      }
      j.items.erase(j.items.begin() + 1);
      j.items.insert(j.items.begin() + 1, d.begin(), d.end());
      bool good = !twice;
      for (auto& q : j.comps) good &= known[q.tq];
      std::string t = vf::Fmt("%d tables at %d %d %d %d split %#x references %#x", cnt, idx[0], idx[1], idx[2], idx[3], split, ref);
      rt::Check(c, k, t, fam::Finish(j, t, good).jpg, good);
    }, nullptr);
  }
  return r.Main();
}
