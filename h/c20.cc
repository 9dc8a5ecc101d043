// C20: Huffman tables and scan structure survive.
#include "rt.h"
#include "corpus.h"
using codec::Bytes;
using gen::Huff;
using gen::Item;
using gen::Jpeg;
using gen::Scan;
// The typical tables of T.81 annex K.3.
static Huff Stock(int slot, int which) {  // 0 DC luma 1 DC chroma 2 AC luma 3 AC chroma
  static const int dcl[16] = {0, 1, 5, 1, 1, 1, 1, 1, 1}, dcc[16] = {0, 3, 1, 1, 1, 1, 1, 1, 1, 1, 1};
  static const int acl[16] = {0, 2, 1, 3, 3, 2, 4, 3, 5, 5, 4, 4, 0, 0, 1, 0x7d}, acc[16] = {0, 2, 1, 2, 4, 4, 3, 4, 7, 5, 4, 4, 0, 1, 2, 0x77};
  static const uint8_t vl[] = {1, 2, 3, 0, 4, 0x11, 5, 0x12, 0x21, 0x31, 0x41, 6, 0x13, 0x51, 0x61, 7, 0x22, 0x71, 0x14, 0x32, 0x81, 0x91, 0xa1, 8, 0x23, 0x42, 0xb1, 0xc1, 0x15, 0x52, 0xd1, 0xf0, 0x24, 0x33, 0x62, 0x72, 0x82, 9, 10, 0x16, 0x17, 0x18, 0x19, 0x1a, 0x25, 0x26, 0x27, 0x28, 0x29, 0x2a, 0x34, 0x35, 0x36, 0x37, 0x38, 0x39, 0x3a, 0x43, 0x44, 0x45, 0x46, 0x47, 0x48, 0x49, 0x4a, 0x53, 0x54, 0x55, 0x56, 0x57, 0x58, 0x59, 0x5a, 0x63, 0x64, 0x65, 0x66, 0x67, 0x68, 0x69, 0x6a, 0x73, 0x74, 0x75, 0x76, 0x77, 0x78, 0x79, 0x7a, 0x83, 0x84, 0x85, 0x86, 0x87, 0x88, 0x89, 0x8a, 0x92, 0x93, 0x94, 0x95, 0x96, 0x97, 0x98, 0x99, 0x9a, 0xa2, 0xa3, 0xa4, 0xa5, 0xa6, 0xa7, 0xa8, 0xa9, 0xaa, 0xb2, 0xb3, 0xb4, 0xb5, 0xb6, 0xb7, 0xb8, 0xb9, 0xba, 0xc2, 0xc3, 0xc4, 0xc5, 0xc6, 0xc7, 0xc8, 0xc9, 0xca, 0xd2, 0xd3, 0xd4, 0xd5, 0xd6, 0xd7, 0xd8, 0xd9, 0xda, 0xe1, 0xe2, 0xe3, 0xe4, 0xe5, 0xe6, 0xe7, 0xe8, 0xe9, 0xea, 0xf1, 0xf2, 0xf3, 0xf4, 0xf5, 0xf6, 0xf7, 0xf8, 0xf9, 0xfa};
  static const uint8_t vc[] = {0, 1, 2, 3, 0x11, 4, 5, 0x21, 0x31, 6, 0x12, 0x41, 0x51, 7, 0x61, 0x71, 0x13, 0x22, 0x32, 0x81, 8, 0x14, 0x42, 0x91, 0xa1, 0xb1, 0xc1, 9, 0x23, 0x33, 0x52, 0xf0, 0x15, 0x62, 0x72, 0xd1, 10, 0x16, 0x24, 0x34, 0xe1, 0x25, 0xf1, 0x17, 0x18, 0x19, 0x1a, 0x26, 0x27, 0x28, 0x29, 0x2a, 0x35, 0x36, 0x37, 0x38, 0x39, 0x3a, 0x43, 0x44, 0x45, 0x46, 0x47, 0x48, 0x49, 0x4a, 0x53, 0x54, 0x55, 0x56, 0x57, 0x58, 0x59, 0x5a, 0x63, 0x64, 0x65, 0x66, 0x67, 0x68, 0x69, 0x6a, 0x73, 0x74, 0x75, 0x76, 0x77, 0x78, 0x79, 0x7a, 0x82, 0x83, 0x84, 0x85, 0x86, 0x87, 0x88, 0x89, 0x8a, 0x92, 0x93, 0x94, 0x95, 0x96, 0x97, 0x98, 0x99, 0x9a, 0xa2, 0xa3, 0xa4, 0xa5, 0xa6, 0xa7, 0xa8, 0xa9, 0xaa, 0xb2, 0xb3, 0xb4, 0xb5, 0xb6, 0xb7, 0xb8, 0xb9, 0xba, 0xc2, 0xc3, 0xc4, 0xc5, 0xc6, 0xc7, 0xc8, 0xc9, 0xca, 0xd2, 0xd3, 0xd4, 0xd5, 0xd6, 0xd7, 0xd8, 0xd9, 0xda, 0xe2, 0xe3, 0xe4, 0xe5, 0xe6, 0xe7, 0xe8, 0xe9, 0xea, 0xf2, 0xf3, 0xf4, 0xf5, 0xf6, 0xf7, 0xf8, 0xf9, 0xfa};
  Huff h;
  h.slot = slot;
  const int* c = which == 0 ? dcl : which == 1 ? dcc : which == 2 ? acl : acc;
  for (int l = 1; l <= 16; ++l) h.counts[l] = c[l - 1];
  int n = 0;
  for (int l = 1; l <= 16; ++l) n += h.counts[l];
  for (int q = 0; q < n; ++q) h.vals.push_back(which < 2 ? q : which == 2 ? vl[q] : vc[q]);
  h.Build();
  return h;
}
int main(int argc, char** argv) {
  vf::Runner r("C20", argc, argv);
  bool deep = r.thorough();
  rt::Counters k(&r);
  r.rule = "every file of the Huffman-table and scan-structure families is transcoded and decoded one-shot and streaming; the oracle is the file; non-trivial: transcoded";
  // a 24x16 three-component file whose tables are replaced
  auto base = [](Jpeg* j, int dcw, int acw) {
    j->w = 24;
    j->h = 16;
    j->comps = fam::Sampling(2);
    j->Layout();
    gen::FillPattern(*j, 3, 2);
    fam::Script(*j, 0);
    fam::Plain(*j, 0, 0);
    (void)dcw; (void)acw;
  };
  // stock tables and all adjacent transpositions of symbols / all moves of one
  // code between adjacent lengths, in every pair of slots
  {
    struct V { int which, kind, pos; };
    auto v = std::make_shared<std::vector<V>>();
    for (int w = 0; w < 4; ++w) {
      Huff h = Stock(0, w);
      v->push_back({w, 0, 0});
      for (size_t p = 0; p + 1 < h.vals.size(); ++p) v->push_back({w, 1, (int)p});
      for (int l = 1; l < 16; ++l) { v->push_back({w, 2, l}); v->push_back({w, 3, l}); }
      for (size_t p = 0; p < h.vals.size(); ++p) v->push_back({w, 4, (int)p});  // symbol removed
      v->push_back({w, 5, 0});                                                 // last symbol to the front
    }
    r.Add("near-stock", v->size() * 4 * 3, [=](vf::Case& c) {
      vf::Radix x(c.index);
      V q = (*v)[x(v->size())];
      int slot = (int)x(4), extra = (int)x(3);
      Huff h = Stock((q.which < 2 ? 0 : 0x10) + slot, q.which);
      if (q.kind == 1) std::swap(h.vals[q.pos], h.vals[q.pos + 1]);
      if (q.kind == 2) { if (!h.counts[q.pos]) return; h.counts[q.pos]--; h.counts[q.pos + 1]++; }
      if (q.kind == 3) { if (!h.counts[q.pos + 1]) return; h.counts[q.pos + 1]--; h.counts[q.pos]++; }
      if (q.kind == 4) {
        int l = 1, n = q.pos;
        while (n >= h.counts[l]) n -= h.counts[l++];
        h.counts[l]--;
        h.vals.erase(h.vals.begin() + q.pos);
      }
      if (q.kind == 5) { h.vals.insert(h.vals.begin(), h.vals.back()); h.vals.pop_back(); }
      h.Build();
      Jpeg j;
      base(&j, 0, 0);
      // put it in front as an unused table, after as a redefinition, or use it
      j.huffs.push_back(h);
      int at = (int)j.huffs.size() - 1;
      size_t dht = 0;
      while (j.items[dht].kind != Item::DHT) ++dht;
      if (extra == 0) j.items.insert(j.items.begin() + dht, Item(Item::DHT, std::vector<int>{at}));
      else if (extra == 1) { auto l = j.items[dht].list; l.push_back(at); j.items[dht].list = l; }
      else j.items.insert(j.items.begin() + dht + 1, Item(Item::DHT, std::vector<int>{at}));
      std::string t = vf::Fmt("stock table %d variant %d at %d slot %d placement %d", q.which, q.kind, q.pos, slot, extra);
      auto m = fam::Finish(j, t, false);
      if (m.valid) rt::Check(c, k, t, m.jpg, false);
    }, nullptr);
  }
  // every order of seven symbols
  {
    uint64_t n = 5040;
    r.Add("symbol-order", n * 2 * 4, [=](vf::Case& c) {
      vf::Radix x(c.index);
      uint64_t p = x(n);
      int dc = (int)x(2), shape = (int)x(4);
      std::vector<int> s = dc ? std::vector<int>{0, 1, 2, 3, 4, 5, 11} : std::vector<int>{0x00, 0x01, 0x02, 0x11, 0xf0, 0x31, 0xfa};
      std::vector<int> o;
      for (int q = 7; q > 0; --q) { o.push_back(s[p % q]); s.erase(s.begin() + p % q); p /= q; }
      Jpeg j;
      fam::MetaBase(j);
      for (auto& cc : j.coef) std::fill(cc.begin(), cc.end(), 0);
      int* b = j.Block(0, 0, 0);
      if (dc) b[0] = 5; else { b[1] = 1; b[2] = -2; b[4] = 1; }
      j.huffs[dc ? 0 : 1] = gen::MakeHuff(dc ? 0 : 0x10, o, shape);
      std::string t = vf::Fmt("%s symbols in order #%d shape %d", dc ? "DC" : "AC", (int)(c.index % n), shape);
      auto m = fam::Finish(j, t, true);
      if (m.valid) rt::Check(c, k, t, m.jpg, true);
    }, nullptr);
    // every subset of the twelve DC categories, ascending and descending
    r.Add("dc-subsets", 4095 * 2 * 3, [=](vf::Case& c) {
      vf::Radix x(c.index);
      int set = 1 + (int)x(4095), desc = (int)x(2), shape = (int)x(3);
      std::vector<int> o;
      for (int q = 0; q < 12; ++q) if (set >> q & 1) o.push_back(q);
      if (desc) std::reverse(o.begin(), o.end());
      Jpeg j;
      fam::MetaBase(j);
      for (auto& cc : j.coef) std::fill(cc.begin(), cc.end(), 0);
      int s = o[0];
      if (s > 10) s = o.back();
      if (s > 10) return;
      j.Block(0, 0, 0)[0] = s ? -(1 << (s - 1)) : 0;
      j.huffs[0] = gen::MakeHuff(0, o, shape);
      std::string t = vf::Fmt("DC symbol set %#x %s shape %d", set, desc ? "descending" : "ascending", shape);
      auto m = fam::Finish(j, t, true);
      if (m.valid) rt::Check(c, k, t, m.jpg, true);
    }, nullptr);
    // large AC alphabets: every size from 1 to 256, rotations of the symbols
    r.Add("ac-alphabet", 256 * 16 * 4, [=](vf::Case& c) {
      vf::Radix x(c.index);
      int n = 1 + (int)x(256), rot = (int)x(16) * 17, shape = (int)x(4);
      std::vector<int> o = {0};
      for (int q = 0; (int)o.size() < n; ++q) { int v = (q * 7 + rot) & 255; if (v) { bool dup = false; for (int u : o) dup |= u == v; if (!dup) o.push_back(v); } }
      Jpeg j;
      fam::MetaBase(j);
      for (auto& cc : j.coef) std::fill(cc.begin(), cc.end(), 0);
      for (int u : o) if (u == 1) j.Block(0, 0, 0)[1] = 1;
      j.huffs[1] = gen::MakeHuff(0x10, o, shape);
      std::string t = vf::Fmt("%d AC symbols from %d, shape %d", n, rot, shape);
      auto m = fam::Finish(j, t, true);
      // shapes of more codes than lengths allow are not valid tables
      uint64_t kraft = 0;
      int tot = 0;
      for (int l = 1; l <= 16; ++l) { kraft += (uint64_t)j.huffs[1].counts[l] << (16 - l); tot += j.huffs[1].counts[l]; if (j.huffs[1].counts[l] > 255) return; }
      if (tot != n || kraft >= 65536) return;
      if (m.valid) rt::Check(c, k, t, m.jpg, true);
    }, nullptr);
  }
  // sequences of DHT segments: any table of a pool, 1..3 per segment, empty
  // tables included, before and between scans
  {
    const int P = 6;
    r.Add("segments", P * P * P * P * 8 * 5 * 2, [=](vf::Case& c) {
      vf::Radix x(c.index);
      int t[4];
      for (int& q : t) q = (int)x(P);
      int split = (int)x(8), at = (int)x(5), prog = (int)x(2);
      Jpeg j;
      j.w = 24;
      j.h = 16;
      j.comps = fam::Sampling(2);
      j.Layout();
      gen::FillPattern(j, 3, 1);
      fam::Script(j, prog ? 3 : 1);
      fam::Plain(j, 0, 0);
      int b = (int)j.huffs.size();
      auto acv = prog ? gen::AllACProg() : gen::AllAC();
      j.huffs.push_back(gen::MakeHuff(0, gen::AllDC(), 1));
      j.huffs.push_back(gen::MakeHuff(0x10, acv, 2));
      j.huffs.push_back(gen::MakeHuff(0x13, {0}, 0));
      j.huffs.push_back(gen::MakeHuff(3, {}, 0));
      j.huffs.back().counts[1] = 0;
      j.huffs.push_back(gen::MakeHuff(0x12, gen::Iota(0, 255), 3));
      j.huffs.push_back(Stock(0x11, 3));
      std::vector<Item> s;
      std::vector<int> cur;
      for (int q = 0; q < 4; ++q) {
        cur.push_back(b + t[q]);
        if (q == 3 || (split >> q & 1)) { s.push_back(Item(Item::DHT, cur)); cur.clear(); }
      }
      size_t pos = 0, seen = 0;
      for (pos = 0; pos < j.items.size(); ++pos) {
        if (at == 0 && j.items[pos].kind == Item::SOF) break;
        if (at == 1 && j.items[pos].kind == Item::SOS) break;
        if (at >= 2 && at < 4 && j.items[pos].kind == Item::SOS && ++seen == (size_t)at) break;
        if (at == 4 && j.items[pos].kind == Item::EOI) break;
      }
      j.items.insert(j.items.begin() + pos, s.begin(), s.end());
      std::string d = vf::Fmt("tables %d %d %d %d split %#x at %d prog %d", t[0], t[1], t[2], t[3], split, at, prog);
      auto m = fam::Finish(j, d, false);
      if (m.valid) rt::Check(c, k, d, m.jpg, false);
    }, nullptr);
  }
  // progressive scripts: every sequence of scans over an alphabet of scans of a
  // two-component picture that the parser takes
  {
    struct S { int comps, ss, se, ah, al; };
    static const S al[] = {{3, 0, 0, 0, 0}, {3, 0, 0, 0, 1}, {3, 0, 0, 1, 0}, {1, 0, 0, 0, 0}, {2, 0, 0, 0, 0}, {1, 1, 63, 0, 0}, {2, 1, 63, 0, 0}, {1, 1, 63, 0, 1}, {1, 1, 63, 1, 0}, {1, 1, 5, 0, 0}, {1, 6, 63, 0, 0}, {2, 1, 5, 0, 2}, {2, 1, 5, 2, 1}, {2, 6, 63, 0, 1}, {1, 1, 1, 0, 0}};
    const int A = 15, D = deep ? 6 : 5;
    uint64_t n = 0, p = 1;
    for (int d = 0; d <= D; ++d) n += p, p *= A;
    r.Add("scripts", n * 2, [=](vf::Case& c) {
      uint64_t i = c.index / 2, p = 1;
      int dri = c.index % 2 ? 3 : 0, d = 0;
      while (i >= p) { i -= p; p *= A; ++d; }
      Jpeg j;
      j.w = 24;
      j.h = 16;
      j.comps = fam::Sampling(9);
      j.Layout();
      gen::FillPattern(j, 3, 1);
      j.sof = 0xc2;
      std::string t = "scans:";
      for (int q = 0; q < d; ++q) {
        const S& s = al[i % A];
        t += vf::Fmt(" %d", (int)(i % A));
        i /= A;
        std::vector<Scan::C> cc;
        if (s.comps & 1) cc.push_back({0, 0, 0});
        if (s.comps & 2) cc.push_back({1, 1, 1});
        j.scans.push_back(Scan(cc, s.ss, s.se, s.ah, s.al));
      }
      fam::Plain(j, 0, dri);
      auto m = fam::Finish(j, t, false);
      if (m.valid) rt::Check(c, k, t + vf::Fmt(" dri %d", dri), m.jpg, false);
    }, nullptr);
  }
  // padding bits: every pattern of one byte x restart layouts x scripts
  r.Add("padding", 256 * 5 * 7 * 3, [=](vf::Case& c) {
    vf::Radix x(c.index);
    int pad = (int)x(256), dri = (int)x(5), scr = (int)x(7), smp = (int)x(3);
    static const int sm[] = {0, 2, 3};
    Jpeg j;
    j.w = 40;
    j.h = 24;
    j.comps = fam::Sampling(sm[smp]);
    j.Layout();
    gen::FillPattern(j, 3, pad % 3);
    if (!fam::Script(j, scr)) return;
    fam::Plain(j, 0, dri);
    j.pad = pad;
    std::string t = vf::Fmt("padding %#x dri %d script %d sampling %d", pad, dri, scr, sm[smp]);
    auto m = fam::Finish(j, t, true);
    if (m.valid) rt::Check(c, k, t, m.jpg, true);
  }, nullptr);
  // restart markers: every interval against every width
  r.Add("restarts", 40 * 12 * 4 * 3, [=](vf::Case& c) {
    vf::Radix x(c.index);
    int dri = (int)x(40), w = 1 + (int)x(12), rows = 1 + (int)x(4), kind = (int)x(3);
    Jpeg j;
    j.w = 8 * w;
    j.h = 8 * rows;
    j.comps = fam::Sampling(kind == 1 ? 3 : 0);
    j.Layout();
    gen::FillPattern(j, 3, dri);
    if (!fam::Script(j, kind == 2 ? 3 : 0)) return;
    fam::Plain(j, 0, dri);
    std::string t = vf::Fmt("restart interval %d on %dx%d blocks kind %d", dri, w, rows, kind);
    auto m = fam::Finish(j, t, true);
    if (m.valid) rt::Check(c, k, t, m.jpg, true);
  }, nullptr);
  // as many scans as successive approximation and spectral selection allow
  r.Add("many-scans", 4 * 4 * 4 * 2, [=](vf::Case& c) {
    static const int lv[] = {0, 1, 4, 10}, wd[] = {1, 2, 7, 63};
    vf::Radix x(c.index);
    int nc = 1 + (int)x(4), al = lv[x(4)], w = wd[x(4)], dri = x(2) ? 3 : 0;
    Jpeg j;
    j.w = 8;
    j.h = 16;
    j.comps = fam::Sampling(nc == 1 ? 0 : nc == 2 ? 9 : 2);
    if (nc == 4) { j.comps.push_back(j.comps[2]); j.comps[3].id = 4; }
    if (nc == 2 && j.comps.size() != 2) return;
    j.Layout();
    gen::FillPattern(j, 3, 1 + al);
    for (auto& q : j.coef) for (auto& v : q) v = std::max(-1000, std::min(1000, v << (al > 8 ? 0 : al)));
    j.sof = 0xc2;
    for (int l = al; l >= 0; --l) {
      int ah = l == al ? 0 : l + 1;
      for (int q = 0; q < nc; ++q) j.scans.push_back(Scan({{q, q ? 1 : 0, q ? 1 : 0}}, 0, 0, ah, l));
      for (int q = 0; q < nc; ++q) for (int a = 1; a < 64; a += w) j.scans.push_back(Scan({{q, q ? 1 : 0, q ? 1 : 0}}, a, std::min(63, a + w - 1), ah, l));
    }
    fam::Plain(j, 0, dri);
    std::string t = vf::Fmt("%d components, %d levels, bands of %d, restart interval %d: %d scans", nc, al + 1, w, dri, (int)j.scans.size());
    auto m = fam::Finish(j, t, true);
    if (m.valid) rt::Check(c, k, t, m.jpg, true);
  }, nullptr);
  for (auto f : {fam::HuffmanShapes(deep), fam::HuffmanSlots(deep), fam::EobRuns(deep), fam::ZeroRuns(deep), fam::LongEob(deep), fam::RefineBits(deep, true), fam::FarMarks(deep), fam::ManyMarks(deep), fam::ScanParams(deep), fam::SamplingFactors(deep)}) rt::AddFamily(r, k, f);
  for (size_t q = 0; q < fam::RawCfgs().size(); ++q) rt::AddFamily(r, k, fam::RawScan(deep, (int)q));
  return r.Main();
}
