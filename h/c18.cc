// C18: metadata, bytes between markers and trailing data survive.
#include "rt.h"
#include "stock_icc.h"
using codec::Bytes;
using gen::Item;
using gen::Jpeg;
int main(int argc, char** argv) {
  vf::Runner r("C18", argc, argv);
  bool deep = r.thorough();
  rt::Counters k(&r);
  r.rule = "every file of the metadata families is transcoded and decoded one-shot and streaming; the oracle is the file; non-trivial: transcoded";
  for (auto f : {fam::MetaSingles(StockIcc()), fam::MetaSequences(deep), fam::MetaCounts(deep), fam::MarkerInsert(deep), fam::MarkerSequence(deep)}) rt::AddFamily(r, k, f);
  auto tmpl = std::make_shared<std::vector<Bytes>>();
  auto names = std::make_shared<std::vector<std::string>>();
  auto T = [&](const char* n, const Bytes& b) { names->push_back(n); tmpl->push_back(b); };
  T("JFIF", gen::Marker(0xe0, Bytes("JFIF\0\1\1\0\0\1\0\1\0\0", 14)));
  T("JFIF 1.2", gen::Marker(0xe0, Bytes("JFIF\0\1\2\1\0\x48\0\x48\0\0", 14)));
  T("JFIF 300", gen::Marker(0xe0, Bytes("JFIF\0\1\1\3\1\x2c\1\x2c\0\0", 14)));
  T("Ducky", gen::Marker(0xec, Bytes("Ducky\0\1\0\4\0\0\0\x3c\0\0", 15)));
  T("Adobe", gen::Marker(0xee, Bytes("Adobe\0d\0\0\0\0\1", 12)));
  T("Adobe 2", gen::Marker(0xee, Bytes("Adobe\0d\x80\0\0\0\1", 12)));
  T("ICC", Bytes("\xff", 1) + StockIcc());
  auto put = [=](vf::Case& c, const std::string& d, const std::vector<std::pair<int, Bytes>>& segs, const Bytes& tail, bool must) {
    // place: 0 first, 1 after the tables, 2 before the end
    Jpeg j;
    fam::MetaBase(j);
    for (auto it = segs.rbegin(); it != segs.rend(); ++it) {
      size_t pos = it->first == 0 ? 0 : it->first == 1 ? 2 : j.items.size() - 1;
      j.items.insert(j.items.begin() + pos, Item(Item::RAW, it->second));
    }
    j.items.push_back(Item(Item::RAW, tail));
    rt::Check(c, k, d, fam::Finish(j, d, must).jpg, must);
  };
  // every byte of every template takes every value; truncated, extended, and
  // under every marker code
  {
    std::vector<std::pair<int, size_t>> site;
    for (size_t t = 0; t < tmpl->size(); ++t)
      for (size_t p = 1; p < (*tmpl)[t].size(); ++p) site.push_back({(int)t, p});
    r.Add("template-byte", site.size() * 256, [=](vf::Case& c) {
      auto s = site[c.index / 256];
      int v = c.index % 256;
      Bytes b = (*tmpl)[s.first];
      if (b.size() > 100 && !deep && s.second > 120 && v % 8 && v != 255) return;
      if ((uint8_t)b[s.second] == v) return;
      b[s.second] = (char)v;
      // (a changed length field swallows what follows: fine, nothing is demanded then)
      put(c, vf::Fmt("%s byte %zu = %d", (*names)[s.first].c_str(), s.second, v), {{0, b}}, "", s.second > 3);
    }, nullptr);
    r.Add("template-length", tmpl->size() * 41 * 16, [=](vf::Case& c) {
      vf::Radix x(c.index);
      size_t t = x(tmpl->size());
      int d = (int)x(41) - 20, m = 0xe0 + (int)x(16);
      Bytes p = (*tmpl)[t].substr(4);
      if (d < 0 && (size_t)-d > p.size()) return;
      if (d < 0) p.resize(p.size() + d); else p += Bytes(d, '\0');
      put(c, vf::Fmt("%s as APP%d, %+d bytes", (*names)[t].c_str(), m - 0xe0, d), {{0, gen::Marker(m, p)}}, "", true);
    }, nullptr);
    // two bytes of the short templates at once
    r.Add("template-two-bytes", 6 * 19 * 19 * 8 * 8, [=](vf::Case& c) {
      static const uint8_t val[] = {0, 1, 2, 3, 4, 0x48, 0xff, 0x2c};
      vf::Radix x(c.index);
      size_t t = x(6), p = 4 + x(19), q = 4 + x(19);
      uint8_t a = val[x(8)], b2 = val[x(8)];
      Bytes b = (*tmpl)[t];
      if (p >= q || q >= b.size()) return;
      b[p] = (char)a;
      b[q] = (char)b2;
      put(c, vf::Fmt("%s bytes %zu=%d %zu=%d", (*names)[t].c_str(), p, a, q, b2), {{0, b}}, "", true);
    }, nullptr);
    // all JFIF headers of the recognised kind
    r.Add("jfif", 256 * 6 * 2 * 12, [=](vf::Case& c) {
      vf::Radix x(c.index);
      static const int dens[] = {0, 1, 2, 72, 96, 100, 150, 180, 240, 300, 256, 0x4848};
      int lo = (int)x(256), unit = (int)x(6), ver = 1 + (int)x(2), d = dens[x(12)];
      Bytes p("JFIF\0\1", 6);
      p += (char)ver;
      p += (char)unit;
      p += (char)(d >> 8);
      p += (char)d;
      p += (char)(d >> 8);
      p += (char)lo;
      p += Bytes("\0\0", 2);
      put(c, vf::Fmt("JFIF version %d unit %d density %dx%d", ver, unit, d, (d & 0xff00) | lo), {{0, gen::Marker(0xe0, p)}}, "", true);
    }, nullptr);
  }
  // all ordered triples over templates and near-templates, at every place
  {
    auto v = std::make_shared<std::vector<Bytes>>(*tmpl);
    v->push_back(gen::Marker(0xe1, Bytes("Exif\0\0", 6)));
    v->push_back(gen::Marker(0xfe, "comment"));
    v->push_back(gen::Marker(0xfe, Bytes("\x80\x81", 2)));
    v->push_back(gen::Marker(0xe0, Bytes("JFXX\0", 5)));
    v->push_back("");
    uint64_t n = v->size();
    r.Add("template-triples", n * n * n * 27, [=](vf::Case& c) {
      vf::Radix x(c.index);
      size_t a = x(n), b = x(n), d = x(n);
      int pl = (int)x(27);
      if (!deep && pl % 4 && pl != 13 && pl != 26) return;
      put(c, vf::Fmt("segments %zu %zu %zu at %d", a, b, d, pl), {{pl % 3, (*v)[a]}, {pl / 3 % 3, (*v)[b]}, {pl / 9, (*v)[d]}}, "", true);
    }, nullptr);
  }
  // every payload length around length-field and block limits
  {
    auto len = std::make_shared<std::vector<int>>();
    for (int n : {0, 128, 256, 3159, 4096, 16384, 32768, 65533})
      for (int d = -3; d <= 3; ++d) if (n + d >= 0 && n + d <= 65533) len->push_back(n + d);
    for (int n = 4; n < 125; ++n) len->push_back(n);
    r.Add("length", len->size() * 18 * 3 * 3, [=](vf::Case& c) {
      vf::Radix x(c.index);
      int n = (*len)[x(len->size())], m = (int)x(18), kind = (int)x(3), place = (int)x(3);
      m = m == 16 ? 0xfe : m == 17 ? 0xe0 : 0xe0 + m;
      Bytes p;
      for (int q = 0; q < n; ++q) p += kind == 0 ? (char)0 : kind == 1 ? (char)(gen::H(q) & 255) : (char)0xff;
      put(c, vf::Fmt("marker %#x payload of %d bytes kind %d place %d", m, n, kind, place), {{place, gen::Marker(m, p)}}, n & 1 ? "" : "t", true);
    }, nullptr);
  }
  // every tail up to two bytes, longer tails around block limits
  {
    static const int big[] = {3, 127, 128, 129, 16383, 16384, 16385, 65535, 65536, 300000};
    r.Add("tail", (1 + 256 + 65536) * 2, [=](vf::Case& c) {
      vf::Radix x(c.index);
      uint64_t n = x(1 + 256 + 65536);
      bool meta = x(2);
      
      Bytes t;
      if (n > 256) t += (char)((n - 257) & 255), t += (char)((n - 257) >> 8);
      else if (n) t += (char)(n - 1);
      put(c, "tail " + vf::Hex(t) + (meta ? " with comment" : ""), meta ? std::vector<std::pair<int, Bytes>>{{0, gen::Marker(0xfe, "q")}} : std::vector<std::pair<int, Bytes>>{}, t, true);
    }, nullptr);
    r.Add("long-tail", 10 * 4, [=](vf::Case& c) {
      int n = big[c.index % 10], kind = (int)(c.index / 10);
      Bytes t;
      for (int q = 0; q < n; ++q) t += kind == 0 ? (char)0 : kind == 1 ? (char)(gen::H(q) & 255) : kind == 2 ? (q & 1 ? (char)0xd9 : (char)0xff) : (char)0xd9;
      put(c, vf::Fmt("tail of %d bytes kind %d", n, kind), {}, t, true);
    }, nullptr, 60);
  }
  // bytes between markers: at every gap, every content of up to 2 bytes over an
  // alphabet, and lengths around the varint limit
  {
    static const uint8_t al[] = {0x00, 0x01, 0x41, 0x80, 0xbf, 0xd8, 0xd9, 0xfe, 0xff, 0xc0, 0xcc, 0xda};
    const int A = 12;
    r.Add("between-markers", 6 * 6 * (1 + A + A * A), [=](vf::Case& c) {
      vf::Radix x(c.index);
      int g1 = (int)x(6), g2 = (int)x(6);
      uint64_t n = x(1 + A + A * A);
      Bytes t;
      if (n > A) t += (char)al[(n - 1 - A) % A], t += (char)al[(n - 1 - A) / A];
      else if (n) t += (char)al[n - 1];
      Jpeg j;
      fam::MetaBase(j);
      std::vector<Item> it;
      for (size_t q = 0; q <= j.items.size(); ++q) {
        if ((int)q == g1) it.push_back(Item(Item::RAW, t));
        if ((int)q == g2) it.push_back(Item(Item::RAW, Bytes(n % 300, '\x55')));
        if (q < j.items.size()) it.push_back(j.items[q]);
      }
      j.items = it;
      rt::Check(c, k, vf::Fmt("gap %d: %s, gap %d: %d bytes", g1, vf::Hex(t).c_str(), g2, (int)(n % 300)), fam::Finish(j, "", false).jpg, false, true);
    }, nullptr);
    r.Add("between-markers-long", 6 * 12 * 2, [=](vf::Case& c) {
      static const int len[] = {126, 127, 128, 129, 1000, 16382, 16383, 16384, 16385, 65536, 70000, 200000};
      vf::Radix x(c.index);
      int g = (int)x(6), n = len[x(12)], kind = (int)x(2);
      Bytes t;
      for (int q = 0; q < n; ++q) t += kind ? (char)(gen::H(q) % 255) : (char)0;
      Jpeg j;
      fam::MetaBase(j);
      j.items.insert(j.items.begin() + std::min<size_t>(g, j.items.size()), Item(Item::RAW, t));
      rt::Check(c, k, vf::Fmt("gap %d: %d bytes", g, n), fam::Finish(j, "", false).jpg, false, true);
    }, nullptr);
  }
  // counts of segments around the limits, mixed kinds
  {
    static const int cnt[] = {0, 1, 2, 831, 832, 833, 1023, 1024, 1025};
    r.Add("counts", 9 * 9 * 9, [=](vf::Case& c) {
      vf::Radix x(c.index);
      int a = cnt[x(9)], b = cnt[x(9)], d = cnt[x(9)];
      Jpeg j;
      fam::MetaBase(j);
      Bytes s;
      for (int q = 0; q < a; ++q) s += (*tmpl)[q % 6];
      for (int q = 0; q < b; ++q) s += gen::Marker(0xe1 + q % 11, Bytes(q % 3, 'a'));
      for (int q = 0; q < d; ++q) s += gen::Marker(0xfe, Bytes(q % 2, 'c'));
      j.items.insert(j.items.begin(), Item(Item::RAW, s));
      rt::Check(c, k, vf::Fmt("%d short, %d other, %d comments", a, b, d), fam::Finish(j, "", false).jpg, a <= 832 && b <= 1024 && d <= 1024);
    }, nullptr);
  }
  return r.Main();
}
