// Writes the committed corpus: small JPEG files and their Brunsli encodings
// (made once with the codec of the unchanged tree).  Usage: mkcorpus OUTFILE
#include "codec.h"
#include "families.h"
#include "stock_icc.h"
using namespace gen;
using fam::Sampling;
using fam::Script;

struct Entry { std::string name; Bytes jpg, brn; int kind; };
static std::vector<Entry> out;

static void Std(Jpeg& j) {  // only the symbols of a small table: compact files
  bool prog = j.sof == 0xc2;
  for (auto& h : j.huffs) {
    if (h.slot >= 0x10) h = MakeHuff(h.slot, prog ? std::vector<int>{0, 1, 0x11, 2, 0x21, 3, 0x12, 0x10, 0x20, 0x30, 0x31, 4, 0x41, 0x51, 5, 0xf0, 0x61, 0x71, 0x81, 0x91, 0xa1, 0xb1, 0xc1, 0xd1, 0xe1, 0xf1, 0x22, 0x32, 0x42, 0x52, 0x62, 0x72, 0x82, 0x92, 0xa2, 0xb2, 0xc2, 0xd2, 0xe2, 0xf2} : std::vector<int>{0, 1, 0x11, 2, 0x21, 3, 0x12, 0x31, 4, 0x41, 0x51, 5, 0xf0, 0x61, 0x71, 0x81, 0x91, 0xa1, 0xb1, 0xc1, 0xd1, 0xe1, 0xf1, 0x22, 0x32, 0x42, 0x52, 0x62, 0x72, 0x82, 0x92, 0xa2, 0xb2, 0xc2, 0xd2, 0xe2, 0xf2}, 0);
    else h = MakeHuff(h.slot, {0, 1, 2, 3, 4, 5, 6, 7, 8}, 0);
  }
}
static void Put(const std::string& name, Jpeg& j, int version) {
  bool ok;
  Bytes b = Write(j, &ok);
  if (!ok) { fprintf(stderr, "%s not codable\n", name.c_str()); exit(1); }
  brunsli::JPEGData jd;
  if (!codec::Read(b, &jd)) { fprintf(stderr, "%s not readable\n", name.c_str()); exit(1); }
  jd.version = version;
  Bytes e, back;
  if (!codec::Encode(jd, &e) || codec::Decode(e, &back) || back != b) {
    fprintf(stderr, "%s does not round trip\n", name.c_str());
    exit(1);
  }
  out.push_back({name + (version ? "-v2" : "-v0"), b, e, 0});
}
static void Base(Jpeg& j, int w, int h, int samp, int script, int pat, int dri = 0) {
  j = Jpeg();
  j.w = w; j.h = h;
  j.comps = Sampling(samp);
  j.Layout();
  Script(j, script);
  FillPattern(j, pat, 5);
  fam::Plain(j, 0, dri);
  Std(j);
}
int main(int argc, char** argv) {
  Jpeg j;
  for (int v : {0, 2}) {
    Base(j, 8, 8, 0, 0, 0); Put("tiny-zero", j, v);
    Base(j, 8, 8, 0, 0, 3); Put("tiny", j, v);
    Base(j, 24, 16, 0, 0, 3); Put("gray", j, v);
    Base(j, 16, 16, 3, 0, 3); Put("420", j, v);
    Base(j, 17, 9, 2, 1, 3, 1); Put("444-sep-dri", j, v);
    Base(j, 16, 16, 2, 4, 3); Put("prog", j, v);
  }
  Base(j, 40, 40, 3, 4, 3, 2); Put("prog420-dri", j, 0);
  Base(j, 24, 8, 10, 0, 3); Put("cmyk", j, 2);
  Base(j, 16, 16, 13, 0, 1); Put("3x1", j, 2);
  Base(j, 24, 24, 0, 0, 3); j.pad = 0x35; j.items.insert(j.items.begin() + 4, Item(Item::DRI, 1)); Put("padding", j, 2);
  Base(j, 8, 8, 0, 0, 3);
  j.items.insert(j.items.begin() + 1, Item(Item::RAW, Marker(0xe1, "Exif-ish payload")));
  j.items.insert(j.items.begin() + 2, Item(Item::RAW, Marker(0xfe, "comment")));
  j.items.insert(j.items.begin() + 3, Item(Item::RAW, Marker(0xee, Bytes("Adobe\0d\0\0\0\0\1", 12))));
  j.items.push_back(Item(Item::RAW, "tail data"));
  Put("meta", j, 2);
  Base(j, 8, 8, 0, 0, 1); j.items.erase(j.items.begin()); Put("no-meta", j, 2);
  Base(j, 8, 8, 0, 0, 1); j.items[0] = Item(Item::RAW, Marker(0xe0, Bytes("JFIF\0\1\1\1\0\x48\0\x48\0\0", 14))); Put("jfif-stock", j, 2);
  Base(j, 8, 8, 0, 0, 1); j.items[0] = Item(Item::RAW, Bytes("\xff", 1) + StockIcc()); Put("icc-stock", j, 2);
  Base(j, 8, 8, 0, 0, 1); j.items.insert(j.items.begin() + 2, Item(Item::RAW, Bytes("\1\2\3", 3)));
  j.items.insert(j.items.end() - 1, Item(Item::RAW, Bytes("\4", 1))); Put("intermarker", j, 2);
  Base(j, 40, 8, 0, 3, 3); j.scans[1].resets = {1, 3}; j.scans[1].zruns[2] = 1; Put("resets", j, 2);
  Base(j, 24, 8, 0, 0, 0); j.Block(0, 0, 1)[3] = 1; j.scans[0].zruns[0] = 3; j.scans[0].zruns[1] = 2; Put("zruns", j, 2);
  Base(j, 8, 8, 0, 0, 1); j.quants[0].precision = 1; j.quants[0].v[5] = 300; Put("quant16", j, 2);
  Base(j, 8, 8, 0, 0, 1); j.quants.push_back(FlatQuant(3, 1)); j.items[1] = Item(Item::DQT, std::vector<int>{0, 1}); Put("quant2", j, 2);
  Base(j, 8, 8, 0, 0, 1); j.comps[0].id = 77; Put("comp-id", j, 2);
  Base(j, 16, 16, 3, 0, 3); j.comps[0].id = 'R'; j.comps[1].id = 'G'; j.comps[2].id = 'B'; Put("comp-rgb", j, 2);
  Base(j, 8, 8, 0, 0, 1);
  j.items = {Item(Item::DQT, std::vector<int>{0}), Item(Item::DHT, std::vector<int>{0, 1}), Item(Item::SOF), Item(Item::EOI)}; j.scans.clear(); for (auto& x : j.coef[0]) x = 0; Put("no-scan", j, 2);
  Base(j, 56, 48, 3, 0, 4);
  for (auto& h : j.huffs) if (h.slot >= 0x10) h = MakeHuff(h.slot, AllAC(), 0); else h = MakeHuff(h.slot, AllDC(), 1);
  Put("dense", j, 2);
  Base(j, 264, 16, 0, 0, 3); Put("wide", j, 2);
  Base(j, 8, 280, 0, 0, 3); Put("tall", j, 0);
  Base(j, 8, 8, 0, 0, 1); j.items.insert(j.items.begin(), Item(Item::RAW, Marker(0xe5, Bytes(5000, 'm')))); Put("meta-long", j, 2);
  for (size_t n : {0, 1, 2, 127, 128, 300}) {
    Bytes p;
    for (size_t k = 0; k < n; ++k) p.push_back((char)H(k));
    size_t len = brunsli::GetBrunsliBypassSize(n);
    Bytes e(len, 0);
    if (!brunsli::BrunsliEncodeJpegBypass(codec::U8(p), n, (uint8_t*)&e[0], &len)) exit(1);
    e.resize(len);
    out.push_back({vf::Fmt("bypass-%zu", n), p, e, 1});
  }
  FILE* f = fopen(argv[1], "wb");
  for (auto& e : out) {
    fprintf(f, "%s %d %zu %zu\n", e.name.c_str(), e.kind, e.jpg.size(), e.brn.size());
    fwrite(e.jpg.data(), 1, e.jpg.size(), f);
    fwrite(e.brn.data(), 1, e.brn.size(), f);
    printf("%-16s jpg %6zu brn %6zu\n", e.name.c_str(), e.jpg.size(), e.brn.size());
  }
  fclose(f);
}
