// C25: header-only and tables-only reads agree with the full read.
#include "codec.h"
#include "corpus.h"
#include "families.h"
#include "jcompare.h"
#include "stock_icc.h"
using codec::Bytes;
static std::string Dims(const brunsli::JPEGData& a, const brunsli::JPEGData& b) {
  if (a.width != b.width || a.height != b.height) return vf::Fmt("size %dx%d, full read %dx%d", b.width, b.height, a.width, a.height);
  if (a.components.size() != b.components.size()) return "number of components";
  if (a.max_h_samp_factor != b.max_h_samp_factor || a.max_v_samp_factor != b.max_v_samp_factor || a.MCU_rows != b.MCU_rows || a.MCU_cols != b.MCU_cols) return "MCU layout";
  for (size_t i = 0; i < a.components.size(); ++i) {
    auto &x = a.components[i], &y = b.components[i];
    if (x.id != y.id || x.h_samp_factor != y.h_samp_factor || x.v_samp_factor != y.v_samp_factor || x.width_in_blocks != y.width_in_blocks || x.height_in_blocks != y.height_in_blocks) return vf::Fmt("component %zu", i);
  }
  return "";
}
// What a partial read says stands before some point of the file must be what the full read says.
template <class T, class E> bool Begins(const T& part, const T& all, E eq) {
  return part.size() <= all.size() && std::equal(part.begin(), part.end(), all.begin(), eq);
}
static std::string Prefix(const brunsli::JPEGData& a, const brunsli::JPEGData& h) {
  auto same = [](const auto& x, const auto& y) { return x == y; };
  auto n = [&](const std::vector<uint8_t>& v, uint8_t m) { return (size_t)std::count(v.begin(), v.end(), m); };
  auto sof = std::find_if(a.marker_order.begin(), a.marker_order.end(), [](uint8_t m) { return m >= 0xc0 && m <= 0xc2; });
  if (h.marker_order.size() != (size_t)(sof - a.marker_order.begin()) + 1 || !Begins(h.marker_order, a.marker_order, same)) return "segments";
  if (!Begins(h.app_data, a.app_data, same) || !Begins(h.com_data, a.com_data, same) || !Begins(h.inter_marker_data, a.inter_marker_data, same)) return "application or comment segments, or data between segments";
  size_t apps = 0, dqt = 0, dht = 0;
  for (auto m : h.marker_order) apps += (m & 0xf0) == 0xe0;
  if (h.app_data.size() != apps || h.com_data.size() != n(h.marker_order, 0xfe) || h.inter_marker_data.size() != n(h.marker_order, 0xff)) return "number of application or comment segments, or data between segments";
  if (!Begins(h.quant, a.quant, [](const auto& x, const auto& y) { return x.values == y.values && x.precision == y.precision && x.index == y.index && x.is_last == y.is_last; })) return "quantisation tables";
  if (!Begins(h.huffman_code, a.huffman_code, [](const auto& x, const auto& y) { return x.counts == y.counts && x.values == y.values && x.slot_id == y.slot_id && x.is_last == y.is_last; })) return "Huffman tables";
  for (auto& q : h.quant) dqt += q.is_last;
  for (auto& q : h.huffman_code) dht += q.is_last;
  if (dqt != n(h.marker_order, 0xdb) || dht != n(h.marker_order, 0xc4)) return "number of tables";
  int dri = n(h.marker_order, 0xdd) ? a.restart_interval : 0;
  if (h.restart_interval != dri) return vf::Fmt("restart interval %d instead of %d", h.restart_interval, dri);
  return "";
}
int main(int argc, char** argv) {
  vf::Runner r("C25", argc, argv);
  bool deep = r.thorough();
  int acc = r.Counter("accepted_by_full_read"), rej = r.Counter("refused_by_full_read"), part = r.Counter("refused_by_full_accepted_by_partial");
  r.rule = "every file is read in all three modes (under AddressSanitizer, exactly sized input block); whenever the full read succeeds the partial ones must, and report what the full read and an independent T.81 reader report; non-trivial: the full read succeeded";
  auto check = [=](vf::Case& c, const std::string& desc, const Bytes& jpg) {
    brunsli::JPEGData a, h, t;
    bool ok = codec::Read(jpg, &a), okh = codec::Read(jpg, &h, brunsli::JPEG_READ_HEADER), okt = codec::Read(jpg, &t, brunsli::JPEG_READ_TABLES);
    c.hash = vf::Fnv(jpg);
    if (!ok) { c.Count(rej); if (okh || okt) c.Count(part); return; }
    c.Count(acc);
    c.nontrivial = true;
    if (!okh) { c.Fail("header-refused", vf::Fmt("%s: full read succeeds, header-only read fails with %d", desc.c_str(), (int)h.error), jpg); return; }
    if (!okt) { c.Fail("tables-refused", vf::Fmt("%s: full read succeeds, tables-only read fails with %d", desc.c_str(), (int)t.error), jpg); return; }
    std::string e = Dims(a, h);
    if (!e.empty()) { c.Fail("header-differs", desc + ": header-only read: " + e, jpg); return; }
    e = Prefix(a, h);
    if (!e.empty()) { c.Fail("header-prefix", desc + ": header-only read, what stands before the frame header: " + e, jpg); return; }
    e = Dims(a, t);
    if (!e.empty()) { c.Fail("tables-dims-differ", desc + ": tables-only read: " + e, jpg); return; }
    jm::Image m = jm::Read(jpg);
    if (!m.ok) return;  // C13's business
    e = jm::Compare(m, h, jm::kDims);
    if (!e.empty()) { c.Fail("header-wrong", desc + ": header-only read: " + e, jpg); return; }
    e = jm::Compare(m, t, jm::kDims | jm::kTables);
    if (!e.empty()) { c.Fail("tables-wrong", desc + ": tables-only read: " + e, jpg); return; }
  };
  for (auto& f : fam::All(deep, StockIcc())) {
    if (f.name.substr(0, 4) == "raw-" && !deep && f.name != "raw-seq-2blk-dri1" && f.name != "raw-prog-ac-refine") continue;
    auto fp = std::make_shared<fam::Family>(f);
    r.Add(f.name, f.size, [=](vf::Case& c) { auto m = fp->make(c.index); if (m.valid) check(c, m.desc, m.jpg); }, [=](uint64_t i) { return fp->make(i).desc; }, f.limit);
  }
  // application/comment segments whose payload looks like JPEG markers
  {
    static const Bytes pl[] = {"\xff\xd8", Bytes("\xff\xdb\0\x43\0", 5), Bytes("\xff\xc0\0\x0b\x08\0\1\0\1\1\1\x11\0", 13), "\xff\xd9", Bytes("\xff\xda\0\x08\1\1\0\0\x3f\0", 10),
                               Bytes("\xff\xc4\0\x14\0\1\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0", 22), Bytes("\xff\xdd\0\4\0\7", 6), "\xff", Bytes("\xff\0", 2), Bytes("\xff\xe1\0\x40", 4), "\xff\xff", "\xff\xd0"};
    const int N = 12;
    auto files = std::make_shared<std::vector<corpus::Entry>>();
    for (auto& e : corpus::Load()) if (e.kind == 0) files->push_back(e);
    r.Add("payload", files->size() * (N + 1) * (N + 1) * 3 * 4, [=](vf::Case& c) {
      vf::Radix x(c.index);
      auto& f = (*files)[x(files->size())];
      int a = (int)x(N + 1), b = (int)x(N + 1), kind = (int)x(3), where = (int)x(4);
      Bytes p = (a ? pl[a - 1] : Bytes()) + (b ? pl[b - 1] : Bytes());
      Bytes seg = "\xff";
      seg += kind == 0 ? '\xe1' : kind == 1 ? '\xfe' : '\xe2';
      seg += (char)((p.size() + 2) >> 8);
      seg += (char)(p.size() + 2);
      seg += p;
      // before: the first marker, the SOF, the first SOS, the EOI
      size_t pos = 2;
      for (int k = 0; pos + 4 <= f.jpg.size(); ++k) {
        uint8_t m = f.jpg[pos + 1];
        if ((uint8_t)f.jpg[pos] != 0xff) return;
        if (where == 0 || (where == 1 && (m & 0xfc) == 0xc0) || (where == 2 && m == 0xda)) break;
        if (m == 0xda) { pos = f.jpg.rfind("\xff\xd9"); break; }
        pos += 2 + (uint8_t)f.jpg[pos + 2] * 256 + (uint8_t)f.jpg[pos + 3];
      }
      if (pos > f.jpg.size()) return;
      Bytes j = f.jpg;
      j.insert(pos, seg);
      check(c, vf::Fmt("%s with segment %s at %zu", f.name.c_str(), vf::Hex(seg).c_str(), pos), j);
    }, nullptr);
    // the segments before the first scan in every order (those of one kind stay in theirs)
    r.Add("orders", files->size() * 5040 * 2, [=](vf::Case& c) {
      vf::Radix x(c.index);
      auto& f = (*files)[x(files->size())];
      uint32_t perm = (uint32_t)x(5040);
      bool dri = x(2);
      std::vector<Bytes> seg;
      size_t pos = 2;
      while (pos + 4 <= f.jpg.size() && (uint8_t)f.jpg[pos] == 0xff && (uint8_t)f.jpg[pos + 1] != 0xda) {
        size_t n = 2 + (uint8_t)f.jpg[pos + 2] * 256 + (uint8_t)f.jpg[pos + 3];
        if (dri && (uint8_t)f.jpg[pos + 1] == 0xdd) dri = false;
        seg.push_back(f.jpg.substr(pos, n));
        pos += n;
      }
      if (pos + 4 > f.jpg.size()) return;
      if (dri) {  // an interval that is never reached
        int n = 65535;
        seg.push_back(Bytes("\xff\xdd\0\4", 4) + (char)(n >> 8) + (char)n);
      }
      std::vector<Bytes> out;
      std::vector<int> kinds;
      for (auto& q : seg) if (std::find(kinds.begin(), kinds.end(), (uint8_t)q[1]) == kinds.end()) kinds.push_back((uint8_t)q[1]);
      if (kinds.size() > 7) kinds.resize(7);
      uint32_t lim = 1;
      for (size_t i = 2; i <= kinds.size(); ++i) lim *= (uint32_t)i;
      if (perm >= lim) return;
      std::vector<int> left = kinds;
      Bytes j = f.jpg.substr(0, 2);
      while (!left.empty()) {
        size_t k = perm % left.size();
        perm /= left.size();
        for (auto& q : seg) if ((uint8_t)q[1] == left[k]) j += q;
        left.erase(left.begin() + k);
      }
      for (auto& q : seg) if (std::find(kinds.begin(), kinds.end(), (uint8_t)q[1]) == kinds.end()) j += q;
      check(c, vf::Fmt("%s, segments in order %u", f.name.c_str(), (unsigned)(c.index / files->size())), j + f.jpg.substr(pos));
    }, nullptr);
    // damage
    auto st = std::make_shared<std::vector<uint64_t>>();
    uint64_t tot = 0;
    static const uint8_t sv[] = {0, 1, 2, 3, 0x11, 0x40, 0x7f, 0xff, 0xd9, 0xda, 0xc4, 0xc2, 0xdb};
    const int V = deep ? 256 : 13 + 3;
    for (auto& f : *files) { st->push_back(tot); tot += std::min<size_t>(f.jpg.size(), 1500); }
    r.Add("damage", tot * V, [=](vf::Case& c) {
      uint64_t q = c.index / V;
      size_t k = st->size() - 1;
      while ((*st)[k] > q) --k;
      size_t p = q - (*st)[k];
      Bytes j = (*files)[k].jpg;
      int w = c.index % V;
      const char* what = "set";
      if (deep) j[p] = (char)w;
      else if (w < 13) j[p] = (char)sv[w];
      else if (w == 13) j.resize(p), what = "cut";
      else if (w == 14) j.erase(p, 1), what = "deleted";
      else j.insert(p, 1, '\xff'), what = "ff inserted";
      check(c, vf::Fmt("%s byte %zu %s (%d)", (*files)[k].name.c_str(), p, what, w), j);
    }, nullptr);
  }
  return r.Main();
}
