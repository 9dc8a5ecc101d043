// C08: destination size is respected, and the size bound suffices.
#include <memory>
#include <set>
#include "corpus.h"
#include "families.h"
#include "codec.h"
#include "stock_icc.h"
using codec::Bytes;
static bool EncodeAt(const brunsli::JPEGData& j, size_t cap, Bytes* out, std::string* why) {
  uint8_t* b = (uint8_t*)malloc(cap ? cap : 1);  // one byte would do, but is not ours
  memset(b, 0xA5, cap ? cap : 1);
  size_t len = cap;
  bool ok = brunsli::BrunsliEncodeJpeg(j, b, &len);
  if (!cap && b[0] != 0xA5) *why = "wrote into an empty destination";
  if (ok && len > cap) *why = vf::Fmt("reports %zu bytes in a destination of %zu", len, cap);
  if (ok && len <= cap) {
    out->assign((char*)b, len);
  }
  free(b);
  return ok;
}
int main(int argc, char** argv) {
  vf::Runner r("C08", argc, argv);
  bool deep = r.thorough();
  int fit = r.Counter("fitted"), nofit = r.Counter("reported_too_small"), ratio = r.Counter("max_permille_of_bound_used", true);
  r.rule = "every capacity from zero past the needed one is offered for each small file, in an exactly sized heap block under AddressSanitizer; every family member is encoded into a block of exactly the bound; "
           "non-trivial: the encoder was reached";
  auto files = std::make_shared<std::vector<corpus::Entry>>();
  std::set<Bytes> seen;
  for (auto& e : corpus::Load()) if (e.kind == 0 && seen.insert(e.jpg).second) files->push_back(e);
  auto jpgs = std::make_shared<std::vector<std::unique_ptr<brunsli::JPEGData>>>();
  auto need = std::make_shared<std::vector<size_t>>();
  auto st = std::make_shared<std::vector<uint64_t>>();
  uint64_t total = 0;
  for (auto& f : *files) {
    std::unique_ptr<brunsli::JPEGData> j(new brunsli::JPEGData);
    if (!codec::Read(f.jpg, j.get())) { fprintf(stderr, "corpus file %s refused\n", f.name.c_str()); }
    j->version = 0;
    size_t n = f.brn.size() + 60;
    st->push_back(total);
    need->push_back(n);
    total += n;
    jpgs->push_back(std::move(j));
  }
  r.Add("capacity", total * 2, [=](vf::Case& c) {
    int v = c.index & 1;
    uint64_t i = c.index / 2;
    size_t k = st->size() - 1;
    while ((*st)[k] > i) --k;
    size_t cap = i - (*st)[k];
    brunsli::JPEGData& j = *(*jpgs)[k];
    j.version = 2 * v;
    Bytes out;
    std::string why;
    bool ok = EncodeAt(j, cap, &out, &why);
    c.Count(ok ? fit : nofit);
    c.nontrivial = true;
    c.hash = vf::Fnv(&c.index, 8);
    std::string d = vf::Fmt("%s version %d capacity %zu", (*files)[k].name.c_str(), 2 * v, cap);
    if (!why.empty()) { c.Fail("overrun", d + ": " + why, (*files)[k].jpg); return; }
    if (ok) {
      Bytes back;
      int s = 0, rc = codec::Decode(out, &back, &s);
      if (rc || back != (*files)[k].jpg) { c.Fail("wrong-success", vf::Fmt("%s: reports success with %zu bytes that do not decode to the file (rc %d)", d.c_str(), out.size(), rc), (*files)[k].jpg); return; }
    } else if (cap >= brunsli::GetMaximumBrunsliEncodedSize(j)) {
      c.Fail("bound", d + ": fails although the capacity reaches the bound", (*files)[k].jpg);
    } else {
      // Refusing is right only if the result does not fit: compare with the
      // size needed when space is plentiful.  (Length fields are sized for the
      // capacity, so a smaller capacity never needs more.)
      Bytes big;
      std::string w2;
      if (EncodeAt(j, cap + 100000, &big, &w2) && big.size() + 16 <= cap) c.Fail("spurious", vf::Fmt("%s: fails although %zu bytes suffice", d.c_str(), big.size()), (*files)[k].jpg);
    }
  }, nullptr);
  for (auto& f : fam::All(deep, StockIcc())) {
    if (f.name.substr(0, 4) == "raw-" && !deep && f.name != "raw-seq-no-eob" && f.name != "raw-prog-ac-band") continue;
    auto fp = std::make_shared<fam::Family>(f);
    r.Add("bound-" + f.name, f.size, [=](vf::Case& c) {
      auto m = fp->make(c.index);
      if (!m.valid) return;
      brunsli::JPEGData j;
      if (!codec::Read(m.jpg, &j)) return;
      c.nontrivial = true;
      c.hash = vf::Fnv(m.jpg);
      j.version = 2 * (c.index & 1);
      size_t n = brunsli::GetMaximumBrunsliEncodedSize(j);
      Bytes a, b;
      std::string why;
      bool ok = EncodeAt(j, n, &a, &why);
      if (!why.empty()) { c.Fail("overrun", m.desc + ": " + why, m.jpg); return; }
      if (ok) { c.Max(ratio, a.size() * 1000 / n); c.Count(fit); return; }
      if (EncodeAt(j, 4 * n + 1000000, &b, &why)) c.Fail("bound", vf::Fmt("%s: needs %zu bytes, bound says %zu", m.desc.c_str(), b.size(), n), m.jpg);
    }, [=](uint64_t i) { return fp->make(i).desc; }, f.limit);
  }
  // contents that compress worst: dense extreme coefficients in every pattern
  {
    static const int dims[][2] = {{8, 8}, {16, 16}, {64, 8}, {8, 64}, {64, 64}, {128, 128}, {200, 40}, {256, 256}};
    static const int amp[] = {1, 3, 15, 127, 1023, 2047};
    const int ND = 8, NA = 6, NP = 6, NS = 5;
    r.Add("worst-content", ND * NA * NP * NS * 3, [=](vf::Case& c) {
      vf::Radix x(c.index);
      auto d = dims[x(ND)];
      int a = amp[x(NA)], pat = (int)x(NP), smp = (int)x(NS), q = (int)x(3);
      static const int sm[] = {0, 2, 3, 10, 13};
      gen::Jpeg g;
      g.w = d[0]; g.h = d[1];
      g.comps = fam::Sampling(sm[smp]);
      g.Layout();
      // straight into the parsed structure: no entropy coding to obey
      brunsli::JPEGData j;
      Bytes seed;
      if (!fam::Script(g, 0)) return;
      fam::Plain(g, 0, 0);
      auto m = fam::Finish(g, "", true);
      if (!codec::Read(m.jpg, &j)) return;
      uint64_t s = 12345;
      for (auto& cc : j.components)
        for (size_t k = 0; k < cc.coeffs.size(); ++k) {
          s = s * 6364136223846793005ull + 1442695040888963407ull;
          int u = (int)(s >> 40);
          int v = 0;
          switch (pat) {
            case 0: v = u % (2 * a + 1) - a; break;
            case 1: v = (u & 1) ? a : -a; break;
            case 2: v = (k + k / 64) & 1 ? a : -a; break;
            case 3: v = u % 3 ? 0 : u & 64 ? a : -a; break;
            case 4: v = k % 64 == 63 ? ((u & 1) ? a : -a) : 0; break;
            case 5: v = (u & 7) == 0 ? ((u & 8) ? a : -a) : (u >> 4) % 3 - 1; break;
          }
          if (k % 64 == 0 && a > 1023) v = std::max(-1000, std::min(1000, v));
          if (k % 64 && a > 1023) v = std::max(-1023, std::min(1023, v));
          cc.coeffs[k] = v;
        }
      for (auto& t : j.quant) for (int k = 0; k < 64; ++k) t.values[k] = q == 0 ? 1 : q == 1 ? 1 + (k * 37) % 255 : 255;
      c.nontrivial = true;
      c.hash = vf::Fnv(&c.index, 8);
      for (int v : {0, 2}) {
        j.version = v;
        size_t n = brunsli::GetMaximumBrunsliEncodedSize(j);
        Bytes o, b;
        std::string why, desc = vf::Fmt("%dx%d sampling %s amplitude %d pattern %d quant %d version %d", d[0], d[1], fam::SamplingName(sm[smp]), a, pat, q, v);
        bool ok = EncodeAt(j, n, &o, &why);
        if (!why.empty()) { c.Fail("overrun", desc + why); return; }
        if (ok) { c.Count(fit); c.Max(ratio, o.size() * 1000 / n); continue; }
        if (EncodeAt(j, 4 * n + 1000000, &b, &why)) { c.Fail("bound", vf::Fmt("%s: needs %zu bytes, bound says %zu", desc.c_str(), b.size(), n)); return; }
      }
    }, nullptr, 60);
  }
  // much data outside the scans: comments, application segments, bytes between markers, bytes behind the end
  {
    static const int sz[] = {100, 65000, 300000, 1000000, 1200000, 2200000, 3200000, 4500000};
    const Bytes base = (*files)[0].jpg;
    r.Add("bulk", 7 * 8 * 3, [=](vf::Case& c) {
      vf::Radix x(c.index);
      int kind = (int)x(7), n = sz[x(8)], content = (int)x(3);
      uint64_t s = 12345 + c.index;
      auto Fill = [&](size_t k) {
        Bytes b(k, 'x');
        if (content < 2) for (auto& q : b) { s = s * 6364136223846793005ull + 1442695040888963407ull; q = (char)(content ? "etaoinshrdlucmfw"[s >> 60] : s >> 56); }
        return b;
      };
      auto Segs = [&](int marker, size_t k, bool turn) {
        Bytes r;
        for (int i = 0; k; ++i) {
          size_t l = std::min<size_t>(k, 65533);
          r += "\xff";
          r += (char)(turn ? 0xe0 + i % 16 : marker);
          r += (char)((l + 2) >> 8);
          r += (char)(l + 2);
          r += Fill(l);
          k -= l;
        }
        return r;
      };
      auto Plain = [&](size_t k) { Bytes b = Fill(k); for (auto& q : b) q &= 0x7f; return b; };
      size_t seg = 2 + 2 + (uint8_t)base[4] * 256 + (uint8_t)base[5];  // behind the first segment
      Bytes jpg;
      switch (kind) {
        case 0: jpg = base.substr(0, seg) + Segs(0xfe, n, false) + base.substr(seg); break;
        case 1: jpg = base.substr(0, seg) + Segs(0xe5, n, false) + base.substr(seg); break;
        case 2: jpg = base.substr(0, seg) + Segs(0, n, true) + base.substr(seg); break;
        case 3: jpg = base + Fill(n); break;
        case 4: jpg = base.substr(0, seg) + Plain(n) + base.substr(seg); break;
        case 5: jpg = base.substr(0, seg) + Segs(0xfe, n / 2, false) + base.substr(seg) + Fill(n / 2); break;
        case 6: jpg = base.substr(0, 2) + Segs(0xe2, n / 3, false) + Segs(0xfe, n / 3, false) + base.substr(2) + Fill(n / 3); break;
      }
      std::string desc = vf::Fmt("%d bytes as kind %d, content %d", n, kind, content);
      brunsli::JPEGData j;
      if (!codec::Read(jpg, &j)) return;
      c.nontrivial = true;
      c.hash = vf::Fnv(&c.index, 8);
      j.version = 2 * (c.index & 1);
      size_t m = brunsli::GetMaximumBrunsliEncodedSize(j);
      Bytes o, b;
      std::string why;
      bool ok = EncodeAt(j, m, &o, &why);
      if (!why.empty()) { c.Fail("overrun", desc + ": " + why); return; }
      if (ok) { c.Count(fit); c.Max(ratio, o.size() * 1000 / m); return; }
      if (EncodeAt(j, 4 * m + 8000000, &b, &why)) c.Fail("bound", vf::Fmt("%s: needs %zu bytes, bound says %zu", desc.c_str(), b.size(), m));
    }, nullptr, 120);
  }
  return r.Main();
}
