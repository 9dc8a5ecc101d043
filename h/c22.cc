// C22: group coding, task orders and group sizes.
#include "corpus.h"
#include "families.h"
#include "grp.h"
#include "stock_icc.h"
using codec::Bytes;

namespace {
const int kDims[][2] = {{1, 1}, {1, 2}, {2, 2}, {1, 4}, {2, 4}, {4, 4}, {2, 8}, {4, 8}, {8, 8}, {16, 64}, {1, 64}, {64, 64}};
enum { kDimCount = 12 };
struct K { int trips, refused, same, damaged, accepted; };

// The whole round trip of one file with one pair of dimensions.
void Trip(vf::Case& c, const K& k, const std::string& desc, const Bytes& jpg, int version, const int* d, uint64_t er, uint64_t dr) {
  brunsli::JPEGData j;
  if (!codec::Read(jpg, &j)) return;
  j.version = version;
  if (!grp::Fits(j, d[0])) return;
  Bytes plain, a, b;
  bool should = codec::Encode(j, &plain);
  std::string what = desc + vf::Fmt(" groups %d/%d", d[0], d[1]);
  bool ok = grp::Enc(j, d[0], d[1], brunsli::SequentialExecutor, &a);
  if (!ok) {
    c.Count(k.refused);
    if (should) c.Fail("refused", what + ": refused though the picture can be encoded", jpg);
    return;
  }
  c.nontrivial = true;
  c.hash = vf::Fnv(jpg, d[0] * 100 + d[1] + 7 * version);
  if (er) {
    if (!grp::Enc(j, d[0], d[1], grp::Ordered(er), &b) || b != a) { c.Fail("order-encode", vf::Fmt("%s: task order %llu gives another result", what.c_str(), (unsigned long long)er), jpg); return; }
    c.Count(k.same);
  }
  brunsli::JPEGData r;
  if (!grp::Dec(a, d[0], d[1], grp::Ordered(dr), &r)) { c.Fail("not-decodable", vf::Fmt("%s: task order %llu: not decodable", what.c_str(), (unsigned long long)dr), jpg); return; }
  Bytes o;
  bool w = grp::Jpg(r, &o);
  c.Count(k.trips);
  if (!w || o != jpg) c.Fail("differs", vf::Fmt("%s: task order %llu: %zu bytes in, %zu out (writer says %d), first difference at %zu", what.c_str(), (unsigned long long)dr, jpg.size(), o.size(), w, codec::FirstDiff(o, jpg)), jpg);
}
struct Tiny { gen::Jpeg j; std::string name; Bytes jpg; int d[2]; Bytes s; };
gen::Jpeg Make(int w, int h, int sampling, int script, int pattern) {
  gen::Jpeg j;
  j.w = w;
  j.h = h;
  j.comps = fam::Sampling(sampling);
  j.Layout();
  fam::Script(j, script);
  gen::FillPattern(j, pattern, 5);
  fam::Plain(j, 0, 0);
  return j;
}
}  // namespace

int main(int argc, char** argv) {
  vf::Runner r("C22", argc, argv);
  bool deep = r.thorough();
  K k = {r.Counter("round_trips"), r.Counter("refused"), r.Counter("orders_with_equal_bytes"), r.Counter("damaged_streams"), r.Counter("damaged_streams_accepted")};
  r.rule = "every member of every JPEG family with one pair of group sizes and task order, small pictures with every pair and every task order; every truncation and byte-level damage of group streams under several task orders; every destination size; non-trivial: the picture was encoded in groups (or the damaged stream was judged)";
  const bool hostile = getenv("VERIF_HOSTILE") != nullptr;
  // 1. all families
  for (auto& f : fam::All(deep, StockIcc())) {
    if (hostile) break;
    // (what concerns the scan data rather than the picture is left to thorough runs)
    if (!deep && (f.name.substr(0, 4) == "raw-" ? f.name != "raw-prog-ac-refine" && f.name != "raw-seq-2blk-tiny" : f.name == "chunk-edges")) continue;
    auto fp = std::make_shared<fam::Family>(f);
    r.Add(f.name, f.size, [=](vf::Case& c) {
      fam::Made m = fp->make(c.index);
      if (!m.valid) return;
      // dimensions that fit the sampling come round often enough
      brunsli::JPEGData j;
      if (!codec::Read(m.jpg, &j)) return;
      uint64_t h = vf::Mix(c.index);
      for (int t = 0; t < kDimCount; ++t) {
        const int* d = kDims[(h + t) % kDimCount];
        if (!grp::Fits(j, d[0])) continue;
        Trip(c, k, m.desc, m.jpg, (h >> 8 & 1) ? 2 : 0, d, (h >> 9 & 3) ? 0 : h >> 20, (h >> 11 & 1) ? 0 : h >> 21);
        return;
      }
    }, [=](uint64_t i) { return fp->make(i).desc; }, f.limit);
  }
  // 2. small geometries x all dimensions x sampling, forwards and backwards
  if (!hostile) {
    auto ds = std::make_shared<std::vector<int>>(deep ? std::vector<int>{1, 8, 9, 16, 17, 31, 33, 64, 65, 130} : std::vector<int>{1, 9, 17, 33, 65});
    uint64_t n = ds->size();
    auto desc = [=](uint64_t i) {
      vf::Radix x(i);
      int w = (*ds)[x(n)], h = (*ds)[x(n)], sa = (int)x(fam::kSampling), d = (int)x(kDimCount);
      return vf::Fmt("%dx%d %s %d/%d", w, h, fam::SamplingName(sa), kDims[d][0], kDims[d][1]);
    };
    r.Add("dimensions", n * n * fam::kSampling * kDimCount, [=](vf::Case& c) {
      vf::Radix x(c.index);
      int w = (*ds)[x(n)], h = (*ds)[x(n)], sa = (int)x(fam::kSampling), d = (int)x(kDimCount);
      gen::Jpeg j = Make(w, h, sa, (int)(c.index % 2) * 4, 9);
      fam::Made m = fam::Finish(j, desc(c.index), true);
      if (!m.valid) return;
      Trip(c, k, m.desc, m.jpg, c.index & 2 ? 2 : 0, kDims[d], ~0ull / 3, c.index & 4 ? ~0ull / 7 : 0);
    }, desc);
  }
  // 2a. every pair of sizes, allowed (powers of two, one a multiple of the other, divisible by the sampling) or not
  if (!hostile) {
    r.Add("size-pairs", 20 * 40 * fam::kSampling, [=](vf::Case& c) {
      vf::Radix x(c.index);
      const int d[2] = {1 + (int)x(20), 1 + (int)x(40)};
      int sa = (int)x(fam::kSampling);
      gen::Jpeg g = Make(200, 136, sa, 0, 9);
      fam::Made m = fam::Finish(g, vf::Fmt("200x136 %s", fam::SamplingName(sa)), true);
      brunsli::JPEGData j;
      if (!m.valid || !codec::Read(m.jpg, &j)) return;
      bool pow = !(d[0] & (d[0] - 1)) && !(d[1] & (d[1] - 1)) && d[1] % d[0] == 0;
      if (pow && grp::Fits(j, d[0])) return Trip(c, k, m.desc, m.jpg, 0, d, 0, 0);
      Bytes a, o;
      c.nontrivial = true;
      if (!grp::Enc(j, d[0], d[1], brunsli::SequentialExecutor, &a)) { c.Count(k.refused); return; }
      brunsli::JPEGData t;
      if (!grp::Dec(a, d[0], d[1], brunsli::SequentialExecutor, &t) || !grp::Jpg(t, &o) || o != m.jpg) c.Fail("odd-size", vf::Fmt("%s: group sizes %d/%d are accepted, but do not restore the picture", m.desc.c_str(), d[0], d[1]), m.jpg);
    }, nullptr, 60);
  }
  // 2b. pictures whose blocks take as much room as blocks can
  if (!hostile) {
    static const int dm[][2] = {{16, 16}, {16, 64}, {64, 64}, {32, 32}, {4, 4}, {1, 2}}, wh[][2] = {{128, 128}, {264, 120}, {512, 256}}, sm[] = {0, 2, 3, 1};
    const int V = 6;
    r.Add("dense", 6 * 3 * 4 * V, [=](vf::Case& c) {
      vf::Radix x(c.index);
      int kind = (int)x(V), d = (int)x(6), z = (int)x(3), sa = (int)x(4);
      if (d >= 4 && z) return;
      gen::Jpeg j = Make(wh[z][0], wh[z][1], sm[sa], 0, 9);
      for (size_t q = 0; q < j.coef.size(); ++q)
        for (size_t i = 0; i < j.coef[q].size(); ++i) {
          uint32_t h = gen::H((uint32_t)(i * 31 + q * 7919 + kind * 104729));
          int v = kind == 0 ? 1023 : kind == 1 ? 512 + (int)(h % 512) : kind == 2 ? 1 + (int)(h % 1023) : kind == 3 ? (h % 2 ? 1023 : 1) : kind == 4 ? (h % 3 ? 1 << (h / 8 % 10) : 0) : (1 << (h / 8 % 10)) + (int)(h / 128 % (1u << (h / 8 % 10)));
          if (i % 64 == 0) v = v * 2 % 1024;
          j.coef[q][i] = (h >> 30 & 1) ? v : -v;
        }
      fam::Made m = fam::Finish(j, vf::Fmt("dense %dx%d %s kind %d", wh[z][0], wh[z][1], fam::SamplingName(sm[sa]), kind), true);
      if (!m.valid) return;
      Trip(c, k, m.desc, m.jpg, c.index & 1 ? 2 : 0, dm[d], 0, 0);
    }, nullptr, 60);
  }
  // 3. every order of the tasks of every batch
  static const int shapes[][5] = {{16, 8, 0, 1, 1}, {8, 24, 0, 1, 1}, {16, 16, 0, 1, 1}, {16, 16, 0, 1, 2}, {24, 8, 2, 1, 1}, {32, 16, 3, 2, 2}, {32, 16, 3, 2, 4}, {24, 16, 4, 2, 2}, {40, 8, 0, 1, 2}};
  if (!hostile) {
    const uint64_t N = deep ? 40320 : 5040;
    auto made = std::make_shared<std::vector<fam::Made>>();
    for (auto& s : shapes) { gen::Jpeg j = Make(s[0], s[1], s[2], 0, 9); made->push_back(fam::Finish(j, vf::Fmt("%dx%d %s", s[0], s[1], fam::SamplingName(s[2])), true)); }
    r.Add("orders", made->size() * N, [=](vf::Case& c) {
      auto& s = shapes[c.index / N];
      const int d[2] = {s[3], s[4]};
      Trip(c, k, (*made)[c.index / N].desc, (*made)[c.index / N].jpg, 2, d, c.index % N, c.index % N);
      c.hash = c.index + 12345678;
    });
  }
  if (!hostile) return r.Main();
  // 4. every destination size
  {
    auto v = std::make_shared<std::vector<std::pair<fam::Made, Bytes>>>();
    uint64_t total = 0;
    auto at = std::make_shared<std::vector<uint64_t>>();
    for (auto& s : shapes) {
      gen::Jpeg g = Make(s[0], s[1], s[2], 0, 9);
      fam::Made m = fam::Finish(g, vf::Fmt("%dx%d %s %d/%d", s[0], s[1], fam::SamplingName(s[2]), s[3], s[4]), true);
      brunsli::JPEGData j;
      Bytes b;
      if (!codec::Read(m.jpg, &j)) continue;
      j.version = 2;
      grp::Enc(j, s[3], s[4], brunsli::SequentialExecutor, &b);
      at->push_back(total);
      total += b.size() + 40;
      v->push_back({m, b});
    }
    r.Add("capacity", total, [=](vf::Case& c) {
      size_t i = at->size() - 1;
      while ((*at)[i] > c.index) --i;
      size_t cap = (size_t)(c.index - (*at)[i]);
      auto& e = (*v)[i];
      brunsli::JPEGData j;
      if (!codec::Read(e.first.jpg, &j)) return;
      j.version = 2;
      Bytes b;
      bool over = false;
      bool ok = grp::Enc(j, shapes[i][3], shapes[i][4], brunsli::SequentialExecutor, &b, cap + 1, &over);
      c.nontrivial = true;
      c.hash = c.index + 2345678901;
      std::string what = vf::Fmt("%s: destination of %zu bytes, %zu needed", e.first.desc.c_str(), cap, e.second.size());
      if (over) c.Fail("overrun", what + ": written past its end", e.first.jpg);
      else if (ok && b != e.second) c.Fail("capacity-bytes", what + ": accepted with other bytes", e.first.jpg);
      else if (!ok && cap >= e.second.size()) c.Fail("capacity-refused", what + ": refused", e.first.jpg);
      else if (ok && cap < e.second.size()) c.Fail("capacity-accepted", what + ": accepted", e.first.jpg);
    });
  }
  // 5. damaged streams
  {
    struct Sub { std::string desc; Bytes jpg, s; int d[2]; bool single; };
    auto subs = std::make_shared<std::vector<Sub>>();
    auto at = std::make_shared<std::vector<uint64_t>>();
    uint64_t total = 0;
    const int kOps = 6;
    auto add = [&](const int* s) {
      gen::Jpeg g = Make(s[0], s[1], s[2], 0, 9);
      fam::Made m = fam::Finish(g, vf::Fmt("%dx%d %s %d/%d", s[0], s[1], fam::SamplingName(s[2]), s[3], s[4]), true);
      brunsli::JPEGData j;
      Sub u;
      if (!codec::Read(m.jpg, &j)) return;
      j.version = 2;
      if (!grp::Enc(j, s[3], s[4], brunsli::SequentialExecutor, &u.s)) return;
      u.desc = m.desc;
      u.jpg = m.jpg;
      u.d[0] = s[3];
      u.d[1] = s[4];
      u.single = s[3] >= 64;
      at->push_back(total);
      total += u.s.size() * kOps;
      subs->push_back(u);
    };
    for (auto& s : shapes) add(s);
    static const int singles[][5] = {{16, 16, 0, 64, 64}, {24, 8, 2, 64, 64}, {32, 16, 3, 64, 128}};
    for (auto& s : singles) add(s);
    r.Add("damage", total, [=](vf::Case& c) {
      size_t i = at->size() - 1;
      while ((*at)[i] > c.index) --i;
      auto& u = (*subs)[i];
      size_t pos = (size_t)((c.index - (*at)[i]) / kOps);
      int op = (int)((c.index - (*at)[i]) % kOps);
      Bytes b = u.s;
      uint8_t v = (uint8_t)b[pos];
      switch (op) {
        case 0: b.resize(pos); break;
        case 1: b[pos] = (char)(v ^ 1); break;
        case 2: b[pos] = (char)(v ^ 0x80); break;
        case 3: b[pos] = (char)~v; break;
        case 4: b.erase(pos, 1); break;
        case 5: b.insert(pos, 1, (char)v); break;
      }
      c.nontrivial = true;
      c.hash = vf::Fnv(b, i);
      c.Count(k.damaged);
      std::string what = vf::Fmt("%s: byte %zu of %zu, operation %d", u.desc.c_str(), pos, u.s.size(), op);
      brunsli::JPEGData a, z, y;
      bool p = grp::Dec(b, u.d[0], u.d[1], brunsli::SequentialExecutor, &a), q = grp::Dec(b, u.d[0], u.d[1], grp::Reverse(), &z);
      bool s = grp::Dec(b, u.d[0], u.d[1], grp::Ordered(c.index * 77), &y);
      if (p != q || p != s) { c.Fail("order-verdict", vf::Fmt("%s: verdict depends on the order of the tasks (%d %d %d)", what.c_str(), p, q, s), b); return; }
      if (p) {
        Bytes x1, x2, x3;
        c.Count(k.accepted);
        bool w1 = grp::Jpg(a, &x1), w2 = grp::Jpg(z, &x2), w3 = grp::Jpg(y, &x3);
        if (w1 != w2 || w1 != w3 || x1 != x2 || x1 != x3) { c.Fail("order-picture", what + ": the picture depends on the order of the tasks", b); return; }
      }
      if (op == 0 && p) { c.Fail("truncated-accepted", what + ": truncated stream accepted", b); return; }
      if (u.single) {
        // the only DC and AC group: what the ordinary decoder thinks of it
        auto parts = grp::Parts(u.s);
        if (parts.size() == 8 && pos >= parts[6].payload) {
          brunsli::JPEGData o;
          bool t = brunsli::BrunsliDecodeJpeg(codec::U8(b), b.size(), &o) == brunsli::BRUNSLI_OK;
          if (t != p) c.Fail("single-verdict", vf::Fmt("%s: the ordinary decoder says %d, group decoding %d", what.c_str(), t, p), b);
        }
      }
    });
    // whole sections emptied, dropped, repeated, exchanged
    uint64_t tot2 = 0;
    auto at2 = std::make_shared<std::vector<uint64_t>>();
    for (auto& u : *subs) { at2->push_back(tot2); uint64_t n = grp::Parts(u.s).size(); tot2 += n * (4 + n + 32); }
    r.Add("sections", tot2, [=](vf::Case& c) {
      size_t i = at2->size() - 1;
      while ((*at2)[i] > c.index) --i;
      auto& u = (*subs)[i];
      auto parts = grp::Parts(u.s);
      size_t n = parts.size(), x = (size_t)(c.index - (*at2)[i]), t = x / (4 + n + 32), op = x % (4 + n + 32);
      std::vector<Bytes> v;
      for (auto& p : parts) v.push_back(u.s.substr(p.begin, p.end - p.begin));
      Bytes body = u.s.substr(parts[t].payload, parts[t].end - parts[t].payload);
      int tag = parts[t].tag;
      bool mustfail = false;
      bool data = tag == 7 || tag == 8;
      if (op == 0) { v[t] = grp::Section(tag, ""); mustfail = data; }
      else if (op == 1) { v[t].clear(); mustfail = true; }
      else if (op == 2) { v[t] = v[t] + v[t]; mustfail = true; }
      else if (op == 3) { v[t] = grp::Section(tag, body.substr(0, body.size() > 2 ? body.size() - 2 : 0)); }
      else if (op < 4 + n) std::swap(v[t], v[op - 4]);
      else { v[t] = grp::Section((int)(op - 4 - n), body); mustfail = data && (int)(op - 4 - n) != tag; }
      Bytes b;
      for (auto& s : v) b += s;
      if (b == u.s) return;
      c.nontrivial = true;
      c.hash = vf::Fnv(b, i);
      c.Count(k.damaged);
      std::string what = vf::Fmt("%s: section %zu (tag %d), operation %zu", u.desc.c_str(), t, tag, op);
      brunsli::JPEGData a, z;
      bool p = grp::Dec(b, u.d[0], u.d[1], brunsli::SequentialExecutor, &a), q = grp::Dec(b, u.d[0], u.d[1], grp::Reverse(), &z);
      if (p != q) { c.Fail("order-verdict", vf::Fmt("%s: verdict depends on the order of the tasks (%d %d)", what.c_str(), p, q), b); return; }
      if (p) {
        Bytes x1, x2;
        c.Count(k.accepted);
        if (grp::Jpg(a, &x1) != grp::Jpg(z, &x2) || x1 != x2) { c.Fail("order-picture", what + ": the picture depends on the order of the tasks", b); return; }
      }
      if (p && mustfail) c.Fail("bad-group-accepted", what + ": accepted", b);
    });
  }
  // 6. a group that can not be encoded
  {
    const int kPos = 8, kOrd = 24;
    r.Add("refused-coefficient", 9 * 3 * kPos * 2 * kOrd, [=](vf::Case& c) {
      vf::Radix x(c.index);
      uint64_t ord = x(kOrd);
      int sign = (int)x(2), pos = (int)x(kPos), comp = (int)x(3);
      auto& s = shapes[x(9)];
      gen::Jpeg g = Make(s[0], s[1], s[2], 0, 9);
      fam::Made m = fam::Finish(g, "", true);
      brunsli::JPEGData j;
      if (!m.valid || !codec::Read(m.jpg, &j)) return;
      if (comp >= (int)j.components.size()) return;
      auto& co = j.components[comp].coeffs;
      size_t blocks = co.size() / 64;
      if ((size_t)pos >= blocks) return;
      co[64 * (size_t)pos] = sign ? -32768 : 32767;
      j.version = 2;
      Bytes a, b;
      bool plain = codec::Encode(j, &a);
      bool ok = grp::Enc(j, s[3], s[4], grp::Ordered(ord), &b);
      c.nontrivial = true;
      c.hash = c.index + 34567890123;
      if (plain) c.Fail("plain-accepts", "the ordinary encoder accepts an impossible coefficient");
      if (ok) c.Fail("impossible-group", vf::Fmt("%dx%d %s %d/%d: block %d of component %d can not be encoded, task order %llu: accepted", s[0], s[1], fam::SamplingName(s[2]), s[3], s[4], pos, comp, (unsigned long long)ord));
    });
  }
  return r.Main();
}
