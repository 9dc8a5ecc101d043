// C36: decoding from the first section on, with the header supplied by the caller.
#include <common/constants.h>
#include <dec/state.h>
#include "codec.h"
#include "corpus.h"
#include "longs.h"
#include "runner.h"
#include "sections.h"
using codec::Bytes;
using brunsli::JPEGData;
using brunsli::internal::dec::SerializationStatus;
using brunsli::internal::dec::Stage;
using brunsli::internal::dec::State;
namespace {
struct File {
  std::string name;
  Bytes jpg, brn, head, body;
  size_t w = 0, h = 0, ver = 0, sub = 0, comps = 0;
};
// which: 0 short ones, 1 the corpus, 2 with streams whose sections outgrow the decoder's buffers
std::vector<File> Files(int which) {
  std::vector<File> r;
  bool longs = which > 0;
  auto entries = corpus::Load();
  if (which == 2) for (int k = 0; k < 6; ++k) { static const int sm[] = {0, 3, 12, 10, 2, 8}; corpus::Entry e; if (longs::Make(sm[k], k % 3, 2 * (k & 1), &e)) entries.push_back(e); }
  for (auto& e : entries) {
    if (e.kind != 0 || (!longs && e.brn.size() > 500)) continue;
    sec::Stream s;
    if (!sec::Split(e.brn, &s)) continue;
    File f;
    f.name = e.name;
    f.jpg = e.jpg;
    f.brn = e.brn;
    f.head = sec::Sig() + s.HeaderBytes();
    f.body = e.brn.substr(f.head.size());
    for (auto& it : s.header) {
      if (it.tag == 1) f.w = it.value;
      if (it.tag == 2) f.h = it.value;
      if (it.tag == 3) { f.ver = it.value >> 2; f.comps = (it.value & 3) + 1; }
      if (it.tag == 4) f.sub = it.value;
    }
    r.push_back(f);
  }
  return r;
}
// What the caller of the headerless mode does (c/tests/headerless_test.cc).
bool Prepare(const File& f, State* s, JPEGData* j) {
  j->version = (int)f.ver;
  j->width = (int)f.w;
  j->height = (int)f.h;
  j->components.resize(f.comps);
  size_t code = f.sub;
  for (size_t i = 0; i < f.comps; ++i) {
    j->components[i].v_samp_factor = (int)(code & 15) + 1;
    code >>= 4;
    j->components[i].h_samp_factor = (int)(code & 15) + 1;
    code >>= 4;
  }
  if (!brunsli::internal::dec::UpdateSubsamplingDerivatives(j)) return false;
  s->use_legacy_context_model = !(f.ver & 2);
  s->stage = Stage::SECTION;
  s->tags_met = (1u << brunsli::kBrunsliSignatureTag) | (1u << brunsli::kBrunsliHeaderTag) | (1u << brunsli::kBrunsliOriginalJpgTag);
  brunsli::internal::dec::PrepareMeta(j, s);
  return true;
}
int Process(State* s, JPEGData* j, const Bytes& b, size_t* used = nullptr) {
  codec::Exact e(b);
  s->data = e.p;
  s->pos = 0;
  s->len = e.n;
  int st = (int)brunsli::internal::dec::ProcessJpeg(s, j);
  if (used) *used = s->pos;
  return st;
}
Bytes Written(const JPEGData& j, bool* ok) {
  Bytes out;
  brunsli::JPEGOutput w(codec::StringSink, &out);
  *ok = brunsli::WriteJpeg(j, w);
  return out;
}
// Parts of the structure, each filled by one section of the stream.
std::string Part(const JPEGData& j, int tag) {
  Bytes r;
  auto Vec = [&](const std::vector<uint8_t>& v) { r += vf::Fmt("[%zu:", v.size()) + Bytes((const char*)v.data(), v.size()) + "]"; };
  auto N = [&](long long v) { r += vf::Fmt("%lld,", v); };
  switch (tag) {
    case sec::META:
      for (auto& v : j.app_data) Vec(v);
      r += "|";
      for (auto& v : j.com_data) Vec(v);
      r += "|";
      Vec(j.tail_data);
      break;
    case sec::INTERNALS:
      N(j.restart_interval);
      Vec(j.marker_order);
      for (auto& v : j.inter_marker_data) Vec(v);
      N(j.has_zero_padding_bit);
      for (auto v : j.padding_bits) N(v);
      for (auto& h : j.huffman_code) {
        N(h.slot_id); N(h.is_last);
        for (auto v : h.counts) N(v);
        for (auto v : h.values) N(v);
      }
      for (auto& s : j.scan_info) {
        N(s.Ss); N(s.Se); N(s.Ah); N(s.Al); N(s.num_components);
        for (size_t i = 0; i < s.num_components; ++i) { N(s.components[i].comp_idx); N(s.components[i].dc_tbl_idx); N(s.components[i].ac_tbl_idx); }
        for (auto v : s.reset_points) N(v);
        for (auto& z : s.extra_zero_runs) { N(z.block_idx); N(z.num_extra_zero_runs); }
      }
      for (auto& c : j.components) N(c.id);
      for (auto& q : j.quant) { N(q.index); N(q.precision); N(q.is_last); }
      break;
    case sec::QUANT:
      for (auto& q : j.quant) {
        Bytes v;
        bool any = false;
        for (auto x : q.values) { v += vf::Fmt("%d,", x); any |= x != 0; }
        r += any ? v + ";" : "";
      }
      for (auto& c : j.components) N(c.quant_idx);
      break;
    case sec::DC:
      for (auto& c : j.components) { N(-1); for (size_t b = 0; b < c.coeffs.size(); b += 64) N(c.coeffs[b]); }
      break;
    case sec::AC:
      for (auto& c : j.components) { N(-1); for (size_t b = 0; b < c.coeffs.size(); ++b) if (b & 63) N(c.coeffs[b]); }
      break;
  }
  return r;
}
std::string Dims(const JPEGData& j) {
  Bytes r = vf::Fmt("%d %dx%d %d %d %d %d", j.version, j.width, j.height, j.max_h_samp_factor, j.max_v_samp_factor, j.MCU_rows, j.MCU_cols);
  for (auto& c : j.components) r += vf::Fmt(";%dx%d %u %u %u", c.h_samp_factor, c.v_samp_factor, (unsigned)c.width_in_blocks, (unsigned)c.height_in_blocks, (unsigned)c.num_blocks);
  return r;
}
const int kParts[] = {sec::META, sec::INTERNALS, sec::QUANT, sec::DC, sec::AC};
const char* PartName(int t) {
  return t == sec::META ? "metadata" : t == sec::INTERNALS ? "internals" : t == sec::QUANT ? "quantisation" : t == sec::DC ? "DC coefficients" : "AC coefficients";
}
// Both ways of decoding the same body.
void Both(vf::Case& c, const File& f, const Bytes& body, const std::string& what) {
  JPEGData a, b;
  int sa, sb;
  { State s; sa = Process(&s, &a, f.head + body); }
  {
    State s;
    if (!Prepare(f, &s, &b)) return c.Fail("prepare", f.name + ": the header values are refused");
    sb = Process(&s, &b, body);
  }
  if (sa != sb) return c.Fail("status", vf::Fmt("%s, %s: status %d without the header, %d with it", f.name.c_str(), what.c_str(), sb, sa), body);
  if (Dims(a) != Dims(b)) return c.Fail("dims", vf::Fmt("%s, %s: %s without the header, %s with it", f.name.c_str(), what.c_str(), Dims(b).c_str(), Dims(a).c_str()), body);
  for (int t : kParts) if (Part(a, t) != Part(b, t)) return c.Fail("structure", vf::Fmt("%s, %s: %s differ without the header", f.name.c_str(), what.c_str(), PartName(t)), body);
  if (sa != brunsli::BRUNSLI_OK) return;
  bool oa, ob;
  Bytes ja = Written(a, &oa), jb = Written(b, &ob);
  if (oa != ob || (oa && ja != jb)) c.Fail("jpeg", vf::Fmt("%s, %s: JPEG written from the two structures differs", f.name.c_str(), what.c_str()), body);
}
// In pieces; the serializer is asked after each of them.
void Pieces(vf::Case& c, const File& f, std::function<size_t(size_t)> next, size_t cap, const std::string& what) {
  State s;
  JPEGData j;
  if (!Prepare(f, &s, &j)) return c.Fail("prepare", f.name + ": the header values are refused");
  size_t pos = 0;
  Bytes out;
  int st = -1;
  for (size_t k = 0; pos < f.body.size(); ++k) {
    size_t n = std::min(next(k), f.body.size() - pos), used = 0;
    st = Process(&s, &j, f.body.substr(pos, n), &used);
    pos += n;
    if (used != n) return c.Fail("consumed", vf::Fmt("%s, %s: %zu of %zu bytes taken of the piece ending at %zu", f.name.c_str(), what.c_str(), used, n, pos));
    // After the last section has begun the end of the data is known only from
    // the section lengths.
    if (pos < f.body.size() && st != brunsli::BRUNSLI_NOT_ENOUGH_DATA) return c.Fail("early-status", vf::Fmt("%s, %s: status %d after %zu of %zu bytes", f.name.c_str(), what.c_str(), st, pos, f.body.size()));
    for (int guard = 0; guard < 100000; ++guard) {
      Bytes o(cap, '\0');
      size_t left = cap;
      codec::Exact eb(o);
      uint8_t* q = eb.p;
      SerializationStatus ss = brunsli::internal::dec::SerializeJpeg(&s, j, &left, &q);
      out.append((char*)eb.p, cap - left);
      if (ss == SerializationStatus::ERROR) return c.Fail("serialize", vf::Fmt("%s, %s: serializer fails after %zu bytes of input", f.name.c_str(), what.c_str(), pos));
      if (out.size() > f.jpg.size() || f.jpg.compare(0, out.size(), out)) return c.Fail("not-prefix", vf::Fmt("%s, %s: after %zu bytes of input the output departs from the file at byte %zu", f.name.c_str(), what.c_str(), pos, codec::FirstDiff(out, f.jpg)));
      if (ss != SerializationStatus::NEEDS_MORE_OUTPUT) break;
    }
  }
  if (st != brunsli::BRUNSLI_OK) return c.Fail("piece-status", vf::Fmt("%s, %s: final status %d", f.name.c_str(), what.c_str(), st));
  if (out != f.jpg) return c.Fail("incomplete", vf::Fmt("%s, %s: %zu of %zu bytes of JPEG serialized", f.name.c_str(), what.c_str(), out.size(), f.jpg.size()));
  bool ok;
  if (Written(j, &ok) != f.jpg || !ok) c.Fail("piece-jpeg", vf::Fmt("%s, %s: JPEG written at the end differs", f.name.c_str(), what.c_str()));
}
}  // namespace
int main(int argc, char** argv) {
  vf::Runner r("C36", argc, argv);
  bool deep = r.thorough();
  r.rule = "every body is decoded twice, behind its header and with the header values supplied by the caller, and status, structure and JPEG compared; intact, cut at every byte, damaged at every byte, and delivered in pieces with the serializer asked in between; "
           "skip_tags / tags_met: every admissible subset of sections; dimension arithmetic against its definition; non-trivial: the body has at least one section, or the arithmetic involves two components";
  auto files = std::make_shared<std::vector<File>>(Files(deep ? 1 : 0));
  auto all = std::make_shared<std::vector<File>>(Files(1));
  auto big = std::make_shared<std::vector<File>>(Files(2));
  // index over (file, position)
  auto Spread = [](std::shared_ptr<std::vector<File>> fs, size_t per) {
    auto v = std::make_shared<std::vector<uint64_t>>();
    uint64_t t = 0;
    for (auto& f : *fs) { v->push_back(t); t += (f.body.size() + 1) * per; }
    v->push_back(t);
    return v;
  };
  r.Add("whole", big->size(), [=](vf::Case& c) {
    auto& f = (*big)[c.index];
    c.nontrivial = true;
    c.hash = vf::Fnv(f.brn);
    Both(c, f, f.body, "intact");
    State s;
    JPEGData j;
    if (!Prepare(f, &s, &j)) return;
    int st = Process(&s, &j, f.body);
    bool ok = false;
    if (st != brunsli::BRUNSLI_OK || Written(j, &ok) != f.jpg || !ok) c.Fail("not-restored", vf::Fmt("%s: status %d, original JPEG not restored", f.name.c_str(), st), f.body);
  });
  {
    auto ix = Spread(all, 1);
    r.Add("truncated", ix->back(), [=](vf::Case& c) {
      size_t k = std::upper_bound(ix->begin(), ix->end(), c.index) - ix->begin() - 1, n = c.index - (*ix)[k];
      auto& f = (*all)[k];
      c.nontrivial = n > 0;
      c.hash = vf::Fnv(f.body.substr(0, n), f.ver + 5);
      Both(c, f, f.body.substr(0, n), vf::Fmt("cut after %zu of %zu bytes", n, f.body.size()));
    });
    r.Add("two-pieces", ix->back() * 2, [=](vf::Case& c) {
      uint64_t i = c.index / 2;
      size_t k = std::upper_bound(ix->begin(), ix->end(), i) - ix->begin() - 1, n = i - (*ix)[k];
      auto& f = (*all)[k];
      size_t cap = c.index % 2 ? 1 << 16 : 17;
      c.nontrivial = n > 0;
      c.hash = vf::Fnv(f.body, n * 2 + c.index % 2);
      Pieces(c, f, [=](size_t q) { return q ? (size_t)1 << 30 : n; }, cap, vf::Fmt("cut at %zu, output blocks of %zu", n, cap));
    });
  }
  static const size_t steps[] = {1, 2, 3, 5, 7, 16, 61, 255};
  r.Add("steps", big->size() * 8 * 3, [=](vf::Case& c) {
    vf::Radix x(c.index);
    auto& f = (*big)[x(big->size())];
    size_t n = steps[x(8)], cap = x(3);
    cap = cap == 0 ? 1 : cap == 1 ? 64 : 1 << 16;
    c.nontrivial = true;
    c.hash = vf::Fnv(f.body, n * 100003 + cap);
    Pieces(c, f, [=](size_t) { return n; }, cap, vf::Fmt("pieces of %zu, output blocks of %zu", n, cap));
  });
  {
    const size_t V = deep ? 255 : 10;
    auto ix = Spread(files, V);
    r.Add("damaged", ix->back(), [=](vf::Case& c) {
      size_t k = std::upper_bound(ix->begin(), ix->end(), c.index) - ix->begin() - 1;
      auto& f = (*files)[k];
      size_t n = (c.index - (*ix)[k]) / V, v = (c.index - (*ix)[k]) % V;
      Bytes b = f.body;
      if (n == b.size()) b += (char)v;
      else if (V == 255) b[n] ^= (char)(v + 1);
      else if (v < 8) b[n] ^= (char)(1 << v);
      else b[n] = v == 8 ? 0 : (char)255;
      c.nontrivial = b != f.body;
      c.hash = vf::Fnv(b, f.ver + 9);
      Both(c, f, b, vf::Fmt("byte %zu changed (%zu)", n, v));
    });
  }
  // skip_tags: bit k of the subset = section kSec[k]
  static const int kSec[] = {sec::META, sec::INTERNALS, sec::QUANT, sec::HIST, sec::DC, sec::AC};
  r.Add("skip", big->size() * 64 * 2 * 3, [=](vf::Case& c) {
    vf::Radix x(c.index);
    auto& f = (*big)[x(big->size())];
    int set = (int)x(64), way = (int)x(2), cut = (int)x(3);
    auto In = [&](int t) { for (int k = 0; k < 6; ++k) if (kSec[k] == t) return (set >> k) & 1; return 0; };
    // a section whose decoding needs the values of a skipped one
    bool admissible = (!In(sec::QUANT) && !In(sec::HIST)) || In(sec::DC);
    if (In(sec::DC) && !In(sec::AC)) admissible = false;
    if (In(sec::INTERNALS) && !In(sec::QUANT)) admissible = false;
    if (!admissible) return;
    c.nontrivial = set != 0;
    c.hash = vf::Fnv(f.brn, set * 6 + way * 3 + cut + 1);
    JPEGData full, j;
    { State s; if (Process(&s, &full, f.brn) != brunsli::BRUNSLI_OK) return c.Fail("full", f.name + " does not decode"); }
    State s;
    if (way && !Prepare(f, &s, &j)) return c.Fail("prepare", f.name + ": the header values are refused");
    for (int k = 0; k < 6; ++k) if ((set >> k) & 1) s.skip_tags |= 1u << kSec[k];
    const Bytes& in = way ? f.body : f.brn;
    int st = -1;
    if (cut == 0) {
      st = Process(&s, &j, in);
    } else {
      size_t step = cut == 1 ? 1 : in.size() / 2 + 1;
      for (size_t p = 0; p < in.size(); p += step) {
        Bytes piece = in.substr(p, step);
        size_t used;
        st = Process(&s, &j, piece, &used);
        if (used != piece.size()) return c.Fail("skip-consumed", vf::Fmt("%s, sections %#x skipped: %zu of %zu bytes taken at %zu", f.name.c_str(), set, used, piece.size(), p));
        if (p + step < in.size() && st != brunsli::BRUNSLI_NOT_ENOUGH_DATA) return c.Fail("skip-early", vf::Fmt("%s, sections %#x skipped: status %d after %zu of %zu bytes", f.name.c_str(), set, st, p + step, in.size()));
      }
    }
    if (st != brunsli::BRUNSLI_OK) return c.Fail("skip-status", vf::Fmt("%s, sections %#x skipped: status %d", f.name.c_str(), set, st));
    if (Dims(j) != Dims(full)) return c.Fail("skip-dims", vf::Fmt("%s, sections %#x skipped: %s instead of %s", f.name.c_str(), set, Dims(j).c_str(), Dims(full).c_str()));
    JPEGData none;
    none.components.resize(full.components.size());
    for (int t : kParts) {
      bool want = !In(t);
      // without its own section a part stays as it was; AC of a DC-only decode: zeros
      JPEGData zero;
      const JPEGData* ref = want ? &full : &none;
      if (t == sec::AC && !want && !In(sec::DC)) {
        zero.components.resize(full.components.size());
        for (size_t i = 0; i < full.components.size(); ++i) zero.components[i].coeffs.resize(full.components[i].coeffs.size());
        ref = &zero;
      }
      if (Part(j, t) != Part(*ref, t)) return c.Fail("skip-structure", vf::Fmt("%s, sections %#x skipped: %s %s", f.name.c_str(), set, PartName(t), want ? "differ although their section is decoded" : "present although their section is skipped"));
    }
  });
  // tags_met: a section announced as met is a duplicate when it comes
  r.Add("met", big->size() * 64, [=](vf::Case& c) {
    vf::Radix x(c.index);
    auto& f = (*big)[x(big->size())];
    int set = (int)x(64);
    sec::Stream ss;
    sec::Split(f.brn, &ss);
    bool dup = false;
    for (int k = 0; k < 6; ++k) if (((set >> k) & 1) && ss.Find(kSec[k])) dup = true;
    c.nontrivial = set != 0;
    c.hash = vf::Fnv(f.brn, set + 1000);
    State s;
    JPEGData j;
    if (!Prepare(f, &s, &j)) return c.Fail("prepare", f.name + ": the header values are refused");
    for (int k = 0; k < 6; ++k) if ((set >> k) & 1) s.tags_met |= 1u << kSec[k];
    int st = Process(&s, &j, f.body), want = dup ? brunsli::BRUNSLI_INVALID_BRN : brunsli::BRUNSLI_OK;
    if (st != want) c.Fail("met-status", vf::Fmt("%s, sections %#x announced as met: status %d, expected %d", f.name.c_str(), set, st, want));
  });
  // arithmetic of the block grid
  {
    static const int dims[] = {1, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 63, 64, 65, 119, 120, 121, 127, 128, 129, 4095, 4096, 8191, 16383, 16384, 32767, 32768, 65534, 65535};
    static const int sf[] = {1, 2, 3, 4, 7, 15};
    const int D = sizeof dims / sizeof dims[0];
    r.Add("grid", (uint64_t)D * D * 36 * 36 * 2, [=](vf::Case& c) {
      vf::Radix x(c.index);
      int w = dims[x(D)], h = dims[x(D)], a = (int)x(36), b = (int)x(36), comps = 1 + (int)x(2);
      if (comps == 1 && b) return;
      JPEGData j;
      j.width = w;
      j.height = h;
      j.components.resize(comps);
      int s[2][2] = {{sf[a % 6], sf[a / 6]}, {sf[b % 6], sf[b / 6]}};
      int64_t mh = 1, mv = 1;
      for (int i = 0; i < comps; ++i) {
        j.components[i].h_samp_factor = s[i][0];
        j.components[i].v_samp_factor = s[i][1];
        mh = std::max<int64_t>(mh, s[i][0]);
        mv = std::max<int64_t>(mv, s[i][1]);
      }
      c.nontrivial = comps > 1;
      c.hash = c.index + 1;
      int64_t cols = 0, rows = 0;
      cols = (w + mh * 8 - 1) / (mh * 8);
      rows = (h + mv * 8 - 1) / (mv * 8);
      bool fits = true;
      for (int i = 0; i < comps; ++i) if (cols * s[i][0] * rows * s[i][1] > (int64_t)brunsli::kBrunsliMaxNumBlocks) fits = false;
      bool got = brunsli::internal::dec::UpdateSubsamplingDerivatives(&j);
      std::string what = vf::Fmt("%dx%d, %d components %dx%d %dx%d", w, h, comps, s[0][0], s[0][1], s[1][0], s[1][1]);
      if (got != fits) return c.Fail("grid-verdict", vf::Fmt("%s: %s", what.c_str(), got ? "accepted, too many blocks" : "refused"));
      if (!got) return;
      if (j.max_h_samp_factor != mh || j.max_v_samp_factor != mv || j.MCU_cols != cols || j.MCU_rows != rows) return c.Fail("grid-mcu", what + ": MCU layout");
      State st;
      brunsli::internal::dec::PrepareMeta(&j, &st);
      for (int i = 0; i < comps; ++i) {
        auto& q = j.components[i];
        if (q.width_in_blocks != cols * s[i][0] || q.height_in_blocks != rows * s[i][1] || q.num_blocks != cols * s[i][0] * rows * s[i][1]) return c.Fail("grid-blocks", vf::Fmt("%s: component %d", what.c_str(), i));
        if (st.meta[i].h_samp != s[i][0] || st.meta[i].v_samp != s[i][1] || st.meta[i].width_in_blocks != cols * s[i][0] || st.meta[i].height_in_blocks != rows * s[i][1]) return c.Fail("grid-meta", vf::Fmt("%s: meta of component %d", what.c_str(), i));
      }
    });
  }
  return r.Main();
}
