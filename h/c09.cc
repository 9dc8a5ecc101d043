// C09: the container grammar, as an explicit automaton, replayed on the decoder.
#include <queue>
#include <set>
#include "corpus.h"
#include "sections.h"
#include "stream.h"
using codec::Bytes;
using sec::Elem;

// --- the model -------------------------------------------------------------
// What a reader of the format description knows: which elements may follow.
struct MState {
  uint32_t met = 0;      // tags seen at top level
  bool dead = false, done = false;
  bool operator<(const MState& o) const {
    return met != o.met ? met < o.met : dead != o.dead ? dead < o.dead : done < o.done;
  }
};
static bool Has(const MState& s, int tag) { return s.met >> tag & 1; }
static MState Start() { MState s; s.met = 1u << 1 | 1u << 2; return s; }  // signature, header
static MState Step(MState s, int tag, int wire, bool intact) {
  if (s.done || s.dead) { s.dead = true; return s; }
  if (tag < 1 || tag > 15 || (wire != 0 && wire != 2) || Has(s, tag) || tag == 9) { s.dead = true; return s; }
  bool known = tag >= 1 && tag <= 9;
  if (known && wire == 0) { s.dead = true; return s; }
  if (known && !intact) { s.dead = true; return s; }
  if (tag == sec::QUANT || tag == sec::HIST) if (!Has(s, sec::INTERNALS)) s.dead = true;
  if (tag == sec::DC) if (!Has(s, sec::QUANT) || !Has(s, sec::HIST)) s.dead = true;
  if (tag == sec::AC) { if (!Has(s, sec::DC)) s.dead = true; else s.done = true; }
  s.met |= 1u << tag;
  return s;
}

// --- replay ------------------------------------------------------------------
struct Ctr { int replays, acc, rej; };
static void Verdict(vf::Case& c, const Ctr& k, const std::string& what, const Bytes& in, int expect /*1 ok 0 no -1 either*/,
                    const Bytes& jpg, int modes = 3) {
  Bytes out;
  int st = 0;
  int rc = codec::Decode(in, &out, &st);
  c.Count(k.replays);
  c.Count(rc ? k.rej : k.acc);
  if (expect == 1 && rc) { c.Fail("rejects", vf::Fmt("%s: follows the grammar but is rejected (rc %d status %d)", what.c_str(), rc, st), in); return; }
  if (expect == 0 && !rc) { c.Fail("accepts", vf::Fmt("%s: breaks the grammar but is accepted", what.c_str()), in); return; }
  if (!rc && out != jpg) { c.Fail("altered", vf::Fmt("%s: accepted but the file differs at %zu", what.c_str(), codec::FirstDiff(out, jpg)), in); return; }
  static const struct { size_t i, o; } m[] = {{1u << 30, 6000}, {1, 500}, {7, 64}};
  for (int q = 0; q < modes; ++q) {
    auto s = stream::Uniform(in, m[q].i, m[q].o);
    if (!s.contract.empty()) continue;
    if (!rc && (s.end != stream::kDone || s.out != out)) { c.Fail("streaming", vf::Fmt("%s: one-shot accepts, streaming in chunks of %zu ends with \"%s\", %zu bytes", what.c_str(), m[q].i, stream::EndName(s.end), s.out.size()), in); return; }
    if (rc && s.end == stream::kDone && s.consumed == in.size()) { c.Fail("streaming", vf::Fmt("%s: one-shot rejects, streaming in chunks of %zu accepts", what.c_str(), m[q].i), in); return; }
  }
}

struct Base {
  std::string name;
  Bytes jpg;
  sec::Stream s;
  bool meta_needed;
};

int main(int argc, char** argv) {
  vf::Runner r("C09", argc, argv);
  bool deep = r.thorough();
  Ctr k;
  k.replays = r.Counter("traces_replayed");
  k.acc = r.Counter("accepted");
  k.rej = r.Counter("rejected");
  r.rule = "every reachable state of the grammar automaton is entered by its shortest path and every container element is tried in it, "
           "then the stream is completed; verdict and decoded file of the one-shot and the streaming decoder are compared with the automaton; "
           "non-trivial: the element is not the one the encoder would have written next";
  auto corp = corpus::Load();
  std::vector<Base> bases;
  for (const char* n : {"420-v2", "no-meta-v2", "prog-v0", "meta-v2", "cmyk-v2"}) {
    auto& e = corpus::Get(corp, n);
    Base b;
    b.name = n;
    b.jpg = e.jpg;
    if (!sec::Split(e.brn, &b.s)) { fprintf(stderr, "cannot split %s\n", n); return 2; }
    b.meta_needed = b.s.Find(sec::META)->body.size() > 0;
    bases.push_back(b);
  }

  // --- BFS over the automaton (unknown tags: 10, 12 and 15) ------------------
  struct Op { int tag, wire; int kind; };  // kind 0 genuine/empty, 1.. body variants
  std::vector<Op> ops;
  for (int t = 0; t <= 18; ++t) for (int w = 0; w < 8; ++w) {
    if (w != 0 && w != 2 && t != 12 && t != 4 && t != 7) continue;
    ops.push_back({t, w, 0});
    if (w == 2 && t > 9 && t < 16) { ops.push_back({t, w, 1}); ops.push_back({t, w, 2}); }
    if (w == 0 && t > 9 && t < 16) { ops.push_back({t, w, 1}); ops.push_back({t, w, 2}); }
    if (w == 2 && t >= 3 && t <= 8) for (int q = 3; q <= 11; ++q) ops.push_back({t, w, q});
  }
  auto MakeElem = [](const Base& b, const Op& o, bool* intact) {
    Elem e;
    e.tag = o.tag;
    e.wire = o.wire;
    *intact = true;
    const Elem* g = b.s.Find(o.tag);
    if (g) e.body = g->body;
    if (o.wire == 2 && o.tag > 9) {
      if (o.kind == 1) e.body = "x";
      if (o.kind == 2) { e.body = Bytes(700, '\x52'); e.width = 5; }
    }
    if (o.wire == 0) e.value = o.kind == 0 ? 0 : o.kind == 1 ? 300 : 0x7fffffffffffffffull;
    switch (o.kind) {
      case 3: e.body += '\0'; *intact = false; break;
      case 4: e.body += Bytes("\0\0", 2); *intact = false; break;
      case 5: if (e.body.empty()) break; e.body.erase(e.body.size() - 1); *intact = false; break;
      case 6: if (e.body.size() < 2) break; e.body.erase(e.body.size() - 2); *intact = false; break;
      case 7: e.skew = 1; *intact = false; break;
      case 8: e.skew = 2; *intact = false; break;
      case 9: if (e.body.empty()) break; e.skew = -1; *intact = false; break;
      case 10: if (e.body.size() < 2) break; e.skew = -2; *intact = false; break;
      case 11: e.width = 4; break;  // longer spelling of the same length
    }
    return e;
  };
  std::set<int> unknown = {10, 12, 15};
  if (deep) unknown = {10, 11, 12, 13, 14, 15};
  std::vector<MState> states;
  std::vector<std::vector<Op>> path;
  uint64_t transitions = 0;
  {
    std::set<MState> seen;
    std::queue<std::pair<MState, std::vector<Op>>> q;
    q.push({Start(), {}});
    seen.insert(Start());
    while (!q.empty()) {
      auto p = q.front();
      q.pop();
      states.push_back(p.first);
      path.push_back(p.second);
      if (p.first.done) continue;
      for (int t = 1; t <= 15; ++t) for (int w = 0; w <= 2; w += 2) {
        if (t > 9 && !unknown.count(t)) continue;
        MState n = Step(p.first, t, w, true);
        if (n.dead || !seen.insert(n).second) continue;
        auto np = p.second;
        np.push_back({t, w, 0});
        q.push({n, np});
      }
    }
  }
  for (auto& s : states) (void)s, transitions += ops.size();
  auto Complete = [](const Base& b, MState m, sec::Stream* s) {
    for (int t : {sec::INTERNALS, sec::META, sec::QUANT, sec::HIST, sec::DC, sec::AC})
      if (!m.done && !Has(m, t)) {
        Elem e = sec::Section(t, b.s.Find(t)->body);
        s->body.push_back(e);
        m = Step(m, t, 2, true);
      }
  };
  auto Walk = [=](const Base& b, const std::vector<Op>& p, sec::Stream* s) {
    s->header = b.s.header;
    MState m = Start();
    for (auto& o : p) {
      bool in;
      s->body.push_back(MakeElem(b, o, &in));
      m = Step(m, o.tag, o.wire, in);
    }
    return m;
  };
  auto Tell = [](const std::vector<Op>& p, const Op* o) {
    std::string t = "after";
    for (auto& e : p) t += vf::Fmt(" %d%s", e.tag, e.wire == 0 ? "v" : "");
    if (o) t += vf::Fmt(": tag %d wire %d form %d", o->tag, o->wire, o->kind);
    return t;
  };
  // META may be absent only when there is nothing to put there
  auto Expect = [](const Base& b, const MState& m) { return m.dead || !m.done ? 0 : Has(m, sec::META) || !b.meta_needed ? 1 : 0; };
  uint64_t SO = (uint64_t)states.size() * ops.size();
  size_t nb = bases.size();
  r.Add("automaton", SO * nb, [=](vf::Case& c) {
    const Base& b = bases[c.index / SO];
    size_t si = c.index % SO / ops.size(), oi = c.index % ops.size();
    sec::Stream s;
    MState m = Walk(b, path[si], &s);
    bool intact;
    Elem e = MakeElem(b, ops[oi], &intact);
    s.body.push_back(e);
    m = Step(m, ops[oi].tag, ops[oi].wire, intact);
    c.nontrivial = true;
    std::string w = b.name + " " + Tell(path[si], &ops[oi]);
    // as it stands, and completed
    Verdict(c, k, w + ", end", s.Put(), Expect(b, m), b.jpg, 2);
    if (c.failed) return;
    MState end = m;
    sec::Stream t = s;
    if (!m.done) {
      Complete(b, m.dead ? [&] { MState g = m; g.dead = false; return g; }() : m, &t);
      if (!m.dead) end.done = true, end.met |= 1u << 3;
    } else {
      t.body.push_back(sec::Section(12, ""));  // something after the end
      end.dead = true;
    }
    Verdict(c, k, w + ", completed", t.Put(), Expect(b, end), b.jpg, 2);
  }, [=](uint64_t i) { return bases[i / SO].name + " " + Tell(path[i % SO / ops.size()], &ops[i % ops.size()]); });

  // --- every sequence of elements up to a length -------------------------------
  {
    const int A = 9, D = deep ? 8 : 7;
    static const int tags[A] = {3, 4, 5, 6, 7, 8, 12, 14, 0};  // last: end
    uint64_t n = 1;
    for (int i = 0; i < D; ++i) n *= A;
    for (size_t bi = 0; bi < 2; ++bi) {
      r.Add(vf::Fmt("sequences-%s", bases[bi].name.c_str()), n, [=](vf::Case& c) {
        const Base& b = bases[bi];
        vf::Radix x(c.index);
        sec::Stream s;
        s.header = b.s.header;
        MState m = Start();
        std::string w = b.name + " sequence";
        bool ended = false;
        for (int i = 0; i < D; ++i) {
          int t = tags[x(A)];
          if (!t) { ended = true; continue; }
          if (ended) return;  // same as a shorter one
          if (m.dead) { if (i > 0 && t != 12) return; }  // one continuation after death is enough
          Elem e = t == 14 ? sec::Varint(14, 5) : t == 12 ? sec::Section(12, "abc") : sec::Section(t, b.s.Find(t)->body);
          s.body.push_back(e);
          m = Step(m, t, e.wire, true);
          w += vf::Fmt(" %d", t);
        }
        c.nontrivial = s.body.size() > 1;
        Verdict(c, k, w, s.Put(), Expect(b, m), b.jpg, 2);
      });
    }
  }
  // --- header items -------------------------------------------------------------
  {
    // item alphabet: the four values, unknown varint / section, a value as section, duplicate handled by sequence
    const int A = 11, D = deep ? 6 : 5;
    uint64_t n = 1;
    for (int i = 0; i < D; ++i) n *= A;
    r.Add("header-items", n, [=](vf::Case& c) {
      const Base& b = bases[1];
      vf::Radix x(c.index);
      sec::Stream s = b.s;
      s.header.clear();
      uint32_t met = 0;
      bool bad = false, ended = false;
      std::string w = "header items";
      for (int i = 0; i < D; ++i) {
        int o = x(A);
        if (o == 10) { ended = true; continue; }
        if (ended) return;
        Elem e;
        if (o < 4) { for (auto& q : b.s.header) if (q.tag == o + 1) e = q; }
        else if (o == 4) e = sec::Varint(5, 77);
        else if (o == 5) e = sec::Varint(15, 0);
        else if (o == 6) e = sec::Section(9, "hello");
        else if (o == 7) e = sec::Section(5, "");
        else if (o == 8) { e = sec::Section(2, "\x08"); bad = true; }
        else { e = sec::Varint(8, 1u << 20); }
        if (met >> e.tag & 1) bad = true;
        met |= 1u << e.tag;
        s.header.push_back(e);
        w += vf::Fmt(" %d%s", e.tag, e.wire ? "s" : "v");
      }
      bool all = (met & 0x1e) == 0x1e;
      c.nontrivial = s.header.size() > 0;
      Verdict(c, k, w, s.Put(), !bad && all, b.jpg, bad || !all ? 2 : 3);
    });
    static const int64_t sk[] = {-20, -3, -2, -1, 1, 2, 3, 4, 20, 1000};
    r.Add("header-form", bases.size() * 40, [=](vf::Case& c) {
      const Base& b = bases[c.index / 40];
      int q = c.index % 40;
      sec::Stream s = b.s;
      std::string w = b.name;
      int expect = 0;
      if (q < 10) { s.header_skew = sk[q]; w += vf::Fmt(" header length off by %d", (int)sk[q]); if ((int64_t)(s.header.size() * 2) + sk[q] < 0) return; }
      else if (q < 18) { if (q - 10 == 2) expect = 1; s.header_wire = q - 10; w += vf::Fmt(" header wire type %d", q - 10); }
      else if (q < 36) { s.header_tag = q - 18; expect = q - 18 == 2; w += vf::Fmt(" header tag %d", q - 18); }
      else if (q == 36) { for (auto& e : s.header) e.width = 9; expect = 1; w += " 9-byte values"; }
      else if (q == 37) { for (auto& e : s.header) e.width = 10; w += " 10-byte values"; }
      else if (q == 38) { for (auto& e : s.body) e.width = 9; expect = 1; w += " 9-byte lengths"; }
      else { for (auto& e : s.body) e.width = 10; w += " 10-byte lengths"; }
      c.nontrivial = true;
      Verdict(c, k, w, s.Put(), expect, b.jpg);
    });
    // header values
    static const uint64_t dim[] = {0, 1, 2, 7, 8, 9, 16, 17, 65535, 65536, 65537, 1u << 20, 1ull << 32, (1ull << 32) + 8, 1ull << 40, (1ull << 63) - 1};
    r.Add("header-values", 16 * 2 * bases.size() + 300 * bases.size(), [=](vf::Case& c) {
      const Base& b = bases[c.index % bases.size()];
      uint64_t q = c.index / bases.size();
      sec::Stream s = b.s;
      std::string w = b.name;
      uint64_t orig[16] = {0};
      for (auto& e : s.header) orig[e.tag & 15] = e.value;
      int expect = -1;
      if (q < 32) {
        int tag = 1 + (q & 1);
        uint64_t v = dim[q / 2];
        for (auto& e : s.header) if (e.tag == tag) e.value = v;
        w += vf::Fmt(" dimension %d = %llu", tag, (unsigned long long)v);
        if (v == 0 || v > 65535) expect = 0;
        if (v == orig[tag]) expect = 1;
        if (expect == -1) {
          // a different size is a different picture: only agreement is demanded
          if (v > 100) return;
          Bytes in = s.Put(), out;
          int rc = codec::Decode(in, &out);
          auto st = stream::Uniform(in, 1, 1000);
          c.Count(k.replays);
          if (!rc && (st.end != stream::kDone || st.out != out)) c.Fail("streaming", w + ": one-shot accepts, streaming does not", in);
          if (rc && st.end == stream::kDone && st.consumed == in.size()) c.Fail("streaming", w + ": one-shot rejects, streaming accepts", in);
          return;
        }
      } else {
        uint64_t v = q - 32;  // version and component count, 0..299
        uint64_t ver = v >> 2;
        for (auto& e : s.header) if (e.tag == 3) e.value = v;
        w += vf::Fmt(" version/components value %d", (int)v);
        if (v == orig[3]) expect = 1;
        else if (ver > 7 || (ver & 1)) expect = 0;  // undefined bits; odd ones are fallback and then nothing fits
        else if ((v & 3) != (orig[3] & 3)) return;  // covered by damage checks
        else return;
      }
      c.nontrivial = true;
      Verdict(c, k, w, s.Put(), expect, b.jpg, 2);
    });
    // one value far out of range next to one in range (both huge: product must not wrap)
    r.Add("signature", 6 * 256 + 7, [=](vf::Case& c) {
      const Base& b = bases[1];
      Bytes in = b.s.Put();
      std::string w;
      int expect = 0;
      if (c.index < 6 * 256) {
        size_t at = c.index / 256;
        uint8_t v = c.index % 256;
        expect = (uint8_t)in[at] == v;
        in[at] = (char)v;
        w = vf::Fmt("signature byte %zu = %d", at, v);
      } else {
        in.erase(0, c.index - 6 * 256);
        expect = c.index == 6 * 256;
        w = vf::Fmt("first %d bytes missing", (int)(c.index - 6 * 256));
      }
      c.nontrivial = true;
      Verdict(c, k, w, in, expect, b.jpg, 2);
    });
  }
  // --- fallback streams -----------------------------------------------------------
  {
    // sequences over: the payload section, unknown section/varint, known sections, end
    static const int tags[] = {9, 12, 14, 4, 3, 8, 0, 1, 2};
    const int A = 9, D = 4;
    r.Add("fallback-sequences", A * A * A * A, [=](vf::Case& c) {
      vf::Radix x(c.index);
      sec::Stream s;
      s.header = {sec::Varint(3, 4)};
      bool ended = false;
      std::string w = "fallback";
      std::vector<int> seq;
      for (int i = 0; i < D; ++i) {
        int t = tags[x(A)];
        if (!t) { ended = true; continue; }
        if (ended) return;
        seq.push_back(t);
        s.body.push_back(t == 14 ? sec::Varint(14, 5) : sec::Section(t, t == 9 ? "payload" : "abc"));
        w += vf::Fmt(" %d", t);
      }
      c.nontrivial = seq.size() > 0;
      Verdict(c, k, w, s.Put(), seq.size() == 1 && seq[0] == 9, "payload");
    });
    r.Add("fallback-form", 64, [=](vf::Case& c) {
      sec::Stream s;
      s.header = {sec::Varint(3, 4)};
      s.body = {sec::Section(9, "payload")};
      int q = c.index;
      int expect = 0;
      std::string w;
      if (q < 8) { s.body[0].wire = q; expect = q == 2; w = vf::Fmt("payload wire type %d", q); if (q == 0) s.body[0].value = 7; }
      else if (q < 24) { s.body[0].skew = q - 16; if (q - 16 < -7) return; expect = q == 16; w = vf::Fmt("payload length off by %d", q - 16); }
      else if (q < 40) { if (q < 25) return; s.header.push_back(sec::Varint(q - 24, 3)); expect = q - 24 != 3; w = vf::Fmt("extra header value %d", q - 24); }
      else if (q < 56) { if (q < 41) return; s.header.insert(s.header.begin(), sec::Section(q - 40, "zz")); expect = q - 40 > 4; w = vf::Fmt("extra header section %d", q - 40); }
      else if (q < 60) { s.header[0].value = 4 + (q - 56); expect = q == 56 ? 1 : -1; w = vf::Fmt("fallback version value %d", 4 + q - 56); }
      else if (q == 60) { s.header.clear(); w = "no version"; }
      else if (q == 61) { s.body[0].width = 9; expect = 1; w = "9-byte length"; }
      else if (q == 62) { s.body[0].width = 10; w = "10-byte length"; }
      else { s.body.clear(); w = "no payload"; }
      c.nontrivial = true;
      Verdict(c, k, "fallback " + w, s.Put(), expect, "payload");
    });
  }
  r.extra["states"] = vf::Fmt("%zu", states.size());
  r.extra["transitions"] = vf::Fmt("%llu", (unsigned long long)transitions);
  r.extra["traces_validated_against_impl"] = "$traces_replayed";
  return r.Main();
}
