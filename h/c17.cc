// C17: the bit reader against a list of bits.
#include <dec/bit_reader.h>
#include <memory>
#include "runner.h"
using namespace brunsli;
namespace {
typedef std::string Bytes;
struct Op { int kind; uint32_t n; };
enum { kRead, kPeek, kPeekDrop, kCan, kMore, kHealth, kOptimistic };
// Model: what the caller may observe.
struct Model {
  size_t size = 0;      // bytes in total
  size_t start = 0;     // first byte of the current piece
  size_t end = 0;       // end of the current piece
  size_t pos = 0;       // bits consumed
  bool overrun = false; // consumed bits that the current piece does not have
  bool optimistic = false;
  bool normal = true;   // everything peeked was used
  bool Same(const Model& o) const { return Key() == o.Key(); }
  std::string Key() const { return vf::Fmt("%zu %zu %zu %zu %d%d%d", size, start, end, pos, overrun, optimistic, normal); }
  uint32_t Bits(const Bytes& d, uint32_t n) const {
    uint32_t v = 0;
    for (uint32_t i = 0; i < n; ++i) {
      size_t b = pos + i;
      if (!overrun && b < end * 8) v |= (uint32_t)(((uint8_t)d[b >> 3] >> (b & 7)) & 1) << i;
    }
    return v;
  }
  void Consume(uint32_t n) {
    pos += n;
    if (pos > end * 8) overrun = true;
  }
  size_t FirstUnused() const { return std::min((pos + 7) / 8, end); }
  // op on the model only; false: not part of the contract in this state
  bool Apply(const Op& o) {
    switch (o.kind) {
      case kRead: Consume(o.n); return true;
      case kPeek: normal = false; return true;
      case kPeekDrop: Consume((o.n >> 8)); normal = (o.n >> 8) == (o.n & 255) && normal; return true;
      case kCan: return normal;
      case kMore:
        if (overrun) return false;
        start = FirstUnused();
        end = std::min(size, end + o.n);
        optimistic = false;
        normal = true;
        return true;
      case kHealth: normal = true; return true;
      case kOptimistic: optimistic = true; return true;
    }
    return false;
  }
};
struct Piece {  // exactly sized, released when the reader is suspended
  uint8_t* p = nullptr;
  void Set(const Bytes& b) { Drop(); p = (uint8_t*)malloc(b.size() ? b.size() : 1); if (b.size()) memcpy(p, b.data(), b.size()); }
  void Drop() { free(p); p = nullptr; }
  ~Piece() { Drop(); }
};
std::string Name(const Op& o) {
  static const char* n[] = {"Read", "Peek", "PeekDrop", "CanRead", "More", "Healthy", "Optimistic"};
  return o.kind == kPeekDrop ? vf::Fmt("Peek(%u)+Drop(%u)", o.n & 255, o.n >> 8) : vf::Fmt("%s(%u)", n[o.kind], o.n);
}
// Plays |ops|; "" if every observation agrees with the model.
std::string Play(const Bytes& d, size_t first, const std::vector<Op>& ops, bool* overran) {
  Model m;
  m.size = d.size();
  m.end = std::min(first, d.size());
  BrunsliBitReader br;
  memset(&br, 0xEE, sizeof br);
  Piece piece;
  BrunsliBitReaderInit(&br);
  piece.Set(d.substr(0, m.end));
  BrunsliBitReaderResume(&br, piece.p, m.end);
  std::string w = vf::Fmt("first piece %zu of %zu:", m.end, d.size());
  for (auto& o : ops) {
    Model before = m;
    if (!m.Apply(o)) { m = before; continue; }
    w += " " + Name(o);
    switch (o.kind) {
      case kRead: {
        uint32_t v = BrunsliBitReaderRead(&br, o.n), e = before.Bits(d, o.n);
        if (v != e) return w + vf::Fmt(": %#x, expected %#x", v, e);
        break;
      }
      case kPeek: {
        uint32_t v = BrunsliBitReaderGet(&br, o.n), e = before.Bits(d, o.n);
        if (v != e) return w + vf::Fmt(": %#x, expected %#x", v, e);
        break;
      }
      case kPeekDrop: {
        uint32_t n = o.n & 255, v = BrunsliBitReaderGet(&br, n), e = before.Bits(d, n);
        if (v != e) return w + vf::Fmt(": %#x, expected %#x", v, e);
        BrunsliBitReaderDrop(&br, o.n >> 8);
        break;
      }
      case kCan: {
        bool v = BrunsliBitReaderCanRead(&br, o.n), e = before.optimistic || (!before.overrun && before.pos + o.n <= before.end * 8);
        if (v != e) return w + vf::Fmt(": %d, expected %d", v, e);
        break;
      }
      case kMore: {
        size_t v = BrunsliBitReaderSuspend(&br), e = before.end - before.FirstUnused();
        if (v != e) return w + vf::Fmt(": Suspend gives %zu, expected %zu", v, e);
        piece.Set(d.substr(m.start, m.end - m.start));
        BrunsliBitReaderResume(&br, piece.p, m.end - m.start);
        break;
      }
      case kHealth: {
        bool v = BrunsliBitReaderIsHealthy(&br);
        if (v != !before.overrun) return w + vf::Fmt(": %d", v);
        break;
      }
      case kOptimistic: BrunsliBitReaderSetOptimistic(&br); break;
    }
  }
  bool h = BrunsliBitReaderIsHealthy(&br);
  if (h != !m.overrun) return w + vf::Fmt(" - healthy: %d", h);
  size_t u = BrunsliBitReaderSuspend(&br), e = m.end - m.FirstUnused();
  if (!m.overrun && u != e) return w + vf::Fmt(" - Suspend gives %zu, expected %zu", u, e);
  if (m.overrun && u != 0) return w + vf::Fmt(" - Suspend after overrun gives %zu", u);
  piece.Drop();
  BrunsliBitReaderFinish(&br);
  bool pad = false;
  if (!m.overrun && m.pos % 8) pad = ((uint8_t)d[m.pos / 8] >> (m.pos % 8)) != 0;
  h = BrunsliBitReaderIsHealthy(&br);
  if (h != (!m.overrun && !pad)) return w + vf::Fmt(" - healthy after Finish: %d, expected %d", h, !m.overrun && !pad);
  *overran = m.overrun;
  return "";
}
std::vector<Bytes> Data(size_t max) {
  std::vector<Bytes> v;
  for (size_t n = 0; n <= max; ++n) {
    v.push_back(Bytes(n, 0));
    if (!n) continue;
    v.push_back(Bytes(n, (char)0xff));
    Bytes a, b;
    for (size_t i = 0; i < n; ++i) { a += (char)(0x35 + 0x4d * i); b += (char)(0x80 >> (i * 3 % 8)); }
    v.push_back(a);
    v.push_back(b);
  }
  return v;
}
}  // namespace
int main(int argc, char** argv) {
  vf::Runner r("C17", argc, argv);
  bool deep = r.thorough();
  int over = r.Counter("overruns"), traces = r.Counter("traces_replayed");
  r.rule = "all operation sequences of the stated depth over all data sizes, patterns and first pieces, played on the real reader and on a list of bits, every observation compared; non-trivial: at least one data byte";
  std::vector<Op> ops;
  for (uint32_t n : {0, 1, 2, 5, 7, 8, 9, 13, 16, 17, 24}) ops.push_back({kRead, n});
  for (uint32_t n : {1, 8, 15, 24}) ops.push_back({kPeek, n});
  for (uint32_t p : {9, 16, 24}) for (uint32_t n : {0, 1, 7, 8, 9}) ops.push_back({kPeekDrop, p | n << 8});
  for (uint32_t n : {1, 8, 9, 24}) ops.push_back({kCan, n});
  for (uint32_t n : {0, 1, 2, 9}) ops.push_back({kMore, n});
  ops.push_back({kHealth, 0});
  ops.push_back({kOptimistic, 0});
  auto small = std::vector<Op>{{kRead, 1}, {kRead, 7}, {kRead, 8}, {kRead, 17}, {kRead, 24}, {kPeekDrop, 16 | 3 << 8}, {kPeekDrop, 24 | 9 << 8}, {kPeek, 24}, {kCan, 9}, {kMore, 0}, {kMore, 1}, {kHealth, 0}};
  auto add = [&](const char* name, std::vector<Op> A, int D, size_t max) {
    auto data = std::make_shared<std::vector<Bytes>>(Data(max));
    uint64_t f = data->size() * (max + 1);
    for (int i = 0; i < D; ++i) f *= A.size();
    r.Add(name, f, [=](vf::Case& c) {
      vf::Radix x(c.index);
      std::vector<Op> s;
      for (int i = 0; i < D; ++i) s.push_back(A[x(A.size())]);
      size_t first = x(max + 1);
      const Bytes& d = (*data)[x(data->size())];
      if (first > d.size()) return;
      c.nontrivial = !d.empty();
      c.hash = vf::Mix(c.index) + vf::Fnv(name, strlen(name));
      bool o = false;
      c.Count(traces);
      std::string e = Play(d, first, s, &o);
      if (o) c.Count(over);
      if (!e.empty()) c.Fail("differs", vf::Fmt("data %s ", vf::Hex(d).c_str()) + e, d);
    });
  };
  add("wide", ops, 3, deep ? 9 : 7);
  add("deep", small, deep ? 6 : 5, deep ? 6 : 4);
  // all bit counts in sequence, all byte values
  r.Add("every-count", 25 * 25 * 25 * 9, [=](vf::Case& c) {
    vf::Radix x(c.index);
    std::vector<Op> s;
    for (int i = 0; i < 3; ++i) s.push_back({kRead, (uint32_t)x(25)});
    s.push_back({kMore, 9});
    s.push_back({kRead, 11});
    size_t first = x(9);
    Bytes d("\x9d\x63\xe1\x07\xb5\x2a\xc8\x7e\x11\xf3", 10);
    c.nontrivial = true;
    c.hash = c.index;
    bool o;
    c.Count(traces);
    std::string e = Play(d, first, s, &o);
    if (!e.empty()) c.Fail("differs", e, d);
  });
  r.Add("every-padding", 256 * 9, [=](vf::Case& c) {
    Bytes d(1, (char)(c.index & 255));
    d += (char)0xff;
    c.nontrivial = true;
    c.hash = c.index + 1000000;
    bool o;
    c.Count(traces);
    std::string e = Play(d, 1, {{kRead, (uint32_t)(c.index >> 8)}}, &o);
    if (!e.empty()) c.Fail("differs", e, d);
  });
  // states of the model reachable with the operation set (for the report)
  {
    std::set<std::string> seen;
    std::vector<Model> q;
    uint64_t tr = 0;
    for (size_t n = 0; n <= 4; ++n) for (size_t f = 0; f <= n; ++f) { Model m; m.size = n; m.end = f; if (seen.insert(m.Key()).second) q.push_back(m); }
    while (!q.empty()) {
      Model m = q.back();
      q.pop_back();
      if (m.pos > 8 * m.size + 24) continue;
      for (auto& o : ops) { Model k = m; if (!k.Apply(o)) continue; ++tr; if (seen.insert(k.Key()).second) q.push_back(k); }
    }
    r.extra["states"] = vf::Fmt("%zu", seen.size());
    r.extra["transitions"] = vf::Fmt("%llu", (unsigned long long)tr);
    r.extra["traces_validated_against_impl"] = "$traces_replayed";
  }
  return r.Main();
}
