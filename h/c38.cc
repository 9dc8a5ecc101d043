// C38: context maps - what the encoder writes and what the decoder reads, against the format's rules.
#include <common/platform.h>
#include <enc/context_map_encode.h>
#include <enc/huffman_encode.h>
#include <enc/write_bits.h>
#include <dec/bit_reader.h>
#include <dec/context_map_decode.h>
#include <dec/huffman_decode.h>
#include <algorithm>
#include "runner.h"
typedef std::vector<uint32_t> V;
typedef std::vector<uint8_t> B;
namespace {
template <class T> std::string Str(const std::vector<T>& v) {
  std::string r;
  for (size_t i = 0; i < v.size();) {
    size_t k = i;
    while (k < v.size() && v[k] == v[i]) ++k;
    r += vf::Fmt(r.empty() ? "%lld" : " %lld", (long long)v[i]);
    if (k - i > 1) r += vf::Fmt("x%zu", k - i);
    i = k;
  }
  return "[" + r + "]";
}
struct Reader {
  uint8_t* p;
  brunsli::BrunsliBitReader br;
  explicit Reader(const B& v) : p((uint8_t*)malloc(v.empty() ? 1 : v.size())) {
    memcpy(p, v.data(), v.size());
    brunsli::BrunsliBitReaderInit(&br);
    brunsli::BrunsliBitReaderResume(&br, p, v.size());
  }
  ~Reader() { free(p); }
  uint32_t Get(int n) { return brunsli::BrunsliBitReaderRead(&br, n); }
};
void Unshuffle(V* m) {  // inverse move-to-front
  V list(256);
  for (int i = 0; i < 256; ++i) list[i] = i;
  for (auto& x : *m) { uint32_t v = list[x]; list.erase(list.begin() + x); list.insert(list.begin(), v); x = v; }
}
struct Item { uint32_t sym, extra; };
// Expands items by the rule; false if a run does not fit.
bool Expand(const std::vector<Item>& items, uint32_t prefix, size_t len, bool mtf, V* m) {
  m->clear();
  for (auto& i : items) {
    if (!i.sym) m->push_back(0);
    else if (i.sym <= prefix) m->insert(m->end(), ((size_t)1 << i.sym) + i.extra, 0);
    else m->push_back(i.sym - prefix);
    if (m->size() > len) return false;
    if (m->size() == len) break;
  }
  if (mtf) Unshuffle(m);
  return true;
}
// The map as the encoder writes it.
void Written(vf::Case& c, const V& m, size_t clusters) {
  c.nontrivial = clusters > 1;
  c.hash = vf::Fnv(m.data(), 4 * m.size(), clusters);
  std::string t = vf::Fmt("%zu clusters, map ", clusters) + Str(m) + ": ";
  B buf(4 * m.size() + 3000, 0);
  {
    brunsli::Storage st(buf.data(), buf.size());
    brunsli::EncodeContextMap(m, clusters, &st);
    brunsli::WriteBits(16, 0xb5c3, &st);
    if (!st.IsHealthy()) return c.Fail("room", t + "does not fit");
    buf.resize(st.GetBytesUsed());
  }
  buf.resize(buf.size() + 8);
  auto count = [](Reader& r) { if (!r.Get(1)) return 1u; int n = r.Get(3); return 1 + (1u << n) + r.Get(n); };
  Reader r(buf);
  if (count(r) != clusters) return c.Fail("number", t + "number of clusters not as written");
  if (clusters == 1) { if (r.Get(16) != 0xb5c3) c.Fail("end", t + "bits behind the map are not where they should be"); return; }
  uint32_t prefix = r.Get(1);
  if (prefix) prefix += r.Get(4);
  brunsli::HuffmanDecodingData hd;
  if (!hd.ReadFromBitStream(clusters + prefix, &r.br)) return c.Fail("code", t + "prefix code refused");
  // once by the model
  Reader q(buf);
  {
    count(q);
    if (q.Get(1)) q.Get(4);
    brunsli::HuffmanDecodingData h2;
    h2.ReadFromBitStream(clusters + prefix, &q.br);
    std::vector<Item> items;
    size_t n = 0;
    while (n < m.size()) {
      uint32_t s = h2.ReadSymbol(&q.br), e = s && s <= prefix ? q.Get(s) : 0;
      items.push_back({s, e});
      n += s && s <= prefix ? ((size_t)1 << s) + e : 1;
    }
    bool mtf = q.Get(1);
    V got;
    if (n != m.size() || !Expand(items, prefix, m.size(), mtf, &got) || got != m) return c.Fail("written", t + "what is written stands for " + Str(got));
  }
  size_t index = 0;
  std::vector<uint8_t> out(m.size(), 0xee);
  out.shrink_to_fit();
  brunsli::BrunsliStatus s = brunsli::DecodeContextMap(hd, prefix, &index, &out, &r.br);
  if (s != brunsli::BRUNSLI_OK) return c.Fail("refused", t + vf::Fmt("status %d", (int)s));
  if (V(out.begin(), out.end()) != m) return c.Fail("read", t + "read as " + Str(out));
  if (index != m.size()) return c.Fail("index", t + vf::Fmt("%zu entries reported", index));
  if (r.Get(16) != 0xb5c3) c.Fail("end", t + "bits behind the map are not where they should be");
}
// Items written with a given code; what is read must be what they stand for.
void Items(vf::Case& c, std::vector<Item> items, uint32_t prefix, size_t clusters, size_t len, bool mtf) {
  c.hash = vf::Fnv(items.data(), sizeof(Item) * items.size(), prefix * 1000003 + clusters * 1009 + len * 2 + mtf);
  V hist(clusters + prefix, 0);
  for (auto& i : items) ++hist[i.sym];
  ++hist[0];
  ++hist[clusters + prefix - 1];
  B depth(hist.size(), 0), buf(6000, 0);
  std::vector<uint16_t> word(hist.size(), 0);
  {
    brunsli::Storage st(buf.data(), buf.size());
    brunsli::BuildAndStoreHuffmanTree(hist.data(), hist.size(), depth.data(), word.data(), &st);
    V probe;
    for (auto& i : items) {
      brunsli::WriteBits(depth[i.sym], word[i.sym], &st);
      if (i.sym && i.sym <= prefix) brunsli::WriteBits(i.sym, i.extra, &st);
      if (Expand({items.begin(), items.begin() + (&i - items.data()) + 1}, prefix, len, false, &probe) && probe.size() == len) break;
    }
    brunsli::WriteBits(1, mtf, &st);
    brunsli::WriteBits(16, 0xb5c3, &st);
    buf.resize(st.GetBytesUsed() + 8);
  }
  V want;
  bool ok = Expand(items, prefix, len, mtf, &want);
  c.nontrivial = ok;
  std::string t = vf::Fmt("%zu clusters, prefix %u, %zu entries, mtf %d, items", clusters, prefix, len, mtf);
  for (auto& i : items) t += i.sym && i.sym <= prefix ? vf::Fmt(" %u+%u", i.sym, i.extra) : vf::Fmt(" %u", i.sym);
  t += ": ";
  Reader r(buf);
  brunsli::HuffmanDecodingData hd;
  if (!hd.ReadFromBitStream(hist.size(), &r.br)) return c.Fail("code", t + "prefix code refused");
  size_t index = 0;
  std::vector<uint8_t> out(len, 0xee);
  brunsli::BrunsliStatus s = brunsli::DecodeContextMap(hd, prefix, &index, &out, &r.br);
  if (!ok) { if (s != brunsli::BRUNSLI_INVALID_BRN) c.Fail("accepted", t + vf::Fmt("a run beyond the end gives status %d", (int)s)); return; }
  if (s != brunsli::BRUNSLI_OK) return c.Fail("items-refused", t + vf::Fmt("status %d", (int)s));
  if (V(out.begin(), out.end()) != want) return c.Fail("items", t + "read as " + Str(out) + " instead of " + Str(want));
  if (r.Get(16) != 0xb5c3) c.Fail("items-end", t + "bits behind the map are not where they should be");
}
size_t Clusters(const V& m) { return *std::max_element(m.begin(), m.end()) + 1; }
}  // namespace

int main(int argc, char** argv) {
  vf::Runner r("C38", argc, argv);
  bool deep = r.thorough();
  r.rule = "every listed map is written by the encoder, read by the model and by the decoder; every listed sequence of items is read by the decoder and expanded by the model; non-trivial: several clusters, or accepted";
  r.assumptions = {"entries are smaller than the number of clusters, which is at most 256"};
  {
    const int L = deep ? 9 : 7;
    uint64_t n = 0, k = 1;
    for (int l = 1; l <= L; ++l) { k *= 4; n += k * 3; }
    r.Add("maps", n, [=](vf::Case& c) {
      uint64_t i = c.index, k = 4;
      int l = 1;
      while (i >= k * 3) { i -= k * 3; k *= 4; ++l; }
      vf::Radix x(i);
      size_t more = x(3);
      V m;
      for (int q = 0; q < l; ++q) m.push_back((uint32_t)x(4));
      Written(c, m, Clusters(m) + (more == 2 ? 252 : more));  // clusters that are not used
    });
  }
  r.Add("runs", 420 * 40 * 6, [](vf::Case& c) {  // two runs between other entries
    vf::Radix x(c.index);
    static const int second[] = {0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 31, 32, 62, 63, 64, 65, 66, 95, 96, 126, 127, 128, 129, 130, 190, 191, 192, 193, 253, 254, 255, 256, 380, 381, 382, 383, 511, 1000, 4095, 9000};
    int a = (int)x(420), b = second[x(40)], how = (int)x(6);
    V m;
    if (how & 1) { m.push_back(2); m.push_back(1); }
    m.insert(m.end(), a, how >= 4 ? 3 : 0);
    m.push_back(1);
    m.push_back(2);
    m.insert(m.end(), b, how == 2 ? 0 : 2);
    if (how != 3) m.push_back(0);
    Written(c, m, Clusters(m));
  });
  r.Add("many", 255 * 12 * 8, [](vf::Case& c) {  // up to 256 clusters, in different orders
    vf::Radix x(c.index);
    uint32_t n = (uint32_t)x(255) + 2;
    int step = (int)x(12) + 1, rep = (int)x(8);
    static const int reps[] = {1, 2, 3, 9, 17, 64, 65, 200};
    V m;
    for (uint32_t i = 0; i < n; ++i) {
      uint32_t v = step == 12 ? n - 1 - i : i * step % n;
      m.insert(m.end(), i % 5 == 3 ? reps[rep] : rep > 3 ? 1 : reps[rep], v);
      if (i % 7 == 0) m.push_back(n - 1);
    }
    m.push_back(n - 1);
    Written(c, m, n);
  });
  {  // items: all short sequences
    const int L = deep ? 6 : 5;
    static const uint32_t clus[] = {2, 3, 5, 256}, len[] = {1, 2, 5, 6, 7, 8, 20, 63};
    uint64_t k = 1;
    for (int i = 0; i < L; ++i) k *= 7;
    r.Add("items", k * 4 * 8 * 2, [=](vf::Case& c) {
      vf::Radix x(c.index);
      uint32_t cl = clus[x(4)];
      size_t n = len[x(8)];
      bool mtf = x(2);
      std::vector<Item> it;
      for (int i = 0; i < L; ++i) {  // prefix 2: zero, runs of 2, 3, 4, 7, the first and the last cluster
        int w = (int)x(7);
        it.push_back(w == 0 ? Item{0, 0} : w == 1 ? Item{1, 0} : w == 2 ? Item{1, 1} : w == 3 ? Item{2, 0} : w == 4 ? Item{2, 3} : w == 5 ? Item{3, 0} : Item{cl + 1, 0});
      }
      V probe;
      bool ok = Expand(it, 2, n, false, &probe);
      if (ok && probe.size() < n) it.insert(it.end(), n - probe.size(), Item{3, 0});
      Items(c, it, 2, cl, n, mtf);
    });
  }
  r.Add("prefixes", 16 * 16 * 5 * 9 * 2 * 2, [](vf::Case& c) {  // every run length prefix, runs that just fit and just do not
    vf::Radix x(c.index);
    uint32_t prefix = (uint32_t)x(16) + 1, sym = (uint32_t)x(16) + 1, e = (uint32_t)x(5);
    int d = (int)x(9) - 4;
    bool mtf = x(2), lead = x(2);
    if (sym > prefix) return;
    uint32_t extra = e == 0 ? 0 : e == 1 ? (1u << sym) - 1 : e == 2 ? (1u << sym) / 2 : e == 3 ? 0x5555 & ((1u << sym) - 1) : 1u;
    if (extra >> sym) return;
    std::vector<Item> it;
    if (lead) { it.push_back({prefix + 3, 0}); it.push_back({prefix + 1, 0}); }
    it.push_back({sym, extra});
    int64_t n = (lead ? 2 : 0) + ((int64_t)1 << sym) + extra + d;
    if (n < 1) return;
    for (int i = 0; i < d; ++i) it.push_back({i % 2 ? 0 : prefix + 2, 0});
    Items(c, it, prefix, 7, (size_t)n, mtf);
  });
  return r.Main();
}
