// Drives the streaming decoder with an explicit schedule of input chunks and
// output capacities, and monitors the per-call contract.
#ifndef VERIF_STREAM_H_
#define VERIF_STREAM_H_
#include <functional>
#include "codec.h"
#include "runner.h"

namespace stream {
using codec::Bytes;
using brunsli::BrunsliDecoder;

enum End { kDone = 0, kError = 1, kStarved = 2, kStalled = 3 };
inline const char* EndName(int e) {
  static const char* n[] = {"DONE", "ERROR", "needs more input", "no progress"};
  return n[e];
}

struct Result {
  int end = kStalled;
  Bytes out;
  size_t consumed = 0;
  size_t delivered = 0;
  int calls = 0;
  std::string contract;  // first departure from the per-call contract
};

// next_in(k): size of the k-th chunk (0 allowed); next_out(k): capacity of the
// output block of the k-th call (0 allowed).  A chunk is offered together with
// whatever the decoder left unconsumed, in one freshly allocated block which is
// freed right after the call; so is the output block.
inline Result Run(const Bytes& in, std::function<size_t(size_t)> next_in,
                  std::function<size_t(size_t)> next_out, size_t max_calls = 0) {
  Result r;
  BrunsliDecoder d;
  size_t pos = 0, offered = 0;  // [pos, offered) is the caller's leftover
  size_t ci = 0, co = 0;
  int idle = 0;
  bool want_input = true;
  if (!max_calls) max_calls = 4 * in.size() + 400000;
  auto Bad = [&](const std::string& s) { if (r.contract.empty()) r.contract = s; };
  while ((size_t)r.calls < max_calls) {
    if (want_input && offered < in.size()) {
      size_t n = next_in(ci++);
      offered += std::min(n, in.size() - offered);
    }
    size_t n = offered - pos;
    size_t oc = next_out(co++);
    uint8_t* ib = (uint8_t*)malloc(n ? n : 1);
    if (n) memcpy(ib, in.data() + pos, n);
    uint8_t* ob = (uint8_t*)malloc(oc ? oc : 1);
    memset(ob, 0xA5, oc ? oc : 1);
    const uint8_t* ni = ib;
    uint8_t* no = ob;
    size_t ai = n, ao = oc;
    BrunsliDecoder::Status st = d.Decode(&ai, &ni, &ao, &no);
    ++r.calls;
    r.delivered = offered;
    if (ai > n || ni != ib + (n - ai)) Bad(vf::Fmt("call %d: input pointer/size out of step (%zu of %zu left)", r.calls, ai, n));
    if (ao > oc || no != ob + (oc - ao)) Bad(vf::Fmt("call %d: output pointer/size out of step", r.calls));
    if (!r.contract.empty()) { free(ib); free(ob); return r; }
    if (n && memcmp(ib, in.data() + pos, n)) Bad("input block modified");
    for (size_t k = oc - ao; k < oc; ++k)
      if (ob[oc - 1 - (k - (oc - ao))] != 0xA5) { Bad(vf::Fmt("call %d: output block modified beyond the produced bytes", r.calls)); break; }
    r.out.append((char*)ob, oc - ao);
    pos += n - ai;
    r.consumed = pos;
    free(ib);
    free(ob);
    bool progress = (ai != n) || (ao != oc);
    if (st == BrunsliDecoder::DONE || st == BrunsliDecoder::ERROR) {
      r.end = st == BrunsliDecoder::DONE ? kDone : kError;
      // The verdict is final.
      for (int k = 0; k < 2; ++k) {
        uint8_t o2[16], i2[4] = {0, 0, 0, 0};
        const uint8_t* q = i2;
        uint8_t* p = o2;
        size_t a = k ? 4 : 0, b = sizeof o2;
        BrunsliDecoder::Status s2 = d.Decode(&a, &q, &b, &p);
        // (input offered after DONE may be refused; it must not be decoded)
        if (b != sizeof o2) Bad("output produced after the final status");
        if (s2 != st && !(k && st == BrunsliDecoder::DONE && s2 == BrunsliDecoder::ERROR))
          Bad(vf::Fmt("final status %d changed to %d on a further call", (int)st, (int)s2));
      }
      return r;
    }
    if (st == BrunsliDecoder::NEEDS_MORE_OUTPUT) {
      if (ao != 0) Bad(vf::Fmt("call %d: asks for output with %zu bytes still available", r.calls, ao));
      want_input = false;
      if (!progress && oc > 0) {
        if (++idle > 3) return r;
      } else if (!progress) {
        if (++idle > 40) return r;
      } else {
        idle = 0;
      }
    } else if (st == BrunsliDecoder::NEEDS_MORE_INPUT) {
      want_input = true;
      if (offered >= in.size()) {
        r.end = kStarved;
        // Asking again changes nothing: there was neither input to use nor output to give.
        size_t a = in.size() - pos, b = 64;
        uint8_t* i2 = (uint8_t*)malloc(a ? a : 1);
        if (a) memcpy(i2, in.data() + pos, a);
        uint8_t o2[64];
        const uint8_t* q = i2;
        uint8_t* p = o2;
        BrunsliDecoder::Status s2 = d.Decode(&a, &q, &b, &p);
        free(i2);
        if (s2 != st || a != in.size() - pos) Bad(vf::Fmt("asks for more input, but asked again: status %d, %zu of %zu bytes left", (int)s2, a, in.size() - pos));
        if (b != sizeof o2 && ao != 0) Bad(vf::Fmt("asks for more input with output pending and space left: asked again, gives %zu bytes", sizeof o2 - b));
        r.out.append((char*)o2, sizeof o2 - b);
        return r;
      }
      idle = 0;
    } else {
      Bad(vf::Fmt("unknown status %d", (int)st));
      return r;
    }
  }
  return r;
}

inline Result Chunks(const Bytes& in, const std::vector<size_t>& sizes, size_t out_cap) {
  return Run(in, [&](size_t k) { return k < sizes.size() ? sizes[k] : (size_t)1 << 40; },
             [=](size_t) { return out_cap; });
}
inline Result Uniform(const Bytes& in, size_t ic, size_t oc) {
  return Run(in, [=](size_t) { return ic; }, [=](size_t) { return oc; });
}
}  // namespace stream
#endif
