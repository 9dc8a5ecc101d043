// C29, instrumented part: independent calls in several threads.
#include <thread>
#include <brunsli/decode.h>
#include <brunsli/encode.h>
#include "c29.h"
#include "grp.h"
#include "vsched.h"
using grp::Bytes;
const char* OpName(int op) {
  static const char* n[] = {"parse-and-encode", "decode-and-write", "stream", "EncodeBrunsli", "DecodeBrunsli", "parse-tables", "bypass", "groups", "estimate"};
  return n[op];
}
namespace brunsli { size_t BrunsliEstimateDecoderPeakMemoryUsage(const uint8_t*, size_t) __attribute__((weak)); }
std::string Perform(const Task& t) {
  const uint8_t* in = (const uint8_t*)t.in.data();
  Bytes o;
  switch (t.op) {
    case 0: {
      brunsli::JPEGData j;
      if (!brunsli::ReadJpeg(in, t.in.size(), brunsli::JPEG_READ_ALL, &j)) return "unread";
      j.version = 2;
      if (!codec::Encode(j, &o)) return "refused";
      return o;
    }
    case 1: {
      brunsli::JPEGData j;
      int st = brunsli::BrunsliDecodeJpeg(in, t.in.size(), &j);
      if (st != brunsli::BRUNSLI_OK) return "status " + std::to_string(st);
      if (!grp::Jpg(j, &o)) return "unwritable";
      return o;
    }
    case 2: {
      brunsli::BrunsliDecoder d;
      size_t pos = 0;
      for (int call = 0; call < 20000; ++call) {
        uint8_t buf[97];
        size_t n = std::min<size_t>(t.in.size() - pos, 41), ai = n, ao = sizeof buf;
        const uint8_t* ni = in + pos;
        uint8_t* no = buf;
        auto st = d.Decode(&ai, &ni, &ao, &no);
        pos += n - ai;
        o.append((char*)buf, sizeof buf - ao);
        if (st == brunsli::BrunsliDecoder::DONE) return o;
        if (st == brunsli::BrunsliDecoder::ERROR) return "error";
        if (st == brunsli::BrunsliDecoder::NEEDS_MORE_INPUT && pos == t.in.size()) return "starved";
      }
      return "endless";
    }
    case 3: return EncodeBrunsli(t.in.size(), in, &o, codec::StringSink) ? o : "failed";
    case 4: return DecodeBrunsli(t.in.size(), in, &o, codec::StringSink) ? o : "failed";
    case 5: {
      brunsli::JPEGData j;
      if (!brunsli::ReadJpeg(in, t.in.size(), brunsli::JPEG_READ_TABLES, &j)) return "unread";
      return std::to_string(j.quant.size()) + "/" + std::to_string(j.huffman_code.size());
    }
    case 6: {
      size_t n = brunsli::GetBrunsliBypassSize(t.in.size());
      std::vector<uint8_t> b(n + 1);
      if (!brunsli::BrunsliEncodeJpegBypass(in, t.in.size(), b.data(), &n)) return "refused";
      return Bytes((char*)b.data(), n);
    }
    case 7: {
      brunsli::JPEGData j, k;
      if (!brunsli::ReadJpeg(in, t.in.size(), brunsli::JPEG_READ_ALL, &j)) return "unread";
      j.version = 2;
      if (!grp::Enc(j, 2, 4, brunsli::SequentialExecutor, &o)) return "refused";
      if (!grp::Dec(o, 2, 4, brunsli::SequentialExecutor, &k)) return "undecodable";
      Bytes w;
      grp::Jpg(k, &w);
      return o + w;
    }
    case 8: return std::to_string(brunsli::BrunsliEstimateDecoderPeakMemoryUsage ? brunsli::BrunsliEstimateDecoderPeakMemoryUsage(in, t.in.size()) : 0);
  }
  return "";
}
void RunRace(void* arg) {
  const Race& r = *(const Race*)arg;
  // each thread has its own copy of the input
  std::vector<Task> own(r.t, r.t + r.n);
  auto go = [](const Task* t) {
    std::string o = Perform(*t);
    if (o != t->out) sched::Fail("%s gives another result than alone (%zu and %zu bytes, first difference at %zu)", OpName(t->op), o.size(), t->out.size(), codec::FirstDiff(o, t->out));
  };
  if (r.warm) go(&own[0]);
  std::vector<std::thread> th;
  for (int i = 1; i < r.n; ++i) th.emplace_back(go, &own[i]);
  go(&own[0]);
  for (auto& t : th) t.join();
}
