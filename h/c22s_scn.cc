// C22, instrumented part: group coding with concurrent tasks.
#include <thread>
#include "c22s.h"
#include "grp.h"
#include "vsched.h"

namespace {
void ThreadPerTask(const brunsli::Runnable& run, size_t n) {
  std::vector<std::thread> t;
  for (size_t i = 0; i < n; ++i) t.emplace_back([&run, i] { run(i); });
  for (auto& x : t) x.join();
}
void TwoThreads(const brunsli::Runnable& run, size_t n) {
  auto half = [&run, n](size_t k) { for (size_t i = k; i < n; i += 2) run(i); };
  std::thread a([&] { half(1); });
  half(0);
  a.join();
}
bool Load(const std::string& jpg, brunsli::JPEGData* j) {
  if (!brunsli::ReadJpeg((const uint8_t*)jpg.data(), jpg.size(), brunsli::JPEG_READ_ALL, j)) return false;
  j->version = 2;
  return true;
}
void Go(const Job& job, brunsli::Executor ex) {
  if (job.kind == 0) {
    brunsli::JPEGData j;
    if (!Load(job.jpg, &j)) sched::Fail("input not readable");
    if (job.bad_comp >= 0) j.components[job.bad_comp].coeffs[64 * job.bad_block] = 32767;
    grp::Bytes o;
    bool ok = grp::Enc(j, job.ac, job.dc, ex, &o);
    if (job.bad_comp >= 0) {
      if (ok) sched::Fail("an impossible coefficient was accepted");
      return;
    }
    if (!ok) sched::Fail("encoding fails");
    if (o != job.groups) sched::Fail("other bytes than sequentially: %zu and %zu bytes, first difference at %zu", o.size(), job.groups.size(), codec::FirstDiff(o, job.groups));
  } else {
    brunsli::JPEGData j;
    bool ok = grp::Dec(job.groups, job.ac, job.dc, ex, &j);
    if (job.fails) {
      if (ok) sched::Fail("a damaged group was accepted");
      return;
    }
    if (!ok) sched::Fail("decoding fails");
    grp::Bytes o;
    if (!grp::Jpg(j, &o) || o != job.jpg) sched::Fail("another picture: %zu and %zu bytes, first difference at %zu", o.size(), job.jpg.size(), codec::FirstDiff(o, job.jpg));
  }
}
}  // namespace
void RunJob(void* arg) {
  const Job& job = *(const Job*)arg;
  if (job.exec == 0) Go(job, ThreadPerTask);
  else if (job.exec == 1) Go(job, TwoThreads);
  else {
    brunsli::ParallelExecutor pool(job.exec == 2 ? 2 : 1);
    Go(job, pool.getExecutor());
  }
}
bool Sequential(const std::string& jpg, int ac, int dc, std::string* out) {
  brunsli::JPEGData j;
  return Load(jpg, &j) && grp::Enc(j, ac, dc, brunsli::SequentialExecutor, out);
}
bool SequentialDec(const std::string& groups, int ac, int dc, std::string* out) {
  brunsli::JPEGData j;
  return grp::Dec(groups, ac, dc, brunsli::SequentialExecutor, &j) && grp::Jpg(j, out);
}
