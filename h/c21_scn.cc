// C21, instrumented part: what one execution does.
#include <atomic>
#include <memory>
#include <thread>
#include <vector>
#include "experimental/groups.h"
#include "c21.h"
#include "vsched.h"

namespace {
struct Batch {
  std::vector<int> calls;      // plain: a second call, a late call or a missing
  std::atomic<int> inside{0};  // happens-before shows up as a race or a count
  explicit Batch(size_t n) : calls(n, 0) {}
};
void Submit(brunsli::Executor& ex, size_t n, int id) {
  std::unique_ptr<Batch> b(new Batch(n));
  Batch* p = b.get();
  const brunsli::Runnable r = [p, n, id](size_t i) {
    if (i >= n) sched::Fail("task number %zu in a batch of %zu", i, n);
    p->inside.fetch_add(1, std::memory_order_relaxed);  // a scheduling point that orders nothing
    if (++p->calls[i] != 1) sched::Fail("batch %d: task %zu runs again", id, i);
    p->inside.fetch_sub(1, std::memory_order_relaxed);
  };
  ex(r, n);
  if (p->inside.load(std::memory_order_relaxed)) sched::Fail("batch %d: returned while a task runs", id);
  for (size_t i = 0; i < n; ++i)
    if (p->calls[i] != 1) sched::Fail("batch %d: task %zu was run %d times", id, i, p->calls[i]);
  // b dies here: whoever still touches it has a race with this
}
}  // namespace

void RunConfig(void* arg) {
  const Config& c = *(const Config*)arg;
  {
    brunsli::ParallelExecutor pool(c.workers);
    if (c.mode == kMoved) {
      // used by another thread, one after the other
      std::thread t([&] { brunsli::Executor e = pool.getExecutor(); if (c.nbatches) Submit(e, c.batch[0], 0); });
      t.join();
      brunsli::Executor e = pool.getExecutor();
      for (int i = 1; i < c.nbatches; ++i) Submit(e, c.batch[i], i);
    } else if (c.mode == kTwo) {
      brunsli::ParallelExecutor other(c.workers);
      brunsli::Executor e = pool.getExecutor(), f = other.getExecutor();
      for (int i = 0; i < c.nbatches; ++i) Submit(i & 1 ? f : e, c.batch[i], i);
    } else {
      brunsli::Executor e = pool.getExecutor();
      for (int i = 0; i < c.nbatches; ++i) Submit(e, c.batch[i], i);
    }
  }
}
