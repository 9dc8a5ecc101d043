// Runtime for instrumented code: scheduler, interposed threading primitives,
// race detection.  Compiled without instrumentation.
#include "vsched.h"
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <malloc.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <initializer_list>
#include <new>

namespace sched {
namespace {
long RawSyscall(long n, long a, long b, long c, long d, long e, long f) {
  long r;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}
uint64_t Mix(uint64_t x) {
  x ^= x >> 33; x *= 0xff51afd7ed558ccdull; x ^= x >> 33;
  x *= 0xc4ceb9fe1a85ec53ull; x ^= x >> 33;
  return x;
}
enum { kMaxThreads = 64 };   // created over a whole execution
int nthreads;
struct Clock {
  uint32_t v[kMaxThreads];
  void Clear() { memset(v, 0, sizeof v); }
  void Join(const Clock& o) { for (int i = 0; i < nthreads; ++i) if (o.v[i] > v[i]) v[i] = o.v[i]; }
};
enum Op { opNone, opStart, opLock, opTryLock, opRdLock, opWrLock, opCondWait, opCondWake, opSignal, opAtomicRead, opAtomicWrite, opJoin, opOnce, opGuard, opFutexWait, opFutexBlocked, opFutexWake, opYield, opFence };
struct Obj {  // a synchronisation object, by address
  uintptr_t addr;
  Clock clk;
  int owner;      // mutex / once / guard in progress: thread + 1
  int depth;
  int readers;    // rwlock
  uint64_t w, rsum;  // fingerprint
};
struct Thread {
  bool used, finished, waiting_signal, signaled, yielded, timed;
  Op op;
  Obj* obj;
  Obj* obj2;
  int target;
  Clock clk;
  uint64_t chain;
  int go;
  void* (*fn)(void*);
  void* arg;
  void* ret;
  pthread_t real;
  bool detached;
};
enum { kObjs = 1 << 14 };
Thread T[kMaxThreads];
Obj* objs;
int nobjs;
Shared* S;
bool active = false;
__thread int self = -1;
int streak;          // points passed without a switch
Clock fence_clk;

// ---- race detection ----
struct Cell { uint32_t epoch; uint8_t tid, mask, write, atomic; uint32_t pc; };
enum { kCells = 4, kPagesLog = 15, kBlocks = 12000 };
struct Word { Cell c[kCells]; uint32_t next; };
struct Page { uintptr_t addr; Word* words; };   // 4 KiB of the program's memory
Page* pages;
Word* blocks;
int nblocks;
Page* last_page;
uintptr_t exe_base;

[[noreturn]] void Stop(int status, const char* fmt, ...) {
  if (S->status == kNotRun) {
    S->status = status;
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(S->msg, sizeof S->msg, fmt, ap);
    va_end(ap);
  }
  RawSyscall(SYS_exit_group, 0, 0, 0, 0, 0, 0);
  __builtin_unreachable();
}
Word* FindWord(uintptr_t a, bool make) {
  uintptr_t pg = a >> 12;
  if (!last_page || last_page->addr != pg) {
    uint64_t m = (1ull << kPagesLog) - 1, h = Mix(pg) & m;
    while (pages[h].addr && pages[h].addr != pg) h = (h + 1) & m;
    if (!pages[h].addr) {
      if (!make) return nullptr;
      if (nblocks >= kBlocks) { S->dropped++; return nullptr; }
      pages[h].addr = pg;
      pages[h].words = blocks + 512 * (size_t)nblocks++;
    }
    last_page = &pages[h];
  }
  return &last_page->words[(a >> 3) & 511];
}
void Access(uintptr_t a, size_t n, bool write, void* pc, bool atomic = false) {
  if (!active || self < 0) return;
  S->accesses++;
  uint32_t p = (uint32_t)((uintptr_t)pc - exe_base);
  Thread& t = T[self];
  while (n) {
    uintptr_t w = a & ~(uintptr_t)7;
    size_t off = a & 7, k = 8 - off < n ? 8 - off : n;
    uint8_t mask = (uint8_t)(((1u << k) - 1) << off);
    Word* q = FindWord(w, true);
    if (q) {
      int reuse = -1;
      bool same = false;
      for (int i = 0; i < kCells; ++i) {
        Cell& c = q->c[i];
        if (!c.epoch) { if (reuse < 0) reuse = i; continue; }
        if (c.tid == self) {
          if (c.write == write && c.atomic == atomic && (c.mask & ~mask) == 0) { reuse = i; same = c.epoch == t.clk.v[self] && c.mask == mask; if (same) break; }
          continue;
        }
        if (!(c.mask & mask) || (!c.write && !write) || (c.atomic && atomic)) continue;
        if (c.epoch > t.clk.v[c.tid]) {
          S->pc[0] = c.pc;
          S->pc[1] = p;
          Stop(kRace, "data race: thread %d %s and thread %d %s the same memory (%zu bytes at %#lx) without synchronisation", c.tid, c.write ? "writes" : "reads", self, write ? "writes" : "reads", n, (unsigned long)a);
        }
      }
      if (!same) {
      if (reuse < 0) { reuse = q->next; q->next = (q->next + 1) % kCells; }
      Cell& c = q->c[reuse];
      c.epoch = t.clk.v[self];
      c.tid = (uint8_t)self;
      c.mask = mask;
      c.write = write;
      c.atomic = atomic;
      c.pc = p;
      }
    }
    a += k;
    n -= k;
  }
}
void Forget(void* p, size_t n) {
  if (!active || self < 0 || !p) return;
  uintptr_t a = (uintptr_t)p & ~(uintptr_t)7, e = (uintptr_t)p + n;
  while (a < e) {
    uintptr_t stop = (a | 4095) + 1;
    if (stop > e) stop = e;
    Word* w = FindWord(a, false);
    if (w) memset(w, 0, sizeof(Word) * ((stop - a + 7) / 8));
    a = stop;
  }
}

// ---- scheduling ----
Obj* GetObj(const void* p) {
  uintptr_t a = (uintptr_t)p;
  uint64_t h = Mix(a) & (kObjs - 1);
  for (;;) {
    if (objs[h].addr == a) return &objs[h];
    if (!objs[h].addr) {
      if (++nobjs > kObjs / 2) Stop(kTooLong, "too many synchronisation objects");
      objs[h].addr = a;
      return &objs[h];
    }
    h = (h + 1) & (kObjs - 1);
  }
}
void Wake(int t) {
  __atomic_store_n(&T[t].go, 1, __ATOMIC_RELEASE);
  RawSyscall(SYS_futex, (long)&T[t].go, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1, 0, 0, 0);
}
void WaitGo(int t) {
  while (!__atomic_load_n(&T[t].go, __ATOMIC_ACQUIRE))
    RawSyscall(SYS_futex, (long)&T[t].go, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, 0, 0, 0, 0);
  __atomic_store_n(&T[t].go, 0, __ATOMIC_RELAXED);
}
bool Enabled(int i) {
  Thread& t = T[i];
  if (!t.used || t.finished) return false;
  switch (t.op) {
    case opLock: return t.obj->owner == 0 || (t.obj->owner == i + 1 && t.timed);
    case opRdLock: return t.obj->owner == 0;
    case opWrLock: return t.obj->owner == 0 && t.obj->readers == 0;
    case opCondWake: return t.signaled && t.obj2->owner == 0;
    case opJoin: return T[t.target].finished;
    case opOnce: case opGuard: return t.obj->owner == 0;
    case opFutexBlocked: return t.signaled;
    default: return true;
  }
}
const char* OpName(Op o) {
  static const char* n[] = {"nothing", "start", "mutex", "trylock", "read lock", "write lock", "condition wait", "condition", "signal", "atomic", "atomic", "join", "once", "static initialisation", "futex", "futex", "futex wake", "yield", "fence"};
  return n[o];
}
int Choose(int nopt, const uint8_t* who, const uint8_t* cost, bool cur_enabled, uint64_t extra) {
  if (S->npoints >= kMaxPoints) Stop(kTooLong, "no end after %d scheduling points", kMaxPoints);
  Point& p = S->pts[S->npoints];
  uint64_t h = 0;
  for (int i = 0; i < nthreads; ++i) h += Mix(T[i].chain + (T[i].finished ? 17 : 0));
  if (nopt > kMaxOpts) Stop(kTooLong, "%d choices at one point", nopt);
  p.hash = Mix(h ^ Mix((self >= 0 ? T[self].chain : 1) + extra));
  p.nopt = (uint8_t)nopt;
  p.cur_enabled = cur_enabled;
  for (int i = 0; i < nopt; ++i) { p.cost[i] = cost[i]; p.who[i] = who[i]; }
  int c = 0;
  if (S->npoints < S->nforced) c = S->forced[S->npoints];
  if (c >= nopt) Stop(kDiverged, "choice %d of %d at point %d", c, nopt, S->npoints);
  p.chosen = (uint8_t)c;
  S->npoints++;
  return c;
}
// The current thread has set its pending operation; decides who goes on.
void Schedule() {
  Thread& me = T[self];
  uint8_t who[kMaxThreads + 1], cost[kMaxThreads + 1];
  int n = 0;
  bool mine = Enabled(self);
  bool force = mine && (me.op == opYield || ++streak > 2000);
  if (mine && !force) { who[n] = (uint8_t)self; cost[n++] = 0; }
  // others in order; after a yield, the next ones first
  for (int k = 1; k < nthreads; ++k) {
    int i = (self + k) % nthreads;
    if (i != self && Enabled(i)) { who[n] = (uint8_t)i; cost[n++] = mine && !force ? 1 : 0; }
  }
  if (force) { who[n] = (uint8_t)self; cost[n++] = n > 1 ? 1 : 0; }
  if (S->spurious && n)
    for (int i = 0; i < nthreads; ++i)
      if (i != self && T[i].used && !T[i].finished && T[i].op == opCondWake && !T[i].signaled && T[i].obj2->owner == 0 && n < kMaxOpts) { who[n] = (uint8_t)i; cost[n++] = 16 | (mine && !force ? 1 : 0); }
  if (n == 0) {
    // a timed wait may run out
    for (int i = 0; i < nthreads; ++i)
      if (T[i].used && !T[i].finished && T[i].timed && ((T[i].op == opCondWake && T[i].obj2->owner == 0) || T[i].op == opFutexBlocked)) { who[n] = (uint8_t)i; cost[n++] = 0; }
  }
  if (n == 0) {
    char b[1000];
    int at = 0;
    for (int i = 0; i < nthreads; ++i)
      if (T[i].used && !T[i].finished) at += snprintf(b + at, sizeof b - at, " thread %d at %s;", i, OpName(T[i].op));
    Stop(kDeadlock, "deadlock:%s", b);
  }
  int c = n == 1 ? 0 : Choose(n, who, cost, mine && !force, 0);
  int next = who[c];
  if (next != self) {
    streak = 0;
    int was = self;
    Wake(next);
    if (!T[was].finished) WaitGo(was);
  }
}
// Fingerprints.
void TouchRead(Obj* o, int kind) {
  Thread& t = T[self];
  t.chain = Mix(t.chain * 3 + kind + Mix(o->w));
  o->rsum += Mix(t.chain);
}
void TouchWrite(Obj* o, int kind) {
  Thread& t = T[self];
  t.chain = Mix(t.chain * 3 + kind + Mix(o->w) + 7 * o->rsum);
  o->w = Mix(t.chain + 1);
  o->rsum = 0;
}
void Acquire(Obj* o) { T[self].clk.Join(o->clk); }
void Release(Obj* o) { o->clk.Join(T[self].clk); T[self].clk.v[self]++; }
bool On() { return active && self >= 0; }
void Before(Op op, Obj* o) {
  T[self].op = op;
  T[self].obj = o;
  Schedule();
  T[self].op = opNone;
}
void Lock(Obj* o, bool recursive) {
  T[self].timed = recursive;
  Before(opLock, o);
  T[self].timed = false;
  o->owner = self + 1;
  o->depth++;
  Acquire(o);
  TouchWrite(o, opLock);
}
void Unlock(Obj* o) {
  if (o->owner != self + 1) Stop(kFailed, "a mutex is unlocked by a thread that does not hold it");
  if (--o->depth) return;
  o->owner = 0;
  Release(o);
}
void CondWait(Obj* c, Obj* m, bool timed) {
  Before(opCondWait, c);
  TouchWrite(c, opCondWait);
  if (m->owner != self + 1) Stop(kFailed, "condition wait without holding the mutex");
  Thread& t = T[self];
  int depth = m->depth;
  m->owner = 0;
  m->depth = 0;
  Release(m);
  t.waiting_signal = true;
  t.signaled = false;
  t.timed = timed;
  t.op = opCondWake;
  t.obj = c;
  t.obj2 = m;
  Schedule();
  t.op = opNone;
  t.timed = false;
  t.waiting_signal = false;
  m->owner = self + 1;
  m->depth = depth;
  Acquire(m);
  TouchWrite(m, t.signaled ? opCondWake : 99);
}
void Signal(Obj* c, bool all) {
  Before(opSignal, c);
  TouchWrite(c, all ? 50 : opSignal);
  uint8_t who[kMaxThreads], cost[kMaxThreads] = {0};
  int n = 0;
  for (int i = 0; i < nthreads; ++i)
    if (T[i].used && !T[i].finished && T[i].op == opCondWake && T[i].obj == c && !T[i].signaled) who[n++] = (uint8_t)i;
  if (all) {
    for (int i = 0; i < n; ++i) T[who[i]].signaled = true;
  } else if (n) {
    int k = n == 1 ? 0 : Choose(n, who, cost, true, 12345);
    T[who[k]].signaled = true;
    c->w = Mix(c->w + T[who[k]].chain);
    T[self].chain = Mix(T[self].chain + c->w);
  }
}
bool IsAcq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST || mo == __ATOMIC_CONSUME; }
bool IsRel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
void AtomicPre(const volatile void* a, size_t size, int kind, int mo, void* pc) {  // 0 load, 1 store, 2 rmw
  if (!On()) return;
  Obj* o = GetObj((const void*)a);
  Before(kind ? opAtomicWrite : opAtomicRead, o);
  if (kind == 0) {
    TouchRead(o, opAtomicRead);
    if (IsAcq(mo)) Acquire(o);
    Access((uintptr_t)a, size, false, pc, true);
  } else if (kind == 1) {
    Access((uintptr_t)a, size, true, pc, true);
    TouchWrite(o, opAtomicWrite);
    o->clk.Clear();
    if (IsRel(mo)) Release(o);
  } else {
    TouchWrite(o, 60);
    if (IsAcq(mo)) Acquire(o);
    Access((uintptr_t)a, size, true, pc, true);
    if (IsRel(mo)) Release(o);
  }
}
template <class F> F Real(const char* name) { return (F)dlsym(RTLD_NEXT, name); }

void* Trampoline(void* p) {
  int id = (int)(intptr_t)p;
  WaitGo(id);
  self = id;
  T[id].op = opNone;
  {  // whatever used this stack before does not matter
    pthread_attr_t at;
    void* base;
    size_t size;
    if (!pthread_getattr_np(pthread_self(), &at)) {
      pthread_attr_getstack(&at, &base, &size);
      Forget(base, size);
      pthread_attr_destroy(&at);
    }
  }
  void* r = T[id].fn(T[id].arg);
  T[id].ret = r;
  T[id].finished = true;
  T[id].chain = Mix(T[id].chain + 3);
  // hand over without waiting to be resumed
  Schedule();
  self = -1;
  return r;
}
}  // namespace

void Fail(const char* fmt, ...) {
  char b[2000];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  Stop(kFailed, "%s", b);
}
void SetResult(uint64_t f) { S->result = f; }

static void OnSignal(int sig) { Stop(kCrash, "signal %d (%s)", sig, strsignal(sig)); }

void RunHere(Shared* s, Scenario f, void* arg) {
  S = s;
  for (int sig : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) {
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_handler = OnSignal;
    sigaction(sig, &sa, nullptr);
  }
  s->npoints = 0;
  s->status = kNotRun;
  s->msg[0] = 0;
  s->accesses = s->words = s->dropped = 0;
  s->result = 0;
  Dl_info di;
  if (dladdr((void*)&RunHere, &di)) exe_base = (uintptr_t)di.dli_fbase;
  blocks = (Word*)mmap(nullptr, sizeof(Word) * 512 * (size_t)kBlocks, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  pages = (Page*)mmap(nullptr, sizeof(Page) << kPagesLog, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  objs = (Obj*)mmap(nullptr, sizeof(Obj) * kObjs, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  nthreads = 1;
  self = 0;
  T[0].used = true;
  T[0].clk.v[0] = 1;
  T[0].chain = 12345;
  active = true;
  f(arg);
  for (int i = 1; i < nthreads; ++i)
    if (!T[i].finished) Stop(kFailed, "thread %d is still running (at %s) after everything was destroyed", i, OpName(T[i].op));
  active = false;
  S->words = nblocks;
  S->threads = nthreads;
  Stop(kOk, "ok");
}
}  // namespace sched
using namespace sched;

// ---- interposed primitives ----
extern "C" {
int pthread_create(pthread_t* th, const pthread_attr_t* at, void* (*fn)(void*), void* arg) {
  static auto real = Real<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create");
  if (!On()) return real(th, at, fn, arg);
  if (nthreads >= kMaxThreads) Stop(kTooLong, "too many threads");
  int id = nthreads++;
  Thread& t = T[id];
  memset(&t, 0, sizeof t);
  t.fn = fn;
  t.arg = arg;
  t.op = opStart;
  T[self].chain = Mix(T[self].chain + 11);
  t.chain = Mix(T[self].chain + 5);
  t.clk = T[self].clk;
  t.clk.v[id] = 1;
  T[self].clk.v[self]++;
  t.used = true;
  int rc = real(&t.real, at, Trampoline, (void*)(intptr_t)id);
  if (rc) Stop(kTooLong, "pthread_create: %d", rc);
  *th = t.real;
  return 0;
}
static int ByHandle(pthread_t th) { for (int i = nthreads - 1; i > 0; --i) if (pthread_equal(T[i].real, th)) return i; return -1; }
int pthread_join(pthread_t th, void** ret) {
  static auto real = Real<int (*)(pthread_t, void**)>("pthread_join");
  if (!On()) return real(th, ret);
  int i = ByHandle(th);
  if (i < 0) Stop(kFailed, "join of an unknown thread");
  T[self].op = opJoin;
  T[self].target = i;
  Schedule();
  T[self].op = opNone;
  T[self].clk.Join(T[i].clk);
  T[self].chain = Mix(T[self].chain * 5 + T[i].chain);
  return real(th, ret);
}
int pthread_detach(pthread_t th) {
  static auto real = Real<int (*)(pthread_t)>("pthread_detach");
  return real(th);
}
int pthread_mutex_lock(pthread_mutex_t* m) {
  static auto real = Real<int (*)(pthread_mutex_t*)>("pthread_mutex_lock");
  if (!On()) return real(m);
  Lock(GetObj(m), (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP);
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  static auto real = Real<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock");
  if (!On()) return real(m);
  Obj* o = GetObj(m);
  Before(opTryLock, o);
  TouchWrite(o, opTryLock);
  if (o->owner) return EBUSY;
  o->owner = self + 1;
  o->depth = 1;
  Acquire(o);
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  static auto real = Real<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock");
  if (!On()) return real(m);
  Unlock(GetObj(m));
  return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) {
  static auto real = Real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_rdlock");
  if (!On()) return real(m);
  Obj* o = GetObj(m);
  Before(opRdLock, o);
  o->readers++;
  Acquire(o);
  TouchWrite(o, opRdLock);
  return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) {
  static auto real = Real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_wrlock");
  if (!On()) return real(m);
  Obj* o = GetObj(m);
  Before(opWrLock, o);
  o->owner = self + 1;
  Acquire(o);
  TouchWrite(o, opWrLock);
  return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) {
  static auto real = Real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_unlock");
  if (!On()) return real(m);
  Obj* o = GetObj(m);
  if (o->owner == self + 1) o->owner = 0;
  else o->readers--;
  Release(o);
  return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  static auto real = Real<int (*)(pthread_cond_t*, pthread_mutex_t*)>("pthread_cond_wait");
  if (!On()) return real(c, m);
  CondWait(GetObj(c), GetObj(m), false);
  return 0;
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) {
  static auto real = Real<int (*)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*)>("pthread_cond_timedwait");
  if (!On()) return real(c, m, t);
  CondWait(GetObj(c), GetObj(m), true);
  return T[self].signaled ? 0 : ETIMEDOUT;
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t) {
  if (!On()) return pthread_cond_timedwait(c, m, t);
  CondWait(GetObj(c), GetObj(m), true);
  return T[self].signaled ? 0 : ETIMEDOUT;
}
int pthread_cond_signal(pthread_cond_t* c) {
  static auto real = Real<int (*)(pthread_cond_t*)>("pthread_cond_signal");
  if (!On()) return real(c);
  Signal(GetObj(c), false);
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  static auto real = Real<int (*)(pthread_cond_t*)>("pthread_cond_broadcast");
  if (!On()) return real(c);
  Signal(GetObj(c), true);
  return 0;
}
int pthread_once(pthread_once_t* once, void (*f)(void)) {
  static auto real = Real<int (*)(pthread_once_t*, void (*)(void))>("pthread_once");
  if (!On()) return real(once, f);
  Obj* o = GetObj(once);
  Before(opOnce, o);
  Acquire(o);
  TouchWrite(o, opOnce);
  if (*once == 2) return 0;
  o->owner = self + 1;
  f();
  *once = 2;
  o->owner = 0;
  Release(o);
  return 0;
}
int __cxa_guard_acquire(uint64_t* g) {
  if (!On()) { if (*(volatile uint8_t*)g == 1) return 0; return 1; }
  Obj* o = GetObj(g);
  Before(opGuard, o);
  Acquire(o);
  TouchWrite(o, opGuard);
  if (*(volatile uint8_t*)g == 1) return 0;
  o->owner = self + 1;
  return 1;
}
void __cxa_guard_release(uint64_t* g) {
  *(volatile uint8_t*)g = 1;
  if (!On()) return;
  Obj* o = GetObj(g);
  o->owner = 0;
  Release(o);
}
void __cxa_guard_abort(uint64_t* g) {
  if (!On()) return;
  Obj* o = GetObj(g);
  o->owner = 0;
  Release(o);
}
int sched_yield(void) {
  if (!On()) { RawSyscall(SYS_sched_yield, 0, 0, 0, 0, 0, 0); return 0; }
  Before(opYield, nullptr);
  return 0;
}
int nanosleep(const struct timespec* a, struct timespec* b) {
  if (!On()) { long r = RawSyscall(SYS_nanosleep, (long)a, (long)b, 0, 0, 0, 0); if (r < 0) { errno = (int)-r; return -1; } return 0; }
  Before(opYield, nullptr);
  return 0;
}
int clock_nanosleep(clockid_t c, int f, const struct timespec* a, struct timespec* b) {
  if (!On()) return (int)-RawSyscall(SYS_clock_nanosleep, c, f, (long)a, (long)b, 0, 0);
  Before(opYield, nullptr);
  return 0;
}
long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a[6];
  for (int i = 0; i < 6; ++i) a[i] = va_arg(ap, long);
  va_end(ap);
  if (n == SYS_futex && On()) {
    int cmd = (int)a[1] & FUTEX_CMD_MASK;
    Obj* o = GetObj((char*)a[0] + 1);  // (apart from the atomic itself)
    if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
      Before(opFutexWait, o);
      TouchWrite(o, opFutexWait);
      if (*(volatile int*)a[0] != (int)a[2]) { errno = EAGAIN; return -1; }
      T[self].signaled = false;
      T[self].timed = a[3] != 0;
      Before(opFutexBlocked, o);
      T[self].timed = false;
      if (!T[self].signaled) { errno = ETIMEDOUT; return -1; }
      return 0;
    }
    if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
      Before(opFutexWake, o);
      TouchWrite(o, opFutexWake);
      long k = 0;
      for (int i = 0; i < nthreads && k < a[2]; ++i)
        if (T[i].used && !T[i].finished && T[i].op == opFutexBlocked && T[i].obj == o && !T[i].signaled) { T[i].signaled = true; ++k; }
      return k;
    }
    Stop(kTooLong, "futex command %d", cmd);
  }
  long r = RawSyscall(n, a[0], a[1], a[2], a[3], a[4], a[5]);
  if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
  return r;
}

// ---- instrumentation ----
#define PC __builtin_return_address(0)
void __tsan_init() {}
#define RW(n) \
  void __tsan_read##n(void* a) { Access((uintptr_t)a, n, false, PC); } \
  void __tsan_write##n(void* a) { Access((uintptr_t)a, n, true, PC); } \
  void __tsan_unaligned_read##n(void* a) { Access((uintptr_t)a, n, false, PC); } \
  void __tsan_unaligned_write##n(void* a) { Access((uintptr_t)a, n, true, PC); } \
  void __tsan_volatile_read##n(void* a) { Access((uintptr_t)a, n, false, PC); } \
  void __tsan_volatile_write##n(void* a) { Access((uintptr_t)a, n, true, PC); } \
  void __tsan_read_write##n(void* a) { Access((uintptr_t)a, n, true, PC); } \
  void __tsan_unaligned_read_write##n(void* a) { Access((uintptr_t)a, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, size_t n) { Access((uintptr_t)a, n, false, PC); }
void __tsan_write_range(void* a, size_t n) { Access((uintptr_t)a, n, true, PC); }
void __tsan_vptr_read(void** a) { Access((uintptr_t)a, 8, false, PC); }
void __tsan_vptr_update(void** a, void*) { Access((uintptr_t)a, 8, true, PC); }
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void* __tsan_memcpy(void* d, const void* s, size_t n) { Access((uintptr_t)s, n, false, PC); Access((uintptr_t)d, n, true, PC); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { Access((uintptr_t)s, n, false, PC); Access((uintptr_t)d, n, true, PC); return memmove(d, s, n); }
void* __tsan_memset(void* d, int v, size_t n) { Access((uintptr_t)d, n, true, PC); return memset(d, v, n); }
#define AT(n, type) \
  type __tsan_atomic##n##_load(const volatile type* a, int mo) { AtomicPre(a, n / 8, 0, mo, PC); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##n##_store(volatile type* a, type v, int mo) { AtomicPre(a, n / 8, 1, mo, PC); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  type __tsan_atomic##n##_exchange(volatile type* a, type v, int mo) { AtomicPre(a, n / 8, 2, mo, PC); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  type __tsan_atomic##n##_fetch_add(volatile type* a, type v, int mo) { AtomicPre(a, n / 8, 2, mo, PC); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  type __tsan_atomic##n##_fetch_sub(volatile type* a, type v, int mo) { AtomicPre(a, n / 8, 2, mo, PC); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  type __tsan_atomic##n##_fetch_and(volatile type* a, type v, int mo) { AtomicPre(a, n / 8, 2, mo, PC); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  type __tsan_atomic##n##_fetch_or(volatile type* a, type v, int mo) { AtomicPre(a, n / 8, 2, mo, PC); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  type __tsan_atomic##n##_fetch_xor(volatile type* a, type v, int mo) { AtomicPre(a, n / 8, 2, mo, PC); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  type __tsan_atomic##n##_fetch_nand(volatile type* a, type v, int mo) { AtomicPre(a, n / 8, 2, mo, PC); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##n##_compare_exchange_strong(volatile type* a, type* c, type v, int mo, int fmo) { AtomicPre(a, n / 8, 2, mo, PC); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##n##_compare_exchange_weak(volatile type* a, type* c, type v, int mo, int fmo) { AtomicPre(a, n / 8, 2, mo, PC); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  type __tsan_atomic##n##_compare_exchange_val(volatile type* a, type c, type v, int mo, int fmo) { AtomicPre(a, n / 8, 2, mo, PC); __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) {
  if (!On()) return;
  // generous: orders everything with every other fence
  T[self].clk.Join(fence_clk);
  fence_clk.Join(T[self].clk);
  T[self].clk.v[self]++;
}
void __tsan_atomic_signal_fence(int) {}
}  // extern "C"

// ---- memory: fresh blocks have no history, releasing a block is a write to it ----
static void* New(size_t n) {
  void* p = malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  Forget(p, malloc_usable_size(p));
  return p;
}
static void Delete(void* p, void* pc) {
  if (!p) return;
  if (On()) { size_t n = malloc_usable_size(p); if (n <= 1 << 16) Access((uintptr_t)p, n, true, pc); Forget(p, n); }
  free(p);
}
void* operator new(size_t n) { return New(n); }
void* operator new[](size_t n) { return New(n); }
void operator delete(void* p) noexcept { Delete(p, PC); }
void operator delete[](void* p) noexcept { Delete(p, PC); }
void operator delete(void* p, size_t) noexcept { Delete(p, PC); }
void operator delete[](void* p, size_t) noexcept { Delete(p, PC); }
