// Walks every schedule of a scenario within bounds (see sched.h).
//
// Depth-first search over the choices at scheduling points.  Bounds: number of
// preemptions (a switch away from a thread that could go on; -1: unlimited) and
// of spurious wake-ups.  A prefix is not extended twice when an execution with
// the same happens-before history, the same current thread and at least the
// same remaining bounds was extended before: equal histories of a program
// without data races lead to equal states.
#ifndef VERIF_EXPLORE_H_
#define VERIF_EXPLORE_H_
#include <sched.h>
#include <sys/prctl.h>
#include "runner.h"
#include "vsched.h"

namespace sched {
// Shared by the processes exploring one scenario.
struct Tree {
  enum { kLog = 24 };                    // visited prefixes
  struct Entry { std::atomic<uint64_t> key; std::atomic<uint32_t> best; };
  struct Head {
    std::atomic<int> lock, idle, stop, full, next_cpu;
    std::atomic<int64_t> execs, points, states, accesses, max_points, threads, queued, dropped;
    uint64_t top;                        // bytes used in the stack of pending prefixes
    int failed;                          // 1: fail_prefix is set
    int fail_len;
    uint8_t fail_prefix[kMaxPoints];
  };
  static const uint64_t kStack = 4ull << 30;
  Head* h;
  Entry* e;
  uint8_t* stack;
  static void* Map(uint64_t n) {
    void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) abort();
    return p;
  }
  Tree() {
    h = (Head*)Map(sizeof(Head));
    e = (Entry*)Map(sizeof(Entry) << kLog);
    stack = (uint8_t*)Map(kStack);
  }
  ~Tree() {
    munmap(h, sizeof(Head));
    munmap(e, sizeof(Entry) << kLog);
    munmap(stack, kStack);
  }
  // Was this prefix extended with at least these bounds?  Notes it otherwise.
  // best: four bytes, by remaining spurious wake-ups: remaining preemptions + 1.
  bool Covered(uint64_t key, int p, int s) {
    if (!key) key = 1;
    uint64_t m = (1ull << kLog) - 1, i = vf::Mix(key) & m;
    for (int probe = 0;; ++probe, i = (i + 1) & m) {
      if (probe > 4000) { h->full = 1; return false; }
      uint64_t k = e[i].key.load();
      if (k == 0 && e[i].key.compare_exchange_strong(k, key)) { k = key; h->states++; }
      if (k != key) continue;
      uint32_t b = e[i].best.load();
      for (;;) {
        for (int q = s; q < 4; ++q) if ((int)(b >> (8 * q) & 255) > p) return true;
        uint32_t n = (b & ~(255u << (8 * s))) | (uint32_t)(p + 1) << (8 * s);
        if (e[i].best.compare_exchange_weak(b, n)) return false;
      }
    }
  }
  void Lock() { while (h->lock.exchange(1)) sched_yield(); }
  void Unlock() { h->lock = 0; }
};
struct Ids { int execs, points, states, accesses, max_points, threads; };
inline std::string Where(uint64_t off) {
  char cmd[300], b[600] = "";
  char exe[200];
  ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1);
  if (n < 0 || !off) return "?";
  exe[n] = 0;
  snprintf(cmd, sizeof cmd, "addr2line -f -C -p -e %s 0x%llx 2>/dev/null", exe, (unsigned long long)off - 1);
  FILE* f = popen(cmd, "r");
  if (!f) return "?";
  size_t k = fread(b, 1, sizeof b - 1, f);
  b[k] = 0;
  pclose(f);
  std::string s = b;
  while (!s.empty() && s.back() == '\n') s.pop_back();
  return s;
}

struct Explorer {
  Scenario scenario;
  void* arg;
  int preempt = 2;      // -1: unlimited
  int spurious = 0;
  double limit = 20;    // seconds for one execution
  int workers = 8;
  Shared* sh = nullptr;
  Tree tree;
  Ids ids;
  Explorer(Scenario f, void* a, Ids i) : scenario(f), arg(a), ids(i) {
    if (getenv("VERIF_JOBS")) workers = atoi(getenv("VERIF_JOBS"));
  }
  struct Item { std::vector<uint8_t> prefix; int p, s; };

  // Runs one execution; true if it went well.
  bool Execute(const std::vector<uint8_t>& prefix, bool* hung) {
    memcpy(sh->forced, prefix.data(), prefix.size());
    sh->nforced = (int)prefix.size();
    sh->spurious = spurious > 0;
    sh->status = kNotRun;
    sh->npoints = 0;
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      alarm((unsigned)limit);
      RunHere(sh, scenario, arg);
    }
    int st = 0;
    waitpid(p, &st, 0);
    *hung = WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM;
    return sh->status == kOk && !*hung;
  }
  void Pin() {  // switching threads is cheaper on one processor
    cpu_set_t cs, one;
    CPU_ZERO(&cs);
    sched_getaffinity(0, sizeof cs, &cs);
    int n = CPU_COUNT(&cs), k = n ? (workers > 1 ? tree.h->next_cpu++ : (int)getppid()) % n : 0;
    for (int i = 0; i < CPU_SETSIZE; ++i)
      if (CPU_ISSET(i, &cs) && k-- == 0) {
        CPU_ZERO(&one);
        CPU_SET(i, &one);
        sched_setaffinity(0, sizeof one, &one);
        return;
      }
  }
  void Put(const Item& it) {
    uint8_t* q = tree.stack + tree.h->top;
    uint32_t n = (uint32_t)it.prefix.size();
    memcpy(q, it.prefix.data(), n);
    q[n] = (uint8_t)it.p;
    q[n + 1] = (uint8_t)it.s;
    memcpy(q + n + 2, &n, 4);
    tree.h->top += n + 6;
    tree.h->queued++;
  }
  bool Get(Item* it) {
    if (!tree.h->top) return false;
    uint8_t* e = tree.stack + tree.h->top;
    uint32_t n;
    memcpy(&n, e - 4, 4);
    it->s = e[-5];
    it->p = e[-6];
    it->prefix.assign(e - 6 - n, e - 6);
    tree.h->top -= n + 6;
    tree.h->queued--;
    return true;
  }
  void Work() {
    sh = (Shared*)Tree::Map(sizeof(Shared));
    Pin();
    std::vector<Item> mine;
    Tree::Head* h = tree.h;
    for (;;) {
      Item it;
      if (!mine.empty()) {
        it = mine.back();
        mine.pop_back();
      } else {
        tree.Lock();
        bool got = Get(&it);
        if (!got) {
          h->idle++;
          tree.Unlock();
          for (;;) {
            if (h->stop || h->idle == workers) { h->stop = 1; return; }
            if (h->queued > 0) {
              tree.Lock();
              got = Get(&it);
              if (got) h->idle--;
              tree.Unlock();
              if (got) break;
            }
            usleep(200);
          }
        } else {
          tree.Unlock();
        }
      }
      if (h->stop) return;
      bool hung = false;
      bool ok = Execute(it.prefix, &hung);
      h->execs++;
      h->points += sh->npoints;
      h->accesses += (int64_t)sh->accesses;
      h->dropped += (int64_t)sh->dropped;
      if (h->max_points < sh->npoints) h->max_points = sh->npoints;
      if (h->threads < sh->threads) h->threads = sh->threads;
      if (!ok) {
        tree.Lock();
        if (!h->failed) {
          h->failed = 1;
          h->fail_len = (int)it.prefix.size();
          memcpy(h->fail_prefix, it.prefix.data(), it.prefix.size());
        }
        h->stop = 1;
        tree.Unlock();
        return;
      }
      std::vector<uint8_t> chosen = it.prefix;
      for (int i = (int)it.prefix.size(); i < sh->npoints; ++i) {
        const Point& q = sh->pts[i];
        if (tree.Covered(q.hash, it.p, it.s)) break;
        for (int o = 1; o < q.nopt; ++o) {
          int cp = preempt < 0 ? 0 : (q.cost[o] & 15), cs = q.cost[o] >> 4;
          if (cp > it.p || cs > it.s) continue;
          Item x{chosen, it.p - cp, it.s - cs};
          x.prefix.push_back((uint8_t)o);
          mine.push_back(x);
        }
        chosen.push_back(q.chosen);
      }
      if (h->full) { h->stop = 1; return; }
      if (mine.size() > 1 && h->queued < workers * 2) {  // share the shallow half
        tree.Lock();
        size_t k = mine.size() / 2;
        uint64_t need = 0;
        for (size_t i = 0; i < k; ++i) need += mine[i].prefix.size() + 6;
        if (h->top + need < Tree::kStack) {
          for (size_t i = 0; i < k; ++i) Put(mine[i]);
          mine.erase(mine.begin(), mine.begin() + k);
        }
        tree.Unlock();
      }
    }
  }
  // Explores the whole tree.  Returns false after a failure.
  bool Run(vf::Case& c) {
    Item root{{}, preempt < 0 ? 0 : preempt, spurious};
    Put(root);
    std::vector<pid_t> kids;
    for (int w = 0; w < workers; ++w) {
      pid_t p = fork();
      if (p == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        Work();
        _exit(0);
      }
      kids.push_back(p);
    }
    bool odd = false;
    for (pid_t p : kids) {
      int st = 0;
      waitpid(p, &st, 0);
      if (!WIFEXITED(st) || WEXITSTATUS(st)) { odd = true; tree.h->stop = 1; }
    }
    Tree::Head* h = tree.h;
    c.Count(ids.execs, h->execs);
    c.Count(ids.points, h->points);
    c.Count(ids.accesses, h->accesses);
    c.Count(ids.states, h->states);
    c.Max(ids.max_points, h->max_points);
    c.Max(ids.threads, h->threads);
    c.nontrivial = h->execs > 1;
    if (h->failed) {
      Report(c, std::vector<uint8_t>(h->fail_prefix, h->fail_prefix + h->fail_len));
      return false;
    }
    if (h->full || odd) {
      c.Fail("incomplete", h->full ? "more states than the table holds" : "an exploring process ended early");
      return false;
    }
    return true;
  }
  void Report(vf::Case& c, const std::vector<uint8_t>& prefix) {
    sh = (Shared*)Tree::Map(sizeof(Shared));
    bool hung = false;
    Execute(prefix, &hung);
    const char* kind = hung ? "hang" : sh->status == kRace ? "data-race" : sh->status == kDeadlock ? "deadlock" : sh->status == kFailed ? "wrong" : sh->status == kTooLong ? "too-long" : sh->status == kDiverged ? "diverged" : sh->status == kOk ? "unstable" : "crash";
    std::string m = hung ? vf::Fmt("no end within %.0f s", limit) : sh->msg[0] ? std::string(sh->msg) : std::string("the process ended");
    if (sh->status == kRace) m += "\n  " + Where(sh->pc[0]) + "\n  " + Where(sh->pc[1]);
    std::string sch;
    for (int i = 0; i < sh->npoints && i < 400; ++i) sch += vf::Fmt("%d", sh->pts[i].who[sh->pts[i].chosen]);
    c.Fail(kind, m + "\nthreads chosen at scheduling points: " + sch);
  }
};
}  // namespace sched
#endif
