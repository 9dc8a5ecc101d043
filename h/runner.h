// Exhaustive-enumeration runner.
//
// A check declares "spaces": finite, indexable sets of cases.  The runner walks
// every index of every space exactly once, spread over forked workers, so that
// a crash / sanitizer report / endless loop in the code under test is
// attributed to the very case that provoked it.  No sampling happens here: a
// space is either walked completely or reported as truncated.
#ifndef VERIF_RUNNER_H_
#define VERIF_RUNNER_H_
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <atomic>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace vf {

inline double Now() {
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}

inline std::string Fmt(const char* f, ...) {
  char buf[4096];
  va_list ap;
  va_start(ap, f);
  vsnprintf(buf, sizeof buf, f, ap);
  va_end(ap);
  return buf;
}

inline std::string Hex(const std::string& s, size_t max = 4096) {
  std::string r;
  for (size_t i = 0; i < s.size() && i < max; ++i) {
    char b[4];
    snprintf(b, sizeof b, "%02x", (unsigned char)s[i]);
    r += b;
  }
  if (s.size() > max) r += "...";
  return r;
}

inline std::string JsonEsc(const std::string& s) {
  std::string r;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      r += '\\';
      r += c;
    } else if (c == '\n') {
      r += "\\n";
    } else if (c < 32 || c > 126) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      r += b;
    } else {
      r += c;
    }
  }
  return r;
}

inline uint64_t Fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
  const unsigned char* c = (const unsigned char*)p;
  for (size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 1099511628211ull;
  return h;
}
inline uint64_t Fnv(const std::string& s, uint64_t h = 1469598103934665603ull) {
  return Fnv(s.data(), s.size(), h);
}
inline uint64_t Mix(uint64_t x) {
  x ^= x >> 33; x *= 0xff51afd7ed558ccdull; x ^= x >> 33;
  x *= 0xc4ceb9fe1a85ec53ull; x ^= x >> 33;
  return x;
}

enum { kMaxWorkers = 16, kCounters = 64, kMsg = 3000 };

// Passed to every case.
struct Case {
  uint64_t index = 0;
  bool nontrivial = false;      // did the case exercise what the rule asks for
  bool failed = false;
  std::string key;              // stable identity of the failure
  std::string msg;
  std::string blob;             // failing input, written next to the replay
  uint64_t hash = 0;            // identity of the case, for counting distinct
  int64_t* counters = nullptr;
  bool verbose = false;
  void Count(int c, int64_t n = 1) { counters[c] += n; }
  void Max(int c, int64_t n) { if (counters[c] < n) counters[c] = n; }
  void Fail(const std::string& k, const std::string& m,
            const std::string& b = std::string()) {
    if (failed) return;
    failed = true;
    key = k;
    msg = m;
    blob = b;
  }
};

struct Space {
  std::string name;
  uint64_t size;
  std::function<void(Case&)> run;
  std::function<std::string(uint64_t)> describe;
  double case_limit = 20;       // seconds for one case before "hang" is checked
  uint64_t batch = 0;           // 0 = automatic
};

struct Slot {
  std::atomic<int64_t> space;
  std::atomic<int64_t> index;
  std::atomic<double> started;
  int64_t counters[kCounters];
  int64_t evals, nontrivial;
};

enum { kSeenBits = 28 };
struct Shared {
  std::atomic<uint64_t> next;
  std::atomic<int> stop;
  Slot slots[kMaxWorkers];
  // One bit per case identity (hash): a case counts as distinct only when its
  // bit was clear.  Collisions make the count smaller, never larger.
  std::atomic<uint64_t> seen[1u << (kSeenBits - 6)];
  bool FirstTime(uint64_t h) {
    h = Mix(h) >> (64 - kSeenBits);
    uint64_t bit = 1ull << (h & 63);
    return !(seen[h >> 6].fetch_or(bit) & bit);
  }
};

struct Violation {
  std::string space;
  uint64_t index;
  std::string key, msg, blob, desc;
};

struct Runner {
  std::string property;
  std::string tier = "quick";
  std::string outdir = ".";
  std::string replay_space;
  int64_t replay_index = -1;
  bool list = false;
  std::string only;
  double deadline_s = 780;
  int workers = 8;
  uint64_t seed = 1;
  std::vector<Space> spaces;
  std::map<std::string, int> counter_ids;
  std::vector<std::string> counter_names;
  std::vector<bool> counter_is_max;
  std::string rule;
  std::vector<std::string> assumptions;
  std::map<std::string, std::string> extra;  // raw json values, or $counter
  int max_violations = 12;

  Runner(const char* prop, int argc, char** argv) : property(prop) {
    if (getenv("VERIF_TIER")) tier = getenv("VERIF_TIER");
    if (getenv("VERIF_SEED")) seed = strtoull(getenv("VERIF_SEED"), 0, 10);
    if (getenv("VERIF_JOBS")) workers = atoi(getenv("VERIF_JOBS"));
    for (int i = 1; i < argc; ++i) {
      std::string a = argv[i];
      if (a == "--tier" && i + 1 < argc) tier = argv[++i];
      else if (a == "--out" && i + 1 < argc) outdir = argv[++i];
      else if (a == "--only" && i + 1 < argc) only = argv[++i];
      else if (a == "--deadline" && i + 1 < argc) deadline_s = atof(argv[++i]);
      else if (a == "--jobs" && i + 1 < argc) workers = atoi(argv[++i]);
      else if (a == "--list") list = true;
      else if (a == "--replay" && i + 2 < argc) {
        replay_space = argv[++i];
        replay_index = atoll(argv[++i]);
      }
    }
    if (workers > kMaxWorkers) workers = kMaxWorkers;
    if (workers < 1) workers = 1;
  }
  bool thorough() const { return tier == "thorough"; }
  uint64_t Bound(uint64_t quick, uint64_t deep) const {
    return thorough() ? deep : quick;
  }
  int Counter(const std::string& n, bool is_max = false) {
    auto it = counter_ids.find(n);
    if (it != counter_ids.end()) return it->second;
    int id = (int)counter_names.size();
    if (id >= kCounters) abort();
    counter_ids[n] = id;
    counter_names.push_back(n);
    counter_is_max.push_back(is_max);
    return id;
  }
  void Add(const std::string& name, uint64_t size,
           std::function<void(Case&)> run,
           std::function<std::string(uint64_t)> describe = nullptr,
           double limit = 20, uint64_t batch = 0) {
    spaces.push_back(Space{name, size, run, describe, limit, batch});
  }

  std::string Describe(const Space& s, uint64_t i) {
    return s.describe ? s.describe(i) : Fmt("#%llu", (unsigned long long)i);
  }

  // Runs one case in a forked child with its output captured.  Returns true if
  // it behaved, fills *v otherwise.
  bool RunIsolated(size_t si, uint64_t idx, double limit, Violation* v) {
    Space& s = spaces[si];
    char tmpl[] = "/tmp/vfisoXXXXXX";
    int fd = mkstemp(tmpl);
    unlink(tmpl);
    int pfd[2];
    if (pipe(pfd) != 0) abort();
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
      close(pfd[0]);
      dup2(fd, 2);
      std::vector<int64_t> cnt(kCounters, 0);
      Case c;
      c.index = idx;
      c.counters = cnt.data();
      s.run(c);
      if (c.failed) {
        std::string o = c.key + "\n" + c.msg;
        uint32_t n = o.size();
        (void)!write(pfd[1], &n, 4);
        (void)!write(pfd[1], o.data(), o.size());
        size_t off = 0;
        while (off < c.blob.size()) {
          ssize_t w = write(pfd[1], c.blob.data() + off, c.blob.size() - off);
          if (w <= 0) break;
          off += w;
        }
        _exit(7);
      }
      _exit(0);
    }
    close(pfd[1]);
    std::string got;
    fcntl(pfd[0], F_SETFL, O_NONBLOCK);
    double t0 = Now();
    int st = 0;
    bool hung = false;
    while (true) {
      char b[65536];
      ssize_t r;
      while ((r = read(pfd[0], b, sizeof b)) > 0) got.append(b, r);
      pid_t w = waitpid(p, &st, WNOHANG);
      if (w == p) break;
      if (Now() - t0 > limit) {
        kill(p, SIGKILL);
        waitpid(p, &st, 0);
        hung = true;
        break;
      }
      usleep(500);
    }
    {
      char b[65536];
      ssize_t r;
      while ((r = read(pfd[0], b, sizeof b)) > 0) got.append(b, r);
    }
    close(pfd[0]);
    std::string err;
    lseek(fd, 0, SEEK_SET);
    {
      char b[4096];
      ssize_t r;
      while ((r = read(fd, b, sizeof b)) > 0 && err.size() < 6000) err.append(b, r);
    }
    close(fd);
    v->space = s.name;
    v->index = idx;
    v->desc = Describe(s, idx);
    if (hung) {
      v->key = "hang";
      v->msg = Fmt("no progress within %.0f s when run alone", limit);
      return false;
    }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return true;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 7 && got.size() >= 4) {
      uint32_t n;
      memcpy(&n, got.data(), 4);
      std::string o = got.substr(4, n);
      v->blob = got.substr(4 + n);
      size_t nl = o.find('\n');
      v->key = o.substr(0, nl);
      v->msg = nl == std::string::npos ? "" : o.substr(nl + 1);
      return false;
    }
    if (WIFSIGNALED(st)) {
      v->key = Fmt("crash-signal-%d", WTERMSIG(st));
    } else {
      v->key = "crash";
      size_t e = err.find("ERROR: AddressSanitizer: ");
      if (e != std::string::npos) {
        size_t q = err.find_first_of(" \n", e + 25);
        v->key = "asan-" + err.substr(e + 25, q - e - 25);
      } else if (err.find("runtime error:") != std::string::npos) {
        v->key = "ubsan";
      }
    }
    v->msg = err.substr(0, 2500);
    return false;
  }

  int Main() {
    double t0 = Now();
    if (list) {
      for (auto& s : spaces)
        printf("%s %llu\n", s.name.c_str(), (unsigned long long)s.size);
      return 0;
    }
    if (replay_index >= 0) {
      for (size_t i = 0; i < spaces.size(); ++i) {
        if (spaces[i].name != replay_space) continue;
        Violation v;
        fprintf(stderr, "replaying %s %s\n", replay_space.c_str(),
                Describe(spaces[i], replay_index).c_str());
        if (RunIsolated(i, replay_index, spaces[i].case_limit * 3, &v)) {
          printf("REPLAY ok\n");
          return 0;
        }
        printf("REPLAY violation key=%s\n%s\n", v.key.c_str(), v.msg.c_str());
        return 1;
      }
      fprintf(stderr, "no such space\n");
      return 2;
    }
    std::vector<std::pair<size_t, uint64_t>> dummy;
    Shared* sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE,
                               MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (sh == MAP_FAILED) abort();
    std::vector<Violation> violations;
    std::set<std::string> seen_keys;
    int64_t evals = 0, nontriv = 0;
    std::vector<int64_t> totals(kCounters, 0);
    std::vector<std::string> truncated, notes;
    std::map<std::string, int64_t> per_space;
    std::vector<std::string> samples;
    int slow_cleared = 0;

    for (size_t si = 0; si < spaces.size(); ++si) {
      Space& s = spaces[si];
      if (!only.empty() && s.name.find(only) == std::string::npos) continue;
      double ts = Now();
      // Fixed space order; start offset never matters as all are visited.
      sh->next = 0;
      sh->stop = 0;
      uint64_t batch = s.batch;
      if (!batch) {
        batch = s.size / (workers * 64);
        if (batch < 1) batch = 1;
        if (batch > 256) batch = 256;
      }
      // pending single cases that must be skipped when a worker resumes
      std::vector<pid_t> pid(workers, -1);
      std::vector<uint64_t> resume_from(workers, 0), resume_to(workers, 0);
      std::vector<int> errfd(workers, -1);
      std::vector<int> rp(workers, -1);
      for (int w = 0; w < workers; ++w) {
        memset((void*)&sh->slots[w], 0, sizeof(Slot));
        sh->slots[w].index = -1;
      }
      struct Batch { std::atomic<uint64_t> lo, hi; };
      Batch* bt = (Batch*)mmap(0, sizeof(Batch) * kMaxWorkers,
                               PROT_READ | PROT_WRITE,
                               MAP_SHARED | MAP_ANONYMOUS, -1, 0);
      auto spawn = [&](int w) {
        fflush(stdout);
        pid_t p = fork();
        if (p == 0) {
          int nul = open("/dev/null", O_WRONLY);
          dup2(nul, 2);
          Slot& sl = sh->slots[w];
          while (true) {
            uint64_t lo = bt[w].lo, hi = bt[w].hi;
            if (lo >= hi) {
              if (sh->stop) break;
              lo = sh->next.fetch_add(batch);
              if (lo >= s.size) break;
              hi = lo + batch;
              if (hi > s.size) hi = s.size;
              bt[w].lo = lo;
              bt[w].hi = hi;
            }
            for (uint64_t i = lo; i < hi; ++i) {
              sl.started = Now();
              sl.index = (int64_t)i;
              Case c;
              c.index = i;
              c.counters = sl.counters;
              s.run(c);
              ++sl.evals;
              if (c.nontrivial && sh->FirstTime(c.hash ? c.hash : Mix(i) + 31 * si + 1))
                ++sl.nontrivial;
              if (c.failed) _exit(9);  // the parent re-runs it in isolation
              sl.index = -1;
              bt[w].lo = i + 1;
              if (sh->stop) break;
            }
            if (sh->stop) break;
          }
          _exit(0);
        }
        pid[w] = p;
      };
      for (int w = 0; w < workers; ++w) {
        bt[w].lo = 0;
        bt[w].hi = 0;
        spawn(w);
      }
      int live = workers;
      int found_here = 0;
      bool trunc = false;
      while (live > 0) {
        int st = 0;
        pid_t p = waitpid(-1, &st, WNOHANG);
        if (p <= 0) {
          double now = Now();
          if (now - t0 > deadline_s && !sh->stop) {
            sh->stop = 1;
            trunc = true;
          }
          for (int w = 0; w < workers; ++w) {
            if (pid[w] < 0) continue;
            Slot& sl = sh->slots[w];
            if (sl.index >= 0 && now - sl.started > s.case_limit)
              kill(pid[w], SIGKILL);
            if (sh->stop && trunc && now - t0 > deadline_s + s.case_limit)
              kill(pid[w], SIGKILL);
          }
          usleep(2000);
          continue;
        }
        int w = -1;
        for (int k = 0; k < workers; ++k)
          if (pid[k] == p) w = k;
        if (w < 0) continue;
        pid[w] = -1;
        --live;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
        int64_t idx = sh->slots[w].index;
        if (idx < 0) {
          if (!sh->stop) { spawn(w); ++live; }
          continue;
        }
        Violation v;
        bool ok = RunIsolated(si, (uint64_t)idx, s.case_limit * 3, &v);
        if (ok && WIFEXITED(st) && WEXITSTATUS(st) == 9) {
          // Failed in a worker that had run other cases before it, but not on
          // its own: history-dependent. Report it as such only if it repeats
          // with the same history.
          bool again = false;
          {
            fflush(stdout);
            uint64_t lo = bt[w].lo;
            (void)lo;
            pid_t q = fork();
            if (q == 0) {
              int nul = open("/dev/null", O_WRONLY);
              dup2(nul, 2);
              std::vector<int64_t> cnt(kCounters, 0);
              uint64_t from = (uint64_t)idx > 600 ? idx - 600 : 0;
              for (uint64_t i = from; i <= (uint64_t)idx; ++i) {
                Case c;
                c.index = i;
                c.counters = cnt.data();
                s.run(c);
                if (c.failed) _exit(9);
              }
              _exit(0);
            }
            int st2;
            waitpid(q, &st2, 0);
            again = !(WIFEXITED(st2) && WEXITSTATUS(st2) == 0);
          }
          if (again) {
            v.key = "history-dependent";
            v.msg = "fails only after the preceding cases ran in the process";
            ok = false;
          } else {
            notes.push_back("unrepeatable failure cleared at " + s.name + " " +
                            v.desc);
          }
        } else if (ok) {
          ++slow_cleared;
          if (notes.size() < 20)
            notes.push_back("slow or killed case cleared on isolated re-run: " +
                            s.name + " " + v.desc);
        }
        if (!ok) {
          std::string sk = s.name + "|" + v.key;
          ++found_here;
          if (!seen_keys.count(sk) && (int)violations.size() < max_violations) {
            seen_keys.insert(sk);
            violations.push_back(v);
          }
        }
        bt[w].lo = (uint64_t)idx + 1;
        sh->slots[w].index = -1;
        if (found_here > 40) sh->stop = 1, trunc = true;
        if (!sh->stop) { spawn(w); ++live; }
      }
      int64_t sp_e = 0;
      for (int w = 0; w < workers; ++w) {
        sp_e += sh->slots[w].evals;
        evals += sh->slots[w].evals;
        nontriv += sh->slots[w].nontrivial;
        for (int k = 0; k < kCounters; ++k) {
          if (k < (int)counter_is_max.size() && counter_is_max[k])
            totals[k] = std::max(totals[k], sh->slots[w].counters[k]);
          else
            totals[k] += sh->slots[w].counters[k];
        }
      }
      munmap(bt, sizeof(Batch) * kMaxWorkers);
      per_space[s.name] = sp_e;
      if (trunc) truncated.push_back(s.name);
      if (s.size) {
        samples.push_back(s.name + ": " + Describe(s, 0));
        if (s.size > 2) samples.push_back(s.name + ": " + Describe(s, s.size / 2));
        if (s.size > 1) samples.push_back(s.name + ": " + Describe(s, s.size - 1));
      }
      fprintf(stderr, "[%s] %-28s %9lld/%llu cases %6.1fs%s\n",
              property.c_str(), s.name.c_str(), (long long)sp_e,
              (unsigned long long)s.size, Now() - ts, trunc ? " TRUNCATED" : "");
      fflush(stderr);
      if (Now() - t0 > deadline_s) {
        for (size_t k = si + 1; k < spaces.size(); ++k)
          truncated.push_back(spaces[k].name);
        break;
      }
    }
    // result file consumed by run.py
    std::string path = outdir + "/result.json";
    FILE* f = fopen(path.c_str(), "w");
    if (!f) { perror(path.c_str()); return 2; }
    fprintf(f, "{\"evaluations\": %lld, \"distinct_nontrivial\": %lld,\n",
            (long long)evals, (long long)nontriv);
    fprintf(f, "\"rule\": \"%s\",\n\"samples\": [", JsonEsc(rule).c_str());
    for (size_t i = 0; i < samples.size(); ++i)
      fprintf(f, "%s\"%s\"", i ? "," : "", JsonEsc(samples[i]).c_str());
    fprintf(f, "],\n\"exhaustive\": %s,\n\"truncated\": [",
            truncated.empty() ? "true" : "false");
    for (size_t i = 0; i < truncated.size(); ++i)
      fprintf(f, "%s\"%s\"", i ? "," : "", JsonEsc(truncated[i]).c_str());
    fprintf(f, "],\n\"spaces\": {");
    bool first = true;
    for (auto& kv : per_space) {
      fprintf(f, "%s\"%s\": %lld", first ? "" : ",", JsonEsc(kv.first).c_str(),
              (long long)kv.second);
      first = false;
    }
    fprintf(f, "},\n\"counters\": {");
    for (size_t i = 0; i < counter_names.size(); ++i)
      fprintf(f, "%s\"%s\": %lld", i ? "," : "", counter_names[i].c_str(),
              (long long)totals[i]);
    fprintf(f, "},\n\"notes\": [");
    for (size_t i = 0; i < notes.size(); ++i)
      fprintf(f, "%s\"%s\"", i ? "," : "", JsonEsc(notes[i]).c_str());
    fprintf(f, "],\n\"assumptions\": [");
    for (size_t i = 0; i < assumptions.size(); ++i)
      fprintf(f, "%s\"%s\"", i ? "," : "", JsonEsc(assumptions[i]).c_str());
    fprintf(f, "],\n\"violations\": [");
    for (size_t i = 0; i < violations.size(); ++i) {
      Violation& v = violations[i];
      std::string bp;
      if (!v.blob.empty()) {
        bp = Fmt("%s/blob_%zu.bin", outdir.c_str(), i);
        FILE* b = fopen(bp.c_str(), "wb");
        if (b) {
          fwrite(v.blob.data(), 1, v.blob.size(), b);
          fclose(b);
        }
      }
      fprintf(f,
              "%s{\"space\": \"%s\", \"index\": %llu, \"key\": \"%s\", \"desc\": "
              "\"%s\", \"msg\": \"%s\", \"blob\": \"%s\"}\n",
              i ? "," : "", JsonEsc(v.space).c_str(), (unsigned long long)v.index,
              JsonEsc(v.key).c_str(), JsonEsc(v.desc).c_str(),
              JsonEsc(v.msg).c_str(), JsonEsc(bp).c_str());
    }
    fprintf(f, "]");
    for (auto& kv : extra) {
      std::string v = kv.second;
      if (!v.empty() && v[0] == '$') v = Fmt("%lld", (long long)totals[counter_ids[v.substr(1)]]);
      fprintf(f, ",\n\"%s\": %s", kv.first.c_str(), v.c_str());
    }
    fprintf(f, ",\n\"wall_s\": %.2f}\n", Now() - t0);
    fclose(f);
    return violations.empty() ? 0 : 1;
  }
};

// Mixed-radix decomposition of a case index.
struct Radix {
  uint64_t v;
  explicit Radix(uint64_t x) : v(x) {}
  uint64_t operator()(uint64_t base) {
    uint64_t r = v % base;
    v /= base;
    return r;
  }
};

}  // namespace vf
#endif
