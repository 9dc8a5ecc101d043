// C29: independent calls in different threads.
#include <memory>
#include "c29.h"
#include "corpus.h"
#include "explore.h"

int main(int argc, char** argv) {
  vf::Runner r("C29", argc, argv);
  sched::Ids ids = {r.Counter("executions"), r.Counter("transitions"), r.Counter("states"), r.Counter("memory_accesses"), r.Counter("longest_execution_points", true), r.Counter("threads", true)};
  bool deep = r.thorough();
  auto corp = corpus::Load();
  std::vector<std::string> files = {"420-v2", "prog-v0", "meta-v2"};
  if (deep) for (const char* n : {"444-sep-dri-v2", "prog420-dri-v0", "cmyk-v2", "padding-v2", "icc-stock-v2", "jfif-stock-v2", "intermarker-v2", "resets-v2", "zruns-v2", "quant16-v2", "quant2-v2", "comp-id-v2", "dense-v2", "no-meta-v2"}) files.push_back(n);
  size_t F = files.size();
  // every operation on every file, alone, in a process of its own
  auto tasks = std::make_shared<std::vector<Task>>();
  for (size_t f = 0; f < F; ++f)
    for (int op = 0; op < kOps; ++op) {
      auto& e = corpus::Get(corp, files[f]);
      Task t{op, op == 1 || op == 2 || op == 4 || op == 8 ? e.brn : e.jpg, ""};
      int fd[2];
      if (pipe(fd)) return 2;
      pid_t p = fork();
      if (!p) {
        std::string o = Perform(t);
        _exit(write(fd[1], o.data(), o.size()) != (ssize_t)o.size());
      }
      close(fd[1]);
      char b[4096];
      ssize_t n;
      while ((n = read(fd[0], b, sizeof b)) > 0) t.out.append(b, n);
      close(fd[0]);
      int st;
      waitpid(p, &st, 0);
      if (st) { fprintf(stderr, "%s fails alone\n", OpName(op)); return 2; }
      tasks->push_back(t);
    }
  auto task = [=](size_t f, int op) { return (*tasks)[f * kOps + op]; };
  auto run = [=](vf::Case& c, const Race& race, int P) {
    auto copy = std::make_shared<Race>(race);
    sched::Explorer e(RunRace, copy.get(), ids);
    e.preempt = P;
    e.workers = 1;
    e.limit = 60;
    e.Run(c);
    c.nontrivial = true;
    c.hash = c.index + 1;
    for (int i = 0; i < race.n; ++i) c.hash = vf::Fnv(race.t[i].in, c.hash * 31 + race.t[i].op);
  };
  auto name = [=](const Race& q, size_t f, size_t g) { return vf::Fmt("%s of %s with %s of %s%s", OpName(q.t[0].op), files[f].c_str(), OpName(q.t[1].op), files[g].c_str(), q.warm ? ", not for the first time" : ""); };
  auto pair = [=](uint64_t i, size_t* f, size_t* g) {
    vf::Radix x(i);
    Race q;
    q.n = 2;
    q.warm = x(2);
    int a = (int)x(kOps), b = (int)x(kOps);
    *f = x(F);
    *g = x(F);
    q.t[0] = task(*f, a);
    q.t[1] = task(*g, b);
    return q;
  };
  r.Add("pairs", 2 * kOps * kOps * F * F, [=](vf::Case& c) {
    size_t f, g;
    Race q = pair(c.index, &f, &g);
    if (f > g || (q.warm && f != g)) return;
    run(c, q, 2);
  }, [=](uint64_t i) { size_t f, g; Race q = pair(i, &f, &g); return name(q, f, g); }, 600, 1);
  auto triple = [=](uint64_t i) {
    vf::Radix x(i);
    Race q;
    q.n = 3;
    q.warm = false;
    for (int k = 0; k < 3; ++k) q.t[k] = task(k % F, (int)x(kOps));
    return q;
  };
  r.Add("triples", kOps * kOps * kOps, [=](vf::Case& c) {
    Race q = triple(c.index);
    if (!deep && (q.t[0].op > q.t[1].op || q.t[1].op > q.t[2].op)) return;
    run(c, q, 1);
  }, [=](uint64_t i) { Race q = triple(i); return vf::Fmt("%s, %s and %s at once", OpName(q.t[0].op), OpName(q.t[1].op), OpName(q.t[2].op)); }, 600, 1);
  r.rule = "a combination of operations and inputs, each in a thread of its own, in a fresh process (or after a first use); every schedule within the bound; every memory access is checked against every other";
  r.extra["states"] = "$states";
  r.extra["transitions"] = "$transitions";
  r.extra["traces_validated_against_impl"] = "$executions";
  r.assumptions.push_back("sequential consistency between scheduling points; programs without data races (checked on every access) have no other behaviours");
  r.assumptions.push_back("the brotli library, which is not instrumented, shares nothing between calls");
  return r.Main();
}
