// C21: the parallel executor under every schedule.
#include "c21.h"
#include "explore.h"

struct Plan {
  Config c;
  int preempt[2], spurious[2];  // quick, thorough; -1: unlimited
};

int main(int argc, char** argv) {
  vf::Runner r("C21", argc, argv);
  sched::Ids ids = {r.Counter("executions"), r.Counter("transitions"), r.Counter("states"), r.Counter("memory_accesses"), r.Counter("longest_execution_points", true), r.Counter("threads", true)};
  static const Plan plans[] = {
      {{1, 0, {}, kPlain}, {-1, -1}, {3, 3}},
      {{1, 1, {1}, kPlain}, {-1, -1}, {2, 3}},
      {{1, 1, {2}, kPlain}, {-1, -1}, {1, 3}},
      {{1, 2, {1, 1}, kPlain}, {-1, -1}, {1, 2}},
      {{1, 3, {0, 2, 1}, kPlain}, {-1, -1}, {0, 1}},
      {{2, 0, {}, kPlain}, {-1, -1}, {1, 2}},
      {{2, 1, {1}, kPlain}, {3, 5}, {0, 0}},
      {{2, 1, {2}, kPlain}, {3, 5}, {0, 0}},
      {{2, 1, {3}, kPlain}, {2, 4}, {0, 0}},
      {{2, 2, {1, 1}, kPlain}, {2, 4}, {0, 1}},
      {{2, 2, {2, 2}, kPlain}, {2, 3}, {0, 1}},
      {{2, 2, {0, 2}, kPlain}, {2, 4}, {0, 1}},
      {{2, 3, {2, 0, 1}, kPlain}, {1, 3}, {1, 1}},
      {{3, 0, {}, kPlain}, {2, 3}, {0, 0}},
      {{3, 1, {1}, kPlain}, {1, 2}, {0, 0}},
      {{3, 1, {3}, kPlain}, {1, 2}, {0, 0}},
      {{3, 2, {2, 1}, kPlain}, {0, 1}, {0, 0}},
      {{1, 2, {1, 2}, kMoved}, {2, 4}, {0, 1}},
      {{2, 2, {1, 1}, kMoved}, {1, 2}, {0, 1}},
      {{1, 2, {1, 1}, kTwo}, {2, 3}, {0, 1}},
      {{4, 0, {}, kPlain}, {0, 1}, {0, 0}},
  };
  for (size_t i = 0; i < sizeof plans / sizeof *plans; ++i) {
    const Plan* p = &plans[i];
    int P = p->preempt[r.thorough()], S = p->spurious[r.thorough()];
    std::string n = vf::Fmt("w%d", p->c.workers);
    for (int k = 0; k < p->c.nbatches; ++k) n += vf::Fmt("%s%d", k ? "," : "-b", p->c.batch[k]);
    if (p->c.mode == kMoved) n += "-moved";
    if (p->c.mode == kTwo) n += "-two";
    r.Add(n + (P < 0 ? std::string("-all") : vf::Fmt("-p%d", P)) + vf::Fmt("-s%d", S), 1,
          [=](vf::Case& c) {
            sched::Explorer e(RunConfig, (void*)&p->c, ids);
            e.preempt = P;
            e.spurious = S;
            e.Run(c);
          },
          [=](uint64_t k) { return vf::Fmt("%s: all schedules with at most %d preemptions (-1: any number) and %d spurious wake-ups", n.c_str(), P, S); },
          3000, 1);
  }
  r.rule = "a configuration (workers, batches) with more than one schedule";
  r.extra["states"] = "$states";
  r.extra["transitions"] = "$transitions";
  r.extra["traces_validated_against_impl"] = "$executions";
  r.assumptions.push_back("sequential consistency between scheduling points; programs without data races (checked on every access) have no other behaviours");
  return r.Main();
}
