// C22: group coding under every schedule of its tasks.
#include "c22s.h"
#include "explore.h"
#include "families.h"

struct Sec { size_t begin, payload, end; int tag; };
static std::vector<Sec> Parts(const std::string& b) {
  std::vector<Sec> v;
  size_t p = 0;
  while (p < b.size()) {
    Sec q;
    q.begin = p;
    q.tag = (uint8_t)b[p] >> 3;
    uint64_t n = 0;
    int s = 0;
    ++p;
    while (p < b.size()) { uint8_t c = b[p++]; n |= (uint64_t)(c & 127) << s; s += 7; if (!(c & 128)) break; }
    q.payload = p;
    p += n;
    q.end = p;
    v.push_back(q);
  }
  return v;
}

int main(int argc, char** argv) {
  vf::Runner r("C22", argc, argv);
  sched::Ids ids = {r.Counter("executions"), r.Counter("transitions"), r.Counter("states"), r.Counter("memory_accesses"), r.Counter("longest_execution_points", true), r.Counter("threads", true)};
  // width, height, sampling, ac, dc
  static const int shapes[][5] = {{16, 8, 0, 1, 1}, {16, 8, 0, 1, 2}, {24, 8, 0, 1, 1}, {16, 16, 2, 1, 2}, {16, 16, 0, 1, 1}, {48, 16, 3, 2, 2}};
  static const char* ex[] = {"thread-per-task", "two-threads", "pool2", "pool1"};
  bool deep = r.thorough();
  int si = 0;
  for (auto& s : shapes) {
    gen::Jpeg g;
    g.w = s[0];
    g.h = s[1];
    g.comps = fam::Sampling(s[2]);
    g.Layout();
    fam::Script(g, 0);
    gen::FillPattern(g, 9, 5);
    fam::Plain(g, 0, 0);
    fam::Made m = fam::Finish(g, "", true);
    std::string groups, back;
    bool ok = Sequential(m.jpg, s[3], s[4], &groups);
    std::string base = vf::Fmt("%dx%d-%s-%d/%d", s[0], s[1], fam::SamplingName(s[2]), s[3], s[4]);
    if (!ok || !SequentialDec(groups, s[3], s[4], &back) || back != m.jpg) {
      r.Add(base + "-sequential", 1, [=](vf::Case& c) { c.Fail("sequential", base + ": sequential group coding does not restore the picture", m.jpg); });
      continue;
    }
    std::vector<std::pair<std::string, Job>> jobs;
    for (int e = 0; e < 4; ++e) {
      Job j = {0, e, s[3], s[4], m.jpg, groups, false, -1, 0};
      jobs.push_back({std::string("encode-") + ex[e], j});
      j.kind = 1;
      jobs.push_back({std::string("decode-") + ex[e], j});
      // each data section emptied
      auto parts = Parts(groups);
      for (size_t t = 0; t < parts.size(); ++t) {
        if (parts[t].tag != 7 && parts[t].tag != 8) continue;
        if (!deep && t != 6 && t + 1 != parts.size()) continue;
        Job d = j;
        d.groups = groups.substr(0, parts[t].begin) + std::string(1, groups[parts[t].begin]) + std::string(1, '\0') + groups.substr(parts[t].end);
        d.fails = true;
        jobs.push_back({vf::Fmt("damaged%d-%s", (int)t, ex[e]), d});
        // and with a word too many, which spoils nothing that is decoded later
        if (parts[t].tag == 7 && e < 3) {
          std::string len, none;
          for (size_t n = parts[t].end - parts[t].payload + 2; ; n >>= 7) { len += (char)((n & 127) | (n > 127 ? 128 : 0)); if (n <= 127) break; }
          d.groups = groups.substr(0, parts[t].begin + 1) + len + groups.substr(parts[t].payload, parts[t].end - parts[t].payload) + std::string(2, '\0') + groups.substr(parts[t].end);
          if (!SequentialDec(d.groups, s[3], s[4], &none)) jobs.push_back({vf::Fmt("word-more%d-%s", (int)t, ex[e]), d});
        }
      }
      if (s[3] == s[4]) for (int b = 0; b < (deep ? 4 : 2); ++b) {
        Job d = {0, e, s[3], s[4], m.jpg, groups, true, 0, b ? s[0] * s[1] / 64 - b : 0};
        jobs.push_back({vf::Fmt("impossible%d-%s", d.bad_block, ex[e]), d});
      }
    }
    for (auto& jj : jobs) {
      auto job = std::make_shared<Job>(jj.second);
      bool big = si >= 2;
      int P = job->exec == 0 ? (big ? 1 : 2) : 1;
      if (big && job->exec >= 2) P = 0;
      if (job->exec == 2 && job->kind == 0) P = 0;
      if (!deep && si == 2 && job->exec == 0 && job->kind == 0) P = 0;
      if (deep) ++P;
      if (!deep && si >= 4 && job->exec != 1) continue;
      std::string n = base + "-" + jj.first + vf::Fmt("-p%d", P);
      r.Add(n, 1, [=](vf::Case& c) {
        sched::Explorer e(RunJob, job.get(), ids);
        e.preempt = P;
        e.Run(c);
      }, [=](uint64_t) { return vf::Fmt("%s: all schedules with at most %d preemptions", n.c_str(), P); }, 3000, 1);
    }
    ++si;
  }
  r.rule = "an operation (picture, group sizes, executor, damage) with more than one schedule";
  r.extra["states"] = "$states";
  r.extra["transitions"] = "$transitions";
  r.extra["traces_validated_against_impl"] = "$executions";
  r.assumptions.push_back("sequential consistency between scheduling points; programs without data races (checked on every access) have no other behaviours");
  r.assumptions.push_back("the brotli library, which is not instrumented, shares nothing between calls");
  return r.Main();
}
