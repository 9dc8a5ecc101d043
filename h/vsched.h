// Controlled scheduler for real threads, and exploration of its choices.
//
// The code under test (library and scenario) is compiled with clang's
// -fsanitize=thread instrumentation but linked against the runtime in
// sched_rt.cc, which
//   - lets exactly one thread run at a time and decides at every synchronisation
//     operation (mutex, condition variable, atomic, thread start/join, once,
//     static initialisation, futex) which thread goes on;
//   - checks every instrumented memory access for data races with vector clocks.
// One execution happens in a freshly forked process and is determined by a list
// of choices; Explore() walks all lists within the bounds.
#ifndef VERIF_SCHED_H_
#define VERIF_SCHED_H_
#include <stddef.h>
#include <stdint.h>

namespace sched {
enum { kMaxPoints = 60000, kMaxOpts = 16 };
struct Point {
  uint8_t nopt, chosen, cur_enabled;
  uint8_t cost[kMaxOpts];      // 1: preemption, 16: spurious wake-up, 0: free
  uint8_t who[kMaxOpts];
  uint64_t hash;               // happens-before fingerprint of the prefix and the current thread
};
enum Status { kNotRun = 0, kOk, kRace, kDeadlock, kFailed, kTooLong, kDiverged, kCrash };
struct Shared {
  int nforced;
  uint8_t forced[kMaxPoints];
  int npoints;
  Point pts[kMaxPoints];
  int status;
  char msg[3000];
  uint64_t pc[2];
  uint64_t accesses, words, dropped;
  uint64_t result;             // scenario's fingerprint of what it computed
  int threads;
  bool spurious;               // offer spurious wake-ups
};

// --- for the scenario (runs inside the execution) ---
void Fail(const char* fmt, ...);        // the property is violated
void SetResult(uint64_t fingerprint);

// --- for the controller ---
typedef void (*Scenario)(void* arg);
// Runs one execution in this (forked) process; does not return.
void RunHere(Shared* s, Scenario f, void* arg);
}  // namespace sched
#endif
