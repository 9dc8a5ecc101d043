#ifndef VERIF_C22S_H_
#define VERIF_C22S_H_
#include <string>
struct Job {
  int kind;             // 0 encode, 1 decode
  int exec;             // 0: a thread per task, 1: two threads sharing the tasks, 2, 3: ParallelExecutor(2), (1)
  int ac, dc;
  std::string jpg;      // encode: input; decode: expected output
  std::string groups;   // encode: expected output; decode: input
  bool fails;           // decode: must fail
  int bad_comp, bad_block;  // encode: this DC coefficient is impossible (comp -1: none)
};
void RunJob(void* arg);
bool Sequential(const std::string& jpg, int ac, int dc, std::string* out);
bool SequentialDec(const std::string& groups, int ac, int dc, std::string* out);
#endif
