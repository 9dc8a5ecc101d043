#ifndef VERIF_C29_H_
#define VERIF_C29_H_
#include <string>
enum { kOps = 9 };
struct Task { int op; std::string in, out; };
struct Race { int n; Task t[3]; bool warm; };
const char* OpName(int op);
std::string Perform(const Task& t);  // its observable result
void RunRace(void* arg);
#endif
