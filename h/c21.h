#ifndef VERIF_C21_H_
#define VERIF_C21_H_
enum Mode { kPlain, kMoved, kTwo };
struct Config {
  int workers;
  int nbatches;
  int batch[4];
  int mode;
};
void RunConfig(void* arg);
#endif
