// The committed corpus of small JPEG files with their Brunsli encodings.
#ifndef VERIF_CORPUS_H_
#define VERIF_CORPUS_H_
#include <stdio.h>
#include <stdlib.h>
#include <string>
#include <vector>

namespace corpus {
struct Entry {
  std::string name;
  int kind;  // 0 regular, 1 bypass
  std::string jpg, brn;
};
inline std::vector<Entry> Load() {
  const char* p = getenv("VERIF_CORPUS");
  FILE* f = fopen(p ? p : "/verif/corpus/corpus.bin", "rb");
  if (!f) { perror("corpus"); exit(2); }
  std::vector<Entry> v;
  char name[100];
  int kind;
  size_t a, b;
  while (fscanf(f, "%99s %d %zu %zu", name, &kind, &a, &b) == 4) {
    fgetc(f);
    Entry e;
    e.name = name;
    e.kind = kind;
    e.jpg.resize(a);
    e.brn.resize(b);
    if ((a && fread(&e.jpg[0], 1, a, f) != a) || (b && fread(&e.brn[0], 1, b, f) != b)) exit(2);
    v.push_back(e);
  }
  fclose(f);
  if (v.size() < 10) { fprintf(stderr, "corpus damaged\n"); exit(2); }
  return v;
}
inline const Entry& Get(const std::vector<Entry>& v, const std::string& n) {
  for (auto& e : v) if (e.name == n) return e;
  fprintf(stderr, "no corpus entry %s\n", n.c_str());
  exit(2);
}
}  // namespace corpus
#endif
