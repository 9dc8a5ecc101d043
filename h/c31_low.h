// Forced into wasm/codec.cc: its pointers are 32 bits wide, so everything it
// allocates comes from low addresses.
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <string>
#include <vector>
#include <memory>
extern "C" void* low_malloc(size_t n);
extern "C" void low_free(void* p);
extern "C" int quiet_printf(const char*, ...);
#define malloc low_malloc
#define free low_free
#define printf quiet_printf
