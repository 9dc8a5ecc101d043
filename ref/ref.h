// Frozen copy of the library (ref/REVISION), under another namespace.
#ifndef VERIF_REF_H_
#define VERIF_REF_H_
#include <stddef.h>
#include <stdint.h>
#include <string>
namespace refapi {
// 0 ok, 1 refused by the parser, 2 refused by the encoder
int Encode(const std::string& jpg, int version, std::string* brn);
// as Encode, with a context scheme (0..6, 15 = the encoder's choice) for each component, lowest 4 bits first
int EncodeSchemes(const std::string& jpg, int version, uint64_t schemes, std::string* brn);
// 0 ok, 1 refused by the decoder, 2 refused by the serialiser
int Decode(const std::string& brn, std::string* jpg, int* status);
bool Wrap(const std::string& data, std::string* brn);
// 0 done, 1 error, 2 wants more input
int Stream(const std::string& brn, size_t in, size_t out, std::string* jpg);
}  // namespace refapi
#endif
