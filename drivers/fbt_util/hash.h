// The finger print of a key.  Only 4 values, so that different keys with equal finger prints meet in a leaf.
#pragma once
#include <stdint.h>
namespace util {
inline uint64_t mix4(uint64_t h) { return 0x7e + ((h * 0x9e3779b97f4a7c15ull >> 40) & 3); }
template <class T> inline uint64_t hash(T x) { return mix4((uint64_t)x); }
inline uint64_t hash(const char *p, int n) { uint64_t h = 1; for (int i = 0; i < n; i++) h = h * 131 + (unsigned char)p[i]; return mix4(h); }
}  // namespace util
