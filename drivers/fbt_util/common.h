#pragma once
#include <stdint.h>
#include <string.h>
namespace util {
inline uint64_t byte_swap(uint64_t x) { return __builtin_bswap64(x); }
inline int64_t byte_swap(int64_t x) { return __builtin_bswap64(x); }
inline uint32_t byte_swap(uint32_t x) { return __builtin_bswap32(x); }
inline int32_t byte_swap(int32_t x) { return __builtin_bswap32(x); }
inline int popcount(uint64_t x) { return __builtin_popcountll(x); }
inline int index_least0(uint64_t x) { return __builtin_ffsll(~x) - 1; }   // -1: none
inline int index_least1(uint64_t x) { return __builtin_ffsll(x) - 1; }
inline int countl_zero(uint64_t x) { return x ? __builtin_clzll(x) : 64; }
inline int common_prefix(const char *a, int n, const char *b, int m) {
  int i = 0;
  while (i < n && i < m && a[i] == b[i]) i++;
  return i;
}
inline int compare(const char *a, int n, const char *b, int m) {
  int k = n < m ? n : m;
  int r = k ? memcmp(a, b, k) : 0;
  return r ? r : n - m;
}
inline bool aligned(const void *p, size_t a) { return (uintptr_t)p % a == 0; }
inline size_t roundup(size_t x, size_t a) { return (x + a - 1) / a * a; }
inline bool branch_likely(bool b) { return b; }
inline bool branch_unlikely(bool b) { return b; }
inline void prefetcht0(const void *) {}
}  // namespace util
