#pragma once
#include <emmintrin.h>
#include <stdint.h>
namespace util {
inline __m128i ld(void *p) { return _mm_loadu_si128((__m128i *)p); }
inline uint64_t cmpeq_int8_simd128(void *p, char c) { return (uint16_t)_mm_movemask_epi8(_mm_cmpeq_epi8(ld(p), _mm_set1_epi8(c))); }
inline uint64_t cmpeq_int8_simd128(void *p, void *q) { return (uint16_t)_mm_movemask_epi8(_mm_cmpeq_epi8(ld(p), ld(q))); }
inline uint64_t cmplt_int8_simd128(void *p, char c) { return (uint16_t)_mm_movemask_epi8(_mm_cmplt_epi8(ld(p), _mm_set1_epi8(c))); }
inline uint64_t cmplt_int8_simd128(void *p, void *q) { return (uint16_t)_mm_movemask_epi8(_mm_cmplt_epi8(ld(p), ld(q))); }
// wider registers, pieced together (not selected by the verification configuration)
inline uint64_t cmpeq_int8_simd256(void *p, char c) { return cmpeq_int8_simd128(p, c) | cmpeq_int8_simd128((char *)p + 16, c) << 16; }
inline uint64_t cmpeq_int8_simd256(void *p, void *q) { return cmpeq_int8_simd128(p, q) | cmpeq_int8_simd128((char *)p + 16, (void *)((char *)q + 16)) << 16; }
inline uint64_t cmplt_int8_simd256(void *p, char c) { return cmplt_int8_simd128(p, c) | cmplt_int8_simd128((char *)p + 16, c) << 16; }
inline uint64_t cmplt_int8_simd256(void *p, void *q) { return cmplt_int8_simd128(p, q) | cmplt_int8_simd128((char *)p + 16, (void *)((char *)q + 16)) << 16; }
inline uint64_t cmpeq_int8_simd512(void *p, char c) { return cmpeq_int8_simd256(p, c) | cmpeq_int8_simd256((char *)p + 32, c) << 32; }
inline uint64_t cmpeq_int8_simd512(void *p, void *q) { return cmpeq_int8_simd256(p, q) | cmpeq_int8_simd256((char *)p + 32, (void *)((char *)q + 32)) << 32; }
inline uint64_t cmplt_int8_simd512(void *p, char c) { return cmplt_int8_simd256(p, c) | cmplt_int8_simd256((char *)p + 32, c) << 32; }
inline uint64_t cmplt_int8_simd512(void *p, void *q) { return cmplt_int8_simd256(p, q) | cmplt_int8_simd256((char *)p + 32, (void *)((char *)q + 32)) << 32; }
}  // namespace util
