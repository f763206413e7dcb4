// 64-bit vector helpers of gcc's headers that clang lacks, or lowers to MMX registers; written out on plain integers.
#pragma once
#include <stdint.h>
#include <string.h>
#include <immintrin.h>
static inline uint64_t sx_mi(__m64 a) { uint64_t r; memcpy(&r, &a, 8); return r; }
static inline __m64 sx_mo(uint64_t v) { __m64 r; memcpy(&r, &v, 8); return r; }
static inline __m64 sx_setzero() { return sx_mo(0); }
static inline __m64 sx_and(__m64 a, __m64 b) { return sx_mo(sx_mi(a) & sx_mi(b)); }
static inline __m64 sx_or(__m64 a, __m64 b) { return sx_mo(sx_mi(a) | sx_mi(b)); }
static inline __m64 sx_cmpeq8(__m64 x, __m64 y) { uint64_t a = sx_mi(x), b = sx_mi(y), r = 0; for (int i = 0; i < 8; i++) r |= (uint64_t)(uint8_t)-((uint8_t)(a >> 8 * i) == (uint8_t)(b >> 8 * i)) << 8 * i; return sx_mo(r); }
static inline __m64 sx_maxu8(__m64 x, __m64 y) { uint64_t a = sx_mi(x), b = sx_mi(y), r = 0; for (int i = 0; i < 8; i++) { uint8_t p = a >> 8 * i, q = b >> 8 * i; r |= (uint64_t)(p > q ? p : q) << 8 * i; } return sx_mo(r); }
static inline __m64 sx_set1_8(char c) { return sx_mo((uint8_t)c * 0x0101010101010101ull); }
static inline int sx_movemask(__m64 x) { uint64_t a = sx_mi(x); int r = 0; for (int i = 0; i < 8; i++) r |= (int)(a >> (8 * i + 7) & 1) << i; return r; }
static inline __m64 sx_cvt_to(uint64_t v) { return sx_mo(v); }
static inline uint64_t sx_cvt_from(__m64 v) { return sx_mi(v); }
#define _mm_set_pi64x sx_mo
#define _mm_setzero_si64 sx_setzero
#define _mm_and_si64 sx_and
#define _mm_or_si64 sx_or
#define _mm_cmpeq_pi8 sx_cmpeq8
#define _mm_max_pu8 sx_maxu8
#define _mm_set1_pi8 sx_set1_8
#define _mm_movemask_pi8 sx_movemask
#define _mm_cvtsi64_m64 sx_cvt_to
#define _mm_cvtm64_si64 sx_cvt_from
#define _mm_andnot_si64(a, b) sx_mo(~sx_mi(a) & sx_mi(b))
#define _mm_slli_si64(a, n) sx_mo((unsigned)(n) > 63 ? 0 : sx_mi(a) << (n))
