// Keeps the start-up code of wormhole/lib.c (signal handlers, perf detection, core counting) away from the engine, which has no operating system underneath.
#pragma once
#define _GNU_SOURCE 1
#include <stdio.h>
#include <signal.h>
#include <unistd.h>
#include <time.h>
#include <pthread.h>
#ifdef __cplusplus
extern "C"
#endif
size_t hx_fwrite(const void *, size_t, size_t, FILE *);
#define fwrite(p, a, b, f) hx_fwrite(p, a, b, f)
#ifndef __cplusplus
#define sigaltstack(a, b) 0
#define sigaction(...) 0
#define sigemptyset(a) ((void)0)
#define getppid() 1
#define fopen(a, b) ((FILE *)0)
#define fread(a, b, c, d) 0
#define fclose(a) 0
#define sysconf(a) 4
#define pthread_setname_np(a, b) 0
#define clock_gettime(a, b) ((b)->tv_sec = 1, (b)->tv_nsec = 0)
#define sprintf(a, ...) 0
#include <stdlib.h>
#include <execinfo.h>
#define backtrace(a, n) (abort(), 0)   // debug_die() and failed assertions end here instead of waiting for a debugger
#endif
#ifdef CRCWEAK   // a poor hash that a solver sees through: the index may not depend on the quality of its checksum
#include <immintrin.h>
static inline unsigned wk_8(unsigned c, unsigned char v) { return ((c << 8) | (c >> 24)) ^ v; }
static inline unsigned wk_n(unsigned c, unsigned long long v, int n) { for (int i = 0; i < n; i++) c = wk_8(c, (unsigned char)(v >> (8 * i))); return c; }
#define _mm_crc32_u8(c, v) wk_8((unsigned)(c), (v))
#define _mm_crc32_u16(c, v) wk_n((unsigned)(c), (v), 2)
#define _mm_crc32_u32(c, v) wk_n((unsigned)(c), (v), 4)
#define _mm_crc32_u64(c, v) ((unsigned long long)wk_n((unsigned)(c), (v), 8))
#endif
