// Stand-ins for the C library's number formatting and parsing, which the engine does not execute: integers are written
// in decimal digit by digit, floating-point numbers are read and written opaquely (harnesses do not compare them).
#pragma once
#ifdef __cplusplus
#include <stdio.h>
#include <stdlib.h>
#include <string>
#include <ctype.h>
static inline int sxs_dec(char *o, unsigned long long v, bool neg) { char t[24]; int n = 0; do { t[n++] = '0' + v % 10; v /= 10; } while (v); int l = 0; if (neg) o[l++] = '-'; while (n) o[l++] = t[--n]; o[l] = 0; return l; }
template <class T> static inline int sxs_sprintf(char *o, const char *f, T v) {
  if (f[1] == 'l' && f[2] == 'l' ? f[3] == 'd' : f[1] == 'l' ? f[2] == 'd' : f[1] == 'd') { long long x = (long long)v; return sxs_dec(o, x < 0 ? 0ull - (unsigned long long)x : (unsigned long long)x, x < 0); }
  if (f[1] == 'l' || f[1] == 'u') return sxs_dec(o, (unsigned long long)v, false);
  o[0] = '0'; o[1] = '.'; o[2] = '5'; o[3] = 0; return 3;
}
static inline double sxs_strtod(const char *s, char **e) { const char *p = s; if (*p == '-' || *p == '+') ++p; while ((*p >= '0' && *p <= '9') || *p == '.' || *p == 'e' || *p == 'E' || ((*p == '-' || *p == '+') && (p[-1] == 'e' || p[-1] == 'E'))) ++p; if (e) *e = (char *)p; return 0.5; }
#define sprintf sxs_sprintf
#define strtod sxs_strtod
#endif
