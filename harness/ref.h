// Branch-free reference map: a log of operations with u64 keys and values.
#pragma once
#include "sx.h"
typedef uint64_t u64; typedef uint32_t u32; typedef uint16_t u16; typedef uint8_t u8;
static SX_INL u64 sel(bool c, u64 a, u64 b) { u64 m = 0 - (u64)c; return (a & m) | (b & ~m); }
template <int CAP> struct Ref {
  int n = 0; u64 k[CAP], v[CAP]; bool live[CAP];
  void put(u64 key, u64 val) { k[n] = key; v[n] = val; live[n] = true; n++; }
  void putIf(bool c, u64 key, u64 val) { bool had; u64 old; had = get(key, old); k[n] = key; v[n] = sel(c, val, old); live[n] = c | had; n++; }
  void del(u64 key) { k[n] = key; v[n] = 0; live[n] = false; n++; }
  bool get(u64 key, u64 &val) const { bool f = false; u64 r = 0; for (int i = 0; i < n; i++) { bool m = k[i] == key; f = (m & live[i]) | (!m & f); r = sel(m, v[i], r); } val = r; return f; }
  bool has(u64 key) const { u64 t; return get(key, t); }
  bool current(int i) const { bool c = live[i]; for (int j = i + 1; j < n; j++) c &= k[j] != k[i]; return c; }
  u64 count() const { u64 c = 0; for (int i = 0; i < n; i++) c += current(i); return c; }
  u64 countRange(u64 lo, u64 hi) const { u64 c = 0; for (int i = 0; i < n; i++) c += (u64)(current(i) & (k[i] >= lo) & (k[i] <= hi)); return c; }   // lo <= key <= hi
  u64 countGE(u64 lo) const { return countRange(lo, ~0ull); }
  // smallest live key >= lo
  bool ceil(u64 lo, u64 &key) const { bool f = false; u64 b = 0; for (int i = 0; i < n; i++) { bool c = current(i) & (k[i] >= lo) & (!f | (k[i] < b)); b = sel(c, k[i], b); f |= c; } key = b; return f; }
  bool next(u64 after, u64 &key) const { bool f = false; u64 b = 0; for (int i = 0; i < n; i++) { bool c = current(i) & (k[i] > after) & (!f | (k[i] < b)); b = sel(c, k[i], b); f |= c; } key = b; return f; }
  bool prev(u64 before, u64 &key) const { bool f = false; u64 b = 0; for (int i = 0; i < n; i++) { bool c = current(i) & (k[i] < before) & (!f | (k[i] > b)); b = sel(c, k[i], b); f |= c; } key = b; return f; }
};
// One assertion per distinct concern keeps messages readable.
#define CHECK(c, m) sx_assert((c), m)
// key number i of a prefilled set, spread so that symbolic keys can fall between
static SX_INL int orderOf(int ord, int i, int n) { if (ord == 0) return i; if (ord == 1) return n - 1 - i; return (i & 1) ? n - 1 - i / 2 : i / 2; }
