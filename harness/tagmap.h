// Reference for ordered containers: every stored value is the concrete number ("tag") of the insertion that stored it,
// its key may be symbolic.  A container is right when it holds exactly the live tags, in key order.
#pragma once
#include "ref.h"
template <int CAP> struct Tags {
  int n = 0; u64 K[CAP]; bool live[CAP];
  int add(u64 k, bool l = true) { K[n] = k; live[n] = l; return n++; }
  u64 count(u64 k) const { u64 c = 0; for (int i = 0; i < n; i++) c += (u64)(live[i] & (K[i] == k)); return c; }
  bool has(u64 k) const { return count(k) != 0; }
  u64 size() const { u64 c = 0; for (int i = 0; i < n; i++) c += (u64)live[i]; return c; }
  void eraseKey(u64 k) { for (int i = 0; i < n; i++) live[i] = live[i] & (K[i] != k); }
  u64 countLess(u64 k) const { u64 c = 0; for (int i = 0; i < n; i++) c += (u64)(live[i] & (K[i] < k)); return c; }
  u64 countLE(u64 k) const { u64 c = 0; for (int i = 0; i < n; i++) c += (u64)(live[i] & (K[i] <= k)); return c; }
};
// key number i of the prefilled set: even multiples leave room for symbolic keys between
#define PK(i) (16 * (u64)((i) + 1))
// insertion orders of n prefilled keys: ascending, descending, outside-in, interleaved halves
static SX_INL int perm4(int ord, int i, int n) { if (ord == 0) return i; if (ord == 1) return n - 1 - i; if (ord == 2) return (i & 1) ? n - 1 - i / 2 : i / 2; int h = (n + 1) / 2; return (i & 1) ? h + i / 2 : i / 2; }
// which of n prefilled keys are erased again: none, the first m, the last m, every other one, all but the middle
static SX_INL bool erasePat(int pat, int i, int n, int m) { switch (pat) { case 0: return false; case 1: return i < m; case 2: return i >= n - m; case 3: return (i & 1) && i / 2 < m; default: return i < m / 2 || i >= n - (m - m / 2); } }
