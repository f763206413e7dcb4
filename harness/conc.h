// Concurrent harness helpers: operation records and a linearizability check over few operations.
// Functions named sxh_* are not instrumented with scheduling points.
#pragma once
#include "ref.h"
#define NOIN __attribute__((noinline))
enum { OP_PUT, OP_GET, OP_DEL, OP_ADD, OP_UPD, OP_DELV, OP_DELT, OP_DELTB, OP_XCHG };   // upsert, lookup, remove (result), insert-if-absent, update-if-present, remove without result, remove if it has this value (without, with result)
struct Op { int kind; u64 k, v; bool ok; u64 out; int t0, t1, th; };
static Op g_op[80]; static int g_nop, g_clock; static u64 g_ik[64], g_iv[64]; static int g_in;
extern "C" {
NOIN int sxh_begin(int kind, u64 k, u64 v) { int i = g_nop++; Op &o = g_op[i]; o.kind = kind; o.k = k; o.v = v; o.ok = false; o.out = 0; o.th = sx_thread(); o.t0 = ++g_clock; o.t1 = 1 << 30; return i; }
NOIN void sxh_end(int i, bool ok, u64 out) { Op &o = g_op[i]; o.ok = ok; o.out = out; o.t1 = ++g_clock; }
NOIN void sxh_init(u64 k, u64 v) { g_ik[g_in] = k; g_iv[g_in] = v; g_in++; }
}
// Keys are concrete here: operations on distinct keys commute, so each key is checked on its own.
struct KS { bool has; u64 v; };
static bool sxh_apply(const Op &o, KS &s) {
  switch (o.kind) {
    case OP_PUT: s.has = true; s.v = o.v; return true;
    case OP_GET: return o.ok == s.has && (!o.ok || o.out == s.v);
    case OP_DEL: if (o.ok != s.has) return false; s.has = false; return true;
    case OP_DELV: s.has = false; return true;
    case OP_ADD: if (o.ok == s.has) return false; if (!s.has) { s.has = true; s.v = o.v; } return true;
    case OP_DELT: if (s.has && s.v == o.v) s.has = false; return true;
    case OP_DELTB: { bool m = s.has && s.v == o.v; if (o.ok != m) return false; if (m) s.has = false; return true; }
    case OP_XCHG: if (o.ok != s.has || (o.ok && o.out != s.v)) return false; s.has = true; s.v = o.v; return true;
    case OP_UPD: if (o.ok != s.has) return false; if (s.has) s.v = o.v; return true;
  }
  return false;
}
static bool sxh_rec(const int *ix, int n, u32 done, KS s) {
  if (done == (1u << n) - 1) return true; int minEnd = 1 << 30; for (int i = 0; i < n; i++) if (!(done >> i & 1) && g_op[ix[i]].t1 < minEnd) minEnd = g_op[ix[i]].t1;
  for (int i = 0; i < n; i++) if (!(done >> i & 1) && g_op[ix[i]].t0 < minEnd) { KS t = s; if (sxh_apply(g_op[ix[i]], t) && sxh_rec(ix, n, done | 1u << i, t)) return true; }
  return false;
}
// Is the recorded history linearizable (per key, which for a map is equivalent)?
static NOIN bool sxh_linearizable() {
  for (int i = 0; i < g_nop; i++) { bool first = true; for (int j = 0; j < i; j++) if (g_op[j].k == g_op[i].k) first = false; if (!first) continue;
    int ix[80], n = 0; for (int j = i; j < g_nop; j++) if (g_op[j].k == g_op[i].k) ix[n++] = j; KS s{false, 0}; for (int j = 0; j < g_in; j++) if (g_ik[j] == g_op[i].k) { s.has = true; s.v = g_iv[j]; }
    if (!sxh_rec(ix, n, 0, s)) return false; }
  return true;
}
