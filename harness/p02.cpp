// Adaptive radix trees under every interleaving with at most PRE preemptions.  Keys are CFG-shaped byte strings named by their ordinal (see p01.cpp);
// the tree is first filled with PREK, then thread i runs the operations of list Ti: {code, key}.
// The last DROP of them are removed again.
// codes: 0 insert 1 remove of prefilled tid 2 lookup 3 range scan 4 update; keys: 0, 1 symbolic (VARY of BASE), 2+i the i-th prefilled key, -1 one of the prefilled keys.
#include <immintrin.h>
#include <sched.h>
#include <array>
#include <cstdint>
#include <atomic>
#include <functional>
#include <limits>
#include <tuple>
#include <vector>
#include <iostream>
#include "conc.h"
#if OPTIQL
#include "OptiQL/Tree.cpp"
using namespace ART_OLC_OptiQL;
#else
#include "ARTOLC/Tree.cpp"
using namespace ART_OLC;
#endif
struct Cfg { int len; int nv; u8 pos[8]; };
static const Cfg cfgs[] = {{2, 2, {0, 1}}, {3, 3, {0, 1, 2}}, {12, 4, {0, 1, 10, 11}}, {4, 4, {0, 1, 2, 3}}, {20, 4, {0, 1, 18, 19}}};
static const Cfg &C = cfgs[CFG];
static const u64 prek[] = PREK; enum { NP = sizeof prek / sizeof *prek };
#ifndef DROP
#define DROP 0
#endif
static u64 ORD[NP + 32]; static int ntid = 1;
extern "C" { NOIN void sxh_key(u64 ord, char *b) { for (int i = 0; i < C.len; i++) b[i] = (char)(i * 7 + 1); for (int i = 0; i < C.nv; i++) b[C.pos[i]] = (char)(ord >> (8 * (C.nv - 1 - i))); }
NOIN int sxh_tid(u64 ord) { ORD[ntid] = ord; return ntid++; } NOIN u64 sxh_ord(TID t) { CHECK(t >= 1 && t < (TID)ntid, "only stored tuple ids are loaded"); return ORD[t]; } }
static void toKey(u64 ord, Key &k) { char b[32]; sxh_key(ord, b); memset(k.stackKey, 0, 64); k.set(b, C.len); }
static void load(TID t, Key &k) { toKey(sxh_ord(t), k); }
static Tree *t; static u64 K[2];
#if OPTIQL
#define TI
#define TIN
static void freeNode(void *) {}   // unlinked nodes stay readable, as an epoch scheme would have it
#define INSK OP_ADD
#define REMK OP_DELTB
#define LOCKED(n) (n)->isLocked()
#else
#define TI , ti
#define TIN , ThreadInfo &ti
#define INSK OP_PUT
#define REMK OP_DELT
#define LOCKED(n) (((n)->typeVersionLockObsolete.load() & 3) != 0)
#endif
static void latches(N *n) { if (!n || N::isLeaf(n)) return; CHECK(!LOCKED(n), "no latch is left held");
  switch (n->getType()) { case NTypes::N4: for (unsigned i = 0; i < n->count; i++) latches(((N4 *)n)->children[i]); break; case NTypes::N16: for (unsigned i = 0; i < n->count; i++) latches(((N16 *)n)->children[i]); break;
    case NTypes::N48: for (auto c : ((N48 *)n)->children) latches(c); break; case NTypes::N256: for (auto c : ((N256 *)n)->children) latches(c); break; } }
static void ins(u64 o TIN) { Key k; toKey(o, k); int tid = sxh_tid(o); int i = sxh_begin(INSK, o, tid); bool r = true;
#if OPTIQL
  r = t->insert(k, tid);
#else
  t->insert(k, tid, ti);
#endif
  sxh_end(i, r, 0); }
static void rem(u64 o, u64 tid TIN) { Key k; toKey(o, k); int i = sxh_begin(REMK, o, tid); bool r = true;
#if OPTIQL
  r = t->remove(k, tid);
#else
  t->remove(k, tid, ti);
#endif
  sxh_end(i, r, 0); }
static void get(u64 o TIN) { Key k; toKey(o, k); int i = sxh_begin(OP_GET, o, 0); u64 r = t->lookup(k TI); sxh_end(i, r != 0, r); }
static void upd(u64 o TIN) { Key k; toKey(o, k); int tid = sxh_tid(o); 
#if OPTIQL
  int i = sxh_begin(OP_UPD, o, tid); bool r = t->update(k, tid); sxh_end(i, r, 0);
#else
  int i = sxh_begin(OP_PUT, o, tid); t->insert(k, tid, ti); sxh_end(i, true, 0);
#endif
}
static void rng(u64 a, u64 b TIN) { Key s, e, c; toKey(a, s); toKey(b, e); TID res[NP + 12]; size_t found = 999; int t0 = g_clock; int alive = sx_thread(); (void)alive; bool more = t->lookupRange(s, e, c, res, NP + 12, found TI);
  CHECK(found <= NP + 12, "no more than asked for"); CHECK(!more, "nothing remains"); u64 last = 0;
  for (size_t i = 0; i < found; i++) { u64 o = sxh_ord(res[i]); CHECK(a <= o && o < b, "scan stays within its range"); if (i) CHECK(last < o, "scan is in key order"); last = o; }
  for (int j = 0; j < NP - DROP; j++) if (prek[j] >= a && prek[j] < b) { bool touched = false, got = false; for (int i = 0; i < g_nop; i++) if (g_op[i].kind == REMK && g_op[i].k == prek[j]) touched = true; for (size_t i = 0; i < found; i++) got |= sxh_ord(res[i]) == prek[j]; if (!touched) CHECK(got, "scan misses no key that was there all along"); }
}
struct OpD { int code, key; }; static const OpD TA[] = T0, TB[] = T1;
#ifdef T2
static const OpD TC[] = T2;
#endif
static u64 RB[2];
#ifndef VMASK
#define VMASK 255
#endif
static void run(const OpD *o, int n) {
#if !OPTIQL
  ThreadInfo ti = t->getThreadInfo();
#endif
  for (int i = 0; i < n; i++) { int j = o[i].key; if (j == -1) j = 2 + sx_choice("which", NP - DROP); u64 ord = j < 2 ? K[j] : prek[j - 2];
    switch (o[i].code) { case 0: ins(ord TI); break; case 1: rem(ord, j - 1 TI); break; case 2: get(ord TI); break; case 3: rng(RB[0], RB[1] TI); break; case 4: upd(ord TI); break; } }
}
static void ta(void *) { run(TA, sizeof TA / sizeof *TA); } static void tb(void *) { run(TB, sizeof TB / sizeof *TB); }
#ifdef T2
static void tc(void *) { run(TC, sizeof TC / sizeof *TC); }
#endif
static u64 sym(const char *n) { u64 o = BASE; for (int i = 0; i < C.nv; i++) if (VARY >> i & 1) { int sh = 8 * (C.nv - 1 - i); o = (o & ~(0xffull << sh)) | (u64)(sx_u8(n) & VMASK) << sh; } return o; }
int main() {
#if OPTIQL
  t = new Tree(load, freeNode);
#else
  t = new Tree(load); t->epoche.startGCThreshhold = GC; { ThreadInfo ti = t->getThreadInfo();
#endif
  for (u64 o : prek) { Key k; toKey(o, k); int tid = sxh_tid(o); t->insert(k, tid TI); if (tid <= NP - DROP) sxh_init(o, tid); }
  for (int i = NP - DROP; i < NP; i++) { Key k; toKey(prek[i], k); t->remove(k, i + 1 TI); }
#if !OPTIQL
  }
#endif
  static const OpD *all[] = {TA, TB}; bool u[2] = {0, 0}, r = 0; for (auto &o : TA) { if (o.key >= 0 && o.key < 2) u[o.key] = 1; r |= o.code == 3; } for (auto &o : TB) { if (o.key >= 0 && o.key < 2) u[o.key] = 1; r |= o.code == 3; }
#ifdef T2
  for (auto &o : TC) { if (o.key >= 0 && o.key < 2) u[o.key] = 1; r |= o.code == 3; }
#endif
  if (u[0]) K[0] = sym("k0"); if (u[1]) K[1] = sym("k1"); if (r) { RB[0] = RLO; RB[1] = RHI; }
  sx_spawn(ta, 0); sx_spawn(tb, 0);
#ifdef T2
  sx_spawn(tc, 0);
#endif
  sx_run(PRE);
  latches(t->root);
  { 
#if !OPTIQL
  ThreadInfo ti = t->getThreadInfo();
#endif
  if (u[0]) get(K[0] TI); if (u[1]) get(K[1] TI); for (int i = 0; i < NP; i++) get(prek[i] TI); }
  for (int i = 0; i < g_nop; i++) { sx_observe("ok", g_op[i].ok); sx_observe("out", g_op[i].ok ? g_op[i].out : 0); }
  CHECK(sxh_linearizable(), "history is linearizable");
  delete t;
  sx_end();
}
