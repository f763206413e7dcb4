// Adaptive radix tree as an ordered map from byte-string keys to tuple ids.
// Keys of one configuration have the same length and differ only in up to 8 byte positions; the bytes there, read as a
// big-endian number, are the key's ordinal.  TID t is the t-th insertion.
#include <immintrin.h>
#include <sched.h>
#include <array>
#include <cstdint>
#include <atomic>
#include <functional>
#include <limits>
#include <tuple>
#include <vector>
#include <iostream>
#include "tagmap.h"
#ifndef NPRE
#define NPRE 0
#endif
#if OPTIQL
#include "OptiQL/Tree.cpp"
using namespace ART_OLC_OptiQL;
#define TI
#else
#include "ARTOLC/Tree.cpp"
using namespace ART_OLC;
#define TI , *ti
static ThreadInfo *ti;
#endif
static Tags<NPRE + 24> T;
struct Cfg { int len; int nv; u8 pos[8]; };
static const Cfg cfgs[] = {{8, 8, {0, 1, 2, 3, 4, 5, 6, 7}}, {3, 3, {0, 1, 2}}, {16, 5, {0, 5, 13, 14, 15}}, {20, 4, {0, 15, 18, 19}}, {14, 4, {0, 1, 12, 13}}, {5, 4, {0, 1, 2, 4}}, {30, 4, {1, 14, 28, 29}}};
static const Cfg *C;
static void toKey(u64 ord, Key &k) { char b[32]; for (int i = 0; i < C->len; i++) b[i] = (char)(i * 7 + 1); for (int i = 0; i < C->nv; i++) b[C->pos[i]] = (char)(ord >> (8 * (C->nv - 1 - i))); k.set(b, C->len); }
static void load(TID t, Key &k) { CHECK(t >= 1 && t < (TID)T.n, "only stored tuple ids are loaded"); toKey(T.K[t], k); }
static Tree *t;
#if OPTIQL
#define LOCKED(n) (n)->isLocked()
static void freeNode(void *p) { N::deleteNode((N *)p); }   // single thread: an unlinked node is gone at once
static void insert(u64 ord) { Key k; toKey(ord, k); bool had = T.has(ord); int tag = T.n; T.add(ord, !had); bool r = t->insert(k, tag); CHECK(r == !had, "insert is refused exactly for a present key"); }
static void update(u64 ord) { Key k; toKey(ord, k); bool had = T.has(ord); int tag = T.n; bool r = t->update(k, tag); if (had) T.eraseKey(ord); T.add(ord, had); CHECK(r == had, "update is refused exactly for an absent key"); }
static void remove(u64 ord) { Key k; toKey(ord, k); u64 tag = t->lookup(k); CHECK((tag != 0) == T.has(ord), "lookup finds the key to remove"); int wrong = sx_choice("wrong", 2); bool r = t->remove(k, wrong ? 60000 : tag ? tag : 60000); CHECK(r == (tag && !wrong), "remove reports whether it removed"); if (!wrong) T.eraseKey(ord); }
#else
#define LOCKED(n) (((n)->typeVersionLockObsolete.load() & 3) != 0)
static void insert(u64 ord) { Key k; toKey(ord, k); int tag = T.n; T.eraseKey(ord); T.add(ord); t->insert(k, tag, *ti); }
static void update(u64 ord) { insert(ord); }
static void remove(u64 ord) { Key k; toKey(ord, k); u64 tag = t->lookup(k, *ti); CHECK((tag != 0) == T.has(ord), "lookup finds the key to remove"); int wrong = sx_choice("wrong", 2); if (wrong) { t->remove(k, 60000, *ti); } else { t->remove(k, tag, *ti); T.eraseKey(ord); } }
#endif
static void latches(N *n) { // every node reachable is free of latches
  if (!n || N::isLeaf(n)) return; CHECK(!LOCKED(n), "no latch is left held");
  switch (n->getType()) { case NTypes::N4: for (unsigned i = 0; i < n->count; i++) latches(((N4 *)n)->children[i]); break; case NTypes::N16: for (unsigned i = 0; i < n->count; i++) latches(((N16 *)n)->children[i]); break;
    case NTypes::N48: for (auto c : ((N48 *)n)->children) latches(c); break; case NTypes::N256: for (auto c : ((N256 *)n)->children) latches(c); break; }
}
static void find(u64 ord) { Key k; toKey(ord, k); u64 tag = t->lookup(k TI); CHECK((tag != 0) == T.has(ord), "lookup reports presence truthfully"); CHECK(tag < (u64)T.n, "lookup yields a stored tuple id"); if (tag) CHECK((T.K[tag] == ord) & T.live[tag], "lookup yields the tuple id of the key"); sx_observe("tid", tag); }
static void range(u64 a, u64 b, u64 size) { // [a, b)
  Key s, e, c; toKey(a, s); toKey(b, e); TID res[NPRE + 40]; for (auto &r : res) r = 77777; size_t found = 999; bool more = t->lookupRange(s, e, c, res, size, found TI);
  u64 ra = T.countLess(a), rb = T.countLess(b); u64 cnt = sel(a < b, rb - ra, 0);
  CHECK(found == sel(cnt < size, cnt, size), "range scan yields every key of the range, up to the size asked for"); CHECK(more == (cnt > size), "range scan reports truthfully whether keys remain");
  found = sx_concretize(found); for (u64 i = 0; i < found && i < NPRE + 40; i++) { u64 v = res[i]; CHECK(v >= 1 && v < (u64)T.n, "range scan yields stored tuple ids"); if (!(v >= 1 && v < (u64)T.n)) continue; CHECK(T.live[v] & (T.countLess(T.K[v]) == ra + i), "range scan is in key order and skips nothing"); }
  for (u64 i = found; i < NPRE + 40; i++) CHECK(res[i] == 77777, "range scan writes only what it yields");
  if (more) { bool ok = false; for (int v = 1; v < T.n; v++) { Key k; toKey(T.K[v], k); u64 d = 0; for (int i = 0; i < C->len; i++) d |= (u64)(k[i] ^ c[i]); ok |= T.live[v] & (T.countLess(T.K[v]) == ra + size) & (d == 0); } CHECK(ok & (c.getKeyLen() == (u32)C->len), "the key to continue from is the next one"); }
}
#if OPTIQL
static void rangeFrom(u64 a, u64 size) {
  Key s; toKey(a, s); TID res[NPRE + 40]; for (auto &r : res) r = 77777; size_t found = 999; bool more = t->lookupRange(s, res, size, found); (void)more;
  u64 ra = T.countLess(a), cnt = T.size() - ra; CHECK(found == sel(cnt < size, cnt, size), "open range scan yields every key from the start on, up to the size asked for");
  found = sx_concretize(found); for (u64 i = 0; i < found && i < NPRE + 40; i++) { u64 v = res[i]; CHECK(v >= 1 && v < (u64)T.n, "range scan yields stored tuple ids"); if (!(v >= 1 && v < (u64)T.n)) continue; CHECK(T.live[v] & (T.countLess(T.K[v]) == ra + i), "range scan is in key order and skips nothing"); }
  for (u64 i = found; i < NPRE + 40; i++) CHECK(res[i] == 77777, "range scan writes only what it yields");
}
#endif
static u64 symOrd(u64 base, u32 vary) { u64 o = base; for (int i = 0; i < C->nv; i++) if (vary >> i & 1) { u8 kb = sx_u8("kb"); if (i == 0) sx_assume((u8)(kb - (u8)(base >> (8 * (C->nv - 1)))) < 2); /* the root is indexed by this byte: two values */ u64 m = 0xffull << (8 * (C->nv - 1 - i)); o = (o & ~m) | ((u64)kb << (8 * (C->nv - 1 - i))); } return o; }
int main() {
  static const int cl[] = CFGS; C = &cfgs[cl[sx_choice("cfg", sizeof cl / sizeof *cl)]];
  T.add(0, false);
#if OPTIQL
  t = new Tree(load, freeNode);
#else
  t = new Tree(load); ti = new ThreadInfo(t->getThreadInfo());
#endif

  u64 full = (1u << C->nv) - 1; u64 base = 0; u32 vary = full; u64 lastk = 0;
#if NPRE
  static const int fl[] = FANS; u32 fi = sx_choice("fan", sizeof fl / sizeof *fl); int fan = fl[fi]; static const int kl[] = KEEPS; int keep = kl[fi]; int fp = FP; /* which varying position fans out */ u64 step = fan > 48 ? 4 : 5; if (fan * step > 256) step = 256 / fan; if (!step) step = 1;
  int sh = 8 * (C->nv - 1 - fp); 
#if ORD1
  int dir = (fi + 1) % 3;
#else
  int dir = sx_choice("ord", 3);
#endif
  base = FP ? 0x4142434445464748ull >> (64 - 8 * C->nv) : 0; base &= ~(0xffull << sh);
  for (int i = 0; i < fan; i++) { int j = dir == 0 ? i : dir == 1 ? fan - 1 - i : (i * 11) % fan; insert(base | (u64)(j * step) << sh); }
  for (int i = 0; i < fan - keep; i++) { u64 o = base | (u64)((dir == 2 ? fan - 1 - i : dir == 1 ? (i * 11) % fan : i) * step) << sh; Key k; toKey(o, k); t->remove(k, t->lookup(k TI) TI); T.eraseKey(o); }
  vary = VARY;
#endif
  for (int i = 0; i < NSYM; i++) { u64 k = symOrd(base, vary);
#if NPRE
    if (fan >= 16) k = sx_concretize(k); // such nodes are indexed by the byte itself: one path per value anyway
#endif
    lastk = k; switch (sx_choice("op", OPS)) { case 0: insert(k); break; case 1: remove(k); break; case 2: update(k); break; } }
#if Q < 2 || Q == 4
  u64 q = symOrd(base, vary);
#endif
#if Q == 0
  find(q); for (int v = 1; v < T.n; v++) if (NPRE == 0 || v + NSYM + 1 >= T.n || v < 4) find(T.K[v]);
#elif Q == 1
  static const int szs[] = {1, 3, NPRE + 30, 0}; range(q, symOrd(base, vary), szs[sx_choice("size", SIZES)]);
#elif Q == 3
  { u64 sh3 = sx_choice("near", 3); find(lastk + (sh3 << sh)); for (int v = 1; v < T.n; v++) find(T.K[v]); }
#elif Q == 4
  static const int szs[] = {1, 3, NPRE + 30, 0}; rangeFrom(q, szs[sx_choice("size", SIZES)]);
#else
  static const int szs[] = {NPRE + 30, 2}; range(0, ~0ull >> (64 - 8 * C->nv), szs[sx_choice("size", 2)]);
#endif
  latches(t->root);
#if !OPTIQL
  delete ti;
#endif
  delete t; sx_cover("done"); sx_end();
}
