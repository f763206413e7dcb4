// Wormhole's locks, quiescent-state waiting and concurrent map operations under every interleaving with at most PRE preemptions.
// MODE 0 rwlock, 1 spinlock and mutex, 2 quiescent states, 3 the map
#include "conc.h"
#include <string.h>
#include <stdlib.h>
#include "wormhole/lib.h"
#include "wormhole/kv.h"
#include "wormhole/wh.h"
extern "C" size_t hx_fwrite(const void *, size_t, size_t b, FILE *) { return b; }
#ifndef NTH
#define NTH 2
#endif
#if MODE <= 1
static int writers, readers, how[4], rep; static volatile u64 vd; static u64 d0, inc; static int wrote;
extern "C" { NOIN void sxh_in(int w) { if (w) { CHECK(writers == 0 && readers == 0, "a writer is alone inside"); writers++; } else { CHECK(writers == 0, "no reader is inside together with a writer"); readers++; } } NOIN void sxh_out(int w) { if (w) writers--; else readers--; } NOIN void sxh_wrote() { wrote++; } }
static void wbody() { sxh_in(1); u64 d = vd; vd = d ^ inc; vd = d + inc; sxh_wrote(); sxh_out(1); }
static void rbody() { sxh_in(0); u64 a = vd, b = vd; CHECK(a == b, "a reader sees no write happen"); sxh_out(0); }
#if MODE == 0
static rwlock lk;
static void thr(void *a) { int h = how[(long)a]; for (int i = 0; i < rep; i++) switch (h) {
  case 0: rwlock_lock_read(&lk); rbody(); rwlock_unlock_read(&lk); break;
  case 1: rwlock_lock_write(&lk); wbody(); rwlock_unlock_write(&lk); break;
  case 2: rwlock_lock_write_hp(&lk); wbody(); rwlock_unlock_write(&lk); break;
  case 3: rwlock_lock_write(&lk); wbody(); { sxh_in(1); sxh_out(1); } rwlock_write_to_read(&lk); rbody(); rwlock_unlock_read(&lk); break;
  case 4: if (rwlock_trylock_read(&lk)) { rbody(); rwlock_unlock_read(&lk); } break;
  case 5: if (rwlock_trylock_read_nr(&lk, 1)) { rbody(); rwlock_unlock_read(&lk); } break;
  case 6: if (rwlock_trylock_write_nr(&lk, 1)) { wbody(); rwlock_unlock_write(&lk); } break;
  case 7: if (rwlock_trylock_write_hp_nr(&lk, 1)) { wbody(); rwlock_unlock_write(&lk); } break;
  case 8: if (rwlock_trylock_read_lp(&lk)) { rbody(); rwlock_unlock_read(&lk); } break;
  case 9: if (rwlock_trylock_write(&lk)) { wbody(); rwlock_unlock_write(&lk); } break;
  default: if (rwlock_trylock_write_hp(&lk)) { wbody(); rwlock_write_to_read(&lk); rbody(); rwlock_unlock_read(&lk); } } }
#define KINDS 11
#else
static spinlock sl; static mutex mu;
static void thr(void *a) { int h = how[(long)a]; for (int i = 0; i < rep; i++) switch (h) {
  case 0: spinlock_lock(&sl); wbody(); spinlock_unlock(&sl); break;
  case 1: if (spinlock_trylock(&sl)) { wbody(); spinlock_unlock(&sl); } break;
  case 2: mutex_lock(&mu); wbody(); mutex_unlock(&mu); break;
  default: if (mutex_trylock(&mu)) { wbody(); mutex_unlock(&mu); } } }
#define KINDS 4
#endif
int main() {
  rep = REP; d0 = sx_u64("d0"); inc = sx_u64("inc"); vd = d0;
#if MODE == 0
  rwlock_init(&lk);
#else
  spinlock_init(&sl); mutex_init(&mu);
#endif
  for (int i = 0; i < NTH; i++) { how[i] = sx_choice("how", KINDS); if (i) sx_assume(how[i] >= how[i - 1]); }
#if MODE == 1
  for (int i = 1; i < NTH; i++) sx_assume(how[i] / 2 == how[0] / 2);
#endif
  for (long i = 0; i < NTH; i++) sx_spawn(thr, (void *)i);
  sx_run(PRE); CHECK(vd == d0 + inc * wrote, "no write is lost");
#if MODE == 0
  CHECK(rwlock_trylock_write(&lk), "the lock is free once everyone has left"); CHECK(!rwlock_trylock_read(&lk) && !rwlock_trylock_write(&lk), "a writer keeps the others out"); rwlock_unlock_write(&lk);
  CHECK(rwlock_trylock_read(&lk) && rwlock_trylock_read(&lk) && !rwlock_trylock_write(&lk), "readers share and keep writers out"); rwlock_unlock_read(&lk); rwlock_unlock_read(&lk); CHECK(rwlock_trylock_write_hp(&lk), "the lock is free again"); rwlock_unlock_write(&lk);
#else
  CHECK(spinlock_trylock(&sl) && mutex_trylock(&mu), "the lock is free once everyone has left"); CHECK(!spinlock_trylock(&sl) && !mutex_trylock(&mu), "a lock taken is not taken again"); spinlock_unlock(&sl); mutex_unlock(&mu);
#endif
  sx_end();
}
#elif MODE == 2
// A writer replaces what readers may look at, waits, and takes the old one away.  A reader looks only between resuming and parking (or between two points).
static qsbr *q; static volatile u64 cur; static int live[8]; static int what[4]; static qsbr_ref *rf[4]; static int nw;
extern "C" { NOIN void sxh_live(u64 x) { CHECK(live[x] == 1, "what a reader looks at has not been taken away"); } NOIN void sxh_kill(u64 x) { live[x] = 0; } }
static void look() { u64 x = cur; sxh_live(x); sx_sched_point((void *)&cur, 8, 1); sxh_live(x); }
static void reader(void *a) { int i = (int)(long)a; qsbr_ref *r = rf[i];
  switch (what[i]) {
  case 0: qsbr_resume(r); look(); qsbr_park(r); qsbr_resume(r); look(); qsbr_park(r); break;                      // registered and parked before
  case 1: CHECK(qsbr_register(q, r), "registered"); look(); qsbr_park(r); break;                                  // registers while others run
  case 2: qsbr_resume(r); look(); qsbr_unregister(q, r); break;                                                  // leaves while others run
  case 3: CHECK(qsbr_register(q, r), "registered"); look(); qsbr_unregister(q, r); break;
  default: qsbr_resume(r); look(); qsbr_update(r, (u64)cur); look(); qsbr_park(r); } }                            // passes a point: the number of what it sees
static void writer(void *) { for (int i = 0; i < nw; i++) { u64 old = cur; live[old + 1] = 1; cur = old + 1; qsbr_wait(q, old + 1); sxh_kill(old); } }
int main() {
  q = qsbr_create(); cur = 1; live[1] = 1; nw = NW;
  for (int i = 0; i < NTH; i++) { rf[i] = (qsbr_ref *)calloc(1, sizeof(qsbr_ref)); what[i] = sx_choice("what", 5); if (what[i] != 1 && what[i] != 3) { CHECK(qsbr_register(q, rf[i]), "registered"); qsbr_park(rf[i]); } }
  sx_spawn(writer, 0); for (long i = 0; i < NTH; i++) sx_spawn(reader, (void *)i);
  sx_run(PRE); CHECK(live[cur] == 1, "the last one stays"); for (int i = 0; i < NTH; i++) if (what[i] != 2 && what[i] != 3) qsbr_unregister(q, rf[i]); qsbr_wait(q, 7); for (int i = 0; i < NTH; i++) free(rf[i]); qsbr_destroy(q); sx_end();
}
#else
// FLAV 1: whsafe_*, 2: wormhole_* on references parked while idle.  Keys come from a fixed set; the operations' keys are chosen.
static wormhole *M; static wormref *R[4]; struct Key { u16 len; u8 b[12]; }; static Key K[64]; static int NK; static kv *RV[4][3];
static int cmpK(const Key &a, const Key &b) { unsigned l = a.len < b.len ? a.len : b.len; int r = memcmp(a.b, b.b, l); return r ? r : (int)a.len - (int)b.len; }
static void add(const void *p, unsigned n) { Key k; k.len = n; memcpy(k.b, p, n); int i = NK++; while (i > 0 && cmpK(k, K[i - 1]) < 0) { K[i] = K[i - 1]; i--; } K[i] = k; }
#define S(s) add(s, sizeof(s) - 1)
static kref KR[64];
static kv *mkkv(int i, int v) { kv *p = (kv *)malloc(sizeof(kv) + K[i].len + 2); kv_refill(p, K[i].b, K[i].len, "", 0); p->vlen = 2; p->kv[K[i].len] = v; p->kv[K[i].len + 1] = v >> 8; return p; }
static int vof(const kv *p) { return p->kv[p->klen] | p->kv[p->klen + 1] << 8; }
static int opk[4][2], opw[4][2]; static int nops[4]; static int wn, wk[64], wv[64];
#if FLAV == 1
#define F(x) whsafe_##x
#define BEG(r)
#define END(r)
#else
#define F(x) wormhole_##x
#define BEG(r) wormhole_resume(r)
#define END(r) wormhole_park(r)
#endif
static void put(int t, int n, int k, int v) { int i = sxh_begin(OP_PUT, k, v); bool ok = F(put)(R[t], RV[t][n]); sxh_end(i, true, 0); CHECK(ok, "a put succeeds"); }
static void get(int t, int k) { int i = sxh_begin(OP_GET, k, 0); kv *o = F(get)(R[t], &KR[k], NULL); int v = 0; if (o) { v = vof(o); CHECK(o->klen == K[k].len && !memcmp(o->kv, K[k].b, K[k].len), "get returns a record with its key"); } sxh_end(i, o != NULL, v); free(o); }
static void del(int t, int k) { int i = sxh_begin(OP_DEL, k, 0); bool ok = F(del)(R[t], &KR[k]); sxh_end(i, ok, 0); }
static void delr(int t, int k) { int i[3]; for (int j = 0; j < 3 && k + j < NK; j++) i[j] = sxh_begin(OP_DELV, k + j, 0); F(delr)(R[t], &KR[k], k + 3 < NK ? &KR[k + 3] : NULL); for (int j = 0; j < 3 && k + j < NK; j++) sxh_end(i[j], true, 0); }
static void setv(kv *c, void *pv) { if (c) { c->kv[c->klen] = (u8)(long)pv; c->kv[c->klen + 1] = 0; } }
static void inpw(int t, int k, int v) { int i = sxh_begin(OP_UPD, k, v); bool ok = F(inpw)(R[t], &KR[k], setv, (void *)(long)v); sxh_end(i, ok, 0); }
static kv *pick(kv *c, void *pv) { return (kv *)pv; }
static void mrg(int t, int n, int k, int v) { int i = sxh_begin(OP_PUT, k, v); bool ok = F(merge)(R[t], &KR[k], pick, RV[t][n]); sxh_end(i, true, 0); CHECK(ok, "a merge succeeds"); }
extern "C" NOIN void sxh_walked(int k, int v) { wk[wn] = k; wv[wn++] = v; }
static void walk(int t, int from) { wormhole_iter *it = wormhole_iter_create(R[t]); F(iter_seek)(it, &KR[from]); for (int n = 0; n < NK + 2 && wormhole_iter_valid(it); n++) { kv *o = wormhole_iter_peek(it, NULL); int k = -1; for (int i = 0; i < NK; i++) if (K[i].len == o->klen && !memcmp(K[i].b, o->kv, o->klen)) k = i; sxh_walked(k, vof(o)); free(o); wormhole_iter_skip1(it); } F(iter_destroy)(it); }
static void thr(void *a) { int t = (int)(long)a; BEG(R[t]); for (int n = 0; n < nops[t]; n++) { int k = opk[t][n], v = 1 + t * 2 + n; switch (opw[t][n]) { case 0: put(t, n, k, v); break; case 1: get(t, k); break; case 2: del(t, k); break; case 4: delr(t, k); break; case 5: inpw(t, k, v); break; case 6: mrg(t, n, k, v); break; default: walk(t, k); } } END(R[t]); }
#ifndef OPS0
#define OPS0 {0,2}
#endif
#ifndef OPS1
#define OPS1 {0,1,2}
#endif
#ifndef KA
#define KA {0,NK/2,NK-1}
#endif
int main() {
  // the keys; PRES says which are stored at the start, in which order does not matter here
  S(""); S("a"); S("a\0"); S("ab"); S("abc"); S("b"); S("ba"); S("bb"); S("c"); S("ca"); S("cab"); S("cb"); S("d"); S("d\0"); S("da"); S("e"); S("\xff"); S("\xff\xff");
  for (int i = 0; i < NK; i++) { kref_ref_hash32(&KR[i], K[i].b, K[i].len); for (int j = 0; j < i; j++) CHECK(cmpK(K[j], K[i]) < 0, "HARNESS: order"); }
  M = wormhole_create(&kvmap_mm_dup); for (int i = 0; i < NTH; i++) { R[i] = F(ref)(M); END(R[i]); }
  bool st[64] = {}; static const int pres[] = PRES; int np = pres[sx_choice("pre", sizeof pres / sizeof *pres)]; u32 skip = SKIP; BEG(R[0]);
  for (int i = 0, n = 0; n < np && i < NK; i++) if (!(skip >> i & 1)) { kv *p = mkkv(i, 1000 + i); F(put)(R[0], p); free(p); sxh_init(i, 1000 + i); st[i] = true; n++; }
  static const int ka[] = KA; enum { NA = sizeof ka / sizeof *ka }; static const int o0[] = OPS0, o1[] = OPS1;
#ifdef DELS   // empty some of it again, so that leaves merge soon
  { static const int ds[] = DELS; for (unsigned i = 0; i < sizeof ds / sizeof *ds; i++) if (st[ds[i]]) { F(del)(R[0], &KR[ds[i]]); st[ds[i]] = false; } g_in = 0; for (int i = 0; i < NK; i++) if (st[i]) sxh_init(i, 1000 + i); }
#endif
  END(R[0]); bool wlk = false;
  for (int t = 0; t < NTH; t++) { nops[t] = t == 0 ? N0 : N1; for (int n = 0; n < nops[t]; n++) { opw[t][n] = t == 0 ? o0[sx_choice("op", sizeof o0 / sizeof *o0)] : o1[sx_choice("op", sizeof o1 / sizeof *o1)]; opk[t][n] = ka[sx_choice("key", NA)]; RV[t][n] = mkkv(opk[t][n], 1 + t * 2 + n); wlk |= opw[t][n] == 3; } }
  for (long t = 0; t < NTH; t++) sx_spawn(thr, (void *)t);
  sx_run(PRE);
  BEG(R[0]); for (int i = 0; i < NK; i++) get(0, i);
  if (wlk) { for (int i = 0; i < wn; i++) { CHECK(wk[i] >= 0, "a walk shows stored keys"); if (i) CHECK(wk[i] > wk[i - 1], "a walk shows keys in order, each once"); }
    int from = 0; for (int t = 0; t < NTH; t++) for (int n = 0; n < nops[t]; n++) if (opw[t][n] == 3) from = opk[t][n];
    for (int k = from; k < NK; k++) { bool touched = false; for (int t = 0; t < NTH; t++) for (int n = 0; n < nops[t]; n++) touched |= opw[t][n] != 3 && opw[t][n] != 1 && (opk[t][n] == k || (opw[t][n] == 4 && k > opk[t][n] && k < opk[t][n] + 3)); if (touched) continue; bool s = false; for (int i = 0; i < wn; i++) if (wk[i] == k) { s = true; CHECK(wv[i] == 1000 + k, "a walk shows the stored record"); } CHECK(s == st[k], "a walk shows every key that stays, and none that never was"); } wn = 0; }
  else { walk(0, 0); int n = 0; for (int k = 0; k < NK; k++) { bool h = g_op[g_nop - NK + k].ok; if (h) { CHECK(n < wn && wk[n] == k && wv[n] == (int)g_op[g_nop - NK + k].out, "a final walk agrees with the lookups"); n++; } } CHECK(n == wn, "a final walk shows nothing else"); }
  END(R[0]); for (int i = 0; i < g_nop; i++) { sx_observe("ok", g_op[i].ok); sx_observe("out", g_op[i].ok ? g_op[i].out : 0); }
  CHECK(sxh_linearizable(), "history is linearizable"); for (int t = 0; t < NTH; t++) { wormhole_unref(R[t]); } wormhole_destroy(M); sx_end();
}
#endif
