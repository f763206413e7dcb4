// Wormhole in its API flavours against an ordered map over a set of byte-string keys.  The keys are numbered in byte order, so the model is an array.
// FLAV 0 whunsafe_*, 1 whsafe_*, 2 wormhole_* on one reference, 3 wh_* (flat buffers)
#include "ref.h"
#include <string.h>
#include <stdlib.h>
#include "wormhole/lib.h"
#include "wormhole/kv.h"
#include "wormhole/wh.h"
extern "C" size_t hx_fwrite(const void *, size_t, size_t b, FILE *) { return b; }
struct Key { u16 len; u8 b[24]; };
static Key K[64]; static int NK; static int has[64]; static u8 val[64];
static int cmpK(const Key &a, const Key &b) { unsigned l = a.len < b.len ? a.len : b.len; int r = memcmp(a.b, b.b, l); return r ? r : (int)a.len - (int)b.len; }
static void add(const void *p, unsigned n) { Key k; k.len = n; memcpy(k.b, p, n); int i = NK++; while (i > 0 && cmpK(k, K[i - 1]) < 0) { K[i] = K[i - 1]; i--; } K[i] = k; }
#define S(s) add(s, sizeof(s) - 1)
#ifndef SET
#define SET 0
#endif
static void keys() {
#if SET == 0      // short keys, prefixes of each other, with zero and 0xff bytes
  S(""); S("\0"); S("\0\0"); S("a"); S("a\0"); S("a\0\0"); S("a\0b"); S("a\1"); S("aa"); S("aab"); S("ab"); S("a\xff"); S("a\xff\xff"); S("b"); S("b\0"); S("ba"); S("bb"); S("\xff"); S("\xff\0"); S("\xff\xff"); S("c"); S("ca"); S("cab"); S("cabbage");
#elif SET == 1    // long shared prefixes
  S("prefix-0001"); S("prefix-0001\0"); S("prefix-0001\0\0"); S("prefix-00010"); S("prefix-00011"); S("prefix-0002"); S("prefix-0002abcdefgh"); S("prefix-0002abcdefghi"); S("prefix-0003"); S("prefix-"); S("prefix-0"); S("prefix-1"); S("prefix-10"); S("prefix-100"); S("prefix-1000"); S("prefix-1000\xff"); S("prefi"); S("prefiy"); S("p"); S("q"); S("prefix-2000aaaaaaaaaa"); S("prefix-2000aaaaaaaaab"); S("prefix-2000aaaaaaaabb"); S("prefix-2000aaaaaaabbb");
#elif SET == 3    // every string of up to three of these bytes
  static const u8 al[] = {0, 'a', 0xff}; u8 b[3]; for (int n = 0; n < 4; n++) { int c = n == 0 ? 1 : n == 1 ? 3 : n == 2 ? 9 : 27; for (int x = 0; x < c; x++) { int y = x; for (int i = 0; i < n; i++, y /= 3) b[i] = al[y % 3]; add(b, n); } }
#else             // fixed-width big-endian integers
  for (unsigned i = 0; i < 24; i++) { u8 b[4] = {0, (u8)(i >> 3), (u8)(i & 4 ? 0x80 : 0), (u8)((i & 3) * 85)}; add(b, 4); }
#endif
}
static kref kr(int i) { kref r; kref_ref_hash32(&r, K[i].b, K[i].len); return r; }
static kv *mkkv(int i, u8 v) { kv *p = (kv *)malloc(sizeof(kv) + K[i].len + 2); kv_refill(p, K[i].b, K[i].len, "", 0); p->vlen = 2; p->kv[K[i].len] = v; p->kv[K[i].len + 1] = i; return p; }
static bool sameB(const u8 *a, const u8 *b, unsigned n) { bool r = true; for (unsigned i = 0; i < n; i++) r &= a[i] == b[i]; return r; }
static bool isKv(const kv *p, int i, u8 v) { return p->klen == K[i].len && p->vlen == 2 && sameB(p->kv, K[i].b, K[i].len) && (p->kv[p->klen] == v) & (p->kv[p->klen + 1] == i); }
static int FK = -1;
static void freeKey() {   // one key of unknown bytes
#ifdef FREE
  static const u8 fl[] = FREE; u8 b[24]; unsigned n = fl[sx_choice("flen", sizeof fl)]; memset(b, 'x', sizeof b);
#ifdef FPRE
  memcpy(b, FPRE, sizeof(FPRE) - 1); unsigned o = sizeof(FPRE) - 1;
#else
  unsigned o = 0;
#endif
  if (n) sx_bytes(b + o, n, "k"); n += o; for (int i = 0; i < NK; i++) if (K[i].len == n) sx_assume(!sameB(K[i].b, b, n)); add(b, n); for (int i = 0; i < NK; i++) if (K[i].len == n && sameB(K[i].b, b, n)) FK = i;
#endif
}
static wormhole *M; static wormref *R;
static int kind, hit; static u8 seen; static bool want; static u8 wantv;   // kind 0: not called, 1: record, 2: no record, 3: a wrong record
static void look(kv *c) { hit++; if (!c) { kind = 2; return; } if (c->vlen != 2) { kind = 3; return; } kind = 1; seen = c->kv[c->klen]; }
static void inpf(kv *c, void *pv) { look(c); if (want && kind == 1) c->kv[c->klen] = wantv; }
static kv *mkv; static int mmode; // 0 leave alone, 1 replace, 2 change in place
static kv *mrgf(kv *c, void *pv) { look(c); if (mmode == 0) return c; if (mmode == 1 || !c) return mkv; c->kv[c->klen] = mkv->kv[mkv->klen]; return c; }
static u8 newv() { return sx_u8("v"); }
static void put(int i) { u8 v = newv(); bool ok;
#if FLAV == 3
  u8 vb[2] = {v, (u8)i}; ok = wh_put(R, K[i].b, K[i].len, vb, 2);
#else
  kv *p = mkkv(i, v);
  ok = FLAV == 0 ? whunsafe_put(M, p) : FLAV == 1 ? whsafe_put(R, p) : wormhole_put(R, p); free(p);
#endif
  CHECK(ok, "a put succeeds"); val[i] = v; has[i] = 1; }
static bool probe(int i) { kref r = kr(i);
#if FLAV == 3
  return wh_probe(R, K[i].b, K[i].len);
#else
  return FLAV == 0 ? whunsafe_probe(M, &r) : FLAV == 1 ? whsafe_probe(R, &r) : wormhole_probe(R, &r);
#endif
}
static void get(int i) {
#if FLAV == 3
  u8 *vb = (u8 *)malloc(2); u32 vl = 77; vb[0] = vb[1] = 0; bool g = wh_get(R, K[i].b, K[i].len, vb, 2, &vl); CHECK(g == (bool)has[i], "get finds exactly the present keys"); if (g) CHECK(vl == 2 && (vb[0] == val[i]) & (vb[1] == i), "get returns the last value put"); free(vb);
#else
  kref r = kr(i); kv *o = FLAV == 0 ? whunsafe_get(M, &r, NULL) : FLAV == 1 ? whsafe_get(R, &r, NULL) : wormhole_get(R, &r, NULL);
  CHECK((o != NULL) == (bool)has[i], "get finds exactly the present keys"); if (o) { CHECK(isKv(o, i, val[i]), "get returns the record last put"); free(o); }
#endif
  CHECK(probe(i) == (bool)has[i], "probe finds exactly the present keys"); }
static void del(int i) { kref r = kr(i); bool d;
#if FLAV == 3
  d = wh_del(R, K[i].b, K[i].len);
#else
  d = FLAV == 0 ? whunsafe_del(M, &r) : FLAV == 1 ? whsafe_del(R, &r) : wormhole_del(R, &r);
#endif
  CHECK(d == (bool)has[i], "a deletion succeeds exactly for a present key"); has[i] = 0; }
static void delr(int a, int b) { kref ra = kr(a), rb; if (b < NK) rb = kr(b); kref *e = b < NK ? &rb : NULL; u64 n = 0, x = 0; for (int i = a; i < b && i < NK; i++) n += has[i];
#if FLAV == 3
  x = wh_delr(R, K[a].b, K[a].len, b < NK ? K[b].b : NULL, b < NK ? K[b].len : 0);
#else
  x = FLAV == 0 ? whunsafe_delr(M, &ra, e) : FLAV == 1 ? whsafe_delr(R, &ra, e) : wormhole_delr(R, &ra, e);
#endif
  CHECK(x == n, "a range deletion reports the keys it removed"); for (int i = a; i < b && i < NK; i++) has[i] = 0; }
static void inp(int i, bool wr) { kref r = kr(i); kind = hit = 0; want = wr; if (wr) wantv = newv(); bool g;
#if FLAV == 3
  g = wr ? wh_inpw(R, K[i].b, K[i].len, inpf, NULL) : wh_inpr(R, K[i].b, K[i].len, inpf, NULL);
#else
  g = FLAV == 0 ? whunsafe_inp(M, &r, inpf, NULL) : FLAV == 1 ? (wr ? whsafe_inpw(R, &r, inpf, NULL) : whsafe_inpr(R, &r, inpf, NULL)) : (wr ? wormhole_inpw(R, &r, inpf, NULL) : wormhole_inpr(R, &r, inpf, NULL));
#endif
  CHECK(g == (bool)has[i], "an in-place operation finds exactly the present keys"); CHECK(kind == (has[i] ? 1 : 2) && hit == 1, "an in-place operation is called once, with the record if there is one"); if (has[i]) CHECK(seen == val[i], "an in-place operation sees the current record"); if (wr && has[i]) val[i] = wantv; want = false; }
static void merge(int i) { kref r = kr(i); mmode = sx_choice("mmode", 3); u8 v = newv(); mkv = mkkv(i, v); kind = hit = 0; bool g;
#if FLAV == 3
  g = wh_merge(R, K[i].b, K[i].len, mrgf, NULL);
#else
  g = FLAV == 0 ? whunsafe_merge(M, &r, mrgf, NULL) : FLAV == 1 ? whsafe_merge(R, &r, mrgf, NULL) : wormhole_merge(R, &r, mrgf, NULL);
#endif
  CHECK(g && hit == 1, "a merge succeeds and calls the function once"); CHECK(kind == (has[i] ? 1 : 2), "a merge sees whether there is a record"); if (has[i]) CHECK(seen == val[i], "a merge sees the current record"); if (FLAV != 3 || !mmode || (mmode == 2 && has[i])) free(mkv); if (mmode) { val[i] = v; has[i] = 1; } }
// a walk from the first key not below K[i]; skip1 mixed with longer skips
static void walk(int from, int step) {
  int i = from; while (i < NK && !has[i]) i++;
#if FLAV == 3
  wormhole_iter *it = wh_iter_create(R); wh_iter_seek(it, K[from].b, K[from].len);
#else
  kref r = kr(from); wormhole_iter *it = FLAV == 0 ? whunsafe_iter_create(M) : wormhole_iter_create(R);
  if (FLAV == 0) whunsafe_iter_seek(it, &r); else if (FLAV == 1) whsafe_iter_seek(it, &r); else wormhole_iter_seek(it, &r);
#endif
  for (int n = 0; n < NK + 1; n++) {
    CHECK(wormhole_iter_valid(it) == (i < NK), "the iterator is valid exactly while keys remain"); if (i >= NK) break;
#if FLAV == 3
    u8 kb[24], vb[2]; u32 kl = 0, vl = 0; CHECK(wh_iter_peek(it, kb, 24, &kl, vb, 2, &vl), "a valid iterator can be looked at"); CHECK(kl == K[i].len && !memcmp(kb, K[i].b, kl) && vl == 2 && (vb[0] == val[i]) & (vb[1] == i), "the iterator is at the next key in byte order");
#else
    kv *o = wormhole_iter_peek(it, NULL); CHECK(o && isKv(o, i, val[i]), "the iterator is at the next key in byte order"); free(o);
    kref kf; CHECK(wormhole_iter_kref(it, &kf) && kf.len == K[i].len && !memcmp(kf.ptr, K[i].b, kf.len) && kf.hash32 == kr(i).hash32, "the iterator names its key");
    kvref kvf; CHECK(wormhole_iter_kvref(it, &kvf) && kvf.hdr.klen == K[i].len && !memcmp(kvf.kptr, K[i].b, kvf.hdr.klen) && kvf.hdr.vlen == 2 && kvf.vptr[0] == val[i], "the iterator names its record");
#endif
    if (step == 3 && n == 1) { want = true; wantv = newv(); kind = 0; bool g = FLAV == 3 ? wh_iter_inp(it, inpf, NULL) : wormhole_iter_inp(it, inpf, NULL); CHECK(g && kind == 1 && seen == val[i], "an in-place update at the iterator sees its record"); val[i] = wantv; want = false; }
    int s = step < 3 ? step + 1 : 1 + (n & 3); int left = s;
    if (s == 1) { if (FLAV == 0) whunsafe_iter_skip1(it); else if (FLAV == 3) wh_iter_skip1(it); else wormhole_iter_skip1(it); }
    else { if (FLAV == 0) whunsafe_iter_skip(it, s); else if (FLAV == 3) wh_iter_skip(it, s); else wormhole_iter_skip(it, s); }
    while (left--) { i++; while (i < NK && !has[i]) i++; if (i >= NK) { i = NK; break; } }
  }
#if FLAV == 3
  wh_iter_destroy(it);
#else
  if (FLAV == 0) whunsafe_iter_destroy(it); else if (FLAV == 1) whsafe_iter_destroy(it); else wormhole_iter_destroy(it);
#endif
}
#ifdef FREE     // the free key, its neighbours or the last one
static int pick() { int i = sx_choice("key", 4); i = i == 3 ? NK - 1 : FK - 1 + i; return i < 0 ? 0 : i >= NK ? NK - 1 : i; }
#define KEY pick()
#else
#define KEY sx_choice("key", NK)
#endif
#ifndef ENDS    // open ends exist only outside the flat interface
#define ENDS sx_choice("end", NK + (FLAV != 3))
#endif
#ifndef PRE
#define PRE 14
#endif
#ifndef NOPS
#define NOPS 2
#endif
int main() {
  keys(); freeKey(); for (int i = 0; i + 1 < NK; i++) CHECK(cmpK(K[i], K[i + 1]) < 0, "HARNESS: keys in order");
#if FLAV == 3
  M = wh_create(); R = wh_ref(M);
#elif FLAV == 0
  M = whunsafe_create(&kvmap_mm_dup);
#else
  M = wormhole_create(&kvmap_mm_dup); R = FLAV == 1 ? whsafe_ref(M) : wormhole_ref(M);
#endif
  CHECK(M, "the map is created");
  int ord = sx_choice("order", ORDERS); for (int j = 0; j < PRE; j++) put(ord == 0 ? j * NK / PRE : ord == 1 ? (PRE - 1 - j) * NK / PRE : (j * 7 + 3) % NK);   // ascending, descending, mixed
#ifdef THIN
  for (int i = 0; i < NK; i++) if (has[i] && i % THIN) del(i);
#endif
  for (int n = 0; n < NOPS; n++) {
    int op = sx_choice("op", OPS), k = KEY;
    switch (op) { case 0: put(k); break; case 1: del(k); break; case 2: { int b = ENDS; delr(k, b); break; } case 3: { bool wr = sx_choice("wr", 2); if (FLAV == 0) wr = true; inp(k, wr); break; } case 4: merge(k); break; default: { int s = sx_choice("step", 4); walk(k, s); } }
#ifdef EACH
    int p = sx_choice("probe", NK); get(p);
#endif
  }
#ifdef ALLCHECK
  for (int i = 0; i < NK; i++) get(i); walk(0, 0); int last = 1;
#else
  int last = sx_choice("check", 3);
#endif
  if (last == 0) for (int i = 0; i < NK; i++) get(i);
  else if (last == 1) walk(0, 0);
  else { int f = sx_choice("from", NK); walk(f, 3); }
#if FLAV == 3
  wh_unref(R); wh_destroy(M);
#else
  if (R) wormhole_unref(R); wormhole_destroy(M);
#endif
  sx_end();
}
