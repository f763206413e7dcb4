// Height-optimised trie against a sorted list.  KT 0: 64-bit keys in records, 1: 64-bit values that are their own key, 2: zero-terminated strings in records, 3: HotTree wrapper on 64-bit keys, 4: HotTree wrapper on strings, 5: 32-bit keys.
// A tree of the keys of one of the SHAPES (SIZES: how many of them; ORDERS insertion orders) gets NOPS operations out of OPS on arbitrary keys, then is read back, scanned and iterated.
#include "ref.h"
#include <string.h>
#include <algorithm>
#include <byteswap.h>
#include <immintrin.h>
#include <string>
#include <vector>
#include <functional>
#include "HOT/hot.h"
#include <idx/contenthelpers/IdentityKeyExtractor.hpp>
#ifdef SX_SYMBOLIC     // clang forgets members first named inside a deduced-return lambda: name them again
#define NODE(M, P) template struct hot::rowex::HOTRowexNode<hot::commons::M, P>;
NODE(SingleMaskPartialKeyMapping, uint8_t) NODE(SingleMaskPartialKeyMapping, uint16_t) NODE(SingleMaskPartialKeyMapping, uint32_t) NODE(MultiMaskPartialKeyMapping<1u>, uint8_t) NODE(MultiMaskPartialKeyMapping<1u>, uint16_t) NODE(MultiMaskPartialKeyMapping<1u>, uint32_t) NODE(MultiMaskPartialKeyMapping<2u>, uint16_t) NODE(MultiMaskPartialKeyMapping<4u>, uint32_t)
#endif
#if KT == 2 || KT == 4
#ifndef SLEN
#define SLEN 12
#endif
struct K { char s[256]; };
static int cmpK(const K &a, const K &b) { for (int i = 0; i < 256; i++) { if (a.s[i] != b.s[i]) return (u8)a.s[i] < (u8)b.s[i] ? -1 : 1; if (!a.s[i]) return 0; } return 0; }
#else
typedef u64 K;
static int cmpK(K a, K b) { return a == b ? 0 : a < b ? -1 : 1; }
#endif
#if KT == 5
typedef u32 KW;
#else
typedef u64 KW;
#endif
struct Rec { K k; u64 v; };
#if KT == 0 || KT == 5
template <class P> struct Ex { typedef KW KeyType; KW operator()(const Rec *r) const { return r->k; } };
typedef hot::rowex::HOTRowex<Rec *, Ex> T; typedef Rec *V; static V mk(const K &k, u64 v) { return new Rec{k, v}; } static K keyOf(V r) { return r->k; } static u64 valOf(V r) { return r->v; } static KW arg(const K &k) { return k; }
#elif KT == 1
typedef hot::rowex::HOTRowex<u64, idx::contenthelpers::IdentityKeyExtractor> T; typedef u64 V; static V mk(const K &k, u64) { return k; } static K keyOf(V r) { return r; } static u64 valOf(V) { return 0; } static u64 arg(const K &k) { return k; }
#elif KT == 2
template <class P> struct Ex { typedef const char *KeyType; const char *operator()(const Rec *r) const { return r->k.s; } };
typedef hot::rowex::HOTRowex<Rec *, Ex> T; typedef Rec *V; static V mk(const K &k, u64 v) { return new Rec{k, v}; } static K keyOf(V r) { return r->k; } static u64 valOf(V r) { return r->v; } static const char *arg(const K &k) { return k.s; }
#elif KT == 3
typedef HotTree<u64, u64> T;
#else
typedef HotTree<std::string, u64> T;
#endif
static T *t; struct E { K k; u64 v; }; static std::vector<E> M; static u64 nextv = 100;
static int find(const K &k) { for (size_t i = 0; i < M.size(); i++) if (cmpK(M[i].k, k) == 0) return i; return -1; }
static size_t lower(const K &k) { size_t i = 0; while (i < M.size() && cmpK(M[i].k, k) < 0) i++; return i; }
static void madd(const K &k, u64 v) { size_t i = lower(k); M.insert(M.begin() + i, E{k, v}); }
static int SH; static K shape(int s, int i) {
#if KT == 2 || KT == 4
  K k; memset(&k, 0, sizeof k); int L = SLEN; for (int j = 0; j < L; j++) k.s[j] = 'P';
  switch (s) {
    case 0: k.s[i % L] = 'Q' + i / L; break;                                          // one bit in each of many bytes
    case 1: k.s[0] = 1 + i % 37; k.s[1] = 0; break;                                     // short keys
    case 2: for (int j = 0; j < 6; j++) k.s[j * (L / 6)] = (i >> j & 1) ? 'q' : '1'; break;   // six bytes far apart
    case 3: k.s[i + 1] = 0; break;                                                    // prefixes of one another
    case 4: { int j = i / 7; k.s[L - 1 - j] = "\x01\x7f\xff@a0 "[i % 7]; break; }
    default: k.s[0] = 'a' + i % 3; k.s[L / 2] = '0' + i / 3 % 4; k.s[L - 1] = 'A' + i / 12; break;
  }
  return k;
#else
  const u64 keep = KT == 1 ? ~0ull >> 1 : KT == 5 ? 0xffffffffu : ~0ull; u64 k = 0;
  switch (s) {
    case 0: k = (u64)(i + 1) << 4; break;                                             // dense
    case 1: k = 1ull << i; break;                                                     // one bit each: a chain
    case 2: k = 0; for (int j = 0; j < 6; j++) if (i >> j & 1) k |= 1ull << (j * 10 + 3); break;   // bits far apart
    case 3: k = (u64)(i + 1) * 0x9E3779B97F4A7C15ull; break;                          // scattered
    case 4: k = ((u64)(i % 8) << 56) | (u64)(i / 8) << 8; break;                      // two clusters of bits
    default: k = ~0ull << i; break;
  }
  return k & keep;
#endif
}
#ifndef NEARS
#define NEARS n
#endif
static int nearTo(int n) { int c = NEARS < n ? NEARS : n, i = sx_choice("near", c); return c == n ? i : i * (n - 1) / (c - 1); }
static K arb(int n) {
#if KT == 2 || KT == 4
  K k = shape(SH, nearTo(n)); int L = strlen(k.s); int how = sx_choice("how", 3);   // a stored shape with one byte changed, cut short, or extended
  if (how == 0) { int p = sx_choice("pos", L); u8 c = sx_u8("byte"); sx_assume(c != 0); k.s[p] = c; } else if (how == 1) { int p = sx_choice("cut", L); k.s[p] = 0; if (p + 1 < L) memset(k.s + p, 0, 256 - p); } else { u8 c = sx_u8("byte"); sx_assume(c != 0); k.s[L] = c; }
  return k;
#elif NEAR     // a key of the shape with one byte replaced
  K k = shape(SH, nearTo(n)); int p = sx_choice("pos", KT == 5 ? 4 : 8); u8 c = sx_u8("byte"); if (KT == 1 && p == 7) sx_assume(c < 128); k &= ~(0xffull << 8 * p); return k | (u64)c << 8 * p;
#elif KT == 1
  (void)n; u64 k = sx_u64("k"); sx_assume(k >> 63 == 0); return k;
#elif KT == 5
  (void)n; return sx_u32("k");
#else
  (void)n; return sx_u64("k");
#endif
}
#if KT == 3 || KT == 4
static bool put(const K &k, u64 v) {
#if KT == 4
  if (sx_choice("cs", 2)) { std::string s(k.s); return t->upsert(s, v); } return t->upsert((char *)k.s, (int)strlen(k.s), v);
#else
  return t->upsert(k, v);
#endif
}
static void look(const K &k) { if (M.empty()) return; u64 v = 0; int i = find(k);
#if KT == 4
  bool f = t->search((char *)k.s, v);
#else
  bool f = t->search(k, v);
#endif
  CHECK(f == (i >= 0), "search finds exactly the stored keys"); CHECK(!f || v == M[i].v, "search returns the value last stored"); }
static void doOp(int op, const K &k) { if (op == 2) { look(k); return; } int i = find(k); bool f = put(k, ++nextv); CHECK(f == (i < 0), "upsert tells whether the key is new"); if (i < 0) madd(k, nextv); else M[i].v = nextv; look(k); }
static void pre(const K &k) { if (find(k) >= 0) return; CHECK(t->upsert(
#if KT == 4
  (char *)k.s, (int)strlen(k.s),
#else
  k,
#endif
  ++nextv), "a new key is reported as new"); madd(k, nextv); }
static void all() { for (auto &e : M) look(e.k); }
static void walk(const K &) {}
#else
static void look(const K &k) { int i = find(k); auto r = t->lookup(arg(k)); CHECK(r.mIsValid == (i >= 0), "lookup finds exactly the stored keys"); if (r.mIsValid && i >= 0) { CHECK(cmpK(keyOf(r.mValue), k) == 0, "lookup returns the record of that key"); CHECK(KT == 1 || valOf(r.mValue) == M[i].v, "lookup returns the value last stored"); } }
static void doOp(int op, const K &k) { int i = find(k);
  if (op == 0) { V v = mk(k, ++nextv); bool f = t->insert(v); CHECK(f == (i < 0), "insert succeeds exactly for new keys"); if (i < 0) madd(k, nextv); }
  else if (op == 1) { V v = mk(k, ++nextv); auto r = t->upsert(v); CHECK(r.mIsValid == (i >= 0), "upsert tells whether the key was there"); if (r.mIsValid && i >= 0) CHECK(KT == 1 || valOf(r.mValue) == M[i].v, "upsert returns the record it replaces"); if (i < 0) madd(k, nextv); else M[i].v = nextv; }
  look(k); }
static void pre(const K &k) { if (find(k) >= 0) return; V v = mk(k, ++nextv); CHECK(t->insert(v), "a new key is inserted"); madd(k, nextv); }
static bool same(V r, size_t i) { return cmpK(keyOf(r), M[i].k) == 0 && (KT == 1 || valOf(r) == M[i].v); }
static void all() { for (auto &e : M) look(e.k); if (M.empty()) { CHECK(!(t->begin() != t->end()), "an empty trie has nothing to visit"); return; } size_t n = 0; for (auto it = t->begin(); it != t->end(); ++it) { CHECK(n < M.size(), "iteration visits no more than is stored"); CHECK(same(*it, n), "iteration visits every entry in key order"); n++; } CHECK(n == M.size(), "iteration visits every entry"); }
static void walk(const K &k) {
  size_t lo = lower(k), up = lo + (lo < M.size() && cmpK(M[lo].k, k) == 0); int what = sx_choice("walk", 4);
  if (what == 0) { auto it = t->lower_bound(arg(k)); for (int j = 0; j < 3 && lo < M.size(); j++, ++lo, ++it) { CHECK(it != t->end(), "lower_bound lands on the first entry not below"); CHECK(same(*it, lo), "and goes on in order"); } if (lo == M.size()) CHECK(!(it != t->end()), "up to the end"); }
  else if (what == 1) { auto it = t->upper_bound(arg(k)); for (int j = 0; j < 3 && up < M.size(); j++, ++up, ++it) { CHECK(it != t->end(), "upper_bound lands on the first entry above"); CHECK(same(*it, up), "and goes on in order"); } if (up == M.size()) CHECK(!(it != t->end()), "up to the end"); }
  else if (what == 2) { size_t d = sx_choice("dist", 3); if (d == 2) d = 33; auto r = t->scan(arg(k), d); CHECK(r.mIsValid == (lo + d < M.size()), "a scan reaches an entry exactly if there are that many"); if (r.mIsValid && lo + d < M.size()) CHECK(same(r.mValue, lo + d), "a scan yields the entry at that distance"); }
  else { auto it = t->find(arg(k)); CHECK((it != t->end()) == (up > lo), "find lands on the key or at the end"); if (up > lo) { CHECK(same(*it, lo), "find lands on the key"); ++it; ++lo; if (lo < M.size()) CHECK(it != t->end() && same(*it, lo), "and goes on in order"); else CHECK(!(it != t->end()), "up to the end"); } }
}
#endif
int main() {
  t = new T; static const int shapes[] = SHAPES, sizes[] = SIZES, ops[] = OPS; SH = shapes[sx_choice("shape", sizeof shapes / sizeof *shapes)]; int n = sizes[sx_choice("size", sizeof sizes / sizeof *sizes)]; int ord = sx_choice("order", ORDERS);
  for (int i = 0; i < n; i++) pre(shape(SH, ord == 0 ? i : ord == 1 ? n - 1 - i : i % 2 ? n - 1 - i / 2 : i / 2));
  for (int i = 0; i < NOPS; i++) { K k = arb(n + 1); doOp(ops[sx_choice("op", sizeof ops / sizeof *ops)], k); }
  all(); if (WALK) { K k = arb(n + 1); look(k); walk(k); }
  delete t; sx_end();
}
