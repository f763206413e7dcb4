// Masstree against a sorted list of byte strings.  Keys share the template bytes TB[]; the bytes at the positions VP vary; lengths come from LENS.
// A filled tree (PREK: {length, ordinal}) gets NOPS arbitrary operations, then is read back key by key and scanned in both directions from an arbitrary key.
#include "ref.h"
#include <string.h>
#include <vector>
#include "kvthread.hh"
#include "masstree.hh"
#include "masstree_struct.hh"
#include "masstree_insert.hh"
#include "masstree_get.hh"
#include "masstree_tcursor.hh"
#include "masstree_remove.hh"
#include "masstree_scan.hh"
#if WRAP
#include <string>
#include "MassTreeWrapper.h"
#endif
using lcdf::Str;
volatile mrcu_epoch_type globalepoch = 1, active_epoch = 1;
#ifndef LWID
#define LWID 3
#endif
#ifndef IWID
#define IWID 3
#endif
struct PP : Masstree::nodeparams<LWID, IWID> { typedef u64 value_type; typedef threadinfo threadinfo_type; };
typedef Masstree::basic_table<PP> Tab; typedef Tab::cursor_type Cur; typedef Tab::unlocked_cursor_type UCur;
static const int vp[] = VP; enum { NVP = sizeof vp / sizeof *vp };
static const int lens[] = LENS; enum { NL = sizeof lens / sizeof *lens };
#ifndef DELMID
#define DELMID 0
#endif
#ifndef ORDS
#define ORDS {0,1,2}
#endif
#ifndef STEP
#define STEP 16
#endif
#ifndef TB
#define TB(i) ((i) * 11 + 1)
#endif
struct K { int len; u64 o; };
static bool operator==(const K &a, const K &b) { return a.len == b.len && a.o == b.o; }
static int common(int len) { int n = 0; while (n < NVP && vp[n] < len) n++; return n; }
static u64 cut(const K &k, int c) { return c == common(k.len) ? k.o : k.o >> 8 * (common(k.len) - c); }     // ordinal of the first c varying bytes
static bool lessK(const K &a, const K &b) { int c = common(a.len < b.len ? a.len : b.len); u64 x = cut(a, c), y = cut(b, c); return (x < y) | ((x == y) & (a.len < b.len)); }
struct Buf { char b[96]; Str s; Buf(const K &k) { memset(b, 0x5A, sizeof b); for (int i = 0; i < k.len; i++) b[16 + i] = (char)TB(i); int c = common(k.len); for (int i = 0; i < c; i++) b[16 + vp[i]] = (char)(k.o >> 8 * (c - 1 - i)); s = Str(b + 16, k.len); } };
static std::vector<std::pair<K, u64>> M;    // the reference: key order, forking on comparisons
static int find(const K &k) { for (size_t i = 0; i < M.size(); i++) if (M[i].first == k) return i; return -1; }
static void mput(const K &k, u64 v) { int i = find(k); if (i >= 0) { M[i].second = v; return; } size_t j = 0; while (j < M.size() && lessK(M[j].first, k)) j++; M.insert(M.begin() + j, {k, v}); }
static threadinfo *ti; static Tab *t;
static void drain() { for (int i = 0; i < threadinfo::pool_max_nlines; i++) while (void *p = ti->pool_[i]) { ti->pool_[i] = *(void **)p; free(p); } }
static void tick() { for (int i = 0; i < 3; i++) { globalepoch = globalepoch + 2; active_epoch = threadinfo::min_active_epoch(); ti->rcu_quiesce(); ti->rcu_stop(); drain(); } }
static bool put(const K &k, u64 v) { Buf b(k); ti->rcu_start(); Cur c(*t, b.s); bool f = c.find_insert(*ti); c.value() = v; c.finish(1, *ti); ti->rcu_stop(); drain(); return f; }
static bool rem(const K &k) { Buf b(k); ti->rcu_start(); Cur c(*t, b.s); c.original_n_ = nullptr; /* else finish() compares an unset pointer, without effect */ bool f = c.find_locked(*ti); u64 v = f ? c.value() : 0; sx_observe("removed", v); c.finish(f ? -1 : 0, *ti); ti->rcu_stop(); drain(); return f; }
static void get(const K &k, const char *m) { Buf b(k); u64 v = 0; ti->rcu_start(); bool f = t->get(b.s, v, *ti); UCur u(*t, b.s); bool f2 = u.find_unlocked(*ti); int i = find(k); CHECK(f == (i >= 0), m); CHECK(!f || v == M[i].second, "get returns the value last stored"); CHECK(f2 == f && (!f || u.value() == v), "an unlocked cursor finds the same"); ti->rcu_stop(); }
struct Scan { std::vector<std::pair<std::vector<u8>, u64>> r; size_t max; template <class S, class KK> void visit_leaf(const S &, const KK &, threadinfo &) {} bool visit_value(Str k, u64 v, threadinfo &) { r.push_back({std::vector<u8>((const u8 *)k.s, (const u8 *)k.s + k.len), v}); return r.size() < max; } };
static void scan(const K &from, bool first, bool rev, size_t max) {
  Buf b(from); Scan s; s.max = max; ti->rcu_start(); int n = rev ? t->rscan(b.s, first, s, *ti) : t->scan(b.s, first, s, *ti); ti->rcu_stop(); CHECK(n == (int)s.r.size(), "the scan counts what it visits");
  std::vector<int> e; int sz = M.size(); for (int i = 0; i < sz; i++) { int j = rev ? sz - 1 - i : i; bool same = M[j].first == from; if (same ? first : lessK(M[j].first, from) == rev) e.push_back(j); } if (e.size() > max) e.resize(max);
  CHECK(s.r.size() == e.size(), "a scan visits exactly the keys from the start key on"); bool ok = true;
  for (size_t i = 0; i < e.size() && i < s.r.size(); i++) { Buf x(M[e[i]].first); ok &= s.r[i].second == M[e[i]].second && (int)s.r[i].first.size() == x.s.len && !memcmp(s.r[i].first.data(), x.s.s, x.s.len); }
  CHECK(ok, "a scan visits keys in byte order with their values");
}
static K arb(const char *n) { K k; k.len = lens[sx_choice("len", NL)]; int c = common(k.len); k.o = 0; for (int i = 0; i < c; i++) k.o = k.o << 8 | sx_u8(n); return k; }
#if WRAP      // the wrapper: WRAP 1 plain values, 2 heap values it retires
int main() {
  mass_thd_info = ti = threadinfo::make(threadinfo::TI_MAIN, -1); threadinfo::no_pool_value = 1;
#if WRAP == 1
  typedef u64 V; auto mk = [](u64 v) { return v; }; auto rd = [](V v) { return v; };
#else
  typedef u64 *V; auto mk = [](u64 v) { u64 *p = (u64 *)malloc(8); *p = v; return p; }; auto rd = [](V v) { return *v; };
#endif
  MassTreeWrapper<V> w; w.thread_init(0); u64 val = 100;
  auto str = [](const Buf &b, const K &k) { std::string s; s.reserve(k.len + 16); s.assign(b.b + 16, k.len); return s; };   // keys are read in whole words
  auto up = [&](const K &k) { Buf b(k); int how = sx_choice("how", 2); bool r; V v = mk(++val); if (how == 0) r = w.upsert(b.b + 16, k.len, v); else { std::string s(str(b, k)); r = w.upsert(s, v); } CHECK(r == (find(k) < 0), "upsert tells whether the key is new"); mput(k, val); };
  auto look = [&](const K &k) { MassEpochGuard g; Buf b(k); V v{}; bool f = sx_choice("how", 2) ? w.search(str(b, k), v) : w.search(b.b + 16, k.len, v); int i = find(k); CHECK(f == (i >= 0), "search finds exactly the stored keys"); if (f) CHECK(rd(v) == M[i].second, "search returns the value last stored"); };
#ifdef PREK
  static const K prek[] = PREK; for (auto &k : prek) { Buf b(k); CHECK(w.upsert(b.b + 16, k.len, mk(++val)), "a new key is reported as new"); mput(k, val); }
#endif
  std::vector<K> used; for (int i = 0; i < NOPS; i++) { K k = arb("k"); used.push_back(k); if (sx_choice("op", 2)) look(k); else up(k); if (i == 0 && sx_choice("tick", 2)) tick(); }
  for (auto &k : used) look(k); tick(); for (size_t i = 0; i < M.size(); i++) { Buf b(M[i].first); V v{}; CHECK(w.search(b.b + 16, M[i].first.len, v) && rd(v) == M[i].second, "every stored key is found"); }
  sx_end();
}
#else
int main() {
#ifdef ENABLE_ASSERTIONS
  threadinfo::no_pool_value = 1;
#endif
  ti = threadinfo::make(threadinfo::TI_MAIN, -1);
#ifdef ENABLE_ASSERTIONS
  threadinfo::no_pool_value = 1;
#endif
  t = new Tab; t->initialize(*ti); u64 val = 100;
#ifdef PRESEQ      // PREK ordinals of length PRELEN in the order given by ORD
  int np = PRESEQ; np = np < 0 ? sx_choice("pre", -np + 1) : np; static const int ords[] = ORDS; int ord = ords[sx_choice("ord", sizeof ords / sizeof *ords)];
  for (int i = 0; i < np; i++) { K k{PRELEN, (u64)(STEP * (orderOf(ord, i, np) + 1))}; put(k, ++val); mput(k, val); }
  int nd = NDEL < 0 ? sx_choice("del", -NDEL + 1) : NDEL; int db = nd ? sx_choice("delfrom", 2 + DELMID) : 0; for (int i = 0; i < nd && i < np; i++) { int at = db > 1 ? db - 1 + i : db ? np - 1 - i : i; if (at >= np) break; K k{PRELEN, (u64)(STEP * (at + 1))}; CHECK(rem(k), "a stored key can be removed"); M.erase(M.begin() + find(k)); }
  if (nd && sx_choice("tick", 2)) tick();
#endif
#ifdef PREK       // explicit {length, ordinal} list
  static const K prek[] = PREK; for (auto &k : prek) { put(k, ++val); mput(k, val); } { int nd = sx_choice("del", NDEL + 1); for (int i = 0; i < nd; i++) { CHECK(rem(prek[i]), "a stored key can be removed"); M.erase(M.begin() + find(prek[i])); } if (nd && sx_choice("tick", 2)) tick(); }
#endif
  static const int ops[] = OPS; std::vector<K> used;
  for (int i = 0; i < NOPS; i++) { int op = ops[sx_choice("op", sizeof ops / sizeof *ops)]; if (op == 3) { tick(); continue; }
    K k = arb("k"); used.push_back(k); int j = find(k);
    if (op == 0) { bool f = put(k, ++val); CHECK(f == (j >= 0), "insertion tells whether the key was there"); mput(k, val); }
    else if (op == 1) { bool f = rem(k); CHECK(f == (j >= 0), "removal finds exactly the stored keys"); if (j >= 0) M.erase(M.begin() + j); }
    else get(k, "get finds exactly the stored keys"); }
  for (auto &k : used) get(k, "a key is found after the operations exactly if it is stored");
  for (size_t i = 0; i < M.size(); i++) get(M[i].first, "every stored key is found");
  K z{0, 0}; scan(z, true, false, 64); K top{lens[NL - 1], ~0ull}; top.o >>= 64 - 8 * common(top.len); if (!common(top.len)) top.o = 0;
  scan(top, true, true, 64);
#ifndef NOSCAN
  K f = arb("from"); bool rev = sx_choice("rev", 2), first = sx_choice("first", 2); scan(f, first, rev, 1 + 63 * sx_choice("max", 2));
#endif
  tick(); for (size_t i = 0; i < M.size(); i++) get(M[i].first, "every stored key is found after collection");
  sx_end();
}
#endif
