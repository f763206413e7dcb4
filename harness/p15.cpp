// Masstree under every interleaving with at most PRE preemptions.  PREK: {length, ordinal} list the tree starts with; PREDEL: how many of them (from PREDFROM on) are removed again first;
// PROGS: per thread a list of operations "opKEYS" (p put, r remove, g get, s scan forward, b scan backward, t advance the epoch and collect), each with the key candidates (digits: EXTRA index; x, y: arbitrary keys of length XLEN).
#include "conc.h"
#include <string.h>
#include <vector>
#include "kvthread.hh"
#include "masstree.hh"
#include "masstree_struct.hh"
#include "masstree_insert.hh"
#include "masstree_get.hh"
#include "masstree_tcursor.hh"
#include "masstree_remove.hh"
#include "masstree_scan.hh"
using lcdf::Str;
volatile mrcu_epoch_type globalepoch = 1, active_epoch = 1;
#ifndef LWID
#define LWID 3
#endif
struct PP : Masstree::nodeparams<LWID, LWID> { typedef u64 value_type; typedef threadinfo threadinfo_type; };
typedef Masstree::basic_table<PP> Tab; typedef Tab::cursor_type Cur;
static const int vp[] = VP; enum { NVP = sizeof vp / sizeof *vp };
#ifndef TB
#define TB(i) ((i) * 11 + 1)
#endif
#ifndef PREDEL
#define PREDEL 0
#define PREDFROM 0
#endif
#ifndef XLEN
#define XLEN 1
#endif
struct K { int len; u64 o; };
static const K prek[] = PREK, extra[] = EXTRA; enum { NPRE = sizeof prek / sizeof *prek };
static int common(int len) { int n = 0; while (n < NVP && vp[n] < len) n++; return n; }
static u64 id(const K &k) { return (u64)k.len << 48 | k.o; }
static u64 cut(const K &k, int c) { return c == common(k.len) ? k.o : k.o >> 8 * (common(k.len) - c); }
static bool lessK(const K &a, const K &b) { int c = common(a.len < b.len ? a.len : b.len); u64 x = cut(a, c), y = cut(b, c); return (x < y) | ((x == y) & (a.len < b.len)); }
struct Buf { char b[96]; Str s; Buf(const K &k) { memset(b, 0x5A, sizeof b); for (int i = 0; i < k.len; i++) b[16 + i] = (char)TB(i); int c = common(k.len); for (int i = 0; i < c; i++) b[16 + vp[i]] = (char)(k.o >> 8 * (c - 1 - i)); s = Str(b + 16, k.len); } };
static Tab *t; static threadinfo *ti[5]; static K X, Y; static std::vector<K> touched;
static void drain(threadinfo &i) { for (int j = 0; j < threadinfo::pool_max_nlines; j++) while (void *p = i.pool_[j]) { i.pool_[j] = *(void **)p; free(p); } }
static void put(threadinfo &i, const K &k, u64 v) { Buf b(k); int h = sxh_begin(OP_PUT, id(k), v); i.rcu_start(); { Cur c(*t, b.s); c.find_insert(i); c.value() = v; c.finish(1, i); } i.rcu_stop(); sxh_end(h, true, 0); drain(i); }
static bool rem(threadinfo &i, const K &k) { Buf b(k); int h = sxh_begin(OP_DEL, id(k), 0); i.rcu_start(); bool f; { Cur c(*t, b.s); c.original_n_ = nullptr; f = c.find_locked(i); c.finish(f ? -1 : 0, i); } i.rcu_stop(); sxh_end(h, f, 0); drain(i); return f; }
static bool get(threadinfo &i, const K &k, u64 &v) { Buf b(k); int h = sxh_begin(OP_GET, id(k), 0); i.rcu_start(); bool f = t->get(b.s, v, i); i.rcu_stop(); sxh_end(h, f, f ? v : 0); return f; }
static void tick(threadinfo &i) { globalepoch = globalepoch + 2; active_epoch = threadinfo::min_active_epoch(); i.rcu_quiesce(); i.rcu_stop(); drain(i); }
struct Seen { u64 v; int len; u8 b[64]; };
struct Scan { Seen r[24]; int n = 0; template <class S, class KK> void visit_leaf(const S &, const KK &, threadinfo &) {} bool visit_value(Str k, u64 v, threadinfo &) { Seen &s = r[n++]; s.v = v; s.len = k.len; for (int i = 0; i < k.len && i < 64; i++) s.b[i] = k.s[i]; return n < 24; } };
static Scan g_scan[2]; static K g_from[2]; static bool g_rev[2]; static int g_ns;
static void scan(threadinfo &i, const K &from, bool rev) { int j = g_ns++; g_from[j] = from; g_rev[j] = rev; Buf b(from); i.rcu_start(); if (rev) t->rscan(b.s, true, g_scan[j], i); else t->scan(b.s, true, g_scan[j], i); i.rcu_stop(); }
extern "C" { NOIN bool sxh_same(const Seen &s, const K &k) { Buf b(k); if (s.len != k.len) return false; for (int i = 0; i < k.len; i++) if (s.b[i] != (u8)b.b[16 + i]) return false; return true; } }
// A scan yields keys in order, each with a value put under it, and misses no key that nobody changed.
static void checkScan(int j) {
  Scan &s = g_scan[j]; K last{}; bool any = false; for (int i = 0; i < s.n; i++) { bool known = false; K k{};
    for (int q = 0; q < g_in && !known; q++) { K c{(int)(g_ik[q] >> 48), g_ik[q] << 16 >> 16}; if (sxh_same(s.r[i], c) && s.r[i].v == g_iv[q]) { known = true; k = c; } }
    for (int q = 0; q < g_nop && !known; q++) if (g_op[q].kind == OP_PUT) { K c{(int)(g_op[q].k >> 48), g_op[q].k << 16 >> 16}; if (sxh_same(s.r[i], c) && s.r[i].v == g_op[q].v) { known = true; k = c; } }
    CHECK(known, "a scan yields a value that was put under the key"); if (any) CHECK(g_rev[j] ? lessK(k, last) : lessK(last, k), "a scan yields keys in order, each once"); CHECK(g_rev[j] ? !lessK(g_from[j], k) : !lessK(k, g_from[j]), "a scan starts at its first key"); last = k; any = true; }
  for (int q = 0; q < g_in; q++) { K c{(int)(g_ik[q] >> 48), g_ik[q] << 16 >> 16}; bool hit = false, in = g_rev[j] ? !lessK(g_from[j], c) : !lessK(c, g_from[j]); if (!in) continue; for (int p = 0; p < g_nop; p++) if (g_op[p].kind != OP_GET && g_op[p].k == g_ik[q]) hit = true; if (hit) continue;
    bool got = false; for (int i = 0; i < s.n; i++) got |= sxh_same(s.r[i], c) && s.r[i].v == g_iv[q]; CHECK(got, "a scan misses no key that stays"); }
}
static const char *progs[][6] = PROGS; enum { NTH = sizeof progs / sizeof *progs }; static K plan[NTH][6];
static void run(int th) { threadinfo &i = *ti[th + 1]; for (int j = 0; j < 6 && progs[th][j]; j++) { const K &k = plan[th][j]; u64 v = 0; switch (progs[th][j][0]) { case 'p': put(i, k, 1 + th * 6 + j); break; case 'r': rem(i, k); break; case 'g': get(i, k, v); break; case 's': scan(i, k, false); break; case 'b': scan(i, k, true); break; case 't': tick(i); break; } } }
static void r0(void *) { run(0); } static void r1(void *) { run(1); } static void r2(void *) { run(2); }
int main() {
  for (int i = 0; i <= NTH; i++) ti[i] = threadinfo::make(i ? threadinfo::TI_PROCESS : threadinfo::TI_MAIN, i - 1); threadinfo::no_pool_value = 1;
  t = new Tab; t->initialize(*ti[0]);
  for (int i = 0; i < NPRE; i++) put(*ti[0], prek[i], 1000 + i); for (int i = 0; i < PREDEL; i++) rem(*ti[0], prek[PREDFROM + i]);
  for (int i = 0; i < 3 * (PREDEL > 0); i++) tick(*ti[0]); g_nop = 0; for (int i = 0; i < NPRE; i++) if (i < PREDFROM || i >= PREDFROM + PREDEL) sxh_init(id(prek[i]), 1000 + i);
  X.len = Y.len = XLEN; for (int i = 0; i < common(XLEN); i++) { X.o = X.o << 8 | sx_u8("x"); Y.o = Y.o << 8 | sx_u8("y"); }
  for (int th = 0; th < NTH; th++) for (int j = 0; j < 6 && progs[th][j]; j++) { const char *c = progs[th][j] + 1; int n = strlen(c); if (!n) continue; int w = n > 1 ? sx_choice("key", n) : 0; plan[th][j] = c[w] == 'x' ? X : c[w] == 'y' ? Y : c[w] >= 'A' ? prek[c[w] - 'A'] : extra[c[w] - '0']; touched.push_back(plan[th][j]); }
  sx_spawn(r0, 0); if (NTH > 1) sx_spawn(r1, 0); if (NTH > 2) sx_spawn(r2, 0);
  sx_run(PRE);
  for (int i = 0; i < g_ns; i++) checkScan(i);
  for (int round = 0; round < 2; round++) { u64 v; for (auto &k : touched) get(*ti[0], k, v); for (int i = 0; i < NPRE; i++) { K k = prek[i]; u64 v; get(*ti[0], k, v); } if (round == 0) for (int i = 0; i < 3; i++) for (int j = 0; j <= NTH; j++) tick(*ti[j]); }
  for (int i = 0; i < g_nop; i++) { sx_observe("ok", g_op[i].ok); sx_observe("out", g_op[i].ok ? g_op[i].out : 0); }
  CHECK(sxh_linearizable(), "history is linearizable");
  int before = g_nop; g_ns = 0; g_scan[0].n = 0; K z{0, 0}; scan(*ti[0], z, false); Scan &s = g_scan[0]; std::vector<K> all(touched); for (int i = 0; i < NPRE; i++) all.push_back(prek[i]); int there = 0;
  for (size_t i = 0; i < all.size(); i++) { bool dup = false; for (size_t j = 0; j < i; j++) dup |= all[j].len == all[i].len && all[j].o == all[i].o; if (dup) continue; u64 v = 0; bool f = get(*ti[0], all[i], v); bool got = false; for (int q = 0; q < s.n; q++) got |= sxh_same(s.r[q], all[i]) && s.r[q].v == v; CHECK(got == f, "a final scan yields exactly the stored keys"); there += f; }
  CHECK(there == s.n, "a final scan yields nothing else"); (void)before;
  put(*ti[0], prek[0], 5000); u64 v = 0; CHECK(get(*ti[0], prek[0], v) && v == 5000, "the tree still takes puts"); rem(*ti[0], prek[0]); CHECK(!get(*ti[0], prek[0], v), "and removals"); sx_end();
}
