// Optimistic B+-tree under every interleaving with at most PRE preemptions: inserts, lookups and scans on a tree at each point of a split.
#include "conc.h"
#include <utility>
#if LAYOUT
#include "BTreeOLC/BTreeOLC_child_layout.h"
#else
#include "BTreeOLC/BTreeOLC.h"
#endif
struct Key { u64 k; u8 pad[800]; Key() {} Key(u64 x) : k(x) {} bool operator<(const Key &o) const { return k < o.k; } bool operator>(const Key &o) const { return k > o.k; } bool operator==(const Key &o) const { return k == o.k; } };
static btreeolc::BTree<Key, u64> *t; static u64 K[3], V[3]; static u64 start; static u64 sout[8], sn; static int st0, st1;
static void ins(u64 k, u64 v) { int i = sxh_begin(OP_PUT, k, v); t->insert(Key(k), v); sxh_end(i, true, 0); }
static void get(u64 k) { u64 r = 0; int i = sxh_begin(OP_GET, k, 0); bool f = t->lookup(Key(k), r); sxh_end(i, f, r); }
static void wr0(void *) { ins(K[0], 1); }
static void wr1(void *) { ins(K[1], 2); }
static void rd(void *) { get(K[1]); get(K[1]); }
static void sc(void *) { sn = t->scan(Key(start), 5, sout); }
int main() {
  t = new btreeolc::BTree<Key, u64>;
  static const int sizes[] = SIZES; int pre = sizes[sx_choice("pre", sizeof sizes / sizeof *sizes)];
  for (int i = 0; i < pre; i++) { t->insert(Key(16 * (i + 1)), 1000 + i); sxh_init(16 * (i + 1), 1000 + i); }
  int same = MODE == 1;
  K[0] = sx_u64("k0"); K[1] = same ? K[0] : sx_u64("k1"); start = K[1];
  sx_spawn(wr0, 0);
#if MODE == 0
  sx_spawn(wr1, 0);
#elif MODE == 1
  sx_spawn(rd, 0);
#elif MODE == 2
  sx_spawn(rd, 0);
#else
  sx_spawn(sc, 0);
#endif
#if TH3
  sx_spawn(rd, 0);
#endif
  sx_run(PRE);
  if (MODE == 3) { CHECK(sn <= 5, "scan yields no more than requested"); u64 lastk = 0; sn = sx_concretize(sn); for (u64 i = 0; i < sn; i++) { u64 k = sout[i] == 1 ? K[0] : 16 * (sout[i] - 1000 + 1); CHECK(sout[i] == 1 || (sout[i] >= 1000 && sout[i] < 1000u + pre), "scan yields stored values only"); CHECK((k >= start) & ((i == 0) | (k > lastk)), "scan is in key order"); 
      if (i) for (int j = 0; j < pre; j++) { u64 m = 16 * (j + 1); CHECK(!((m > lastk) & (m < k)), "scan skips no stored key"); } lastk = k; } }
  get(K[0]); get(K[1]); for (int i = 0; i < pre; i++) get(16 * (i + 1));
  for (int i = 0; i < g_nop; i++) { sx_observe("ok", g_op[i].ok); sx_observe("out", g_op[i].ok ? g_op[i].out : 0); }
  CHECK(sxh_linearizable(), "history is linearizable"); u64 out[8]; u64 n = t->scan(Key(0), 8, out); CHECK(n >= 1, "final scan works"); 
  sx_end();
}
