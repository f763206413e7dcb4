// B-link tree and its latches under every interleaving with at most PRE preemptions.  MODE 0 insert|insert 1 insert|search 2 insert|update 3 update|search 4 three inserts; NCAP node capacity.
#include "conc.h"
#include "BLinkTree/b_link_tree.h"
#if STDLATCH
typedef StandardSharedMutex L;
#else
typedef RSpinSharedLatch L;
#endif
#if LATCH
static L *l; static int data, readers, writers, maxr, done[4]; 
extern "C" { NOIN void sxh_in(int w) { if (w) { CHECK(writers == 0 && readers == 0, "a writer is alone inside"); writers++; } else { CHECK(writers == 0, "no reader enters beside a writer"); readers++; } } NOIN void sxh_out(int w) { if (w) writers--; else readers--; } }
static volatile u64 vdata; static u64 add, d0;
static void writer(void *) { for (int i = 0; i < REP; i++) { l->latch_exclusive(); sxh_in(1); u64 d = vdata; vdata = d ^ add; vdata = d + add; sxh_out(1); l->unlatch_exclusive(); } }
static void reader(void *) { for (int i = 0; i < REP; i++) { l->latch_shared(); sxh_in(0); u64 a = vdata, b = vdata; CHECK(a == b, "a reader sees no write"); u64 x = a - d0; bool okv = false; for (int j = 0; j <= NW * REP; j++) okv |= x == add * j; CHECK(okv, "a reader sees only finished writes"); sxh_out(0); l->unlatch_shared(); } }
int main() {
  l = new L; int nw = NW; d0 = sx_u64("d0"); add = sx_u64("add"); vdata = d0; for (int i = 0; i < NTH; i++) sx_spawn(i < nw ? writer : reader, 0);
  sx_run(PRE); CHECK(vdata == d0 + add * (nw * REP), "no write is lost"); l->latch_exclusive(); l->unlatch_exclusive(); l->latch_shared(); l->latch_shared(); l->unlatch_shared(); l->unlatch_shared(); sx_observe("d", vdata); sx_end();
}
#else
#ifndef WHATN
#define WHATLO 0
#define WHATN 1
#endif
static BLinkTree<u64, u64, L> *t; static u64 K[3];
static void ins(u64 k, u64 v) { int i = sxh_begin(OP_ADD, k, v); bool f = t->Insert(k, v); sxh_end(i, f, 0); }
static void upd(u64 k, u64 v) { int i = sxh_begin(OP_UPD, k, v); bool f = t->Update(k, v); sxh_end(i, f, 0); }
static void get(u64 k) { u64 r = 0; int i = sxh_begin(OP_GET, k, 0); bool f = t->Search(k, r); sxh_end(i, f, r); }
static void i0(void *) { ins(K[0], 1); } static void i1(void *) { ins(K[1], 2); } static void i2(void *) { ins(K[1], 3); }
static void g1(void *) { get(K[1]); get(K[1]); } static void u1(void *) { upd(K[1], 4); } static void u0(void *) { upd(K[0], 5); }
static int npre; static u64 base, ordr; static void many(void *) { for (int i = 0; i < 3; i++) ins(base + (ordr ? 3 - i : i + 1), 10 + i); }
static void look(void *) { u64 k = K[0]; int what = WHATLO + sx_choice("what", WHATN); if (what == 0) get(k); else if (what == 1) upd(k, 6);
  else { std::vector<std::pair<u64, u64>> kv; u64 hi = sx_u64("hi"); bool fixed = sx_choice("fixed", 2); if (fixed) t->ScanFixed(k, 3, kv); else t->ScanRange(k, hi, kv);
    for (size_t i = 0; i < kv.size(); i++) { CHECK(kv[i].first >= k, "scan starts at its first key"); if (!fixed) CHECK(kv[i].first < hi, "scan ends before its last key"); if (i) CHECK(kv[i - 1].first < kv[i].first, "scan is in key order"); bool known = kv[i].first > base && kv[i].first <= base + 3; for (int j = 0; j < npre; j++) known |= kv[i].first == (u64)16 * (j + 1) && kv[i].second == (u64)1000 + j; CHECK(known, "scan yields stored pairs"); }
    if (fixed) CHECK(kv.size() <= 3, "no more than asked for"); u64 last = kv.empty() ? 0 : kv.back().first;
    for (int j = 0; j < npre; j++) { u64 q = 16 * (j + 1); bool in = q >= k && (fixed ? (kv.size() < 3 || q <= last) : q < hi), got = false; for (auto &p : kv) got |= p.first == q; if (in) CHECK(got, "scan misses no key that was there all along"); } } }
int main() {
  double thr = NCAP < 4 ? 1.0 : 0.75; t = new BLinkTree<u64, u64, L>(NCAP, NCAP, thr, 0.25, thr, 0.25);
  static const int sizes[] = SIZES; int pre = sizes[sx_choice("pre", sizeof sizes / sizeof *sizes)];
  for (int i = 0; i < pre; i++) { u64 k = 16 * (i + 1); t->Insert(k, 1000 + i); sxh_init(k, 1000 + i); }
  K[0] = sx_u64("k0"); K[1] = MODE == 1 || MODE == 3 ? K[0] : sx_u64("k1");
#ifdef KMAX
  sx_assume(K[0] <= KMAX && K[1] <= KMAX);
#endif
#if MODE == 5
  npre = pre; base = 16 * (BASELO + sx_choice("base", pre + 1 - BASELO)); ordr = DESC == 2 ? sx_choice("desc", 2) : DESC; sx_spawn(many, 0); sx_spawn(look, 0); sx_run(PRE);
  for (int i = 0; i < pre; i++) get(16 * (i + 1)); for (int i = 0; i < 3; i++) get(base + 1 + i); get(K[0]);
  for (int i = 0; i < g_nop; i++) { sx_observe("ok", g_op[i].ok); sx_observe("out", g_op[i].ok ? g_op[i].out : 0); } CHECK(sxh_linearizable(), "history is linearizable"); sx_end();
#endif
  sx_spawn(MODE == 3 ? u0 : i0, 0); sx_spawn(MODE == 0 ? i1 : MODE == 2 ? u1 : MODE == 4 ? i1 : g1, 0); if (MODE == 4) sx_spawn(i2, 0);
  sx_run(PRE);
  get(K[0]); get(K[1]); for (int i = 0; i < pre; i++) get(16 * (i + 1));
  for (int i = 0; i < g_nop; i++) { sx_observe("ok", g_op[i].ok); sx_observe("out", g_op[i].ok ? g_op[i].out : 0); }
  CHECK(sxh_linearizable(), "history is linearizable"); std::vector<std::pair<u64, u64>> kv; t->ScanLeaf(kv); CHECK(kv.size() >= (size_t)pre && kv.size() <= (size_t)pre + 2, "no key is lost or duplicated"); for (size_t i = 1; i < kv.size(); i++) CHECK(kv[i - 1].first < kv[i].first, "leaves stay in key order"); u64 x; CHECK(t->Insert(K[0], 9) == false || MODE == 3, "an inserted key is present");
  sx_end();
}
#endif
