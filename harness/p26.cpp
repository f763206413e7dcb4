// Height-optimised trie under every interleaving with at most PRE preemptions.
// MODE 0: programs of operations (PROGS: i insert, u upsert, g lookup, b walk from a key; the digits and letters after it are the keys to choose from, ? any of 256 keys) on a trie of the first PRE keys of a shape.
// MODE 1: epoch reclamation on its own: one reader, one thread that retires, one that only passes through.
#include "conc.h"
#include <string.h>
#include <algorithm>
#include <byteswap.h>
#include <immintrin.h>
#include <string>
#include <vector>
#include "HOT/hot.h"
#define NODE(M, P) template struct hot::rowex::HOTRowexNode<hot::commons::M, P>;
NODE(SingleMaskPartialKeyMapping, uint8_t) NODE(SingleMaskPartialKeyMapping, uint16_t) NODE(SingleMaskPartialKeyMapping, uint32_t) NODE(MultiMaskPartialKeyMapping<1u>, uint8_t) NODE(MultiMaskPartialKeyMapping<1u>, uint16_t) NODE(MultiMaskPartialKeyMapping<1u>, uint32_t) NODE(MultiMaskPartialKeyMapping<2u>, uint16_t) NODE(MultiMaskPartialKeyMapping<4u>, uint32_t)
struct Rec { u64 k, v; }; template <class P> struct Ex { typedef u64 KeyType; u64 operator()(const Rec *r) const { return r->k; } };
typedef hot::rowex::HOTRowex<Rec *, Ex> T; static T *t; typedef hot::rowex::EpochBasedMemoryReclamationStrategy EP;
static int g_hurry;
static void hurry() { if (g_hurry) EP::getInstance()->mThreadSpecificInformations.local().mThreadWantsToAdvance = true; }   // as after 64 replaced nodes
#if MODE == 0
// A scenario: n keys of a shape are there; extra keys; the operations of up to three threads; how many preemptions; whether every section wants the epoch to advance.
struct Scen { int n, shape; u64 extra[4]; const char *progs[3][5]; int pre, hurry; };
static const Scen scens[] = {SCENS}; enum { NS = sizeof scens / sizeof *scens, MAXN = 80 };
static const Scen *sc = scens; static u64 pre[MAXN], plan[3][5]; static int NP, NE, NTH;
static u64 shapeKey(u64 i) { switch (sc->shape) { case 0: return 1ull << i; case 1: return 8 * (i + 1); case 2: return i < 32 ? 1ull << (i + 20) : (1ull << 51) + (1ull << (i - 32)); case 3: return (i + 1) << 32 | (i & 1); default: return 10 * (i + 1); } }   // a chain of bits, a range, two chains, 32-bit pieces, tens
static void doI(u64 k, u64 v) { int h = sxh_begin(OP_ADD, k, v); hurry(); bool f = t->insert(new Rec{k, v}); sxh_end(h, f, 0); }
static void doU(u64 k, u64 v) { int h = sxh_begin(OP_XCHG, k, v); hurry(); auto r = t->upsert(new Rec{k, v}); sxh_end(h, r.mIsValid, r.mIsValid ? r.mValue->v : 0); }
static void doG(u64 k) { int h = sxh_begin(OP_GET, k, 0); hurry(); auto r = t->lookup(k); CHECK(!r.mIsValid || r.mValue->k == k, "lookup returns the record of that key"); sxh_end(h, r.mIsValid, r.mIsValid ? r.mValue->v : 0); }
struct Seen { u64 k, v; }; static Seen g_seen[3][80]; static int g_n[3]; static u64 g_from[3]; static int g_ns;
static void doB(u64 k) { int j = g_ns++, n = 0; g_from[j] = k; hurry(); { for (auto it = k ? t->lower_bound(k) : t->begin(); it != t->end(); ++it) { CHECK(n < 80, "a walk ends"); Rec *r = *it; g_seen[j][n].k = r->k; g_seen[j][n].v = r->v; n++; } } g_n[j] = n; }
static void run(int th) { for (int j = 0; j < 5 && sc->progs[th][j]; j++) { u64 k = plan[th][j], v = 1 + th * 8 + j; switch (sc->progs[th][j][0]) { case 'i': doI(k, v); break; case 'u': doU(k, v); break; case 'g': doG(k); break; default: doB(k); } } }
static void th0(void *) { run(0); } static void th1(void *) { run(1); } static void th2(void *) { run(2); }
static u64 keyOf(char c) { if (c == '.') return 0; if (c == '?') return 1 + sx_u8("key byte");   // any key of 256
  if (c >= '0' && c <= '9') return sc->extra[c - '0']; return c >= 'a' ? pre[26 + c - 'a'] : pre[c - 'A']; }
// A walk goes in key order, each key once, yields only records that were stored, and misses none that was there all along.
static void checkWalk(int j) {
  for (int i = 0; i < g_n[j]; i++) { Seen s = g_seen[j][i]; CHECK(s.k >= g_from[j], "a walk starts no earlier than asked"); if (i) CHECK(g_seen[j][i - 1].k < s.k, "a walk goes in key order, each key once");
    bool known = false; for (int q = 0; q < g_in; q++) known |= g_ik[q] == s.k && g_iv[q] == s.v; for (int q = 0; q < g_nop; q++) known |= (g_op[q].kind == OP_ADD || g_op[q].kind == OP_XCHG) && g_op[q].k == s.k && g_op[q].v == s.v; CHECK(known, "a walk yields only what was stored"); }
  for (int q = 0; q < g_in; q++) { if (g_ik[q] < g_from[j]) continue; bool got = false; for (int i = 0; i < g_n[j]; i++) got |= g_seen[j][i].k == g_ik[q]; CHECK(got, "a walk misses no key that was there before it"); }
}
int main() {
  unsigned si = sx_choice("scenario", NS); sc = scens + si; static void *volatile pad; if (si) pad = malloc(si << 18);   // blocks of different scenarios lie apart, so that their conflicts do not mix
  g_hurry = sc->hurry; NP = sc->n; while (NE < 4 && sc->extra[NE]) NE++; while (NTH < 3 && sc->progs[NTH][0]) NTH++;
  t = new T; for (int i = 0; i < NP; i++) { pre[i] = shapeKey(i); t->insert(new Rec{pre[i], 1000u + i}); sxh_init(pre[i], 1000 + i); }
  for (int th = 0; th < NTH; th++) for (int j = 0; j < 5 && sc->progs[th][j]; j++) { const char *p = sc->progs[th][j] + 1; int n = strlen(p); plan[th][j] = keyOf(p[sx_choice("key", n)]); }
  sx_spawn(th0, 0); if (NTH > 1) sx_spawn(th1, 0); if (NTH > 2) sx_spawn(th2, 0); sx_run(sc->pre);
  for (int i = 0; i < g_nop; i++) { sx_observe("ok", g_op[i].ok); sx_observe("out", g_op[i].out); }
  for (int j = 0; j < g_ns; j++) checkWalk(j);
  // Afterwards: keys no operation named are untouched, the others explain the history, and a walk finds exactly what lookups find.
  int held = 0; for (int i = 0; i < NP + NE; i++) { u64 k = i < NP ? pre[i] : sc->extra[i - NP]; if (!k) continue; bool named = i >= NP; for (int th = 0; th < NTH; th++) for (int j = 0; j < 5; j++) named |= sc->progs[th][j] && plan[th][j] == k;
    if (named) { doG(k); held += g_op[g_nop - 1].ok; } else { auto r = t->lookup(k); CHECK(r.mIsValid && r.mValue->k == k && r.mValue->v == 1000u + i, "a key nobody wrote to keeps its record"); held++; } }
  for (int th = 0; th < NTH; th++) for (int j = 0; j < 5 && sc->progs[th][j]; j++) { if (sc->progs[th][j][1] != '?') continue; u64 k = plan[th][j]; bool done = false; for (int i = 0; i < NP + NE; i++) done |= k == (i < NP ? pre[i] : sc->extra[i - NP]); for (int a = 0; a <= th; a++) for (int b = 0; b < (a < th ? 5 : j) && sc->progs[a][b]; b++) done |= sc->progs[a][b][1] == '?' && plan[a][b] == k; if (!done) { doG(k); held += g_op[g_nop - 1].ok; } }
  CHECK(sxh_linearizable(), "history is linearizable");
  { u64 last = 0; int n = 0; for (auto it = t->begin(); it != t->end(); ++it) { u64 k = (*it)->k; CHECK(n < 80 && (!n || last < k), "the trie is in order"); last = k; n++; auto r = t->lookup(k); CHECK(r.mIsValid && r.mValue == *it, "a walk yields what a lookup yields"); } CHECK(n == held, "the trie holds exactly the stored keys"); }
  sx_end();
}
#else
using hot::rowex::HOTRowexChildPointer; using hot::rowex::HOTRowexNode;
static HOTRowexChildPointer shared; static HOTRowexChildPointer *cell = &shared;
static HOTRowexChildPointer fresh() { static u64 a[2]; return hot::commons::createTwoEntriesNode<HOTRowexChildPointer, HOTRowexNode>(hot::commons::BiNode<HOTRowexChildPointer>{3, 1, HOTRowexChildPointer((intptr_t)a), HOTRowexChildPointer((intptr_t)a)})->toChildPointer(); }
// FINE: the sections of the retiring thread that other threads may interrupt; the others run as one step, with a point to switch before them.
static volatile unsigned long g_touch;
static void step(EP *e, int coarse) { if (coarse) { g_touch += e->mCurrentEpoch.load(); sx_nosched(1); } }
static void reader(void *) { EP *e = EP::getInstance(); for (int i = 0; i < NR; i++) { hurry(); e->enterCriticalSection(); HOTRowexChildPointer p = *cell; unsigned h = p.getNode()->mHeight; CHECK(h == 1, "a node in use keeps its contents"); e->leaveCriticialSection(); } }
static void writer(void *) { EP *e = EP::getInstance(); for (int i = 0; i < NW; i++) { int c = !(FINE >> i & 1); step(e, c); hurry(); e->enterCriticalSection(); if (WMASK >> i & 1) { HOTRowexChildPointer o = *cell; *cell = fresh(); e->scheduleForDeletion(o); } e->leaveCriticialSection(); if (c) sx_nosched(-1); } }
static void passer(void *) { EP *e = EP::getInstance(); for (int i = 0; i < NC; i++) { int c = !FINEP; step(e, c); hurry(); e->enterCriticalSection(); e->leaveCriticialSection(); if (c) sx_nosched(-1); } }
int main() { g_hurry = 1; shared = fresh(); EP *e = EP::getInstance(); (void)e; sx_spawn(reader, 0); sx_spawn(writer, 0); if (NC) sx_spawn(passer, 0); sx_run(PRE); CHECK(cell->getNode()->mHeight == 1, "the current node is intact"); sx_observe("epoch", e->mCurrentEpoch.load()); sx_end(); }
#endif
