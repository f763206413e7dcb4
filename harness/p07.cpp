// B-link tree as an ordered map with scans, over the node capacities it accepts.
#include "tagmap.h"
#include "BLinkTree/b_link_tree.h"
#ifndef NPREMIN
#define NPREMIN 1
#endif
#ifndef NPRE
#define NPRE 0
#endif
static int g_held;
struct CL { // a latch that checks its own use: single-threaded code must never wait for itself nor leave a latch behind
  int w = 0, r = 0;
  void latch_shared() { CHECK(w == 0, "shared latch never waits for its own exclusive latch"); r++; g_held++; }
  void unlatch_shared() { CHECK(r > 0, "shared latch is released by a holder"); r--; g_held--; }
  void latch_exclusive() { CHECK(w == 0 && r == 0, "exclusive latch never waits for itself"); w = 1; g_held++; }
  void unlatch_exclusive() { CHECK(w == 1, "exclusive latch is released by its holder"); w = 0; g_held--; }
};
typedef BLinkTree<u64, u64, CL> M; typedef std::vector<std::pair<u64, u64>> KV;
static Tags<NPRE + 24> T; static M *m; static u64 lastk;
static void insert(u64 k) { bool had = T.has(k); bool r = m->Insert(k, T.n); CHECK(r == !had, "insert is refused exactly for a present key"); T.add(k, !had); CHECK(g_held == 0, "no latch is left held"); }
static void update(u64 k) { bool had = T.has(k); int t = T.n; bool r = m->Update(k, t); CHECK(r == had, "update is refused exactly for an absent key"); if (had) T.eraseKey(k); T.add(k, had); CHECK(g_held == 0, "no latch is left held"); }
static void search(u64 k) { u64 v = 99999, w = 99999; bool had = T.has(k); bool r = m->Search(k, v), r2 = m->SearchUnsafe(k, w); CHECK(r == had && r2 == had, "search is truthful"); CHECK(r ? v == w && v < (u64)T.n : v == 99999 && w == 99999, "search yields a stored value"); if (r) CHECK((T.K[v] == k) & T.live[v], "search yields the value of the key"); CHECK(g_held == 0, "no latch is left held"); sx_observe("found", r); }
static void stretch(const KV &kv, u64 lo, u64 n) { // kv = the n smallest entries with key >= lo
  CHECK(kv.size() == n, "scan yields the requested number of entries"); u64 last = 0; u64 r = T.countLess(lo);
  for (size_t i = 0; i < kv.size(); i++) { u64 v = kv[i].second; CHECK(v < (u64)T.n, "scan yields stored values"); CHECK((T.K[v] == kv[i].first) & T.live[v], "scan yields live entries with their keys"); CHECK((kv[i].first >= lo) & ((i == 0) | (kv[i].first > last)), "scan is in key order"); last = kv[i].first; CHECK(T.countLess(last) == r + i, "scan skips no entry"); }
}
static void op(int o) {
  u64 k = sx_u64("k"); lastk = k;
  switch (o) { case 0: insert(k); break; case 1: update(k); break; case 2: search(k); break;
    case 3: { int n = sx_choice("n", 5); n = n == 4 ? NPRE + 9 : n; KV kv; bool r = m->ScanFixed(k, n, kv); u64 c = T.size() - T.countLess(k); CHECK(r == (c != 0), "fixed scan reports whether any entry lies ahead"); stretch(kv, k, sel(c < (u64)n, c, n)); CHECK(g_held == 0, "no latch is left held"); break; }
    case 4: { u64 b = sx_u64("b"); sx_assume(k <= b); KV kv; bool r = m->ScanRange(k, b, kv); u64 c = T.size() - T.countLess(k); CHECK(r == (c != 0), "range scan reports whether any entry lies ahead"); stretch(kv, k, T.countLess(b) - T.countLess(k)); CHECK(g_held == 0, "no latch is left held"); break; } }
}
int main() {
  static const int sz[][2] = {{2, 2}, {3, 3}, {4, 4}, {5, 4}, {4, 7}, {8, 8}}; static const int caps[] = CAPS; int c = caps[sx_choice("cap", sizeof caps / sizeof *caps)]; double thr = c < 2 || c == 3 ? 1.0 : 0.75;
  m = new M(sz[c][0], sz[c][1], thr, 0.25, thr, 0.25);
  int pre = NPRE ? NPREMIN + sx_choice("pre", NPRE - NPREMIN + 1) : 0;
  if (pre) { int ord = sx_choice("ord", 4); for (int i = 0; i < pre; i++) insert(PK(perm4(ord, i, pre))); }
  for (int i = 0; i < NSYM; i++) op(sx_choice("op", OPS));
#if Q
  op(2 + sx_choice("query", 3));
#else
  search(lastk);
#endif
  KV all; m->ScanLeaf(all); stretch(all, 0, T.size()); sx_observe("size", all.size()); CHECK(m->GetTreeDepth() >= 1, "depth");
  delete m; sx_cover("done"); sx_end();
}
