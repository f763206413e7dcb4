// Google B-tree map and multimap as ordered containers.  MULTI, TNS (target node size), MODE.
#include "tagmap.h"
#include <string>
#include "GoogleBTree/btree_map.h"
#ifndef NPRE
#define NPRE 0
#endif
#ifndef EM
#define EM 0
#endif
#ifndef Q
#define Q 1
#endif
#ifndef NPREMIN
#define NPREMIN 1
#endif
#ifndef NSYM
#define NSYM 3
#endif
#if STRKEY
typedef std::string Key; static Key mk(u64 k) { char b[2] = {(char)(k >> 8), (char)k}; return std::string(b, 2); } static u64 un(const Key &k) { return (u64)(u8)k[0] << 8 | (u8)k[1]; } static u64 symKey(const char *n) { return sx_u16(n); }
#else
typedef u64 Key; static Key mk(u64 k) { return k; } static u64 un(Key k) { return k; } static u64 symKey(const char *n) { return sx_u64(n); }
#endif
#if MULTI
typedef btree::btree_multimap<Key, u64, std::less<Key>, std::allocator<std::pair<const Key, u64>>, TNS> M;
#else
typedef btree::btree_map<Key, u64, std::less<Key>, std::allocator<std::pair<const Key, u64>>, TNS> M;
#endif
typedef M::iterator It;
static Tags<NPRE + 24> T; static M *m; static bool hinted; static u64 lastk;
static void checkPos(It it, u64 rank, const char *) { u64 r = 0; for (It b = m->begin(); b != it; ++b) { CHECK(!(b == m->end()), "position lies in the container"); r++; } CHECK(r == rank, "returned position is the right element"); }
static void insert(u64 k) {
  bool had = T.has(k); int t = T.n;
#if MULTI
  u64 r = T.countLE(k); It it = m->insert(std::make_pair(mk(k), (u64)t)); T.add(k); CHECK(it->second == (u64)t, "insert returns the new element"); checkPos(it, r, "");
#else
  std::pair<It, bool> r = m->insert(std::make_pair(mk(k), (u64)t)); T.add(k, !had); CHECK(r.second == !had, "insert reports whether the key was new"); CHECK(un(r.first->first) == k, "insert returns the element with the key"); CHECK((r.first->second == (u64)t) == !had, "a present element is left alone");
#endif
}
static void insertHint(u64 k) { // the hint is any position
  int c = sx_choice("hint", 4); It h = c == 0 ? m->begin() : c == 1 ? m->end() : c == 2 ? m->lower_bound(mk(k)) : m->upper_bound(mk(symKey("hintkey"))); bool had = T.has(k); int t = T.n; (void)had; hinted = true;
  It it = m->insert(h, std::make_pair(mk(k), (u64)t));
#if MULTI
  T.add(k); CHECK(it->second == (u64)t, "hinted insert returns the new element");
#else
  T.add(k, !had); CHECK((it->second == (u64)t) == !had, "hinted insert stores only a new key");
#endif
  CHECK(un(it->first) == k, "hinted insert returns the element with the key");
}
static void eraseKey(u64 k) { u64 c = T.count(k); int n = m->erase(mk(k)); CHECK((u64)n == c, "erase returns the number of removed elements"); T.eraseKey(k); }
static void erasePos(u64 k) { // erase at the position lower_bound gives
  It it = m->lower_bound(mk(k)); if (it == m->end()) return; u64 v = it->second; u64 r = 0; for (It b = m->begin(); b != it; ++b) r++; It n = m->erase(it); T.live[v] = false; checkPos(n, r, "");
}
static void eraseRange(u64 a, u64 b) { It x = m->lower_bound(mk(a)), y = m->upper_bound(mk(b)); m->erase(x, y); for (int i = 0; i < T.n; i++) T.live[i] = T.live[i] & !((T.K[i] >= a) & (T.K[i] <= b)); }
static void op() {
  int o = sx_choice("op", OPS); u64 k = symKey("k"); lastk = k;
  switch (o) { case 0: insert(k); break; case 1: eraseKey(k); break; case 2: erasePos(k); break; case 3: insertHint(k); break;
    case 4: { u64 b = symKey("b"); sx_assume(k <= b); eraseRange(k, b); break; }
#if !MULTI
    case 5: { bool had = T.has(k); int t = T.n; (*m)[mk(k)] = t; for (int i = 0; i < t; i++) T.live[i] = T.live[i] & (T.K[i] != k); T.add(k); (void)had; break; }
#endif
  }
}
static void check(M &x) {
  x.verify(); u64 n = 0, last = 0, lastv = 0; static bool seen[NPRE + 24]; for (auto &s : seen) s = false; u64 order[NPRE + 24];
  for (It it = x.begin(); it != x.end(); ++it) { u64 v = it->second; CHECK(v < (u64)T.n, "iteration yields stored elements"); CHECK(un(it->first) == T.K[v] && T.live[v], "iteration yields live elements with their keys"); CHECK(!seen[v], "iteration yields every element once"); seen[v] = true; u64 k = T.K[v];
    if (n) { if (MULTI) { CHECK(k >= last, "iteration is in key order"); if (!hinted) CHECK((k > last) | (v > lastv), "equal keys keep insertion order"); } else CHECK(k > last, "iteration is in key order"); } last = k; lastv = v; order[n++] = v; }
  CHECK(n == T.size(), "iteration yields every live element"); CHECK(x.size() == n, "size is exact"); CHECK(x.empty() == (n == 0), "empty is exact");
  u64 j = n; for (M::reverse_iterator it = x.rbegin(); it != x.rend(); ++it) { CHECK(j > 0, "backwards iteration ends"); j--; CHECK(it->second == order[j], "backwards iteration is the reverse"); } CHECK(j == 0, "backwards iteration is complete");
  sx_observe("size", n);
}
static void query(u64 q) {
  int w = sx_choice("query", 3);
  if (w == 0) { It it = m->find(mk(q)); bool f = it != m->end(); CHECK(f == T.has(q), "find is truthful"); if (f) CHECK(un(it->first) == q, "find yields the key"); u64 c = m->count(mk(q)); CHECK(c == T.count(q), "count is exact"); sx_observe("found", f); }
  else { It it = w == 1 ? m->lower_bound(mk(q)) : m->upper_bound(mk(q)); checkPos(it, w == 1 ? T.countLess(q) : T.countLE(q), ""); auto e = m->equal_range(mk(q)); CHECK(e.first == m->lower_bound(mk(q)) && e.second == m->upper_bound(mk(q)), "equal_range spans lower to upper bound"); }
}
int main() {
  m = new M; int pre = NPRE ? NPREMIN + sx_choice("pre", NPRE - NPREMIN + 1) : 0;
  if (pre) { int ord = sx_choice("ord", 4), pat = sx_choice("pat", 5), e = pat ? 1 + sx_choice("erased", pat == 3 ? (pre / 2 ? pre / 2 : 1) : pre) : 0;
    if (EM && pat) sx_assume(e == 1 || e == pre / 2 || e == pre / 2 + 1 || e >= pre - 2);
    for (int i = 0; i < pre; i++) { u64 k = PK(perm4(ord, i, pre)); m->insert(std::make_pair(mk(k), (u64)T.n)); T.add(k); }
    for (int i = 0; i < pre; i++) if (erasePat(pat, i, pre, e)) eraseKey(PK(i)); }
  for (int i = 0; i < NSYM; i++) op();
#if COPY
  M c(*m); check(c); CHECK(c == *m, "a copy equals its source"); M d; d = c; insert(symKey("x")); check(d.size() == m->size() ? d : *m); std::swap(c, d); c.swap(*m); check(c); CHECK((c == d) == (c.size() == d.size()), "equality follows the contents"); c.clear(); CHECK(c.size() == 0 && c.begin() == c.end(), "clear empties"); d.verify(); 
#else
  check(*m); if (Q) query(Q == 1 ? symKey("q") : lastk);
#endif
  sx_cover("done"); sx_end();
}
