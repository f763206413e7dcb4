// STX B+-tree set, multiset, map, multimap as ordered containers.  KIND 0 map 1 multimap 2 set 3 multiset; SLOTS, BIN (binary search in nodes).
#include "tagmap.h"
#include <vector>
#include <tlx/container/btree_map.hpp>
#include <tlx/container/btree_multimap.hpp>
#include <tlx/container/btree_set.hpp>
#include <tlx/container/btree_multiset.hpp>
#include "tlx_die.h"
#ifndef NPRE
#define NPRE 0
#endif
#ifndef NPREMIN
#define NPREMIN 1
#endif
#ifndef Q
#define Q 2
#endif
#define MULTI (KIND & 1)
#define SET (KIND >> 1)
struct KT { u64 k, tag; };
struct KTLess { bool operator()(const KT &a, const KT &b) const { return a.k < b.k; } };
template <class A, class B> struct Tr { static const bool self_verify = false, debug = false; static const int leaf_slots = SLOTS, inner_slots = SLOTS; static const size_t binsearch_threshold = BIN ? 0 : 4096; };
#if SET
typedef KT Key; typedef KTLess Cmp; typedef Key Value; static Value mkv(u64 k, u64 t) { return KT{k, t}; } static Key mk(u64 k) { return KT{k, 99999}; } static u64 un(const Value &v) { return v.k; } static u64 tg(const Value &v) { return v.tag; }
#if MULTI
typedef tlx::btree_multiset<Key, Cmp, Tr<Key, Key>> M;
#else
typedef tlx::btree_set<Key, Cmp, Tr<Key, Key>> M;
#endif
#else
typedef u64 Key; typedef std::less<u64> Cmp; typedef std::pair<u64, u64> Value; static Value mkv(u64 k, u64 t) { return Value(k, t); } static Key mk(u64 k) { return k; } template <class P> static u64 un(const P &v) { return v.first; } template <class P> static u64 tg(const P &v) { return v.second; }
#if MULTI
typedef tlx::btree_multimap<Key, u64, Cmp, Tr<Key, u64>> M;
#else
typedef tlx::btree_map<Key, u64, Cmp, Tr<Key, u64>> M;
#endif
#endif
typedef M::iterator It;
static Tags<NPRE + 40> T; static M *m; static u64 lastk; static bool unordered;
static void checkPos(It it, u64 rank) { u64 r = 0; for (It b = m->begin(); b != it; ++b) { CHECK(!(b == m->end()), "position lies in the container"); r++; } CHECK(r == rank, "returned position is the right element"); }
static void inserted(It it, bool ok, u64 k, bool had, int t) { T.add(k, MULTI || !had); if (!MULTI) CHECK(ok == !had, "insert reports whether the key was new"); CHECK(un(*it) == k, "insert returns an element with the key"); CHECK((tg(*it) == (u64)t) == (MULTI || !had), "insert stores exactly a new element"); }
static void insert(u64 k) {
  bool had = T.has(k); int t = T.n;
#if MULTI
  It it = m->insert(mkv(k, t)); inserted(it, true, k, had, t);
#else
  std::pair<It, bool> r = m->insert(mkv(k, t)); inserted(r.first, r.second, k, had, t);
#endif
}
static void insertHint(u64 k) { bool had = T.has(k); int t = T.n; It h = sx_choice("hint", 2) ? m->end() : m->begin(); unordered = true; It it = m->insert(h, mkv(k, t)); inserted(it, !had, k, had, t); }
static void eraseKey(u64 k) { u64 c = T.count(k); u64 n = m->erase(mk(k)); CHECK(n == c, "erase returns the number of removed elements"); T.eraseKey(k); }
static void eraseOne(u64 k) { u64 c = T.count(k); u64 first = 0; It it = m->lower_bound(mk(k)); u64 tag = it == m->end() ? 99999 : tg(*it); bool r = m->erase_one(mk(k)); CHECK(r == (c != 0), "erase_one is truthful"); if (!r) return; (void)first;
  if (MULTI) { unordered = true; u64 left = 0; static bool seen[NPRE + 40]; for (auto &s : seen) s = false; for (It b = m->begin(); b != m->end(); ++b) seen[tg(*b)] = true; for (int i = 0; i < T.n; i++) if (T.live[i] && !seen[i]) { CHECK(T.K[i] == k, "erase_one removes an element with the key"); T.live[i] = false; left++; } CHECK(left == 1, "erase_one removes one element"); } else T.live[tag] = false; }
static void erasePos(u64 k) { It it = m->lower_bound(mk(k)); if (it == m->end()) return; u64 v = tg(*it); m->erase(it); T.live[v] = false; }
static void op() {
  int o = sx_choice("op", OPS); u64 k = sx_u64("k"); lastk = k;
  switch (o) { case 0: insert(k); break; case 1: eraseKey(k); break; case 2: erasePos(k); break; case 3: eraseOne(k); break; case 4: insertHint(k); break;
#if KIND == 0
    case 5: { int t = T.n; (*m)[k] = t; for (int i = 0; i < t; i++) T.live[i] = T.live[i] & (T.K[i] != k); T.add(k); break; }
#endif
  }
}
static void check(M &x) {
  x.verify(); u64 n = 0, last = 0, lastv = 0; static bool seen[NPRE + 40]; for (auto &s : seen) s = false; static u64 order[NPRE + 40];
  for (It it = x.begin(); it != x.end(); ++it) { u64 v = tg(*it); CHECK(v < (u64)T.n, "iteration yields stored elements"); CHECK((un(*it) == T.K[v]) & T.live[v], "iteration yields live elements with their keys"); CHECK(!seen[v], "iteration yields every element once"); seen[v] = true; u64 k = T.K[v];
    if (n) { if (MULTI) CHECK(k >= last, "iteration is in key order"); else CHECK(k > last, "iteration is in key order"); } last = k; lastv = v; order[n++] = v; }
  CHECK(n == T.size(), "iteration yields every live element"); CHECK(x.size() == n, "size is exact"); CHECK(x.empty() == (n == 0), "empty is exact");
  u64 j = n; for (M::reverse_iterator it = x.rbegin(); it != x.rend(); ++it) { CHECK(j > 0, "backwards iteration ends"); j--; CHECK(tg(*it) == order[j], "backwards iteration is the reverse"); } CHECK(j == 0, "backwards iteration is complete");
  j = n; for (It it = x.end(); j > 0; ) { --it; j--; CHECK(tg(*it) == order[j], "stepping back is the reverse"); }
  j = 0; const M &cx = x; for (M::const_iterator it = cx.begin(); it != cx.end(); it++) { CHECK(j < n && tg(*it) == order[j], "const iteration agrees"); j++; }
  sx_observe("size", n);
}
static void query(u64 q) {
  int w = sx_choice("query", 3);
  if (w == 0) { It it = m->find(mk(q)); bool f = it != m->end(); CHECK(f == T.has(q), "find is truthful"); if (f) CHECK(un(*it) == q, "find yields the key"); u64 c = m->count(mk(q)); CHECK(c == T.count(q), "count is exact"); CHECK(m->exists(mk(q)) == f, "exists agrees"); sx_observe("found", f); }
  else { It it = w == 1 ? m->lower_bound(mk(q)) : m->upper_bound(mk(q)); checkPos(it, w == 1 ? T.countLess(q) : T.countLE(q)); auto e = m->equal_range(mk(q)); CHECK(e.first == m->lower_bound(mk(q)) && e.second == m->upper_bound(mk(q)), "equal_range spans lower to upper bound"); }
}
int main() {
  m = new M; int pre = NPRE ? NPREMIN + sx_choice("pre", NPRE - NPREMIN + 1) : 0;
#if BULK
  if (pre) { std::vector<Value> v; for (int i = 0; i < pre; i++) { u64 k = PK(i); v.push_back(mkv(k, T.n)); T.add(k); } m->bulk_load(v.begin(), v.end()); }
#else
  if (pre) { int ord = sx_choice("ord", 4), pat = sx_choice("pat", 5), e = pat ? 1 + sx_choice("erased", pat == 3 ? (pre / 2 ? pre / 2 : 1) : pre) : 0;
#ifdef EM
    if (pat) sx_assume(e == 1 || e == pre / 2 || e == pre / 2 + 1 || e >= pre - 2);
#endif
    for (int i = 0; i < pre; i++) { u64 k = PK(perm4(ord, i, pre)); m->insert(mkv(k, T.n)); T.add(k); }
    for (int i = 0; i < pre; i++) if (erasePat(pat, i, pre, e)) eraseKey(PK(i)); }
#endif
  for (int i = 0; i < NSYM; i++) op();
#if COPY
  M c(*m); check(c); CHECK(c == *m, "a copy equals its source"); CHECK(!(c < *m) && !(c != *m) && c <= *m, "a copy compares equal"); M d; d = c; check(d); u64 x = sx_u64("x"); u64 before = T.size(); c.verify(); c.insert(mkv(x, 7777)); check(d); check(*m); c.verify(); CHECK(c.size() == before + (MULTI || !T.has(x)), "insert into a copy"); CHECK((c == d) == (c.size() == d.size()), "equality follows the contents"); c.swap(d); check(c); M e2; e2.insert(mkv(x, 0)); e2 = c; check(e2); c.clear(); CHECK(c.size() == 0 && c.begin() == c.end(), "clear empties"); c.verify(); check(*m); 
#else
  check(*m); if (Q) query(Q == 1 ? sx_u64("q") : lastk);
#endif
  delete m; sx_cover("done"); sx_end();
}
