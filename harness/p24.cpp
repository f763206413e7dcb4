// tlx containers and algorithms against plain models. MODE 0 heap, 1 addressable heap, 2 ring buffer, 3 LRU, 4 radix heap, 5 multiway merge, 6 splay, 7 simple vector, 8 networks, 9 string sorting, 10 partition and selection
#include "ref.h"
#include <string>
#include <vector>
#include <algorithm>
#include <string.h>
#include <stdlib.h>
static unsigned pick(const char *n, unsigned k) { return sx_choice(n, k); }
#define EQ(a, b, m) do { auto x_ = (a); auto y_ = (b); CHECK(x_ == y_, m); } while (0)
// A value that owns memory and counts itself, so that one destroyed twice, not at all or read after its end is noticed.
static int g_live;
struct El { int *p; El() : p((int *)malloc(4)) { *p = -1; g_live++; } El(int v) : p((int *)malloc(4)) { *p = v; g_live++; } El(const El &o) : p((int *)malloc(4)) { *p = *o.p; g_live++; } El(El &&o) : p(o.p) { o.p = (int *)malloc(4); *o.p = -2; g_live++; } El &operator=(const El &o) { *p = *o.p; return *this; } El &operator=(El &&o) { std::swap(p, o.p); return *this; } ~El() { free(p); p = nullptr; g_live--; } int v() const { return *p; } };
struct E { uint8_t k; uint8_t id; };
struct EL { bool operator()(const E &a, const E &b) const { return a.k < b.k; } };
#if MODE == 0
#include "tlx/container/d_ary_heap.hpp"
template <unsigned A> static void heap() {
  tlx::DAryHeap<E, A, EL> h; uint8_t key[PRE + NOPS]; bool in[PRE + NOPS] = {}; unsigned n = 0, sz = 0; std::vector<E> pre; for (unsigned i = 0; i < PRE; i++) { key[n] = i < PRESYM ? sx_u8("k") : (uint8_t)(i * 83 + 7); in[n] = true; pre.push_back({key[n], (uint8_t)n}); n++; sz++; }
  switch (pick("build", 4)) { case 0: for (auto &e : pre) h.push(e); break; case 1: h.build_heap(pre.begin(), pre.end()); break; case 2: h.build_heap(pre); break; default: h.push(E{0, 99}); h.build_heap(std::move(pre)); }
  for (unsigned o = 0; o < NOPS; o++) switch (pick("op", 6)) {
    case 0: { uint8_t k = sx_u8("k"); key[n] = k; in[n] = true; E e{k, (uint8_t)n}; if (pick("move", 2)) h.push(std::move(e)); else h.push(e); n++; sz++; break; }
    case 1: case 2: { if (!sz) { sx_end(); return; } E e = h.top(); bool ok = true; CHECK((e.id < n) && in[e.id] && key[e.id] == e.k, "the top is an element of the heap"); for (unsigned i = 0; i < n; i++) ok &= !in[i] | (e.k <= key[i]); CHECK(ok, "the top is a minimum"); if (pick("extract", 2)) { E x = h.extract_top(); CHECK((x.id == e.id) & (x.k == e.k), "extracting gives the top"); } else h.pop(); in[e.id] = false; sz--; break; }
    case 3: h.clear(); for (unsigned i = 0; i < n; i++) in[i] = false; sz = 0; break;
    case 4: h.update_all(); break;
    default: h.reserve(20); }
  EQ(h.size(), (size_t)sz, "size"); EQ(h.empty(), sz == 0, "empty"); CHECK(h.sanity_check(), "the structure's own check");
  uint8_t last = 0; for (unsigned left = sz; left; left--) { E e = h.extract_top(); CHECK((e.id < n) && in[e.id] && key[e.id] == e.k, "the elements come out once each"); CHECK(e.k >= last, "the elements come out in order"); in[e.id] = false; last = e.k; } CHECK(h.empty(), "empty at the end");
}
int main() { switch (pick("arity", 4)) { case 0: heap<1>(); break; case 1: heap<2>(); break; case 2: heap<3>(); break; default: heap<4>(); } sx_end(); }
#elif MODE == 1
#include "tlx/container/d_ary_addressable_int_heap.hpp"
static uint8_t prio[16]; struct PL { bool operator()(unsigned a, unsigned b) const { return prio[a] < prio[b]; } };
template <unsigned A> static void heap() {
  tlx::DAryAddressableIntHeap<unsigned, A, PL> h; bool in[16] = {}; unsigned sz = 0; auto build = [&] { std::vector<unsigned> v; unsigned m = pick("subset", 4); for (unsigned i = 0; i < N; i++) { in[i] = m == 0 || (m == 1 ? i % 2 : m == 2 ? i < 2 : i == N - 1); if (in[i]) v.push_back(i); } if (pick("reverse", 2)) std::reverse(v.begin(), v.end()); sz = v.size(); switch (pick("how", 3)) { case 0: h.build_heap(v.begin(), v.end()); break; case 1: h.build_heap(v); break; default: h.build_heap(std::move(v)); } };
  for (unsigned i = 0; i < N; i++) prio[i] = i < NSYM ? sx_u8("p") : (uint8_t)(i * 83 + 7);
  if (pick("built", 2)) build(); else for (unsigned i = 0; i < N; i += 1 + PICKY) { h.push(i); in[i] = true; sz++; }
  for (unsigned o = 0; o < NOPS; o++) switch (pick("op", 7)) {
    case 0: { unsigned x = pick("x", N + 1); if (in[x]) { sx_end(); return; } prio[x] = sx_u8("p"); h.push(x); in[x] = true; sz++; break; }
    case 1: { unsigned x = pick("x", N); if (!in[x]) { sx_end(); return; } h.remove(x); in[x] = false; sz--; break; }
    case 2: { unsigned x = pick("x", N + 1); prio[x] = sx_u8("p"); h.update(x); if (!in[x]) in[x] = true, sz++; break; }
    case 3: { if (!sz) { sx_end(); return; } unsigned t = h.top(); if (pick("extract", 2)) { unsigned e = h.extract_top(); EQ(e, t, "extracting gives the top"); } else h.pop(); CHECK(t <= N && in[t], "the top is an element"); bool ok = true; for (unsigned i = 0; i <= N; i++) ok &= !in[i] | (prio[t] <= prio[i]); CHECK(ok, "the top is a minimum"); in[t] = false; sz--; break; }
    case 4: for (unsigned i = 0; i < N; i++) prio[i] = i < NSYM ? sx_u8("q") : (uint8_t)(i * 57 + 31); h.update_all(); break;
    case 5: in[N] = false; build(); break;
    default: h.clear(); for (bool &b : in) b = false; sz = 0; }
  EQ(h.size(), (size_t)sz, "size"); for (unsigned i = 0; i <= N + 1; i++) EQ(h.contains(i), i <= N && in[i], "contains"); CHECK(h.sanity_check(), "the structure's own check");
  uint8_t last = 0; for (unsigned left = sz; left; left--) { unsigned t = h.extract_top(); CHECK(t <= N && in[t], "the elements come out once each"); CHECK(prio[t] >= last, "the elements come out in order"); last = prio[t]; in[t] = false; } CHECK(h.empty(), "empty at the end");
}
int main() { switch (pick("arity", 3)) { case 0: heap<2>(); break; case 1: heap<3>(); break; default: heap<4>(); } sx_end(); }
#elif MODE == 2
#include "tlx/container/ring_buffer.hpp"
typedef tlx::RingBuffer<El> R;
static void same(const R &r, const std::vector<int> &m) { EQ(r.size(), m.size(), "size"); EQ(r.empty(), m.empty(), "empty"); for (size_t i = 0; i < m.size(); i++) EQ(r[i].v(), m[i], "elements"); if (m.size()) { EQ(r.front().v(), m[0], "front"); EQ(r.back().v(), m.back(), "back"); std::vector<El> o; r.copy_to(&o); EQ(o.size(), m.size(), "copied out"); for (size_t i = 0; i < m.size(); i++) EQ(o[i].v(), m[i], "copied out"); } }
int main() {
  { static const unsigned cap[] = {1, 2, 3, 4}; unsigned mx = cap[pick("max", 4)]; R a(mx), b; std::vector<int> m; unsigned rot = pick("rotate", 5); for (unsigned i = 0; i < rot; i++) { a.push_back(El(0)); a.pop_front(); } unsigned f = pick("fill", mx + 1); for (unsigned i = 0; i < f; i++) { int v = (int)sx_u32("v"); a.push_back(El(v)); m.push_back(v); }
    for (unsigned o = 0; o < NOPS; o++) switch (pick("op", 11)) {
      case 0: case 1: { if (m.size() == a.max_size()) { sx_end(); return 0; } int v = (int)sx_u32("v"); unsigned w = pick("way", 3); bool fr = pick("front", 2); El e(v); if (fr) { if (w == 0) a.push_front(e); else if (w == 1) a.push_front(std::move(e)); else a.emplace_front(v); m.insert(m.begin(), v); } else { if (w == 0) a.push_back(e); else if (w == 1) a.push_back(std::move(e)); else a.emplace_back(v); m.push_back(v); } break; }
      case 2: if (m.empty()) { sx_end(); return 0; } a.pop_front(); m.erase(m.begin()); break;
      case 3: if (m.empty()) { sx_end(); return 0; } a.pop_back(); m.pop_back(); break;
      case 4: a.clear(); m.clear(); break;
      case 5: { R c(a); same(c, m); same(a, m); a = c; break; }
      case 6: { R c(std::move(a)); same(c, m); a = std::move(c); break; }
      case 7: { R c(1 + pick("other", 5)); c.push_back(El(9)); c = a; same(c, m); c.clear(); c = std::move(a); same(c, m); a = c; break; }
      case 8: { b = a; same(b, m); break; }
      case 9: { std::vector<El> out; a.move_to(&out); EQ(out.size(), m.size(), "moved out"); for (size_t i = 0; i < m.size(); i++) EQ(out[i].v(), m[i], "moved out"); m.clear(); break; }
      default: { unsigned s = 1 + pick("again", 5); a.deallocate(); m.clear(); if (pick("assign", 2)) { R c(mx); c.push_back(El(3)); a = c; m.push_back(3); } else a.allocate(s); break; } }
    same(a, m); EQ(g_live, (int)(m.size() + b.size()), "every element is destroyed once"); }
  EQ(g_live, 0, "nothing is left"); sx_end();
}
#elif MODE == 3
#include "tlx/container/lru_cache.hpp"
int main() {
  bool map = pick("map", 2); tlx::LruCacheSet<int> s; tlx::LruCacheMap<int, uint32_t> t; std::vector<std::pair<int, uint32_t>> m; static const int ks[] = {0, 1, -1, 13, 14}; unsigned fill = pick("fill", 5); auto find = [&](int k) { for (size_t i = 0; i < m.size(); i++) if (m[i].first == k) return (int)i; return -1; }; auto front = [&](int i) { auto x = m[i]; m.erase(m.begin() + i); m.insert(m.begin(), x); };
  auto put = [&](int k) { uint32_t v = sx_u32("v"); int i = find(k); if (i >= 0) m.erase(m.begin() + i); m.insert(m.begin(), {k, v}); if (map) t.put(k, v); else s.put(k); };
  for (unsigned i = 0; i < fill; i++) put(ks[i]);
  for (unsigned o = 0; o < NOPS; o++) { unsigned op = pick("op", 9); if (op == 6) { if (map) t.clear(); else s.clear(); m.clear(); continue; } if (op == 7) { if (m.empty()) { sx_end(); return 0; } if (map) { auto p = t.pop(); CHECK((p.first == m.back().first) & (p.second == m.back().second), "the oldest leaves"); } else EQ(s.pop(), m.back().first, "the oldest leaves"); m.pop_back(); continue; }
    int k = ks[pick("key", 5)], i = find(k); switch (op) {
    case 0: put(k); break;
    case 1: case 2: { bool er = op == 2; if (i < 0) { sx_allow_throw(1); if (er) { if (map) t.erase(k); else s.erase(k); } else if (map) t.touch(k); else s.touch(k); CHECK(false, "an absent key throws"); } if (er) { if (map) t.erase(k); else s.erase(k); m.erase(m.begin() + i); } else { if (map) t.touch(k); else s.touch(k); front(i); } break; }
    case 3: EQ(map ? t.touch_if_exists(k) : s.touch_if_exists(k), i >= 0, "touched"); if (i >= 0) front(i); break;
    case 4: EQ(map ? t.erase_if_exists(k) : s.erase_if_exists(k), i >= 0, "erased"); if (i >= 0) m.erase(m.begin() + i); break;
    case 5: EQ(map ? t.exists(k) : s.exists(k), i >= 0, "exists"); break;
    default: if (!map) { sx_end(); return 0; } { bool tc = pick("touching", 2); if (i < 0) { sx_allow_throw(1); if (tc) t.get_touch(k); else t.get(k); CHECK(false, "an absent key throws"); } EQ(tc ? t.get_touch(k) : t.get(k), m[i].second, "value"); if (tc) front(i); } } }
  EQ(map ? t.size() : s.size(), m.size(), "size"); while (!m.empty()) { if (map) { auto p = t.pop(); CHECK((p.first == m.back().first) & (p.second == m.back().second), "the order of use"); } else EQ(s.pop(), m.back().first, "the order of use"); m.pop_back(); } EQ(map ? t.size() : s.size(), (size_t)0, "empty"); sx_end();
}
#elif MODE == 4
#include "tlx/container/radix_heap.hpp"
static unsigned g_sym;
// keys: NSYM of them arbitrary (a byte at either end of the word), the others from the values around the borders of buckets
template <class K> static K key(const char *n, K lo) { typedef std::make_unsigned_t<K> U; const U top = (U)1 << (8 * sizeof(K) - 1); K k; if (g_sym < NSYM) { g_sym++; k = (K)((U)sx_u8(n) << (pick("at", 2) ? 8 * sizeof(K) - 8 : 0)); } else { const U v[] = {0, 1, 7, 8, 63, 64, (U)(top - 1), top, (U)(top + 9), (U)~(U)0}; k = (K)(v[pick(n, 10)] ^ (std::is_signed<K>::value ? top : 0)); } sx_assume(k >= lo); return k; }
template <class K, unsigned RX> static void heap() {
  typedef tlx::RadixHeapPair<K, int, RX> H; H h; std::vector<std::pair<K, int>> m; K lo = std::numeric_limits<K>::min(); int id = 0;
  auto ismin = [&](K k) { bool ok = true; for (auto &x : m) ok &= k <= x.first; return ok; };
  auto take = [&](std::pair<K, int> t) { int at = -1; for (size_t i = 0; i < m.size(); i++) if (m[i].second == t.second) at = i; CHECK(at >= 0 && m[at].first == t.first, "an element of the heap"); CHECK(ismin(t.first), "a minimum"); lo = t.first; m.erase(m.begin() + at); };
  auto push = [&] { K k = key<K>("k", lo); m.push_back({k, ++id}); switch (id % 3) { case 0: h.push({k, id}); break; case 1: h.emplace(k, k, id); break; default: h.push_to_bucket(h.get_bucket_key(k), {k, id}); } };
  for (unsigned i = 0; i < FILL; i++) push();
  for (unsigned o = 0; o < NOPS; o++) switch (pick("op", 5)) {
    case 0: push(); break;
    case 1: case 2: if (m.empty()) { sx_end(); return; } { CHECK(ismin(h.peak_top_key()), "the smallest key is seen in advance"); auto t = h.top(); if (pick("peek", 2)) EQ(h.peak_top_key(), t.first, "the smallest key"); h.pop(); take(t); } break;
    case 3: if (m.empty()) { sx_end(); return; } { std::vector<std::pair<K, int>> b; h.swap_top_bucket(b); CHECK(!b.empty(), "the top bucket has elements"); K k = b[0].first; for (auto &x : b) { EQ(x.first, k, "equal keys"); take(x); } for (auto &x : m) CHECK(x.first != k, "all elements of that key"); } break;
    default: h.clear(); m.clear(); lo = std::numeric_limits<K>::min(); }
  EQ(h.size(), m.size(), "size"); EQ(h.empty(), m.empty(), "empty"); while (!m.empty()) { auto t = h.top(); h.pop(); take(t); } CHECK(h.empty(), "empty at the end");
}
int main() { static const unsigned which[] = WHICH; switch (which[pick("what", sizeof which / sizeof *which)]) { case 0: heap<uint32_t, 8>(); break; case 1: heap<int32_t, 8>(); break; case 2: heap<uint64_t, 2>(); break; case 3: heap<int64_t, 16>(); break; case 4: heap<uint64_t, 64>(); break; case 5: heap<uint8_t, 4>(); break; case 6: heap<int16_t, 8>(); break; default: heap<int8_t, 8>(); } sx_end(); }
#elif MODE == 5
#include "tlx/algorithm/multiway_merge.hpp"
#include "tlx/algorithm/merge_advance.hpp"
#include "tlx/algorithm/merge_combine.hpp"
typedef std::vector<E>::iterator It;
struct Big { uint8_t k, id; char pad[22]; bool operator<(const Big &) const = delete; };
struct BL { bool operator()(const Big &a, const Big &b) const { return a.k < b.k; } };
template <class T, class L> static void merge() {
  static const unsigned ks[] = KS; unsigned k = ks[pick("k", sizeof ks / sizeof *ks)]; unsigned total = 0; bool sent = pick("sentinels", 2), stable = pick("stable", 2); std::vector<std::vector<T>> s(k); std::vector<unsigned> len(k); static const unsigned lens[][5] = LENS; unsigned pat = pick("lens", sizeof lens / sizeof *lens); uint8_t id = 0; std::vector<T> all; if (k == 0) sent = false;
  for (unsigned i = 0; i < k; i++) { len[i] = lens[pat][i]; s[i].reserve(len[i] + 1); uint8_t last = 0; for (unsigned j = 0; j < len[i]; j++) { T e{}; e.k = sx_u8("k"); e.id = id++; sx_assume(e.k >= last); if (sent) sx_assume(e.k < 255); last = e.k; s[i].push_back(e); all.push_back(e); } total += len[i]; if (sent) { T e{}; e.k = 255; e.id = 200; s[i].push_back(e); } }
  std::vector<std::pair<typename std::vector<T>::iterator, typename std::vector<T>::iterator>> q; for (unsigned i = 0; i < k; i++) q.push_back({s[i].begin(), s[i].begin() + len[i]}); unsigned want = SIZES ? pick("short", total + 1) : 0; size_t size = total - want; std::vector<T> out(total + 1); auto alg = (tlx::MultiwayMergeAlgorithm)(pick("algorithm", sent ? 4 : 2) ); if (!sent && alg == 1) alg = pick("bubble", 2) ? tlx::MWMA_BUBBLE : tlx::MWMA_LOSER_TREE_COMBINED;
  auto r = stable ? (sent ? tlx::stable_multiway_merge_sentinels(q.begin(), q.end(), out.begin(), size, L(), alg) : tlx::stable_multiway_merge(q.begin(), q.end(), out.begin(), size, L(), alg)) : (sent ? tlx::multiway_merge_sentinels(q.begin(), q.end(), out.begin(), size, L(), alg) : tlx::multiway_merge(q.begin(), q.end(), out.begin(), size, L(), alg));
  EQ((size_t)(r - out.begin()), size, "so many elements are written"); bool seen[32] = {}; for (size_t i = 0; i < size; i++) { CHECK(out[i].id < id && !seen[out[i].id] && all[out[i].id].k == out[i].k, "a permutation of the input"); seen[out[i].id] = true; if (i) { CHECK(out[i - 1].k <= out[i].k, "in order"); if (stable) CHECK(out[i - 1].k != out[i].k || out[i - 1].id < out[i].id, "equal elements keep their order"); } }
  for (unsigned i = 0; i < id; i++) if (!seen[i] && size) CHECK(all[i].k >= out[size - 1].k, "the smallest are taken"); 
}
template <class F> static void two(F f, bool st) { std::vector<E> a, b; uint8_t id = 0; unsigned la = pick("la", 4), lb = pick("lb", 4); uint8_t l = 0; for (unsigned i = 0; i < la; i++) { E e{sx_u8("a"), id++}; sx_assume(e.k >= l); l = e.k; a.push_back(e); } l = 0; for (unsigned i = 0; i < lb; i++) { E e{sx_u8("b"), id++}; sx_assume(e.k >= l); l = e.k; b.push_back(e); } unsigned n = pick("n", la + lb + 1); std::vector<E> w, o(la + lb + 1); std::merge(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(w), EL()); It p = a.begin(), q = b.begin(); It r = f(p, a.end(), q, b.end(), o.begin(), n); EQ((unsigned)(r - o.begin()), n, "so many are written"); EQ((unsigned)(p - a.begin() + (q - b.begin())), n, "both inputs advance"); for (unsigned i = 0; i < n; i++) { CHECK(o[i].k == w[i].k, "merged in order"); if (st) CHECK(o[i].id == w[i].id, "merged stably"); } }
int main() { switch (pick("what", 4)) { case 0: merge<E, EL>(); break; case 1: merge<Big, BL>(); break; case 2: two([](It &a, It ae, It &b, It be, It o, unsigned n) { return tlx::merge_advance_usual(a, ae, b, be, o, n, EL()); }, true); break; default: two([](It &a, It ae, It &b, It be, It o, unsigned n) { return tlx::merge_advance_movc(a, ae, b, be, o, n, EL()); }, true); } sx_end(); }
#elif MODE == 6
#include "tlx/container/splay_tree.hpp"
template <class T, bool D> static void splay() {
  { T t; std::vector<uint8_t> m; auto cnt = [&](uint8_t k) { unsigned c = 0; for (auto x : m) c += x == k; return c; };
  static const uint8_t pre[] = {50, 20, 80, 20, 50, 70, 10}; unsigned np = pick("fill", 2) ? NPRE : 0; for (unsigned i = 0; i < np; i++) { bool r = t.insert(pre[i]); EQ(r, D || !cnt(pre[i]), "insert"); if (r) m.push_back(pre[i]); }
  for (unsigned o = 0; o < NOPS; o++) { unsigned op = pick("op", 5); if (op == 4) { t.clear(); m.clear(); continue; } uint8_t k = sx_u8("k"); unsigned c = 0; for (auto x : m) c += x == k; switch (op) {
    case 0: { bool r = t.insert(k); EQ(r, D || !c, "insert reports whether the key is new"); if (D || !c) m.push_back(k); break; }
    case 1: { bool r = t.erase(k); EQ(r, c != 0, "erase reports whether the key was there"); if (c) { for (size_t i = 0; i < m.size(); i++) if (m[i] == k) { m.erase(m.begin() + i); break; } } break; }
    case 2: EQ(t.exists(k), c != 0, "exists"); break;
    default: { auto n = t.find(k); CHECK((n != nullptr) == !m.empty(), "a neighbour is found unless the tree is empty"); if (c && n) EQ(n->key, k, "the key is found"); } } }
  EQ(t.size(), m.size(), "size"); EQ(t.empty(), m.empty(), "empty"); std::sort(m.begin(), m.end()); std::vector<uint8_t> g; t.traverse_preorder([&](uint8_t k) { g.push_back(k); }); EQ(g.size(), m.size(), "the traversal meets every key"); for (size_t i = 0; i < g.size() && i < m.size(); i++) EQ(g[i], m[i], "the traversal is in key order"); CHECK(t.check(), "the structure's own check"); }
}
int main() { if (pick("multi", 2)) splay<tlx::splay_multiset<uint8_t>, true>(); else splay<tlx::splay_set<uint8_t>, false>(); sx_end(); }
#elif MODE == 7
#include "tlx/container/simple_vector.hpp"
template <class V, class T, int Z> static void vec() {
  { unsigned n = pick("n", 4); V a(n), b; std::vector<int> m; for (unsigned i = 0; i < n; i++) { int v = (int)sx_u32("v"); a[i] = T(v); m.push_back(v); } auto val = [](const T &x) -> int { if constexpr (Z) return x.v(); else return x; };
  auto same = [&](V &x, const std::vector<int> &w) { EQ(x.size(), w.size(), "size"); EQ((size_t)(x.end() - x.begin()), w.size(), "range"); EQ((size_t)(x.cend() - x.cbegin()), w.size(), "range"); for (size_t i = 0; i < w.size(); i++) { EQ(val(x[i]), w[i], "elements"); EQ(val(x.at(i)), w[i], "elements"); EQ(val(x.data()[i]), w[i], "elements"); } if (w.size()) { EQ(val(x.front()), w[0], "front"); EQ(val(x.back()), w.back(), "back"); } };
  for (unsigned o = 0; o < NOPS; o++) switch (pick("op", 5)) {
    case 0: { unsigned s = pick("size", 5); unsigned old = m.size(); a.resize(s); m.resize(s); for (unsigned i = old; i < s; i++) { int v = (int)sx_u32("v"); a[i] = T(v); m[i] = v; } break; }
    case 1: { int v = (int)sx_u32("v"); a.fill(T(v)); for (int &x : m) x = v; break; }
    case 2: { V c(std::move(a)); same(c, m); a = std::move(c); EQ(c.size(), (size_t)0, "moved from"); break; }
    case 3: { V c(2); c[0] = T(1); c[1] = T(2); a.swap(c); same(c, m); a = std::move(c); break; }
    default: a.destroy(); m.clear(); }
  same(a, m); if (Z) EQ(g_live, (int)m.size(), "every element is destroyed once"); }
  EQ(g_live, 0, "nothing is left");
}
int main() { switch (pick("what", 3)) { case 0: vec<tlx::SimpleVector<El>, El, 1>(); break; case 1: vec<tlx::SimpleVector<int>, int, 0>(); break; default: vec<tlx::SimpleVector<int, tlx::SimpleVectorMode::NoInitNoDestroy>, int, 0>(); } sx_end(); }
#elif MODE == 8
#include "tlx/sort/networks/best.hpp"
#include "tlx/sort/networks/bose_nelson.hpp"
#include "tlx/sort/networks/bose_nelson_parameter.hpp"
// All elements have one of two keys (a network of comparisons sorts everything if it sorts those) and carry a mark.
typedef E *P; struct CS { template <class T> void operator()(T &l, T &r) { bool s = r.k < l.k; T x = l; l.k = s ? r.k : l.k; l.id = s ? r.id : l.id; r.k = s ? x.k : r.k; r.id = s ? x.id : r.id; } };
#define CASES(F) case 2: F(2) case 3: F(3) case 4: F(4) case 5: F(5) case 6: F(6) case 7: F(7) case 8: F(8) case 9: F(9) case 10: F(10) case 11: F(11) case 12: F(12) case 13: F(13) case 14: F(14) case 15: F(15) case 16: F(16)
#define A2 a[0], a[1]
#define A3 A2, a[2]
#define A4 A3, a[3]
#define A5 A4, a[4]
#define A6 A5, a[5]
#define A7 A6, a[6]
#define A8 A7, a[7]
#define A9 A8, a[8]
#define A10 A9, a[9]
#define A11 A10, a[10]
#define A12 A11, a[11]
#define A13 A12, a[12]
#define A14 A13, a[13]
#define A15 A14, a[14]
#define A16 A15, a[15]
int main() {
  unsigned n = LO + pick("n", HI - LO + 1), kind = KIND0 + pick("kind", KINDN); E a[16]; unsigned ones = 0; for (unsigned i = 0; i < n; i++) { a[i].k = sx_u8("bit") & 1; a[i].id = i; ones += a[i].k; } CS cs;
  if (kind == 0) tlx::sort_networks::best::sort(a, a + n, EL()); else if (kind == 1) tlx::sort_networks::bose_nelson::sort(a, a + n, EL()); else if (kind == 4) switch (n) {
#define F(N) tlx::sort_networks::bose_nelson_parameter::sort##N(A##N, cs); break;
    CASES(F)
#undef F
  } else if (kind == 2) switch (n) {
#define F(N) tlx::sort_networks::best::sort##N(a, cs); break;
    CASES(F)
#undef F
  } else switch (n) {
#define F(N) tlx::sort_networks::bose_nelson::sort##N(a, cs); break;
    CASES(F)
#undef F
  }
  bool ok = true; for (unsigned i = 1; i < n; i++) ok &= a[i - 1].k <= a[i].k; CHECK(ok, "sorted"); unsigned mask = 0; for (unsigned i = 0; i < n; i++) { mask |= 1u << (a[i].id & 31); } CHECK(mask == (1u << n) - 1, "every element is still there once"); unsigned o2 = 0; for (unsigned i = 0; i < n; i++) o2 += a[i].k; CHECK(o2 == ones, "the keys are those that were given"); sx_end();
}
#elif MODE == 9
#include "tlx/sort/strings.hpp"
#include "tlx/sort/strings/insertion_sort.hpp"
namespace D = tlx::sort_strings_detail;
static const char PREFIX[] = "aaaa";
template <class P> static void run(const P &p, unsigned alg, size_t mem) { switch (alg) { case 0: D::radixsort_CE3(p, 0, mem); break; case 1: D::radixsort_CE2(p, 0, mem); break; case 2: D::radixsort_CE0(p, 0, mem); break; case 3: D::radixsort_CI2(p, 0, mem); break; case 4: D::radixsort_CI3(p, 0, mem); break; case 5: D::multikey_quicksort(p, 0, mem); break; default: D::insertion_sort(p, 0, mem); } }
static int cmp(const std::string &a, const std::string &b) { size_t n = std::min(a.size(), b.size()); for (size_t i = 0; i < n; i++) if ((unsigned char)a[i] != (unsigned char)b[i]) return (unsigned char)a[i] < (unsigned char)b[i] ? -1 : 1; return a.size() < b.size() ? -1 : a.size() > b.size(); }
// NSYM strings of up to LEN arbitrary characters (or of LETTERS), among NS made ones with long shared prefixes, duplicates, an empty one and bytes above 0x7f
int main() {
  static const unsigned algs[] = ALGS; unsigned alg = algs[pick("algorithm", sizeof algs / sizeof *algs)], kind = pick("kind", 2), lcp = pick("lcp", 2); static const size_t mems[] = MEMS; size_t mem = mems[pick("memory", sizeof mems / sizeof *mems)]; std::vector<std::string> v;
  for (unsigned i = 0; i < NSYM; i++) { std::string s = std::string(PREFIX).substr(0, pick("prefix", 2) * 100); unsigned l = pick("len", LEN + 1); for (unsigned j = 0; j < l; j++) s += LETTERS ? (char)("\x01" "ab\xff"[pick("c", 4)]) : (char)sx_u8("c"); if (!LETTERS) for (char c : s) sx_assume(c != 0); v.push_back(s); }
  for (unsigned i = 0; i < NS; i++) { static const char *b[] = {PREFIX, "", "\xff\xfe", "a", "ab", "b\x80"}; std::string s = b[i % 6]; unsigned x = i * 2654435761u >> 20; for (unsigned j = 0; j < x % 4; j++) s += ("\x01" "ab\xff")[x >> (4 + 2 * j) & 3]; v.push_back(s); }
  size_t n = v.size(); std::vector<std::string> g = v; std::vector<uint32_t> lc(n + 1, 7777); bool seen[256] = {};
  if (kind == 0) { std::vector<unsigned char *> c; std::vector<std::string *> keep; for (auto &s : v) c.push_back((unsigned char *)s.c_str()); std::vector<unsigned char *> o = c; D::UCharStringSet ss(c.data(), c.data() + n); if (lcp) run(D::StringLcpPtr<D::UCharStringSet, uint32_t>(ss, lc.data()), alg, mem); else run(D::StringPtr<D::UCharStringSet>(ss), alg, mem); for (size_t i = 0; i < n; i++) { size_t at = n; for (size_t j = 0; j < n; j++) if (o[j] == c[i]) at = j; CHECK(at < n && !seen[at], "a permutation of the strings"); if (at == n) return 0; seen[at] = true; g[i] = v[at]; } }
  else { D::StdStringSet ss(g.data(), g.data() + n); if (lcp) run(D::StringLcpPtr<D::StdStringSet, uint32_t>(ss, lc.data()), alg, mem); else run(D::StringPtr<D::StdStringSet>(ss), alg, mem); for (size_t i = 0; i < n; i++) { size_t at = n; for (size_t j = 0; j < n; j++) if (!seen[j] && v[j] == g[i]) { at = j; break; } CHECK(at < n, "a permutation of the strings"); if (at == n) return 0; seen[at] = true; } }
  for (size_t i = 1; i < n; i++) { CHECK(cmp(g[i - 1], g[i]) <= 0, "in order"); if (lcp) { uint32_t l = 0; while (l < g[i - 1].size() && l < g[i].size() && g[i - 1][l] == g[i][l]) l++; EQ(lc[i], l, "length of the common prefix"); } } EQ(lc[n], 7777u, "nothing written beyond"); sx_end();
}
#elif MODE == 10
#include "tlx/algorithm/multisequence_partition.hpp"
#include "tlx/algorithm/multisequence_selection.hpp"
#include "tlx/algorithm/exclusive_scan.hpp"
#include "tlx/algorithm/is_sorted_cmp.hpp"
typedef std::vector<E>::iterator It;
int main() {
  static const unsigned lens[][4] = LENS; unsigned pat = pick("lens", sizeof lens / sizeof *lens), k = 0; std::vector<std::vector<E>> s; std::vector<E> all; uint8_t id = 0;
  for (; k < 4 && lens[pat][k]; k++) { s.emplace_back(); uint8_t last = 0; for (unsigned j = 0; j < lens[pat][k]; j++) { E e{sx_u8("k"), id++}; sx_assume(e.k >= last); last = e.k; s[k].push_back(e); all.push_back(e); } CHECK(tlx::is_sorted_cmp(s[k].begin(), s[k].end(), [](const E &a, const E &b) { return (int)a.k - (int)b.k; }), "sorted"); }
  std::vector<std::pair<It, It>> q; for (auto &x : s) q.push_back({x.begin(), x.end()}); long n = all.size(), rank = pick("rank", n + 1); std::vector<It> off(k); if (rank < n && pick("select", 2)) { long o = -1; E e = tlx::multisequence_selection<E>(q.begin(), q.end(), rank, o, EL()); long less = 0, eq = 0; for (auto &x : all) less += x.k < e.k, eq += x.k == e.k; CHECK((less <= rank) & (rank < less + eq), "the element of that rank"); CHECK(o == rank - less, "its place among equal ones"); sx_end(); return 0; }
  tlx::multisequence_partition(q.begin(), q.end(), rank, off.begin(), EL()); long sum = 0; for (unsigned i = 0; i < k; i++) { CHECK(off[i] >= s[i].begin() && off[i] <= s[i].end(), "split inside the sequence"); sum += off[i] - s[i].begin(); } EQ(sum, rank, "so many elements on the left");
  for (unsigned i = 0; i < k; i++) for (unsigned j = 0; j < k; j++) if (off[i] > s[i].begin() && off[j] < s[j].end()) { E l = off[i][-1], r = *off[j]; CHECK(l.k <= r.k, "nothing on the left is greater than anything on the right"); CHECK(!(l.k == r.k && i > j), "equal elements are taken from sequences with smaller number"); }
  std::vector<uint32_t> in, out(n + 2, 5); for (auto &x : all) in.push_back(x.k); uint32_t init = sx_u32("init"), acc = init; auto r = tlx::exclusive_scan(in.begin(), in.end(), out.begin(), init); for (long i = 0; i < n; i++) { EQ(out[i], acc, "exclusive sum"); acc += in[i]; } EQ(out[n], acc, "total"); EQ((long)(r - out.begin()), n + 1, "end of the sums"); sx_end();
}
#endif
