// Optimistic B+-tree as an ordered map.  LAYOUT 0/1 picks the header, FAN the entries per node.
#include "ref.h"
#include <utility>
#if LAYOUT
#include "BTreeOLC/BTreeOLC_child_layout.h"
#else
#include "BTreeOLC/BTreeOLC.h"
#endif
#ifndef PAD
#define PAD 800
#endif
#if PAD
struct Key { u64 k; u8 pad[PAD]; Key() {} Key(u64 x) : k(x) { for (auto &p : pad) p = 0; } bool operator<(const Key &o) const { return k < o.k; } bool operator>(const Key &o) const { return k > o.k; } bool operator==(const Key &o) const { return k == o.k; } };
#else
typedef u64 Key;
#endif
int main() {
  btreeolc::BTree<Key, u64> t; static Ref<NPRE + 16> ref;
  int pre = NPRE ? sx_range("pre", 0, NPRE) : 0; pre = sx_concretize(pre); int ord = pre > 1 ? sx_choice("ord", 3) : 0;
  for (int i = 0; i < pre; i++) { u64 k = 16 * (orderOf(ord, i, pre) + 1); t.insert(Key(k), 1000 + k); ref.put(k, 1000 + k); }
  for (int i = 0; i < NSYM; i++) { u64 k = sx_u64("k"), v = sx_u64("v"); t.insert(Key(k), v); ref.put(k, v); }
  u64 q = sx_u64("q"), r = 0x5555, e; bool f = t.lookup(Key(q), r), ef = ref.get(q, e);
  sx_observe("found", f); sx_observe("value", f ? r : 0); if (f) sx_cover("hit"); else sx_cover("miss");
  CHECK(f == ef, "lookup reports presence truthfully"); CHECK(!f | (r == e), "lookup yields the stored value");
  u64 s = sx_u64("s"), out[8]; int range = sx_choice("range", 4); range = range == 3 ? 6 : range; for (auto &o : out) o = 0x7777;
  u64 n = t.scan(Key(s), range, out); sx_observe("scanned", n); CHECK(n <= (u64)range, "scan yields no more than requested"); n = sx_concretize(n);
  u64 cur; bool have = ref.ceil(s, cur); CHECK(range == 0 || (n >= 1) == have, "scan finds something exactly when a key not below the start exists");
  for (u64 i = 0; i < n; i++) { u64 ev; CHECK(have, "scan yields no phantom"); ref.get(cur, ev); CHECK(out[i] == ev, "scan yields the next value in key order"); sx_observe("out", out[i]); have = ref.next(cur, cur); }
  for (int i = n; i < 8; i++) CHECK(out[i] == 0x7777, "scan writes only what it yields");
  sx_end();
}
