// Masstree building blocks.  PART 0: kpermuter<KW>; 1: slices and keys; 2: stringbag<BT>; 3: ksearch, circular_int; 4: small_vector; 5: bit helpers of compiler.hh.
#include "ref.h"
#include <string.h>
#include <vector>
#include <type_traits>
#include "compiler.hh"
#include "str.hh"
#include "kpermuter.hh"
#include "ksearch.hh"
#include "string_slice.hh"
#include "stringbag.hh"
#include "masstree_key.hh"
#include "circular_int.hh"
#include "small_vector.hh"
#ifndef PART
#define PART 0
#endif
using lcdf::Str;
static SX_INL int ge(int a, int b) { return a >= b; }
#if PART == 0
#ifndef KW
#define KW 15
#endif
typedef kpermuter<KW> P; typedef P::value_type V;
static void same(const char *m, P &p, const u8 *e, int n) { sx_assert(p.size() == n, "size after the edit"); bool ok = true; for (int i = 0; i < KW; i++) ok &= p[i] == e[i]; sx_assert(ok, m); }
int main() {
  int mode = sx_choice("mode", 2);
  if (mode == 0) {                                     // construction and allocation order
    int n = sx_choice("n", KW + 1); P p(P::make_sorted(n)); u8 e[KW]; for (int i = 0; i < KW; i++) e[i] = i;
    sx_assert(p.size() == n && P::size(p.value()) == n, "make_sorted has the size asked for"); bool seen[16] = {}; for (int i = 0; i < KW; i++) { int v = p[i]; sx_assert(v < KW && !seen[v], "make_sorted yields a permutation"); seen[v] = true; if (i < n) sx_assert(v == i, "make_sorted lists the slots in order"); }
    P q(P::make_empty()); sx_assert(q.size() == 0, "make_empty has size 0"); bool se2[16] = {}; for (int i = 0; i < KW; i++) { int v = q[i]; sx_assert(v < KW && !se2[v], "make_empty yields a permutation"); se2[v] = true; }
    for (int i = n; i < KW; i++) { sx_assert(p.insert_from_back(i) == i, "free slots are handed out in order"); sx_assert(p[i] == i, "inserted slot is at its position"); }
    for (int i = 0; i < KW; i++) sx_assert(q.insert_from_back(0) == i, "an empty order hands out the slots in order");
    for (int i = 0; i < KW; i++) sx_assert(q[i] == KW - 1 - i, "insertion at the front shifts the rest up");
    return 0;
  }
  int n = sx_choice("n", KW + 1); u8 a[16], e[16]; V x = (V)sx_u64("x"); if (KW < P::max_width && false) x &= 0;
  x = (x & ~(V)15) | n; P p(x);
  for (int i = 0; i < KW; i++) e[i] = a[i] = (x >> (4 * i + 4)) & 15;
  bool valid = true; for (int i = 0; i < KW; i++) { valid &= a[i] < KW; for (int j = 0; j < i; j++) valid &= a[i] != a[j]; } sx_assume(valid);
  switch (sx_choice("op", 8)) {
    case 0: { if (n == KW) return 0; int i = sx_choice("i", n + 1); int r = p.insert_from_back(i); sx_assert(r == a[KW - 1], "insert_from_back returns the slot it allocates"); memmove(e + i + 1, a + i, KW - 1 - i); e[i] = a[KW - 1]; same("insert_from_back inserts and shifts", p, e, n + 1); break; }
    case 1: { if (n == KW) return 0; int i = sx_choice("i", n + 1), s = n + sx_choice("s", KW - n); memmove(e + i + 1, a + i, s - i); e[i] = a[s]; p.insert_selected(i, s); same("insert_selected moves the chosen slot", p, e, n + 1); break; }
    case 2: { if (n == 0) return 0; int i = sx_choice("i", n); memmove(e + i, a + i + 1, n - 1 - i); e[n - 1] = a[i]; p.remove(i); same("remove takes the slot out, right behind the live ones", p, e, n - 1); break; }
    case 3: { if (n == 0) return 0; int i = sx_choice("i", n); memmove(e + i, a + i + 1, KW - 1 - i); e[KW - 1] = a[i]; p.remove_to_back(i); same("remove_to_back moves the slot to the end", p, e, n - 1); break; }
    case 4: { int i = sx_choice("i", KW), j = sx_choice("j", KW); e[i] = a[j]; e[j] = a[i]; p.exchange(i, j); same("exchange swaps two positions", p, e, n); break; }
    case 5: { int v = sx_choice("v", KW), w = sx_choice("w", KW); for (int i = 0; i < KW; i++) e[i] = a[i] == v ? w : a[i] == w ? v : a[i]; p.exchange_values(v, w); same("exchange_values swaps two slots", p, e, n); break; }
    case 6: { int m = sx_choice("m", KW + 1); p.set_size(m); same("set_size keeps the order", p, e, m); break; }
    case 7: { sx_assert(p.back() == a[KW - 1], "back is the last slot"); int i = sx_choice("i", KW); sx_assert(((p.value_from(i)) & 15) == a[i] && p.value() == x && p.size() == n && P::width() == KW, "accessors agree"); P q(p); sx_assert(q == p && !(q != p), "a copy is equal");
      if (n == KW) { int j = sx_choice("j", KW + 1); if (i > j) return 0; for (int k = i; k < KW; k++) e[k] = a[i + (k - i + j - i) % (KW - i)]; p.rotate(i, j); same("rotate rotates", p, e, n); } break; }
  }
  return 0;
}
#elif PART == 1
#ifndef IK
#define IK u64
#endif
#ifndef LMAX
#define LMAX 11
#endif
#define SZ ((int)sizeof(IK))
typedef string_slice<IK> S; typedef Masstree::key<IK> K;
static char buf1[64], buf2[64]; static char *A = buf1 + 16, *B = buf2 + 16;
static int lexcmp(const char *a, int la, const char *b, int lb) { int m = la < lb ? la : lb; int r = 0; for (int i = m - 1; i >= 0; i--) { u8 x = a[i], y = b[i]; r = x == y ? r : x < y ? -1 : 1; } bool same = true; for (int i = 0; i < m; i++) same &= a[i] == b[i]; return same ? la < lb ? -1 : la > lb : r; }
static IK be(const char *s, int len) { IK v = 0; for (int i = 0; i < SZ; i++) v = v << 8 | (i < len ? (u8)s[i] : 0); return v; }
int main() {
  sx_bytes(buf1, 64, "a"); int la = sx_choice("la", LMAX + 1); bool eq0 = true;
  switch (sx_choice("part", 5)) {
    case 0: {
      sx_bytes(buf2, 64, "b"); int lb = sx_choice("lb", LMAX + 1);
      IK x = S::make_comparable(A, la), y = S::make_comparable(B, lb); int pa = la < SZ ? la : SZ, pb = lb < SZ ? lb : SZ;
      sx_assert(x == be(A, la) && y == be(B, lb), "a comparable slice is the big-endian number of the first bytes");
      bool less = false, eq = true; for (int i = SZ - 1; i >= 0; i--) { u8 c = i < pa ? A[i] : 0, d = i < pb ? B[i] : 0; less = c == d ? less : c < d; eq &= c == d; }
      sx_assert((x < y) == less && (x == y) == eq, "slices order as the byte strings do");
      sx_assert(S::make_comparable_sloppy(A, la) == x && S::make_sloppy(B, lb) == S::make(B, lb), "the sloppy forms ignore bytes outside the string");
      K ka(A, la), kb(B, lb); int c = ka.compare(kb); bool pfxless = x < y; int za = la > SZ ? SZ + 1 : la, zb = lb > SZ ? SZ + 1 : lb;
      sx_assert((c < 0) == (x < y || (x == y && za < zb)) && (c == 0) == (x == y && za == zb), "keys compare by slice, then by length");
      sx_assert((ka.compare(y, lb) < 0) == (c < 0) && (ka.compare(y, lb) == 0) == (c == 0), "comparing with slice and length agrees");
      if (la <= SZ || lb <= SZ) sx_assert((c < 0) == (lexcmp(A, la, B, lb) < 0) && (c == 0) == (la == lb && lexcmp(A, la, B, lb) == 0), "keys order as their byte strings");
      break; }
    case 1: {
      IK x = S::make_comparable(A, la); char o[32]; memset(o, 77, 32); int bl = sx_choice("buflen", SZ + 2), ln = sx_choice("len", SZ + 3); int r = S::unparse_comparable(o, bl, x, ln); int w = ln < SZ ? ln : SZ; w = w < bl ? w : bl;
      sx_assert(r == w, "unparse writes the number of bytes asked for"); bool ok = true; for (int i = 0; i < 32; i++) ok &= o[i] == (i < w ? (i < la ? A[i] : 0) : 77); sx_assert(ok, "unparse gives back the string's bytes");
      memset(o, 77, 32); r = S::unparse_comparable(o, bl, x); int t = 0; for (int i = 0; i < SZ && i < la; i++) t = A[i] ? i + 1 : t; int w2 = t < bl ? t : bl; sx_assert(r == w2, "unparse drops trailing zero bytes only"); ok = true; for (int i = 0; i < 32; i++) ok &= o[i] == (i < w2 ? A[i] : 77); sx_assert(ok, "unparse without length gives back the string's bytes");
      K k(x); sx_assert(k.length() == t && k.ikey() == x, "a key made of a slice has its bytes"); int kl = sx_choice("kl", SZ + 2); K k2(x, kl); sx_assert(k2.length() == (kl < SZ ? kl : SZ) && !k2.has_suffix(), "a key of slice and length has no suffix"); sx_assert(k2.empty() == (x == 0 && kl == 0), "empty is truthful");
      break; }
    case 2: {
      sx_bytes(buf2, 64, "b"); bool eq = true; for (int i = 0; i < la; i++) eq &= A[i] == B[i]; sx_assert(S::equals_sloppy(A, B, la) == eq, "equals_sloppy compares the strings' bytes exactly"); break; }
    case 3: {                                         // shifting through the layers
      int l2 = la + SZ * sx_choice("extra", 2); K k(A, l2); Str s(A, l2); K ks(s); sx_assert(ks.ikey() == k.ikey() && ks.length() == l2 && !k.is_shifted(), "key of a Str");
      int off = 0; while (k.has_suffix()) { sx_assert(k.suffix_length() == l2 - off - SZ && k.suffix().s == A + off + SZ && k.suffix().len == l2 - off - SZ, "suffix is the rest of the key"); k.shift(); off += SZ; sx_assert(k.is_shifted() && k.ikey() == be(A + off, l2 - off) && k.length() == l2 - off && k.prefix_length() == off && k.full_string().s == A && k.full_string().len == l2 && k.prefix_string().len == off, "shift moves to the next slice"); }
      char o[40]; memset(o, 77, 40); int dl = sx_choice("dl", 12); int r = k.unparse(o, dl); int w = k.length() < dl ? k.length() : dl; sx_assert(r == w, "unparse writes up to the key's length"); bool ok = true; for (int i = 0; i < 40; i++) ok &= o[i] == (i < w ? A[off + i] : 77); sx_assert(ok, "unparse gives the key's bytes");
      if (off) { K u(k); u.unshift(); sx_assert(u.ikey() == be(A + off - SZ, SZ) && u.length() == SZ + 1 && u.prefix_length() == off - SZ, "unshift goes back one slice"); }
      k.unshift_all(); sx_assert(k.ikey() == be(A, l2) && k.length() == l2 && !k.is_shifted(), "unshift_all restores the key");
      memset(o, 77, 40); r = k.unparse(o, 40); ok = r == l2; for (int i = 0; i < l2; i++) ok &= o[i] == A[i]; sx_assert(ok, "unparse gives the whole key");
      if (l2 > 2) { int d = 1 + sx_choice("by", l2 - 1); k.shift_by(d); sx_assert(k.ikey() == be(A + d, l2 - d) && k.length() == l2 - d, "shift_by moves on"); }
      break; }
    case 4: {                                         // positions used by scans
      int l2 = la; K k(A, l2); IK x = k.ikey(); bool wrap = k.increment();
      if (l2 > SZ) sx_assert(wrap == (IK)(x + 1 == 0) && k.ikey() == (IK)(x + 1) && k.length() == 1, "increment of a key with suffix goes to the next slice"); else sx_assert(!wrap && k.ikey() == x && k.length() == l2 + 1, "increment of a short key goes to the next length");
      K j(A, l2); IK v = (IK)sx_u64("v"); j.assign_store_ikey(v); sx_assert(j.ikey() == v && be(A, SZ) == v, "storing a slice writes its bytes"); char suf[4]; sx_bytes(suf, 4, "suf"); int sl = sx_choice("sl", 5); int nl = j.assign_store_suffix(Str(suf, sl)); j.assign_store_length(nl); bool ok = nl == SZ + sl && j.length() == nl; for (int i = 0; i < sl; i++) ok &= A[SZ + i] == suf[i]; ok &= be(A, SZ) == v; sx_assert(ok, "storing a suffix puts it behind the slice");
      K c(j); c.shift_clear(); sx_assert(c.ikey() == 0 && c.length() == 0 && c.prefix_length() == SZ, "shift_clear starts a layer at its beginning"); K d(j); d.shift_clear_reverse(); sx_assert(d.ikey() == (IK)~(IK)0 && d.length() == SZ + 1 && d.prefix_length() == SZ, "shift_clear_reverse starts a layer at its end");
      break; }
  }
  (void)eq0; return 0;
}
#elif PART == 2
#ifndef BT
#define BT u8
#endif
#ifndef NS
#define NS 4
#endif
typedef stringbag<BT> Bag;
static const int caps[] = CAPS; static const int lens[] = LENS; static const int BW = 3;
int main() {
  size_t cap = caps[sx_choice("cap", sizeof caps / sizeof *caps)]; char *mem = new char[cap]; memset(mem, 0x55, cap); Bag *b = new (mem) Bag(BW, cap);
  sx_assert(b->capacity() == cap && b->used_capacity() == Bag::overhead(BW), "a new bag is empty"); static char data[NS][400]; int own[BW]; int ln[BW]; for (int i = 0; i < BW; i++) { own[i] = -1; ln[i] = 0; }
  size_t used = Bag::overhead(BW); u64 sum = 0;
  for (int s = 0; s < NS; s++) {
    int p = sx_choice("slot", BW), len = lens[sx_choice("len", sizeof lens / sizeof *lens)]; for (int i = 0; i < len; i++) data[s][i] = i < 2 ? sx_u8("c") : (char)(i * 7 + s * 31);
    bool ok = s & 1 ? b->assign(p, Str(data[s], len)) : b->assign(p, data[s], len);
    size_t before = used; used = b->used_capacity();
    sx_assert(used <= cap && used >= before, "the bag's fill stays within its capacity");
    if (ok) { own[p] = s; ln[p] = len; } else sx_assert(before + (len > 8 ? len : 8) >= cap, "a string that fits is stored");
    if (!ok) sx_assert(used == before, "a refused string leaves the bag alone");
    sx_assert(b->capacity() == cap, "capacity is kept");
    for (int i = 0; i < BW; i++) { Str g = (*b)[i]; sx_assert(g.len == ln[i], "a slot has the length last stored"); bool same = true; if (g.len) { sx_assert(g.s >= mem + Bag::overhead(BW) && g.s + g.len <= mem + cap, "a slot lies inside the bag"); } for (int j = 0; j < ln[i]; j++) same &= g.s[j] == data[own[i] < 0 ? 0 : own[i]][j]; sx_assert(same, "a slot has the bytes last stored"); Str h = b->get(i); sx_assert(h.s == g.s && h.len == g.len, "get equals operator[]");
      if (ln[i] && ln[i] <= 8) sx_assert(string_slice<uintptr_t>::equals_sloppy(g.s, data[own[i]] + 0, ln[i]), "a stored string can be compared sloppily"); }
  }
  size_t total = 0; for (int i = 0; i < BW; i++) total += ln[i]; (void)sum; (void)total;
  if (Bag::safe_size(BW, 5) <= 255) { static char m2[256]; Bag *c = new (m2) Bag(BW, Bag::safe_size(BW, 5)); sx_assert(c->assign(0, "ab", 2) && c->assign(2, "xyz", 3) , "safe_size holds the strings announced"); }
  return 0;
}
#elif PART == 3
#ifndef NMAX
#define NMAX 5
#endif
struct NodeI { u64 k[NMAX]; int n; int size() const { return n; } int compare_key(u64 a, int p) const { return ::compare(a, k[p]); } };
struct NodeP { typedef kpermuter<15> permuter_type; u64 k[15]; permuter_type perm; permuter_type permutation() const { return perm; } int compare_key(u64 a, int p) const { return ::compare(a, k[p]); } };
template <class N> static void search(const N &n, int cnt, const u64 *sorted, const u8 *slot) {
  u64 q = sx_u64("q"); int lo = 0; bool hit = false; int up = 0; for (int i = 0; i < cnt; i++) { lo += sorted[i] < q; up += sorted[i] <= q; hit |= sorted[i] == q; }
  int u1 = key_bound_binary::upper(q, n), u2 = key_bound_linear::upper(q, n); sx_assert(u1 == up && u2 == up, "upper bound is the first position above the key");
  key_indexed_position a = key_bound_binary::lower(q, n), b = key_bound_linear::lower(q, n); sx_assert(a.i == lo && b.i == lo, "lower bound is the first position not below the key"); int ex = -1; for (int i = 0; i < cnt; i++) ex = sorted[i] == q ? slot[i] : ex; sx_assert(a.p == ex && b.p == ex, "an equal key is reported with its slot");
}
template <class T, class D, class UD> static void circ() {
  T x = (T)sx_u64("x"), y = (T)sx_u64("y"); typedef circular_int<T> C; C a(x), b(y); D d = (D)(T)(x - y); D mn = (D)((T)1 << (sizeof(T) * 8 - 1)); sx_assert((a < b) == (d < 0) && (a == b) == (x == y) && (a != b) == (x != y), "circular numbers compare by signed distance"); sx_assert(a.value() == x && C(x).value() == x, "value"); sx_assert((D)(a - b) == d, "difference is the signed distance"); sx_assert(C::less(x, y) == (d < 0) && C::less_equal(x, y) == (d <= 0), "less, less_equal");
  sx_assert((a >= b) == !(d < 0), "greater or equal"); if (d != mn) { sx_assert((a > b) == (d > 0) && (a <= b) == (d <= 0), "the order is total at distances below half the range"); }
  C n = a.next_nonzero(); sx_assert(n.value() == ((T)(x + 1) ? (T)(x + 1) : (T)1) && C::next_nonzero(x) == n.value(), "next_nonzero skips zero only"); int i = (int)sx_u32("i"); C c(a); c += i; sx_assert(c.value() == (T)(x + i) && (a + i).value() == (T)(x + i) && (a - i).value() == (T)(x - i), "addition"); c = a; sx_assert((++c).value() == (T)(x + 1) && (c++).value() == (T)(x + 1) && c.value() == (T)(x + 2), "increment"); sx_assert((--c).value() == (T)(x + 1) && (c--).value() == (T)(x + 1) && c.value() == x, "decrement"); sx_assert(!a == (x == 0) && (bool)a == (x != 0), "truth value"); c -= i; sx_assert(c.value() == (T)(x - i), "subtraction"); unsigned u = i; c = a; c += u; sx_assert(c.value() == (T)(x + u), "unsigned addition"); c -= u; sx_assert(c.value() == x && (a + u).value() == (T)(x + u) && (a - u).value() == (T)(x - u), "unsigned subtraction");
}
int main() {
  switch (sx_choice("part", 4)) {
    case 0: { NodeI n; n.n = sx_choice("n", NMAX + 1); u8 s[NMAX]; u64 so[NMAX]; for (int i = 0; i < n.n; i++) { n.k[i] = so[i] = sx_u64("k"); s[i] = i; if (i) sx_assume(n.k[i - 1] < n.k[i]); } search(n, n.n, so, s); break; }
    case 1: { NodeP n; int c = sx_choice("n", NMAX + 1); n.perm = kpermuter<15>::make_empty(); u64 so[NMAX]; u8 s[NMAX]; for (int i = 0; i < c; i++) { int at = sx_choice("at", i + 1); n.perm.insert_from_back(at); } for (int i = 0; i < c; i++) { so[i] = sx_u64("k"); s[i] = n.perm[i]; n.k[s[i]] = so[i]; if (i) sx_assume(so[i - 1] < so[i]); } search(n, c, so, s); break; }
    case 2: circ<u64, int64_t, u64>(); break;
    case 3: circ<u32, int32_t, u32>(); break;
  }
  return 0;
}
#elif PART == 4
static int liveN; struct Obj { u64 v; Obj *self; Obj(u64 v = 0) : v(v), self(this) { liveN++; } Obj(const Obj &o) : v(o.v), self(this) { liveN++; } Obj &operator=(const Obj &o) { v = o.v; return *this; } ~Obj() { sx_assert(self == this, "only constructed elements are destroyed"); self = 0; liveN--; } };
int main() {
  { small_vector<Obj, 3> v; u64 ref[40]; int n = 0;
  for (int s = 0; s < NS; s++) switch (sx_choice("op", 7)) {
    case 0: { u64 x = sx_u64("x"); v.push_back(Obj(x)); ref[n++] = x; break; }
    case 1: if (n) { v.pop_back(); n--; } break;
    case 2: { int r = sx_choice("n", 6); u64 x = sx_u64("x"); v.resize(r, Obj(x)); for (int i = n; i < r; i++) ref[i] = x; n = r; break; }
    case 3: if (n) { int i = sx_choice("i", n); small_vector<Obj, 3>::iterator it = v.erase(v.begin() + i); sx_assert(it == v.begin() + i, "erase returns the next element"); for (int j = i; j + 1 < n; j++) ref[j] = ref[j + 1]; n--; } break;
    case 4: { int a = sx_choice("a", n + 1), b = a + sx_choice("b", n + 1 - a); v.erase(v.begin() + a, v.begin() + b); for (int j = b; j < n; j++) ref[a + j - b] = ref[j]; n -= b - a; break; }
    case 5: { small_vector<Obj, 3> w(v); sx_assert(w.size() == (unsigned)n, "a copy has the same size"); bool ok = true; for (int i = 0; i < n; i++) ok &= w[i].v == ref[i]; sx_assert(ok, "a copy has the same elements"); if (n) w[0] = Obj(1234567); v = w; if (n) ref[0] = 1234567; break; }
    case 6: { small_vector<Obj, 2> w; int m = sx_choice("m", 5); for (int i = 0; i < m; i++) { u64 x = sx_u64("x"); w.push_back(Obj(x)); ref[i] = x; } v = w; n = m; if (m == 4) { v.clear(); n = 0; } break; }
  } 
  sx_assert(v.size() == (unsigned)n && v.empty() == (n == 0) && v.capacity() >= (unsigned)n, "size is right"); bool ok = true; int i = 0; for (auto it = v.begin(); it != v.end(); ++it, ++i) ok &= it->v == ref[i] & it->self == &*it; sx_assert(ok && i == n, "elements are right"); if (n) sx_assert(v.front().v == ref[0] && v.back().v == ref[n - 1], "ends are right"); sx_assert(liveN == n, "every element is alive exactly once"); }
  sx_assert(liveN == 0, "no element is leaked");
  return 0;
}
#else
int main() {
  u64 x = sx_u64("x"); u32 y = (u32)x; u16 z = (u16)x;
  switch (sx_choice("part", 4)) {
    case 0: { if (x) { int l = 0; for (int i = 0; i < 64; i++) l = x >> i & 1 ? 63 - i : l; int t = 0; for (int i = 63; i >= 0; i--) t = x >> i & 1 ? i : t; sx_assert(clz(x) == l && ctz(x) == t, "64-bit leading and trailing zero counts"); sx_assert(clz((long long)x) == l && ctz((unsigned long long)x) == t, "long long bit counts"); sx_assert((int)ffs_msb((unsigned long)x) == l + 1, "ffs_msb"); } if (y) { int l = 0; for (int i = 0; i < 32; i++) l = y >> i & 1 ? 31 - i : l; int t = 0; for (int i = 31; i >= 0; i--) t = y >> i & 1 ? i : t; sx_assert(clz(y) == l && ctz(y) == t && (int)ffs_msb(y) == l + 1, "32-bit bit counts"); } sx_assert(ffs_msb(0u) == 0 && ffs_msb(0ul) == 0, "no bit set"); break; }
    case 1: { u64 b = 0; for (int i = 0; i < 8; i++) b |= (x >> (8 * i) & 255) << (56 - 8 * i); sx_assert(net_to_host_order((unsigned long)x) == b && host_to_net_order((unsigned long)x) == b, "64-bit byte order"); u32 c = 0; for (int i = 0; i < 4; i++) c |= (y >> (8 * i) & 255) << (24 - 8 * i); sx_assert(net_to_host_order(y) == c && host_to_net_order(y) == c && (u32)net_to_host_order((int)y) == c, "32-bit byte order"); u16 d = z >> 8 | z << 8; sx_assert(net_to_host_order(z) == d && host_to_net_order(z) == d, "16-bit byte order"); char raw[10]; write_in_net_order(raw + 1, (unsigned long)x); bool ok = true; for (int i = 0; i < 8; i++) ok &= (u8)raw[1 + i] == (u8)(x >> (56 - 8 * i)); sx_assert(ok && read_in_net_order<uint64_t>(raw + 1) == x, "network order access"); write_in_host_order(raw + 1, y); sx_assert(read_in_host_order<uint32_t>(raw + 1) == y, "host order access"); double f; memcpy(&f, &x, 8); double g = net_to_host_order(host_to_net_order(f)); sx_assert(!memcmp(&f, &g, 8), "byte order of doubles is reversible"); break; }
    case 2: { if (x && x <= (u64)1 << 63) { u64 p = iceil_log2(x); sx_assert((p & (p - 1)) == 0 && p >= x && p / 2 < x, "next power of two"); } if (x) { u64 p = ifloor_log2(x); sx_assert((p & (p - 1)) == 0 && p <= x && (p >> 63 || p * 2 > x), "previous power of two"); } break; }
    case 3: { u32 k = find_lowest_zero_nibble(x); int e = -1; for (int i = 15; i >= 0; i--) e = (x >> (4 * i) & 15) == 0 ? i : e; sx_assert((int)k == e, "lowest zero nibble"); int l = sx_choice("l", 5); int m = 5 + sx_choice("mm", 3); sx_assert(iceil(m, 4) == (m + 3) / 4 * 4 && m - m % 4 == m / 4 * 4, "rounding"); (void)l; break; }
  }
  return 0;
}
#endif
