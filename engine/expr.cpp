#include "expr.h"
#include <algorithm>
#include <cassert>
#include <chrono>
#include <cstdio>
#include <unordered_set>
#include <z3.h>

static std::vector<std::string> vnames; static std::vector<unsigned> vwidths; static std::vector<Expr *> vexprs;
u32 numVars() { return vnames.size(); }
const std::string &varName(u32 i) { return vnames[i]; }
unsigned varWidth(u32 i) { return vwidths[i]; }

// ---- var sets
struct VSHash { size_t operator()(const VarSet *s) const { size_t h = 7; for (u32 x : s->v) h = h * 1000003 + x; return h; } };
struct VSEq { bool operator()(const VarSet *a, const VarSet *b) const { return a->v == b->v; } };
static std::unordered_set<VarSet *, VSHash, VSEq> vsTab; static u32 vsCnt = 0;
static const VarSet *internVS(std::vector<u32> &&v) {
  VarSet t; t.v = std::move(v); auto it = vsTab.find(&t); if (it != vsTab.end()) return *it;
  VarSet *n = new VarSet{std::move(t.v), vsCnt++}; vsTab.insert(n); return n;
}
static const VarSet *emptyVS() { static const VarSet *e = internVS({}); return e; }
static std::unordered_map<u64, const VarSet *> vsMemo;
static const VarSet *uni(const VarSet *a, const VarSet *b) {
  if (a == b || b->v.empty()) return a; if (a->v.empty()) return b;
  u64 key = ((u64)a->id << 32) | b->id; auto it = vsMemo.find(key); if (it != vsMemo.end()) return it->second;
  std::vector<u32> r; std::set_union(a->v.begin(), a->v.end(), b->v.begin(), b->v.end(), std::back_inserter(r));
  const VarSet *n = internVS(std::move(r)); vsMemo[key] = n; return n;
}
// ---- hash consing
struct EHash { size_t operator()(const Expr *e) const {
  u64 h = e->k * 0x9E3779B97F4A7C15ull ^ ((u64)e->w << 32) ^ e->lo; h = (h ^ e->c) * 0xff51afd7ed558ccdull; h ^= h >> 29;
  h = (h + (u64)(uintptr_t)e->a) * 0xc4ceb9fe1a85ec53ull; h ^= h >> 31; h = (h + (u64)(uintptr_t)e->b) * 0x9E3779B97F4A7C15ull; h ^= h >> 30;
  h = (h + (u64)(uintptr_t)e->d) * 0xff51afd7ed558ccdull; return h ^ (h >> 32); } };
struct EEq { bool operator()(const Expr *x, const Expr *y) const { return x->k == y->k && x->w == y->w && x->lo == y->lo && x->c == y->c && x->a == y->a && x->b == y->b && x->d == y->d; } };
static std::unordered_set<Expr *, EHash, EEq> tab(1 << 16); static u32 ecnt = 0;
u64 numExprs() { return ecnt; }
static Expr *arena = nullptr; static size_t arenaLeft = 0;
static Expr *intern(EK k, unsigned w, u32 lo, u64 c, Expr *a = nullptr, Expr *b = nullptr, Expr *d = nullptr) {
  Expr t; t.k = k; t.w = w; t.lo = lo; t.c = c; t.a = a; t.b = b; t.d = d;
  auto it = tab.find(&t); if (it != tab.end()) return *it;
  if (!arenaLeft) { arena = (Expr *)malloc(sizeof(Expr) * 4096); arenaLeft = 4096; }
  Expr *e = arena++; arenaLeft--; *e = t; e->id = ecnt++; e->memoEp = 0; e->memo = 0;
  const VarSet *vs = emptyVS(); if (a) vs = a->vs; if (b) vs = uni(vs, b->vs); if (d) vs = uni(vs, d->vs); e->vs = vs;
  tab.insert(e); return e;
}
Expr *mkConst(u64 c, unsigned w) {
  if (w <= 64) return intern(K_CONST, w, 0, c & maskW(w));
  return mkWide(std::vector<u64>{c}, w);
}
Expr *mkWide(const std::vector<u64> &words, unsigned w) {
  if (w <= 64) return intern(K_CONST, w, 0, (words.empty() ? 0 : words[0]) & maskW(w));
  // canonical form: Concat(top, Concat(.., low64)) built raw
  unsigned n = (w + 63) / 64; Expr *acc = nullptr; unsigned accw = 0;
  for (unsigned i = 0; i < n; i++) { unsigned cw = std::min(64u, w - i * 64); u64 v = i < words.size() ? words[i] : 0;
    Expr *p = intern(K_CONST, cw, 0, v & maskW(cw)); if (!acc) { acc = p; accw = cw; } else { accw += cw; acc = intern(K_CONCAT, accw, 0, 0, p, acc); } }
  return acc;
}
static bool wc(Expr *e, std::vector<u64> &wd, unsigned at) {
  if (e->k == K_CONST) { unsigned i = at / 64, s = at % 64; if (wd.size() < i + 2) wd.resize(i + 2); wd[i] |= e->c << s; if (s && e->w + s > 64) wd[i + 1] |= e->c >> (64 - s); return true; }
  if (e->k == K_CONCAT) return wc(e->b, wd, at) && wc(e->a, wd, at + e->b->w);
  if (e->k == K_ZEXT) return wc(e->a, wd, at);
  return false;
}
bool wideConst(Expr *e, std::vector<u64> &words) { words.clear(); if (!e->vs->v.empty()) return false; if (!wc(e, words, 0)) return false; words.resize((e->w + 63) / 64); return true; }
Expr *mkVar(const std::string &name, unsigned w) {
  assert(w <= 64); u32 i = vnames.size(); vnames.push_back(name); vwidths.push_back(w);
  Expr *e = intern(K_VAR, w, i, 0); e->vs = internVS({i}); vexprs.push_back(e); return e;
}
Expr *varExpr(u32 i) { return vexprs[i]; }
static bool isAllOnes(Expr *e) { return isC(e) && e->c == maskW(e->w) && e->w <= 64; }
Expr *mkNot(Expr *a) {
  if (a->w <= 64) return mkBin(K_XOR, a, mkConst(~0ull, a->w));
  std::vector<u64> on((a->w + 63) / 64, ~0ull); if (a->w % 64) on.back() = maskW(a->w % 64); return mkBin(K_XOR, a, mkWide(on, a->w));
}
// is this expression a width-1 negation?
static Expr *negOf(Expr *e) { return (e->w == 1 && e->k == K_XOR && isC(e->b) && e->b->c == 1) ? e->a : nullptr; }

struct Seg { Expr *e; unsigned w; };  // e==null: zero
static void segs(Expr *e, std::vector<Seg> &out) {  // LSB first
  if (e->k == K_CONCAT) { segs(e->b, out); segs(e->a, out); }
  else if (e->k == K_ZEXT) { segs(e->a, out); out.push_back({nullptr, (unsigned)(e->w - e->a->w)}); }
  else if (isC(e) && e->c == 0) out.push_back({nullptr, e->w});
  else out.push_back({e, e->w});
}
static Expr *fromSegs(const std::vector<Seg> &s) {
  Expr *acc = nullptr;
  for (auto &x : s) { Expr *p = x.e ? x.e : mkConst(0, x.w); acc = acc ? mkConcat(p, acc) : p; }
  return acc;
}
static Expr *tryDisjoint(EK k, Expr *a, Expr *b) {
  std::vector<Seg> sa, sb, r; segs(a, sa); segs(b, sb); if (sa.size() + sb.size() < 3 || sa.size() + sb.size() > 40) return nullptr;
  size_t i = 0, j = 0; unsigned oa = 0, ob = 0;
  while (i < sa.size()) {
    unsigned w = std::min(sa[i].w - oa, sb[j].w - ob);
    Expr *x = sa[i].e, *y = sb[j].e;
    if (x && y) {
      if (k == K_ADD) return nullptr;
      Expr *ex = mkExtract(x, oa, w), *ey = mkExtract(y, ob, w);
      if (!(isC(ex) || isC(ey))) return nullptr;
      Expr *z;
      if (isC(ex) && isC(ey)) z = mkConst(k == K_OR ? ex->c | ey->c : ex->c ^ ey->c, w);
      else { Expr *cc = isC(ex) ? ex : ey, *o = isC(ex) ? ey : ex;
        if (cc->c == 0) z = o; else if (k == K_OR && isAllOnes(cc)) z = cc; else return nullptr; }
      r.push_back({z, w});
    } else if (x) r.push_back({mkExtract(x, oa, w), w});
    else if (y) r.push_back({mkExtract(y, ob, w), w});
    else r.push_back({nullptr, w});
    oa += w; ob += w; if (oa == sa[i].w) { i++; oa = 0; } if (ob == sb[j].w) { j++; ob = 0; }
  }
  return fromSegs(r);
}
static Expr *andMask(Expr *a, u64 m) {  // a & m, a->w<=64
  unsigned w = a->w; unsigned runs = 0; for (unsigned i = 0; i < w; i++) if (((m >> i) & 1) && (i == 0 || !((m >> (i - 1)) & 1))) runs++;
  if (runs > 8) return nullptr;
  std::vector<Seg> r; unsigned i = 0;
  while (i < w) { unsigned j = i; bool one = (m >> i) & 1; while (j < w && (((m >> j) & 1) == one)) j++; if (one) r.push_back({mkExtract(a, i, j - i), j - i}); else r.push_back({nullptr, j - i}); i = j; }
  return fromSegs(r);
}
static bool foldBin(EK k, u64 x, u64 y, unsigned w, u64 &r) {
  u64 m = maskW(w);
  switch (k) {
    case K_ADD: r = x + y; break; case K_SUB: r = x - y; break; case K_MUL: r = x * y; break;
    case K_UDIV: r = y ? x / y : m; break; case K_UREM: r = y ? x % y : x; break;
    case K_SDIV: { i64 a = sextW(x, w), b = sextW(y, w); if (b == 0) r = a < 0 ? 1 : m; else if (b == -1) r = -(u64)a; else r = a / b; break; }
    case K_SREM: { i64 a = sextW(x, w), b = sextW(y, w); if (b == 0) r = x; else if (b == -1) r = 0; else r = a % b; break; }
    case K_AND: r = x & y; break; case K_OR: r = x | y; break; case K_XOR: r = x ^ y; break;
    case K_SHL: r = y >= w ? 0 : x << y; break; case K_LSHR: r = y >= w ? 0 : x >> y; break;
    case K_ASHR: r = (u64)(sextW(x, w) >> (y >= w ? w - 1 : y)); break;
    case K_EQ: r = x == y; return true; case K_ULT: r = x < y; return true; case K_ULE: r = x <= y; return true;
    case K_SLT: r = sextW(x, w) < sextW(y, w); return true; case K_SLE: r = sextW(x, w) <= sextW(y, w); return true;
    default: return false;
  }
  r &= m; return true;
}
static unsigned leadZeros(Expr *e) {  // known zero top bits
  if (isC(e)) return e->c ? (unsigned)(__builtin_clzll(e->c) - (64 - e->w)) : e->w;
  if (e->k == K_ZEXT) return e->w - e->a->w + leadZeros(e->a);
  if (e->k == K_CONCAT && isC(e->a)) { unsigned z = leadZeros(e->a); return z == e->a->w ? z + leadZeros(e->b) : z; }
  if (e->k == K_ITE) return std::min(leadZeros(e->b), leadZeros(e->d));
  return 0;
}
static bool addCarry(std::vector<u64> &a, const std::vector<u64> &b, bool sub) {
  unsigned __int128 c = sub ? 1 : 0; for (size_t i = 0; i < a.size(); i++) { c += (unsigned __int128)a[i] + (sub ? ~b[i] : b[i]); a[i] = (u64)c; c >>= 64; } return true;
}
static Expr *foldWide(EK k, Expr *a, Expr *b) {
  std::vector<u64> x, y; if (!wideConst(a, x) || !wideConst(b, y)) return nullptr; unsigned w = a->w; size_t n = x.size();
  auto trim = [&](std::vector<u64> &v) { if (w % 64) v.back() &= maskW(w % 64); };
  switch (k) {
    case K_ADD: addCarry(x, y, false); break; case K_SUB: addCarry(x, y, true); break;
    case K_AND: for (size_t i = 0; i < n; i++) x[i] &= y[i]; break; case K_OR: for (size_t i = 0; i < n; i++) x[i] |= y[i]; break; case K_XOR: for (size_t i = 0; i < n; i++) x[i] ^= y[i]; break;
    case K_MUL: { std::vector<u64> r(n, 0); for (size_t i = 0; i < n; i++) { u64 c = 0; for (size_t j = 0; i + j < n; j++) { unsigned __int128 t = (unsigned __int128)x[i] * y[j] + r[i + j] + c; r[i + j] = (u64)t; c = t >> 64; } } x = r; break; }
    case K_EQ: return mkConst(x == y, 1);
    case K_ULT: case K_ULE: { for (size_t i = n; i-- > 0;) if (x[i] != y[i]) return mkConst(x[i] < y[i], 1); return mkConst(k == K_ULE, 1); }
    case K_SHL: case K_LSHR: { u64 s = y[0]; bool big = s >= w; for (size_t i = 1; i < n; i++) big |= y[i] != 0; std::vector<u64> r(n, 0);
      if (!big) for (unsigned i = 0; i < w; i++) { unsigned from; if (k == K_SHL) { if (i < s) continue; from = i - s; } else { from = i + s; if (from >= w) continue; } if ((x[from / 64] >> (from % 64)) & 1) r[i / 64] |= 1ull << (i % 64); } x = r; break; }
    case K_UDIV: case K_UREM: { if (n != 2) return nullptr; unsigned __int128 p = ((unsigned __int128)x[1] << 64) | x[0], q = ((unsigned __int128)y[1] << 64) | y[0]; if (!q) return nullptr; unsigned __int128 r = k == K_UDIV ? p / q : p % q; x[0] = (u64)r; x[1] = (u64)(r >> 64); break; }
    default: return nullptr;
  }
  trim(x); return mkWide(x, w);
}
Expr *mkBin(EK k, Expr *a, Expr *b) {
  if (a->w != b->w) { fprintf(stderr, "mkBin width mismatch k=%d %d %d\n", k, a->w, b->w); abort(); }
  unsigned w = a->w; bool cmp = k >= K_EQ && k <= K_SLE;
  if (isC(a) && isC(b)) { u64 r; foldBin(k, a->c, b->c, w, r); return mkConst(r, cmp ? 1 : w); }
  if (w > 64 && a->vs->v.empty() && b->vs->v.empty()) if (Expr *r = foldWide(k, a, b)) return r;
  // commutative: constant right, else by id
  if (k == K_ADD || k == K_MUL || k == K_AND || k == K_OR || k == K_XOR || k == K_EQ) { if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b); }
  bool bc = isC(b);
  switch (k) {
    case K_ADD:
      if (bc && b->c == 0) return a;
      if (w == 1) return mkBin(K_XOR, a, b);
      if (bc && a->k == K_ADD && isC(a->b)) return mkBin(K_ADD, a->a, mkConst(a->b->c + b->c, w));
      if (a->k == K_ITE && bc && isC(a->b) && isC(a->d)) return mkIte(a->a, mkBin(K_ADD, a->b, b), mkBin(K_ADD, a->d, b));
      if (w <= 64) if (Expr *r = tryDisjoint(K_ADD, a, b)) return r;
      break;
    case K_SUB:
      if (a == b) return mkConst(0, w); if (bc) return mkBin(K_ADD, a, mkConst(-b->c, w)); if (w == 1) return mkBin(K_XOR, a, b);
      if (w <= 64 && a->k == K_ADD && a->a == b) return a->b; if (w <= 64 && a->k == K_ADD && a->b == b) return a->a;
      break;
    case K_MUL:
      if (bc && b->c == 0 && w <= 64) return b; if (bc && b->c == 1) return a;
      if (bc && w <= 64 && (b->c & (b->c - 1)) == 0) return mkBin(K_SHL, a, mkConst(__builtin_ctzll(b->c), w));
      if (w == 1) return mkBin(K_AND, a, b);
      break;
    case K_UDIV: if (bc && b->c == 1) return a; if (bc && b->c && w <= 64 && (b->c & (b->c - 1)) == 0) return mkBin(K_LSHR, a, mkConst(__builtin_ctzll(b->c), w)); break;
    case K_UREM: if (bc && b->c && w <= 64 && (b->c & (b->c - 1)) == 0) return mkBin(K_AND, a, mkConst(b->c - 1, w)); break;
    case K_AND:
      if (a == b) return a;
      if (w <= 64 && bc) { if (b->c == 0) return b; if (b->c == maskW(w)) return a;
        if (a->k == K_AND && isC(a->b)) return mkBin(K_AND, a->a, mkConst(a->b->c & b->c, w));
        if (a->k == K_ITE && (isC(a->b) || isC(a->d))) return mkIte(a->a, mkBin(K_AND, a->b, b), mkBin(K_AND, a->d, b));
        if (Expr *r = andMask(a, b->c)) return r; }
      if (w == 1) { if (negOf(a) == b || negOf(b) == a) return mkConst(0, 1); if (a->k == K_AND && (a->a == b || a->b == b)) return a; if (b->k == K_AND && (b->a == a || b->b == a)) return b; }
      if (w > 1 && w <= 64) { // zext(x) & y -> zext(x & trunc y)
        unsigned z = std::max(leadZeros(a), leadZeros(b)); if (z > 0 && z < w && (a->k == K_ZEXT || b->k == K_ZEXT || a->k == K_CONCAT || b->k == K_CONCAT)) return mkZExt(mkBin(K_AND, mkExtract(a, 0, w - z), mkExtract(b, 0, w - z)), w); }
      break;
    case K_OR:
      if (a == b) return a;
      if (w <= 64 && bc) { if (b->c == 0) return a; if (b->c == maskW(w)) return b;
        if (a->k == K_ITE && isC(a->b) && isC(a->d)) return mkIte(a->a, mkBin(K_OR, a->b, b), mkBin(K_OR, a->d, b)); }
      if (w == 1) { if (negOf(a) == b || negOf(b) == a) return mkConst(1, 1); if (a->k == K_OR && (a->a == b || a->b == b)) return a; if (b->k == K_OR && (b->a == a || b->b == a)) return b; }
      if (w > 1) if (Expr *r = tryDisjoint(K_OR, a, b)) return r;
      break;
    case K_XOR:
      if (a == b) return mkConst(0, w);
      if (w <= 64 && bc) { if (b->c == 0) return a; if (a->k == K_XOR && isC(a->b)) return mkBin(K_XOR, a->a, mkConst(a->b->c ^ b->c, w));
        if (w == 1) { if (a->k == K_ULT) return mkBin(K_ULE, a->b, a->a); if (a->k == K_ULE) return mkBin(K_ULT, a->b, a->a); if (a->k == K_SLT) return mkBin(K_SLE, a->b, a->a); if (a->k == K_SLE) return mkBin(K_SLT, a->b, a->a); }
        if (a->k == K_ITE && (isC(a->b) || isC(a->d))) return mkIte(a->a, mkBin(K_XOR, a->b, b), mkBin(K_XOR, a->d, b)); }
      if (w > 1) if (Expr *r = tryDisjoint(K_XOR, a, b)) return r;
      break;
    case K_SHL: if (bc && w <= 64) { if (b->c == 0) return a; if (b->c >= w) return mkConst(0, w); return mkConcat(mkExtract(a, 0, w - b->c), mkConst(0, b->c)); }
      if (isC(a) && a->c == 0) return a;
      { std::vector<u64> y; if (w > 64 && wideConst(b, y)) { u64 s = y[0]; if (s == 0) return a; if (s >= w) return mkConst(0, w); return mkConcat(mkExtract(a, 0, w - s), mkConst(0, s)); } }
      break;
    case K_LSHR: if (bc && w <= 64) { if (b->c == 0) return a; if (b->c >= w) return mkConst(0, w); return mkZExt(mkExtract(a, b->c, w - b->c), w); }
      if (isC(a) && a->c == 0) return a;
      { std::vector<u64> y; if (w > 64 && wideConst(b, y)) { u64 s = y[0]; if (s == 0) return a; if (s >= w) return mkConst(0, w); return mkZExt(mkExtract(a, s, w - s), w); } }
      break;
    case K_ASHR: if (bc && w <= 64) { if (b->c == 0) return a; u64 s = b->c >= w ? w - 1 : b->c; if (leadZeros(a) > 0) return mkBin(K_LSHR, a, mkConst(s, w)); return mkSExt(mkExtract(a, s, w - s), w); } break;
    case K_EQ:
      if (a == b) return mkConst(1, 1);
      if (w == 1 && bc) return b->c ? a : mkNot(a);
      if (bc && w <= 64) {
        if (a->k == K_ZEXT) { if (b->c >> a->a->w) return mkConst(0, 1); return mkBin(K_EQ, a->a, mkConst(b->c, a->a->w)); }
        if (a->k == K_SEXT) { u64 t = b->c & maskW(a->a->w); if ((u64)(sextW(t, a->a->w)) != (u64)sextW(b->c, w)) return mkConst(0, 1); return mkBin(K_EQ, a->a, mkConst(t, a->a->w)); }
        if (a->k == K_CONCAT) { unsigned lw = a->b->w; return mkBin(K_AND, mkBin(K_EQ, a->a, mkConst(b->c >> lw, a->a->w)), mkBin(K_EQ, a->b, mkConst(b->c, lw))); }
        if (a->k == K_ADD && isC(a->b)) return mkBin(K_EQ, a->a, mkConst(b->c - a->b->c, w));
        if (a->k == K_XOR && isC(a->b)) return mkBin(K_EQ, a->a, mkConst(b->c ^ a->b->c, w));
        if ((a->k == K_SUB || a->k == K_XOR) && b->c == 0) return mkBin(K_EQ, a->a, a->b);
        if (a->k == K_OR && b->c == 0) return mkBin(K_AND, mkBin(K_EQ, a->a, b), mkBin(K_EQ, a->b, b));
        if (a->k == K_ITE) { Expr *t = nullptr, *f = nullptr; if (isC(a->b)) t = mkConst(a->b->c == b->c, 1); if (isC(a->d)) f = mkConst(a->d->c == b->c, 1);
          if (t || f) { if (!t) t = mkBin(K_EQ, a->b, b); if (!f) f = mkBin(K_EQ, a->d, b); return mkIte(a->a, t, f); } }
      }
      if (w > 64) { std::vector<u64> y; if (a->vs->v.empty()) std::swap(a, b); if (b->vs->v.empty() && wideConst(b, y)) {
          if (a->k == K_ZEXT) { unsigned aw = a->a->w; for (unsigned i = aw; i < w; i++) if ((y[i / 64] >> (i % 64)) & 1) return mkConst(0, 1); return mkBin(K_EQ, a->a, mkExtract(b, 0, aw)); }
          if (a->k == K_CONCAT) { unsigned lw = a->b->w; return mkBin(K_AND, mkBin(K_EQ, a->a, mkExtract(b, lw, w - lw)), mkBin(K_EQ, a->b, mkExtract(b, 0, lw))); } } }
      if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return mkBin(K_EQ, a->a, b->a);
      if (a->k == K_CONCAT && b->k == K_CONCAT && a->b->w == b->b->w) return mkBin(K_AND, mkBin(K_EQ, a->a, b->a), mkBin(K_EQ, a->b, b->b));
      if (a->k == K_ADD && b->k == K_ADD && isC(a->b) && isC(b->b) && a->a == b->a) return mkConst(a->b->c == b->b->c, 1);
      if (a->k == K_ADD && isC(a->b) && a->a == b && w <= 64) return mkConst(a->b->c == 0, 1);
      if (b->k == K_ADD && isC(b->b) && b->a == a && w <= 64) return mkConst(b->b->c == 0, 1);
      break;
    case K_ULT:
      if (a == b) return mkConst(0, 1);
      if (bc && w <= 64) { if (b->c == 0) return mkConst(0, 1); if (b->c == 1) return mkBin(K_EQ, a, mkConst(0, w)); }
      if (isC(a) && w <= 64) { if (a->c == maskW(w)) return mkConst(0, 1); if (a->c == 0) return mkNot(mkBin(K_EQ, b, mkConst(0, w))); }
      if (w == 1) return mkBin(K_AND, mkNot(a), b);
      goto ucmp;
    case K_ULE:
      if (a == b) return mkConst(1, 1);
      if (isC(a) && a->c == 0 && w <= 64) return mkConst(1, 1); if (bc && b->c == maskW(w) && w <= 64) return mkConst(1, 1);
      if (bc && b->c == 0 && w <= 64) return mkBin(K_EQ, a, b);
      if (w == 1) return mkBin(K_OR, mkNot(a), b);
    ucmp: if (w <= 64) {
        unsigned z = std::min(leadZeros(a), leadZeros(b)); if (z > 0 && z < w) return mkBin(k, mkExtract(a, 0, w - z), mkExtract(b, 0, w - z));
        unsigned za = leadZeros(a), zb = leadZeros(b);
        if (bc && za > 0 && za < w && (b->c >> (w - za))) return mkConst(1, 1);
        if (isC(a) && zb > 0 && zb < w && (a->c >> (w - zb))) return mkConst(0, 1);
        if (bc && a->k == K_ITE && isC(a->b) && isC(a->d)) return mkIte(a->a, mkBin(k, a->b, b), mkBin(k, a->d, b));
        if (isC(a) && b->k == K_ITE && isC(b->b) && isC(b->d)) return mkIte(b->a, mkBin(k, a, b->b), mkBin(k, a, b->d));
        if (a->k == K_CONCAT && b->k == K_CONCAT && a->b->w == b->b->w && (a->a == b->a)) return mkBin(k, a->b, b->b);
        if (a->k == K_CONCAT && b->k == K_CONCAT && a->b->w == b->b->w && (a->b == b->b)) return mkBin(k, a->a, b->a);
      } break;
    case K_SLT: case K_SLE:
      if (a == b) return mkConst(k == K_SLE, 1);
      if (w <= 64 && leadZeros(a) > 0 && leadZeros(b) > 0) return mkBin(k == K_SLT ? K_ULT : K_ULE, a, b);
      if (bc && b->c == 0 && w <= 64 && k == K_SLT) return mkExtract(a, w - 1, 1);
      if (bc && b->c == maskW(w) && w <= 64 && k == K_SLE) return mkExtract(a, w - 1, 1);
      if (isC(a) && w <= 64 && ((k == K_SLE && a->c == 0) || (k == K_SLT && a->c == maskW(w)))) return mkNot(mkExtract(b, w - 1, 1));
      if (bc && w <= 64 && a->k == K_ITE && isC(a->b) && isC(a->d)) return mkIte(a->a, mkBin(k, a->b, b), mkBin(k, a->d, b));
      if (a->k == K_SEXT && b->k == K_SEXT && a->a->w == b->a->w) return mkBin(k, a->a, b->a);
      if (w <= 64 && a->k == K_SEXT && bc) { u64 t = b->c & maskW(a->a->w); if (sextW(t, a->a->w) == sextW(b->c, w)) return mkBin(k, a->a, mkConst(t, a->a->w)); return mkConst(sextW(b->c, w) > 0, 1); }
      if (w <= 64 && leadZeros(a) > 0 && bc) return mkConst(0, 1);  // b negative here
      if (w <= 64 && leadZeros(b) > 0 && isC(a)) return mkConst(1, 1);
      break;
    default: break;
  }
  return intern(k, cmp ? 1 : w, 0, 0, a, b);
}
Expr *mkIte(Expr *c, Expr *a, Expr *b) {
  if (isC(c)) return c->c ? a : b; if (a == b) return a;
  if (a->w != b->w) { fprintf(stderr, "mkIte width\n"); abort(); }
  if (Expr *n = negOf(c)) return mkIte(n, b, a);
  if (a->w == 1) { if (isC(a)) return a->c ? mkBin(K_OR, c, b) : mkBin(K_AND, mkNot(c), b); if (isC(b)) return b->c ? mkBin(K_OR, mkNot(c), a) : mkBin(K_AND, c, a); }
  if (a->k == K_ITE && a->a == c) return mkIte(c, a->b, b);
  if (b->k == K_ITE && b->a == c) return mkIte(c, a, b->d);
  if (b->k == K_ITE && b->b == a) return mkIte(mkBin(K_OR, c, b->a), a, b->d);
  if (isC(a) && isC(b) && a->w > 1 && a->w <= 64) { if (a->c == 1 && b->c == 0) return mkZExt(c, a->w); if (a->c == 0 && b->c == 1) return mkZExt(mkNot(c), a->w); if (a->c == maskW(a->w) && b->c == 0) return mkSExt(c, a->w); if (b->c == maskW(a->w) && a->c == 0) return mkSExt(mkNot(c), a->w); }
  if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return mkZExt(mkIte(c, a->a, b->a), a->w);
  if (a->k == K_CONCAT && b->k == K_CONCAT && a->b->w == b->b->w && a->w <= 64 && (a->a == b->a || a->b == b->b)) return mkConcat(mkIte(c, a->a, b->a), mkIte(c, a->b, b->b));
  return intern(K_ITE, a->w, 0, 0, c, a, b);
}
Expr *mkConcat(Expr *a, Expr *b) {
  unsigned w = a->w + b->w;
  if (isC(a) && isC(b) && w <= 64) return mkConst((a->c << b->w) | b->c, w);
  if (w > 64 && a->vs->v.empty() && b->vs->v.empty()) { std::vector<u64> x; Expr *t = intern(K_CONCAT, w, 0, 0, a, b); if (wideConst(t, x)) return mkWide(x, w); return t; }
  if (isC(a) && a->c == 0) return mkZExt(b, w);
  if (a->k == K_ZEXT) return mkZExt(mkConcat(a->a, b), w);
  // adjacent extracts
  auto join = [](Expr *x, Expr *y) -> Expr * {  // x above y
    Expr *bx = x, *by = y; unsigned lx = 0, ly = 0;
    if (x->k == K_EXTRACT) { bx = x->a; lx = x->lo; } if (y->k == K_EXTRACT) { by = y->a; ly = y->lo; }
    if (bx == by && (x->k == K_EXTRACT || y->k == K_EXTRACT) && lx == ly + y->w) return mkExtract(bx, ly, x->w + y->w);
    if (x->k == K_CONST && y->k == K_CONST && x->w + y->w <= 64) return mkConcat(x, y);
    return nullptr; };
  if (Expr *j = join(a, b)) return j;
  if (a->k == K_CONCAT) return mkConcat(a->a, mkConcat(a->b, b));  // right nested
  if (b->k == K_CONCAT) if (Expr *j = join(a, b->a)) return mkConcat(j, b->b);
  if (b->k == K_ZEXT && isC(a)) { return mkConcat(mkConcat(a, mkConst(0, b->w - b->a->w)), b->a); }
  if (b->k == K_CONCAT && isC(a) && isC(b->a) && a->w + b->a->w <= 64) return mkConcat(mkConcat(a, b->a), b->b);
  return intern(K_CONCAT, w, 0, 0, a, b);
}
static Expr *mkExtract1(Expr *a, unsigned lo, unsigned w);
Expr *mkExtract(Expr *a, unsigned lo, unsigned w) {
  if (a->k != K_AND && a->k != K_OR && a->k != K_XOR && a->k != K_ITE && a->k != K_ADD && a->k != K_SUB && a->k != K_MUL) return mkExtract1(a, lo, w);
  struct Ent { Expr *a; unsigned lo, w; Expr *r; }; static std::vector<Ent> memo(1 << 16); // shared subterms are narrowed once
  u64 h = ((u64)a ^ (u64)lo << 48 ^ (u64)w << 32) * 0x9e3779b97f4a7c15ull; Ent &m = memo[h >> 48]; if (m.a == a && m.lo == lo && m.w == w) return m.r;
  Expr *r = mkExtract1(a, lo, w); memo[h >> 48] = {a, lo, w, r}; return r;
}
static Expr *mkExtract1(Expr *a, unsigned lo, unsigned w) {
  if (lo + w > a->w) { fprintf(stderr, "mkExtract range %u+%u of %u\n", lo, w, a->w); abort(); }
  if (lo == 0 && w == a->w) return a;
  switch (a->k) {
    case K_CONST: return mkConst(a->c >> lo, w);
    case K_EXTRACT: return mkExtract(a->a, a->lo + lo, w);
    case K_ZEXT: if (lo >= a->a->w) return mkConst(0, w); if (lo + w <= a->a->w) return mkExtract(a->a, lo, w); return mkZExt(mkExtract(a->a, lo, a->a->w - lo), w);
    case K_SEXT: if (lo + w <= a->a->w) return mkExtract(a->a, lo, w); if (lo < a->a->w) return mkSExt(mkExtract(a->a, lo, a->a->w - lo), w); return mkSExt(mkExtract(a->a, a->a->w - 1, 1), w);
    case K_CONCAT: { unsigned lw = a->b->w; if (lo + w <= lw) return mkExtract(a->b, lo, w); if (lo >= lw) return mkExtract(a->a, lo - lw, w); return mkConcat(mkExtract(a->a, 0, lo + w - lw), mkExtract(a->b, lo, lw - lo)); }
    case K_AND: case K_OR: case K_XOR: if (a->w <= 512) return mkBin(a->k, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w)); break;
    case K_ITE: if ((isC(a->b) || isC(a->d)) || w == 1 || a->w > 64) return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->d, lo, w)); break;
    case K_ADD: case K_SUB: case K_MUL: if (lo == 0) return mkBin(a->k, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w)); break;
    default: break;
  }
  return intern(K_EXTRACT, w, lo, 0, a);
}
Expr *mkZExt(Expr *a, unsigned w) {
  if (w == a->w) return a; if (isC(a) && w <= 64) return mkConst(a->c, w);
  if (a->vs->v.empty() && w > 64) { std::vector<u64> x; if (wideConst(a, x)) return mkWide(x, w); }
  if (a->k == K_ZEXT) return mkZExt(a->a, w);
  return intern(K_ZEXT, w, 0, 0, a);
}
Expr *mkSExt(Expr *a, unsigned w) {
  if (w == a->w) return a; if (isC(a) && w <= 64) return mkConst((u64)sextW(a->c, a->w), w);
  if (isC(a)) { std::vector<u64> x((w + 63) / 64, sextW(a->c, a->w) < 0 ? ~0ull : 0); x[0] = (u64)sextW(a->c, a->w); if (w % 64) x.back() &= maskW(w % 64); return mkWide(x, w); }
  if (leadZeros(a) > 0) return mkZExt(a, w);
  if (a->k == K_SEXT) return mkSExt(a->a, w);
  return intern(K_SEXT, w, 0, 0, a);
}
// ---- evaluation
static u64 modelIds = 1;
ModelP newModel(const Model *from) { auto m = std::make_shared<Model>(); m->id = ++modelIds; if (from) m->v = from->v; return m; }
u64 evalE(Expr *e, const Model &m) {
  if (e->k == K_CONST) return e->c;
  if (e->k == K_VAR) return e->lo < m.v.size() ? m.v[e->lo] : 0;
  if (e->memoEp == m.id) return e->memo;
  u64 r = 0;
  if (e->w > 64 && e->k != K_CONCAT && e->k != K_ITE && e->k != K_ZEXT && e->k != K_EXTRACT && e->k != K_SEXT && !(e->k >= K_ADD && e->k <= K_XOR)) { fprintf(stderr, "evalE wide kind %d w %d\n", e->k, e->w); }
  switch (e->k) {
    case K_ITE: r = evalE(e->a, m) ? evalE(e->b, m) : evalE(e->d, m); break;
    case K_CONCAT: { u64 lo = evalE(e->b, m); r = e->b->w >= 64 ? lo : (evalE(e->a, m) << e->b->w) | lo; break; }
    case K_EXTRACT: {
      Expr *x = e->a; unsigned lo = e->lo;
      if (x->w <= 64) r = evalE(x, m) >> lo;
      else if (lo == 0) r = evalE(x, m);
      else { // evaluate wide: split generically through bit-sliced simplifier
        // wide kinds that survive simplification: shifts, mul, add with lo>0
        switch (x->k) {
          case K_ADD: case K_SUB: case K_MUL: case K_LSHR: case K_SHL: case K_ASHR: case K_UDIV: case K_UREM: {
            auto get = [&](Expr *y, std::vector<u64> &v) { v.clear(); for (unsigned p = 0; p < y->w; p += 64) v.push_back(evalE(mkExtract(y, p, std::min(64u, y->w - p)), m)); };
            std::vector<u64> p, q; get(x->a, p); get(x->b, q); Expr *f = foldWide(x->k, mkWide(p, x->w), mkWide(q, x->w)); r = f ? evalE(mkExtract(f, lo, e->w), m) : 0; break; }
          default: fprintf(stderr, "evalE: extract of wide kind %d\n", x->k); r = 0;
        } } break; }
    case K_ZEXT: r = evalE(e->a, m); break;
    case K_SEXT: r = (u64)sextW(evalE(e->a, m), e->a->w); break;
    case K_EQ: case K_ULT: case K_ULE: case K_SLT: case K_SLE:
      if (e->a->w > 64) { unsigned w = e->a->w; bool lt = false, eq = true; for (int p = (w - 1) / 64; p >= 0 && eq; p--) { unsigned cw = std::min(64u, w - p * 64); u64 x = evalE(mkExtract(e->a, p * 64, cw), m), y = evalE(mkExtract(e->b, p * 64, cw), m); if (x != y) { eq = false; lt = x < y; } }
        r = e->k == K_EQ ? eq : e->k == K_ULT ? lt : (lt || eq); break; }
      foldBin(e->k, evalE(e->a, m), evalE(e->b, m), e->a->w, r); break;
    default: foldBin(e->k, evalE(e->a, m), evalE(e->b, m), std::min<unsigned>(e->w, 64), r); break;
  }
  if (e->w < 64) r &= maskW(e->w);
  e->memo = r; e->memoEp = m.id; return r;
}
std::string exprStr(Expr *e, int d) {
  static const char *nm[] = {"c", "v", "+", "-", "*", "udiv", "sdiv", "urem", "srem", "&", "|", "^", "shl", "lshr", "ashr", "=", "u<", "u<=", "s<", "s<=", "ite", "concat", "extract", "zext", "sext"};
  char b[64]; if (isC(e)) { snprintf(b, 64, "0x%lx:%d", e->c, e->w); return b; } if (e->k == K_VAR) return vnames[e->lo];
  if (d == 0) return "..."; std::string s = "(" + std::string(nm[e->k]); if (e->k == K_EXTRACT) { snprintf(b, 64, "[%u+%u]", e->lo, e->w); s += b; }
  for (Expr *x : {e->a, e->b, e->d}) if (x) s += " " + exprStr(x, d - 1); return s + ")";
}
// ---- Z3
SolverStats gS; u64 gRlimit = 0;
static Z3_context zc = nullptr; static Z3_solver zs = nullptr;
static std::vector<Z3_ast> zbv, zbool; static std::vector<Z3_ast> zlit; static u32 nDefs = 0; static std::vector<Z3_ast> zvars;
static std::vector<Z3_ast> litAst;
static void zreset() {
  if (zc) { Z3_solver_dec_ref(zc, zs); Z3_del_context(zc); }
  Z3_config cfg = Z3_mk_config(); Z3_set_param_value(cfg, "model", "true"); zc = Z3_mk_context(cfg); Z3_del_config(cfg);
  zs = Z3_mk_simple_solver(zc); Z3_solver_inc_ref(zc, zs);
  Z3_params p = Z3_mk_params(zc); Z3_params_inc_ref(zc, p);
  if (gRlimit) Z3_params_set_uint(zc, p, Z3_mk_string_symbol(zc, "rlimit"), (unsigned)gRlimit);
  Z3_solver_set_params(zc, zs, p); Z3_params_dec_ref(zc, p);
  zbv.clear(); zbool.clear(); zlit.clear(); zvars.clear(); nDefs = 0;
}
static Z3_ast tBool(Expr *e);
static Z3_ast tBV(Expr *e) {
  if (zbv.size() <= e->id) zbv.resize(ecnt + 1024, nullptr);
  if (zbv[e->id]) return zbv[e->id];
  Z3_ast r;
  if (e->k == K_CONST) r = Z3_mk_unsigned_int64(zc, e->c, Z3_mk_bv_sort(zc, e->w));
  else if (e->k == K_VAR) r = Z3_mk_const(zc, Z3_mk_int_symbol(zc, e->lo), Z3_mk_bv_sort(zc, e->w));
  else if (e->w == 1 && (e->k == K_AND || e->k == K_OR || e->k == K_XOR || (e->k >= K_EQ && e->k <= K_SLE))) {
    Z3_sort s1 = Z3_mk_bv_sort(zc, 1); r = Z3_mk_ite(zc, tBool(e), Z3_mk_unsigned_int64(zc, 1, s1), Z3_mk_unsigned_int64(zc, 0, s1)); }
  else switch (e->k) {
    case K_ADD: r = Z3_mk_bvadd(zc, tBV(e->a), tBV(e->b)); break; case K_SUB: r = Z3_mk_bvsub(zc, tBV(e->a), tBV(e->b)); break;
    case K_MUL: r = Z3_mk_bvmul(zc, tBV(e->a), tBV(e->b)); break; case K_UDIV: r = Z3_mk_bvudiv(zc, tBV(e->a), tBV(e->b)); break;
    case K_SDIV: r = Z3_mk_bvsdiv(zc, tBV(e->a), tBV(e->b)); break; case K_UREM: r = Z3_mk_bvurem(zc, tBV(e->a), tBV(e->b)); break;
    case K_SREM: r = Z3_mk_bvsrem(zc, tBV(e->a), tBV(e->b)); break; case K_AND: r = Z3_mk_bvand(zc, tBV(e->a), tBV(e->b)); break;
    case K_OR: r = Z3_mk_bvor(zc, tBV(e->a), tBV(e->b)); break; case K_XOR: r = Z3_mk_bvxor(zc, tBV(e->a), tBV(e->b)); break;
    case K_SHL: r = Z3_mk_bvshl(zc, tBV(e->a), tBV(e->b)); break; case K_LSHR: r = Z3_mk_bvlshr(zc, tBV(e->a), tBV(e->b)); break;
    case K_ASHR: r = Z3_mk_bvashr(zc, tBV(e->a), tBV(e->b)); break;
    case K_ITE: r = Z3_mk_ite(zc, tBool(e->a), tBV(e->b), tBV(e->d)); break;
    case K_CONCAT: r = Z3_mk_concat(zc, tBV(e->a), tBV(e->b)); break;
    case K_EXTRACT: r = Z3_mk_extract(zc, e->lo + e->w - 1, e->lo, tBV(e->a)); break;
    case K_ZEXT: r = Z3_mk_zero_ext(zc, e->w - e->a->w, tBV(e->a)); break;
    case K_SEXT: r = Z3_mk_sign_ext(zc, e->w - e->a->w, tBV(e->a)); break;
    default: fprintf(stderr, "tBV kind %d\n", e->k); abort();
  }
  if (zbv.size() <= e->id) zbv.resize(ecnt + 1024, nullptr);
  zbv[e->id] = r; return r;
}
static Z3_ast tBool(Expr *e) {
  if (zbool.size() <= e->id) zbool.resize(ecnt + 1024, nullptr);
  if (zbool[e->id]) return zbool[e->id];
  Z3_ast r;
  switch (e->k) {
    case K_CONST: r = e->c ? Z3_mk_true(zc) : Z3_mk_false(zc); break;
    case K_EQ: r = e->a->w == 1 ? Z3_mk_iff(zc, tBool(e->a), tBool(e->b)) : Z3_mk_eq(zc, tBV(e->a), tBV(e->b)); break;
    case K_ULT: r = Z3_mk_bvult(zc, tBV(e->a), tBV(e->b)); break; case K_ULE: r = Z3_mk_bvule(zc, tBV(e->a), tBV(e->b)); break;
    case K_SLT: r = Z3_mk_bvslt(zc, tBV(e->a), tBV(e->b)); break; case K_SLE: r = Z3_mk_bvsle(zc, tBV(e->a), tBV(e->b)); break;
    case K_AND: { Z3_ast x[2] = {tBool(e->a), tBool(e->b)}; r = Z3_mk_and(zc, 2, x); break; }
    case K_OR: { Z3_ast x[2] = {tBool(e->a), tBool(e->b)}; r = Z3_mk_or(zc, 2, x); break; }
    case K_XOR: if (isC(e->b)) r = e->b->c ? Z3_mk_not(zc, tBool(e->a)) : tBool(e->a); else r = Z3_mk_xor(zc, tBool(e->a), tBool(e->b)); break;
    case K_ITE: r = Z3_mk_ite(zc, tBool(e->a), tBool(e->b), tBool(e->d)); break;
    default: r = Z3_mk_eq(zc, tBV(e), Z3_mk_unsigned_int64(zc, 1, Z3_mk_bv_sort(zc, 1)));
  }
  if (zbool.size() <= e->id) zbool.resize(ecnt + 1024, nullptr);
  zbool[e->id] = r; return r;
}
static Z3_ast litFor(Expr *e) {
  if (zlit.size() <= e->id) zlit.resize(ecnt + 1024, nullptr);
  if (zlit[e->id]) return zlit[e->id];
  Z3_ast l = Z3_mk_fresh_const(zc, "p", Z3_mk_bool_sort(zc));
  Z3_solver_assert(zc, zs, Z3_mk_implies(zc, l, tBool(e))); nDefs++;
  if (zlit.size() <= e->id) zlit.resize(ecnt + 1024, nullptr);
  zlit[e->id] = l; return l;
}

// ---- order reasoning: facts of the slice about <, <=, = are closed transitively and used to rewrite the question
struct OrderDB {
  std::vector<Expr *> terms; std::unordered_map<Expr *, int> idx; std::vector<u8> R[2]; int n = 0; // 0 none 1 <= 2 <
  std::unordered_map<Expr *, Expr *> rep; std::unordered_map<Expr *, int> known; std::unordered_map<Expr *, Expr *> memo; bool contra = false, hasSigned = false;
  int add(Expr *e) { auto it = idx.find(e); if (it != idx.end()) return it->second; int i = terms.size(); terms.push_back(e); idx[e] = i; return i; }
  void build(const std::vector<Expr *> &sl) {
    struct F { int s, a, b, st; }; std::vector<F> fs; std::vector<std::pair<int, int>> ne;
    for (Expr *e : sl) { known[e] = 1; Expr *ng = mkNot(e); known[ng] = 0; bool pos = true; Expr *x = e; if (x->k == K_XOR && x->w == 1 && isC(x->b) && x->b->c) { x = x->a; pos = false; }
      if (x->k < K_EQ || x->k > K_SLE || x->a->w == 1 || x->a->w > 64) continue; if (terms.size() > 60) continue;
      int a = add(x->a), b = add(x->b), s = x->k == K_SLT || x->k == K_SLE; if (s) hasSigned = true;
      switch (x->k) { case K_EQ: if (pos) { for (int q = 0; q < 2; q++) { fs.push_back({q, a, b, 1}); fs.push_back({q, b, a, 1}); } } else ne.push_back({a, b}); break;
        case K_ULT: case K_SLT: if (pos) fs.push_back({s, a, b, 2}); else fs.push_back({s, b, a, 1}); break;
        default: if (pos) fs.push_back({s, a, b, 1}); else fs.push_back({s, b, a, 2}); } }
    n = terms.size(); int N = n;
    for (int s = 0; s < (hasSigned ? 2 : 1); s++) { auto &M = R[s]; M.assign(N * N, 0); for (int i = 0; i < N; i++) M[i * N + i] = 1;
      for (int i = 0; i < N; i++) if (isC(terms[i])) for (int j = 0; j < N; j++) if (i != j && isC(terms[j]) && terms[i]->w == terms[j]->w) { bool lt = s ? sextW(terms[i]->c, terms[i]->w) < sextW(terms[j]->c, terms[j]->w) : terms[i]->c < terms[j]->c; if (lt) M[i * N + j] = 2; }
      for (auto &f : fs) if (f.s == s) { auto &r = M[f.a * N + f.b]; if (f.st > r) r = f.st; } }
    for (int round = 0; round < 4; round++) { bool ch = false;
      for (int s = 0; s < (hasSigned ? 2 : 1); s++) { auto &M = R[s];
        for (int k = 0; k < N; k++) for (int i = 0; i < N; i++) { u8 a = M[i * N + k]; if (!a) continue; u8 *ri = &M[i * N], *rk = &M[k * N]; for (int j = 0; j < N; j++) { u8 b = rk[j]; if (!b) continue; u8 v = a > b ? a : b; if (v > ri[j]) ri[j] = v; } }
        for (int i = 0; i < N; i++) if (M[i * N + i] == 2) contra = true;
        for (auto &p : ne) { if (M[p.first * N + p.second] == 1) { M[p.first * N + p.second] = 2; ch = true; } if (M[p.second * N + p.first] == 1) { M[p.second * N + p.first] = 2; ch = true; } } }
      if (!ch) break; }
    for (int i = 0; i < N; i++) { Expr *b = terms[i]; if (isC(b)) continue; Expr *best = b; for (int j = 0; j < N; j++) if (j != i && R[0][i * N + j] == 1 && R[0][j * N + i] == 1) { Expr *t = terms[j]; if (isC(t)) { best = t; break; } if (t->id < best->id) best = t; } if (best != b) rep[b] = best; }
    for (auto &p : ne) { known[mkBin(K_EQ, terms[p.first], terms[p.second])] = 0; }
  }
  int rel(Expr *a, Expr *b, EK k) { // 1 true 0 false -1 unknown
    int s = k == K_SLT || k == K_SLE; if (s && !hasSigned) return -1; auto ia = idx.find(a), ib = idx.find(b); 
    if (ia == idx.end() || ib == idx.end()) { // a constant that is not a term: compare through neighbours
      if (s || k == K_EQ + 100) return -1;
      Expr *c = nullptr; int t = -1; bool cFirst = false; if (ia == idx.end() && isC(a) && ib != idx.end()) { c = a; t = ib->second; cFirst = true; } else if (ib == idx.end() && isC(b) && ia != idx.end()) { c = b; t = ia->second; } else return -1;
      int up = 0, dn = 0; // t vs c : up: t<c or t<=c ; dn: t>c
      for (int j = 0; j < n; j++) if (isC(terms[j]) && terms[j]->w == c->w) { u8 r1 = R[0][t * n + j], r2 = R[0][j * n + t]; if (r1 && terms[j]->c <= c->c) { int v = (terms[j]->c < c->c || r1 == 2) ? 2 : 1; if (v > up) up = v; } if (r2 && terms[j]->c >= c->c) { int v = (terms[j]->c > c->c || r2 == 2) ? 2 : 1; if (v > dn) dn = v; } }
      if (k == K_EQ) return up == 2 || dn == 2 ? 0 : -1;
      if (!cFirst) { if (k == K_ULT) return up == 2 ? 1 : dn >= 1 ? 0 : -1; return up >= 1 ? 1 : dn == 2 ? 0 : -1; }
      if (k == K_ULT) return dn == 2 ? 1 : up >= 1 ? 0 : -1; return dn >= 1 ? 1 : up == 2 ? 0 : -1; }
    u8 ab = R[s][ia->second * n + ib->second], ba = R[s][ib->second * n + ia->second];
    if (k == K_EQ) { if (ab == 2 || ba == 2) return 0; if (ab && ba) return 1; return -1; }
    if (k == K_ULT || k == K_SLT) { if (ab == 2) return 1; if (ba) return 0; return -1; }
    if (ab) return 1; if (ba == 2) return 0; return -1; }
  Expr *rw(Expr *e) {
    if (e->vs->v.empty()) return e;
    auto it = memo.find(e); if (it != memo.end()) return it->second;
    Expr *r = e;
    if (e->w == 1) { auto kn = known.find(e); if (kn != known.end()) { r = mkConst(kn->second, 1); memo[e] = r; return r; } }
    auto rp = rep.find(e); if (rp != rep.end()) { memo[e] = rp->second; return rp->second; }
    switch (e->k) {
      case K_VAR: break;
      case K_EQ: case K_ULT: case K_ULE: case K_SLT: case K_SLE: { int v = rel(e->a, e->b, e->k); if (v < 0) { Expr *a = rw(e->a), *b = rw(e->b); if (a != e->a || b != e->b) { r = mkBin(e->k, a, b); if (!isC(r) && r->k >= K_EQ && r->k <= K_SLE) { v = rel(r->a, r->b, r->k); if (v < 0) { auto kn = known.find(r); if (kn != known.end()) v = kn->second; } } } } if (v >= 0) r = mkConst(v, 1); break; }
      case K_ITE: { Expr *c = rw(e->a); if (isC(c)) r = rw(c->c ? e->b : e->d); else r = mkIte(c, rw(e->b), rw(e->d)); break; }
      case K_AND: if (e->w == 1) { Expr *a = rw(e->a); if (isC(a) && !a->c) { r = a; break; } r = mkBin(K_AND, a, rw(e->b)); break; } r = mkBin(e->k, rw(e->a), rw(e->b)); break;
      case K_OR: if (e->w == 1) { Expr *a = rw(e->a); if (isC(a) && a->c) { r = a; break; } r = mkBin(K_OR, a, rw(e->b)); break; } r = mkBin(e->k, rw(e->a), rw(e->b)); break;
      case K_EXTRACT: { Expr *a = rw(e->a); if (a != e->a) r = mkExtract(a, e->lo, e->w); break; }
      case K_ZEXT: { Expr *a = rw(e->a); if (a != e->a) r = mkZExt(a, e->w); break; }
      case K_SEXT: { Expr *a = rw(e->a); if (a != e->a) r = mkSExt(a, e->w); break; }
      case K_CONCAT: { Expr *a = rw(e->a), *b = rw(e->b); if (a != e->a || b != e->b) r = mkConcat(a, b); break; }
      default: { Expr *a = rw(e->a), *b = rw(e->b); if (a != e->a || b != e->b) r = mkBin(e->k, a, b); }
    }
    memo[e] = r; return r;
  }
};
// ---- small-domain encoding: variables used only in comparisons keep their order in few bits
struct Compact {
  bool ok = true; int sgn = -1; unsigned W = 0; std::vector<Expr *> cs; std::vector<Expr *> vs; std::unordered_map<Expr *, int> st; // visited
  void term(Expr *e) { if (!ok) return; if (st.count(e)) return; st[e] = 1; if (e->w != W) { if (W) { ok = false; return; } W = e->w; }
    if (e->k == K_CONST) cs.push_back(e); else if (e->k == K_VAR) vs.push_back(e); else if (e->k == K_ITE) { boolean(e->a); term(e->b); term(e->d); } else ok = false; }
  void boolean(Expr *e) { if (!ok || st.count(e)) return; st[e] = 1;
    switch (e->k) { case K_CONST: return; case K_VAR: return; // 1-bit variable
      case K_EQ: if (e->a->w == 1) { boolean(e->a); boolean(e->b); } else { term(e->a); term(e->b); } return;
      case K_ULT: case K_ULE: case K_SLT: case K_SLE: { int s = e->k >= K_SLT; if (e->a->w == 1) { ok = false; return; } if (sgn >= 0 && sgn != s) { ok = false; return; } sgn = s; term(e->a); term(e->b); return; }
      case K_AND: case K_OR: case K_XOR: boolean(e->a); boolean(e->b); return; case K_ITE: boolean(e->a); boolean(e->b); boolean(e->d); return; default: ok = false; } }
  std::vector<u64> val; unsigned B = 0; std::unordered_map<u64, u32> code; std::vector<u64> back;
  u64 fl(u64 c) { return sgn == 1 ? c ^ (1ull << (W - 1)) : c; }
  bool plan() { if (!ok || !W || W < 12) return false; std::vector<u64> c; for (Expr *e : cs) c.push_back(fl(e->c)); std::sort(c.begin(), c.end()); c.erase(std::unique(c.begin(), c.end()), c.end()); u64 n = vs.size(), mx = maskW(W);
    u64 prev = 0; bool first = true; for (size_t i = 0; i <= c.size(); i++) { u64 lo = first ? 0 : prev + 1; bool end = i == c.size(); if (!first && prev == mx) break; u64 gap; // values in [lo, c_i) or [lo, mx]
        if (end) gap = mx - lo + 1 == 0 ? ~0ull : mx - lo + 1; else gap = c[i] - lo; u64 k = std::min(gap, n); for (u64 j = 0; j < k; j++) back.push_back(lo + j); if (!end) { code[c[i]] = back.size(); back.push_back(c[i]); prev = c[i]; first = false; } }
    while ((1ull << B) < back.size()) B++; if (B < 1) B = 1; return B <= 16 && B < W; }
  std::unordered_map<Expr *, Z3_ast> mt, mb;
  Z3_ast zt(Expr *e) { auto it = mt.find(e); if (it != mt.end()) return it->second; Z3_ast r; Z3_sort so = Z3_mk_bv_sort(zc, B); if (e->k == K_CONST) r = Z3_mk_unsigned_int64(zc, code[fl(e->c)], so); else if (e->k == K_VAR) r = Z3_mk_const(zc, Z3_mk_int_symbol(zc, e->lo), so); else r = Z3_mk_ite(zc, zb(e->a), zt(e->b), zt(e->d)); mt[e] = r; return r; }
  Z3_ast zb(Expr *e) { auto it = mb.find(e); if (it != mb.end()) return it->second; Z3_ast r;
    switch (e->k) { case K_CONST: r = e->c ? Z3_mk_true(zc) : Z3_mk_false(zc); break; case K_VAR: r = Z3_mk_const(zc, Z3_mk_int_symbol(zc, e->lo), Z3_mk_bool_sort(zc)); break;
      case K_EQ: r = e->a->w == 1 ? Z3_mk_iff(zc, zb(e->a), zb(e->b)) : Z3_mk_eq(zc, zt(e->a), zt(e->b)); break; case K_ULT: case K_SLT: r = Z3_mk_bvult(zc, zt(e->a), zt(e->b)); break; case K_ULE: case K_SLE: r = Z3_mk_bvule(zc, zt(e->a), zt(e->b)); break;
      case K_AND: { Z3_ast x[2] = {zb(e->a), zb(e->b)}; r = Z3_mk_and(zc, 2, x); break; } case K_OR: { Z3_ast x[2] = {zb(e->a), zb(e->b)}; r = Z3_mk_or(zc, 2, x); break; }
      case K_XOR: if (isC(e->b)) r = e->b->c ? Z3_mk_not(zc, zb(e->a)) : zb(e->a); else r = Z3_mk_xor(zc, zb(e->a), zb(e->b)); break; default: r = Z3_mk_ite(zc, zb(e->a), zb(e->b), zb(e->d)); }
    mb[e] = r; return r; }
};
struct CacheEnt { SatRes r; std::vector<std::pair<u32, u64>> m; };
struct KeyHash { size_t operator()(const std::vector<u32> &v) const { u64 h = 1469598103934665603ull; for (u32 x : v) { h ^= x; h *= 1099511628211ull; h ^= h >> 27; } return h; } };
static std::unordered_map<std::vector<u32>, CacheEnt, KeyHash> qcache;
static ModelP withVals(const ModelP &base, const std::vector<std::pair<u32, u64>> &vals) {
  ModelP n = newModel(base.get()); for (auto &p : vals) { if (n->v.size() <= p.first) n->v.resize(p.first + 1, 0); n->v[p.first] = p.second; } return n;
}
SatRes checkSat(const std::vector<Expr *> &pc, Expr *cond, const ModelP &base, ModelP &out) {
  if (isC(cond)) { if (cond->c) { out = base; return SAT; } return UNSAT; }
  gS.queries++;
  // slice
  static std::vector<u8> mark; if (mark.size() < numVars()) mark.resize(numVars() + 64, 0);
  std::vector<u32> vars = cond->vs->v; for (u32 v : vars) mark[v] = 1;
  std::vector<Expr *> sl; static std::vector<u8> used; used.assign(pc.size(), 0);
  bool ch = true;
  while (ch) { ch = false;
    for (size_t i = 0; i < pc.size(); i++) if (!used[i]) { bool hit = false; for (u32 v : pc[i]->vs->v) if (mark[v]) { hit = true; break; } if (!hit) continue;
      used[i] = 1; if (pc[i] != cond) sl.push_back(pc[i]); for (u32 v : pc[i]->vs->v) if (!mark[v]) { mark[v] = 1; vars.push_back(v); ch = true; } } }
  for (u32 v : vars) mark[v] = 0;
  Expr *neg = mkNot(cond);
  for (Expr *e : sl) if (e == neg) { gS.cacheHits++; gS.unsat++; return UNSAT; }
  std::vector<u32> key; for (Expr *e : sl) key.push_back(e->id); std::sort(key.begin(), key.end()); key.push_back(cond->id);
  auto it = qcache.find(key);
  if (it != qcache.end()) { gS.cacheHits++; if (it->second.r == SAT) { out = withVals(base, it->second.m); gS.sat++; return SAT; } if (it->second.r == UNSAT) gS.unsat++; else gS.unknown++; return it->second.r; }
  CacheEnt ent;
  // variables the path has fixed to one value are constants here
  std::vector<std::pair<u32, u64>> fixd; std::vector<u32> fr; { static std::vector<u8> fm; if (fm.size() < numVars()) fm.resize(numVars() + 64, 0);
    for (Expr *e : sl) if (e->k == K_EQ) { Expr *a = e->a, *b = e->b; if (isC(a)) std::swap(a, b); if (isC(b) && a->k == K_VAR && !fm[a->lo]) { fm[a->lo] = 1; fixd.push_back({a->lo, b->c}); } }
    for (u32 v : vars) if (!fm[v]) fr.push_back(v); for (auto &p : fixd) fm[p.first] = 0; }
  unsigned tot = 0; for (u32 v : fr) tot += varWidth(v);
  if (tot <= 8) {  // brute force over at most 256 assignments
    gS.brute++; ent.r = UNSAT; ModelP m = newModel(base.get()); for (u32 v : vars) if (m->v.size() <= v) m->v.resize(v + 1, 0); for (auto &p : fixd) m->v[p.first] = p.second;
    for (u64 x = 0; x < (1ull << tot); x++) { m->id = newModel(nullptr)->id; u64 y = x; for (u32 v : fr) { m->v[v] = y & maskW(varWidth(v)); y >>= varWidth(v); }
      if (!evalE(cond, *m)) continue; bool ok = true; for (Expr *e : sl) if (!evalE(e, *m)) { ok = false; break; }
      if (ok) { ent.r = SAT; for (u32 v : vars) ent.m.push_back({v, m->v[v]}); break; } }
  } else {
    std::vector<u32> pk(key.begin(), key.end() - 1); static std::vector<u32> lastPk; static OrderDB *odb = nullptr;
    if (!odb || pk != lastPk) { delete odb; odb = new OrderDB; odb->build(sl); lastPk = pk; }
    Expr *c2 = odb->rw(cond);
    if (isC(c2)) { gS.order++; ent.r = c2->c ? SAT : UNSAT; if (c2->c) for (u32 v : vars) ent.m.push_back({v, v < base->v.size() ? base->v[v] : 0}); goto done; }
    if (!zc || nDefs > 20000) zreset();
    Compact cp; cp.boolean(c2); for (Expr *e : sl) cp.boolean(e); bool useC = cp.ok && cp.plan(); if (useC) gS.compact++;
    auto t0 = std::chrono::steady_clock::now(); gS.z3++;
    auto guess = [&](int tries) {
      u64 sd = 88172645463325252ull ^ (cond->id * 0x9E3779B97F4A7C15ull) ^ (sl.size() << 20); auto rnd = [&] { sd ^= sd << 13; sd ^= sd >> 7; sd ^= sd << 17; return sd; };
      ModelP m = newModel(base.get()); for (u32 v : vars) if (m->v.size() <= v) m->v.resize(v + 1, 0); for (auto &p : fixd) m->v[p.first] = p.second; std::vector<u64> b0; for (u32 v : fr) b0.push_back(m->v[v]);
      for (int t = 0; t < tries; t++) { m->id = newModel(nullptr)->id; for (size_t i = 0; i < fr.size(); i++) { u64 k = rnd() >> 40, x = b0[i]; if (t > 1 && (k & 3) == 0) x = m->v[fr[(k >> 4) % fr.size()]]; else if (t == 0 || (k & 3) == 1) x = rnd(); else if ((k & 3) == 2) x = (k >> 4) & 1 ? 0 : ~0ull; m->v[fr[i]] = x & maskW(varWidth(fr[i])); }
        if (!evalE(cond, *m)) continue; bool ok = true; for (Expr *e : sl) if (!evalE(e, *m)) { ok = false; break; }
        if (ok) { gS.guess++; ent.r = SAT; for (u32 v : vars) ent.m.push_back({v, m->v[v]}); return true; } }
      return false; };
    static std::vector<u32> seen; static u32 stamp = 0; stamp++; std::vector<Expr *> wk{c2}; u32 nn = 0;  // size of the condition's graph
    while (!wk.empty() && nn < 3000) { Expr *e = wk.back(); wk.pop_back(); if (!e) continue; if (seen.size() <= e->id) seen.resize(e->id + 1024, 0); if (seen[e->id] == stamp) continue; seen[e->id] = stamp; nn++; if (isC(e) || e->k == K_VAR) continue; wk.push_back(e->a); wk.push_back(e->b); wk.push_back(e->d); }
    if (nn >= 3000 && guess(40)) goto done;  // a few guesses before a long search (a model is a model, however it was found)
    auto mk = [&](u64 lim) { Z3_solver q = Z3_mk_solver_for_logic(zc, Z3_mk_string_symbol(zc, "QF_BV")); Z3_solver_inc_ref(zc, q);
      if (lim) { Z3_params p = Z3_mk_params(zc); Z3_params_inc_ref(zc, p); Z3_params_set_uint(zc, p, Z3_mk_string_symbol(zc, "rlimit"), (unsigned)lim); Z3_solver_set_params(zc, q, p); Z3_params_dec_ref(zc, p); }
      if (useC) { Z3_ast hi = Z3_mk_unsigned_int64(zc, cp.back.size() - 1, Z3_mk_bv_sort(zc, cp.B)); for (Expr *v : cp.vs) Z3_solver_assert(zc, q, Z3_mk_bvule(zc, cp.zt(v), hi)); for (Expr *e : sl) Z3_solver_assert(zc, q, cp.zb(e)); Z3_solver_assert(zc, q, cp.zb(c2)); }
      else { for (Expr *e : sl) Z3_solver_assert(zc, q, tBool(e)); Z3_solver_assert(zc, q, tBool(c2)); } nDefs += 1; return q; };
    Z3_solver q = mk(gRlimit ? gRlimit : 3000000);
    Z3_lbool r = Z3_solver_check(zc, q);
    if (r == Z3_L_UNDEF && !gRlimit) {
      if (guess(40)) { Z3_solver_dec_ref(zc, q); goto done; }
      Z3_solver_dec_ref(zc, q); q = mk(60000000); r = Z3_solver_check(zc, q); }
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); gS.z3s += dt; if (dt > gS.maxq) gS.maxq = dt;
    if (getenv("SYMX_SLOWQ") && dt > atof(getenv("SYMX_SLOWQ"))) { fprintf(stderr, "slow query %.3fs nsl=%zu nvars=%zu cond=%s\n", dt, sl.size(), vars.size(), exprStr(cond, 8).substr(0, 2000).c_str()); }
    ent.r = r == Z3_L_TRUE ? SAT : r == Z3_L_FALSE ? UNSAT : UNKNOWN;
    if (ent.r == SAT) {
      Z3_model zm = Z3_solver_get_model(zc, q); Z3_model_inc_ref(zc, zm);
      if (useC) { for (u32 v : vars) { Expr *ve = vexprs[v]; u64 x = 0; Z3_ast val; if (ve->w == 1 && !cp.mt.count(ve)) { if (cp.mb.count(ve) && Z3_model_eval(zc, zm, cp.zb(ve), true, &val)) x = Z3_get_bool_value(zc, val) == Z3_L_TRUE; } else if (cp.mt.count(ve)) { if (Z3_model_eval(zc, zm, cp.zt(ve), true, &val)) Z3_get_numeral_uint64(zc, val, &x); x = cp.fl(cp.back[x]); } else x = v < base->v.size() ? base->v[v] : 0; ent.m.push_back({v, x}); } }
      else for (u32 v : vars) { Z3_ast val; u64 x = 0; if (Z3_model_eval(zc, zm, tBV(vexprs[v]), true, &val)) Z3_get_numeral_uint64(zc, val, &x); ent.m.push_back({v, x}); }
      Z3_model_dec_ref(zc, zm);
    }
    Z3_solver_dec_ref(zc, q);
  }
done:
  if (ent.r == SAT) {
    out = withVals(base, ent.m);
    // every model is checked against the constraints it is claimed to satisfy
    bool ok = evalE(cond, *out); for (Expr *e : sl) ok = ok && evalE(e, *out);
    if (!ok) { fprintf(stderr, "FATAL: solver model does not satisfy query\n"); abort(); }
    gS.sat++;
  } else if (ent.r == UNSAT) gS.unsat++; else gS.unknown++;
  if (qcache.size() > 2000000) qcache.clear();
  SatRes rr = ent.r; qcache.emplace(std::move(key), std::move(ent)); return rr;
}
