// MessagePack.  MODE 0: values -> bytes -> values against a reference encoder; 1: byte buffers with symbolic bytes against a reference decoder, whole and cut; 2: typed parser.
#include "ref.h"
#include <string.h>
#include <vector>
#include <utility>
#include "msgpack.hh"
using namespace lcdf;
#ifndef MODE
#define MODE 0
#endif
#include "jmodel.h"
typedef std::vector<u8> B;
static void be(B &o, u64 v, int n) { while (n--) o.push_back(v >> 8 * n); }
static void encU(B &o, u64 v) { if (v < 128) o.push_back(v); else if (v < 256) { o.push_back(0xCC); be(o, v, 1); } else if (v < 65536) { o.push_back(0xCD); be(o, v, 2); } else if (v < 1ull << 32) { o.push_back(0xCE); be(o, v, 4); } else { o.push_back(0xCF); be(o, v, 8); } }
static void encI(B &o, int64_t v) { if (v >= -32 && v < 128) o.push_back(v); else if (v >= -128 && v < 128) { o.push_back(0xD0); be(o, v, 1); } else if (v >= -32768 && v < 32768) { o.push_back(0xD1); be(o, v, 2); } else if (v >= -(1ll << 31) && v < 1ll << 31) { o.push_back(0xD2); be(o, v, 4); } else { o.push_back(0xD3); be(o, v, 8); } }
static void encS(B &o, const B &s) { size_t n = s.size(); if (n < 32) o.push_back(0xA0 + n); else if (n < 256) { o.push_back(0xD9); be(o, n, 1); } else if (n < 65536) { o.push_back(0xDA); be(o, n, 2); } else { o.push_back(0xDB); be(o, n, 4); } o.insert(o.end(), s.begin(), s.end()); }
static void encN(B &o, size_t n, u8 fix, u8 w) { if (n < 16) o.push_back(fix + n); else if (n < 65536) { o.push_back(w); be(o, n, 2); } else { o.push_back(w + 1); be(o, n, 4); } }
static void enc(B &o, const M &m) {
  switch (m.t) { case 'n': o.push_back(0xC0); break; case 'b': o.push_back(0xC2 + m.v); break; case 'u': encU(o, m.v); break; case 'i': encI(o, m.v); break; case 's': encS(o, m.s); break; case 'd': o.push_back(0xCB); be(o, m.v, 8); break;
    case 'a': encN(o, m.a.size(), 0x90, 0xDC); for (auto &x : m.a) enc(o, x); break; case 'o': encN(o, m.a.size(), 0x80, 0xDE); for (size_t i = 0; i < m.a.size(); i++) { encS(o, m.k[i]); enc(o, m.a[i]); } break; }
}
// ---- reference decoder: 1 a value, 0 more bytes needed, -1 no encoding this decoder supports
static const u8 *P, *E;
static bool get(u64 &v, int n) { if (E - P < n) return false; v = 0; while (n--) v = v << 8 | *P++; return true; }
static int dec(M &m, bool key = false);
static int str(M &m, u64 n) { if (n >> 31) return -1; m.t = 's'; if ((u64)(E - P) < n) return 0; u64 k = n <= 64 ? sx_concretize(n) : n; m.s.assign(P, P + k); P += k; return 1; }
static bool asKey;
static int arr(M &m, u64 n) { if (asKey || n >> 31) return -1; sx_assume(n <= 4); n = sx_concretize(n); m.t = 'a'; for (u64 i = 0; i < n; i++) { M x; int r = dec(x); if (r != 1) return r; m.a.push_back(x); } return 1; }
static int map(M &m, u64 n) {
  if (asKey || n >> 31) return -1; m.t = 'o';
  for (u64 i = 0; i < n; i++) { M k, x; int r = dec(k, true); if (r != 1) return r; B ks; if (k.t == 's') ks = k.s; else if (k.t == 'i' || k.t == 'u') { bool neg = k.t == 'i' && (int64_t)k.v < 0; u64 v = neg ? 0 - k.v : k.v; B d; do { d.push_back('0' + v % 10); v /= 10; } while (v); if (neg) ks.push_back('-'); ks.insert(ks.end(), d.rbegin(), d.rend()); } else return -1;
    r = dec(x); if (r != 1) return r; size_t j = 0; while (j < m.k.size() && !(m.k[j] == ks)) j++; if (j == m.k.size()) { m.k.push_back(ks); m.a.push_back(x); } else m.a[j] = x; }
  return 1;
}
static int dec(M &m, bool key) {
  asKey = key; if (P == E) return 0; u8 c = *P++; u64 v; m = M();
  if (c < 0x80 || c >= 0xE0) { m.t = 'i'; m.v = (int64_t)(int8_t)c; return 1; }
  if (c < 0x90) return map(m, c - 0x80); if (c < 0xA0) return arr(m, c - 0x90); if (c < 0xC0) return str(m, c - 0xA0);
  switch (c) { case 0xC0: m.t = 'n'; return 1; case 0xC2: case 0xC3: m.t = 'b'; m.v = c & 1; return 1;
    case 0xCA: if (!get(v, 4)) return 0; m.t = 'd'; return 1; case 0xCB: if (!get(v, 8)) return 0; m.t = 'd'; m.v = v; return 1;
    case 0xCC: case 0xCD: case 0xCE: case 0xCF: if (!get(m.v, 1 << (c - 0xCC))) return 0; m.t = 'u'; return 1;
    case 0xD0: if (!get(v, 1)) return 0; m.t = 'i'; m.v = (int64_t)(int8_t)v; return 1; case 0xD1: if (!get(v, 2)) return 0; m.t = 'i'; m.v = (int64_t)(int16_t)v; return 1; case 0xD2: if (!get(v, 4)) return 0; m.t = 'i'; m.v = (int64_t)(int32_t)v; return 1; case 0xD3: if (!get(m.v, 8)) return 0; m.t = 'i'; return 1;
    case 0xC4: case 0xD9: if (!get(v, 1)) return 0; return str(m, v); case 0xC5: case 0xDA: if (!get(v, 2)) return 0; return str(m, v); case 0xC6: case 0xDB: if (!get(v, 4)) return 0; return str(m, v);
    case 0xDC: if (!get(v, 2)) return 0; return arr(m, v); case 0xDD: if (!get(v, 4)) return 0; return arr(m, v); case 0xDE: if (!get(v, 2)) return 0; return map(m, v); case 0xDF: if (!get(v, 4)) return 0; return map(m, v); }
  return -1;
}
// Feeds in[0..n) cut at the given points, each piece out of a buffer of exactly its size; returns the bytes taken.
static int feed(msgpack::streaming_parser &sp, const u8 *in, const int *cuts, int pieces) {
  int used = 0; for (int s = 0; s < pieces && !sp.done(); s++) { int len = cuts[s + 1] - cuts[s], off = 0; u8 *p = new u8[len ? len : 1]; memcpy(p, in + cuts[s], len); for (int z = 0; z < 4; z++) { size_t c = sp.consume((const char *)p + off, (size_t)(len - off)); CHECK(c <= (size_t)(len - off), "the parser takes no more than it is given"); CHECK(sp.success() + sp.error() <= 1 && sp.done() == (sp.success() || sp.error()), "the parser's state is one of three"); CHECK(sp.done() || len == off || c > 0, "the parser moves on"); off += c; if (sp.done() || off == len) break; } CHECK(sp.done() || off == len, "an unfinished parser takes everything within a few calls"); used += off; delete[] p; }
  return used;
}
static M mi(int64_t v) { M m; m.t = 'i'; m.v = v; return m; }
#if MODE == 0
static B text(int n) { B s; for (int i = 0; i < n; i++) s.push_back(i < 2 || i == n - 1 ? sx_u8("c") : (u8)('a' + i % 26)); return s; }
static Json mk(const B &s) { return Json(String((const char *)s.data(), s.size())); }
static Json gen(M &m, int depth) {
  static const int kinds[] = KINDS; int c = depth == DEPTH ? sx_choice("kind", 8) : kinds[sx_choice("kind", sizeof kinds / sizeof *kinds)]; if (!depth && c > 5) c = 5;
  switch (c) {
    case 0: return Json(); case 1: m.t = 'b'; m.v = sx_choice("b", 2); return Json(m.v != 0);
    case 2: m.t = 'i'; m.v = sx_u64("i"); return Json((long)m.v); case 3: m.t = 'u'; m.v = sx_u64("u"); return Json((unsigned long)m.v);
    case 4: { static const int ls[] = SLENS; m.t = 's'; m.s = text(ls[sx_choice("len", sizeof ls / sizeof *ls)]); return mk(m.s); }
    case 5: { bool o = sx_choice("obj", 2); m.t = o ? 'o' : 'a'; return o ? Json::make_object() : Json::make_array(); }
    case 6: { static const int ns[] = SIZES; int n = ns[sx_choice("n", sizeof ns / sizeof *ns)]; m.t = 'a'; Json j = Json::make_array(); for (int i = 0; i < n; i++) { M x; if (i < 2) j.push_back(gen(x, depth - 1)); else { x = mi(i); j.push_back(Json(i)); } m.a.push_back(x); } return j; }
    default: { static const int ns[] = SIZES; int n = ns[sx_choice("n", sizeof ns / sizeof *ns)]; m.t = 'o'; Json j = Json::make_object(); for (int i = 0; i < n; i++) { B k; k.push_back(i == 0 ? 'a' + sx_range("k", 0, 15) : 'q' + i / 10); if (i) k.push_back('0' + i % 10); M x; j.set(String((const char *)k.data(), k.size()), i < 2 ? gen(x, depth - 1) : (x = mi(i), Json(i))); m.k.push_back(k); m.a.push_back(x); } return j; }
  }
}
int main() {
  M m; Json j = gen(m, DEPTH); B r; enc(r, m); String s = msgpack::unparse(j); CHECK((size_t)s.length() == r.size(), "an encoding has the shortest length"); bool eq = true; for (int i = 0; i < s.length() && i < (int)r.size(); i++) eq &= (u8)s[i] == r[i]; CHECK(eq, "an encoding has exactly the standard's bytes"); CHECK(same(m, j), "encoding leaves the value alone");
  Json k = msgpack::parse(s); CHECK(same(m, k), "decoding gives back the value"); Json k2 = msgpack::parse(s.begin(), s.end()); CHECK(same(m, k2), "decoding bytes gives back the value");
  int n = r.size(), c1 = n < 40 ? sx_choice("cut", n + 1) : sx_choice("cutb", 2) ? n - sx_choice("cut", 3) : sx_choice("cut", 6), c2 = n < 16 && CUT > 1 ? c1 + sx_choice("cut2", n + 1 - c1) : n; int cuts[] = {0, c1, c2, n};
  msgpack::streaming_parser sp; CHECK(sp.empty(), "a new parser is empty"); int used = feed(sp, r.data(), cuts, 3); CHECK(sp.success() && used == n && same(m, sp.result()), "cutting the bytes changes nothing");
  Json keep = sp.result(); sp.reset(); M m2; m2.t = 'a'; m2.a = {mi(1), mi(2)}; B r2; enc(r2, m2); CHECK(sp.consume((const char *)r2.data(), r2.size()) == r2.size() && sp.success() && same(m2, sp.result()) && same(m, keep), "a parser is reusable and leaves earlier results alone");
  if (m.t == 'o' || m.t == 'a') { sp.reset(); used = feed(sp, r.data(), cuts, 3); CHECK(sp.success() && used == n && same(m, sp.result()) && same(m, keep), "a reused parser decodes the same"); }
  return 0;
}
#elif MODE == 1
// -1 a symbolic byte, -2 a symbolic byte that starts a value (one of the forms with a length or a number, or below 0x80)
static const int T[][12] = {
#if TSET == 0
  {1, -1}, {2, -1, -1}, {3, -1, -1, -1}
#elif TSET == 1
  {4, 0x92, -1, -1, -1}, {5, 0x82, 0xA1, -1, -1, -1}, {6, 0x82, 0xA1, 'k', -1, 0xA1, -1}, {5, 0x91, 0x91, -1, -1, -1}
#elif TSET == 2
  {7, 0xDB, -1, -1, -1, -1, 'x', 'y'}, {6, 0xD9, -1, -1, -1, -1, -1}, {8, 0x92, 0xDA, -1, -1, 'a', 'b', -1, -1}, {7, 0xC6, -1, -1, -1, -1, 'x', 'y'}
#elif TSET == 3
  {8, 0xDD, -1, -1, -1, -1, 1, -1, 3}, {7, 0xDC, -1, -1, 1, -1, 0xA0, 4}, {8, 0xDF, -1, -1, -1, -1, 0xA1, 'q', 7}, {7, 0xDE, -1, -1, 0xA0, -1, 5, -1}, {9, 0x93, 0x91, 0xC0, 0x81, 0xA1, -1, 0x90, -1, 0xC3}
#elif TSET == 4
  {10, 0xCF, -1, -1, -1, -1, -1, -1, -1, -1, -1}, {10, 0x91, 0xD3, -1, -1, -1, -1, -1, -1, -1, -1}, {6, 0xD2, -1, -1, -1, -1, -1}, {5, 0x91, 0xD1, -1, -1, -1}, {8, 0x92, 0xCD, -1, -1, 0xD0, -1, 0xCC, -1}, {8, 0x81, 0xE7, 0xCE, -1, -1, -1, -1, 0xC0}, {10, 0x92, 0xCA, 1, 2, 3, 4, 0xCC, -1, 1, 1}, {11, 0x91, 0xCB, 1, 2, 3, 4, 5, 6, 7, 8, -1}
#else
  {4, -1, -1, -1, -1}, {5, 0x93, -1, -1, -1, -1}
#endif
};
int main() {
  const int *t = T[sx_choice("template", sizeof T / sizeof *T)]; int n = t[0]; u8 *in = new u8[n]; for (int i = 0; i < n; i++) in[i] = t[i + 1] < 0 ? sx_u8("c") : t[i + 1];
  M m; P = in; E = in + n; int r = dec(m); int used = P - in; int whole[] = {0, n};
  msgpack::streaming_parser sp; int u = feed(sp, in, whole, 1); CHECK(sp.success() == (r == 1) && sp.error() == (r == -1), "the parser finishes, asks for more or reports an error as the bytes demand");
  if (r == 1) CHECK(u == used && same(m, sp.result()), "the parser takes exactly one value"); if (r == 0) CHECK(!sp.empty() || !n, "a started parser is not empty");
  if (r == 1) { String s((const char *)in, n); Json j = msgpack::parse(s); CHECK(same(m, j), "parsing a String yields the same value"); }
  if (CUT) { int c1 = sx_choice("cut", n + 1), c2 = CUT > 1 ? c1 + sx_choice("cut2", n + 1 - c1) : n; int cuts[] = {0, c1, c2, n}; msgpack::streaming_parser sq; int u2 = feed(sq, in, cuts, 3); CHECK(sq.success() == (r == 1) && sq.error() == (r == -1), "cutting the bytes does not change the verdict"); if (r == 1) CHECK(u2 == used && same(m, sq.result()), "cutting the bytes does not change the value"); }
  if (r == 1 && sx_choice("again", 2)) { B o; M x = m; String s = msgpack::unparse(sp.result()); Json k = msgpack::parse(s); CHECK(same(m, k), "re-encoding keeps the value"); }
  return 0;
}
#else
static M one(msgpack::unparser<StringAccum> &up) {
  M m; switch (sx_choice("kind", 12)) {
    case 0: up.null(); break; case 1: { int v = sx_u32("v"); up << v; m = mi(v); break; } case 2: { unsigned v = sx_u32("v"); up << v; m.t = 'u'; m.v = v; break; } case 3: { long v = sx_u64("v"); up << v; m = mi(v); break; } case 4: { unsigned long v = sx_u64("v"); up << v; m.t = 'u'; m.v = v; break; }
    case 5: { long v = sx_u64("v"); up.write_wide((int64_t)v); m = mi(v); m.k.resize(1); break; } case 6: { unsigned long v = sx_u64("v"); up.write_wide((uint64_t)v); m.t = 'u'; m.v = v; m.k.resize(1); break; }
    case 7: { up << 1.5; m.t = 'd'; m.v = 1; break; } case 8: { up << 2.5f; m.t = 'd'; m.v = 2; break; }
    case 9: { static const int ls[] = {0, 1, 31, 32, 255, 256, 65535, 65536}; int n = ls[sx_choice("len", 8)]; m.t = 's'; m.s.assign(n, 'x'); if (n) m.s[0] = sx_u8("c"), m.s[n - 1] = sx_u8("d"); up << Str((const char *)m.s.data(), n); break; }
    case 10: { int b = sx_choice("b", 2); up << Json(b != 0); m.t = 'b'; m.v = b; break; } case 11: { static const u32 ns[] = {0, 15, 16, 65535, 65536, 0xffffffff}; u32 n = ns[sx_choice("size", 6)]; if (sx_choice("w", 2)) up.write_array_header(n); else up << msgpack::array(n); m.t = 'h'; m.v = n; break; } }
  return m;
}
int main() {
  StringAccum sa; msgpack::unparser<StringAccum> up(sa); up << 42; M m[2]; int n = 1 + sx_choice("n", NV); bool prim = true; for (int i = 0; i < n; i++) { m[i] = one(up); prim &= m[i].t != 'h'; } up << 17; String s = sa.take_string(); u8 *buf = new u8[s.length()]; memcpy(buf, s.data(), s.length());
  { msgpack::parser p(buf); CHECK(p.read_tiny_int() == 42, "tiny int"); for (int i = 0; i < n; i++) switch (m[i].t) {
    case 'n': CHECK(p.try_read_null(), "null reads back"); break; case 'i': case 'u': { CHECK(!p.try_read_null(), "a number is not null"); if (m[i].t == 'i') { if (!m[i].k.size() && sx_choice("as", 2) && (int64_t)m[i].v == (int)m[i].v) { int v; p >> v; CHECK(v == (int)m[i].v, "int reads back"); } else { long v; p >> v; CHECK(v == (long)m[i].v, "long reads back"); } } else { unsigned long v; p >> v; CHECK(v == m[i].v, "unsigned reads back"); } break; }
    case 'd': { if (m[i].v == 2) { p.skip_primitive(); break; } double d; p >> d; CHECK(d == 1.5, "double reads back"); break; } case 'b': { bool b; p >> b; CHECK(b == (m[i].v != 0), "bool reads back"); break; }
    case 's': { if (sx_choice("as", 2)) { Str x; p >> x; CHECK(eqBytes(m[i].s, String(x)), "string reads back"); } else { String x; p >> x; CHECK(eqBytes(m[i].s, x), "string reads back"); } break; } case 'h': { unsigned z; if (sx_choice("skip", 2)) p.skip_array_size(); else { p.read_array_header(z); CHECK(z == m[i].v, "array size reads back"); } break; } }
    CHECK(p.position() == (char *)buf + s.length() - 1, "reads advance over exactly what was written"); int l; p >> l; CHECK(l == 17, "what follows reads back"); }
  if (prim) { msgpack::parser p(buf); p.skip_primitives(n + 1); CHECK(p.position() == (char *)buf + s.length() - 1, "skipping advances over exactly what was written"); }
  { StringAccum sb; msgpack::unparser<StringAccum> uq(sb); int z = sx_choice("vec", 4) * 8; uq << msgpack::array(z); for (int i = 0; i < z; i++) uq << i * 1000 - 4000; String t = sb.take_string(); msgpack::parser p(t); std::vector<int> v; p >> v; bool ok = (int)v.size() == z; for (int i = 0; i < z && ok; i++) ok &= v[i] == i * 1000 - 4000; CHECK(ok && p.position() == t.end(), "a vector reads back"); }
  { StringAccum sb; msgpack::unparse(sb, 7); msgpack::unparse_wide(sb, (int64_t)-3); String t = sb.take_string(); msgpack::parser p(t); long a, b; p >> a >> b; CHECK(a == 7 && b == -3, "free functions encode"); }
  return 0;
}
#endif
