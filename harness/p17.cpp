// JSON text.  MODE 0: parser against a reference recogniser on templates with symbolic bytes, whole and cut in two; 1: values -> text -> values; 2: edits on copies.
#include "ref.h"
#include <string.h>
#include <vector>
#include <utility>
#include "json.hh"
using namespace lcdf;
#ifndef MODE
#define MODE 0
#endif
#include "jmodel.h"
// ---- reference recogniser of RFC 8259 text in UTF-8
static const u8 *P, *E; static bool dup, odd;
static void ws() { while (P != E && (*P == ' ' || *P == '\n' || *P == '\r' || *P == '\t')) ++P; }
static int hex(u8 c) { if (c >= '0' && c <= '9') return c - '0'; if (c >= 'a' && c <= 'f') return c - 'a' + 10; if (c >= 'A' && c <= 'F') return c - 'A' + 10; return -1; }
static bool hex4(u32 &r) { r = 0; for (int i = 0; i < 4; i++) { if (P == E) return false; int h = hex(*P); if (h < 0) return false; r = r * 16 + h; ++P; } return true; }
static void utf8(std::vector<u8> &s, u32 c) { if (c < 0x80) s.push_back(c); else if (c < 0x800) { s.push_back(0xC0 | c >> 6); s.push_back(0x80 | (c & 63)); } else if (c < 0x10000) { s.push_back(0xE0 | c >> 12); s.push_back(0x80 | (c >> 6 & 63)); s.push_back(0x80 | (c & 63)); } else { s.push_back(0xF0 | c >> 18); s.push_back(0x80 | (c >> 12 & 63)); s.push_back(0x80 | (c >> 6 & 63)); s.push_back(0x80 | (c & 63)); } }
static bool str(std::vector<u8> &s) {
  while (P != E) {
    u8 c = *P;
    if (c == '"') { ++P; return true; }
    if (c < 32) return false;
    if (c == '\\') {
      if (++P == E) return false; c = *P++;
      switch (c) { case '"': case '\\': case '/': s.push_back(c); break; case 'b': s.push_back(8); break; case 'f': s.push_back(12); break; case 'n': s.push_back(10); break; case 'r': s.push_back(13); break; case 't': s.push_back(9); break;
        case 'u': { u32 x, y; if (!hex4(x)) return false; if (x >= 0xDC00 && x < 0xE000) return false; if (x >= 0xD800 && x < 0xDC00) { if (E - P < 2 || P[0] != '\\' || P[1] != 'u') return false; P += 2; if (!hex4(y)) return false; if (!(y >= 0xDC00 && y < 0xE000)) return false; x = 0x10000 + ((x - 0xD800) << 10) + (y - 0xDC00); } if (x == 0 || x == 0xFFFE || x == 0xFFFF) odd = true; utf8(s, x); break; }
        default: return false; }
      continue;
    }
    if (c < 0x80) { s.push_back(c); ++P; continue; }
    int n = c >= 0xF0 ? 4 : c >= 0xE0 ? 3 : 2; if (c < 0xC2 || c > 0xF4 || E - P < n) return false;
    for (int i = 1; i < n; i++) if (P[i] < 0x80 || P[i] > 0xBF) return false;
    if ((c == 0xE0 && P[1] < 0xA0) || (c == 0xED && P[1] > 0x9F) || (c == 0xF0 && P[1] < 0x90) || (c == 0xF4 && P[1] > 0x8F)) return false;
    for (int i = 0; i < n; i++) s.push_back(P[i]); P += n;
  }
  return false;
}
static bool dig() { return P != E && *P >= '0' && *P <= '9'; }
static bool val(M &m) {
  ws(); if (P == E) return false; u8 c = *P;
  if (c == '{') { ++P; m.t = 'o'; ws(); if (P != E && *P == '}') { ++P; return true; } for (;;) { ws(); if (P == E || *P != '"') return false; ++P; std::vector<u8> k; if (!str(k)) return false; ws(); if (P == E || *P != ':') return false; ++P; M x; if (!val(x)) return false; for (auto &o : m.k) if (o == k) dup = true; m.k.push_back(k); m.a.push_back(x); ws(); if (P == E) return false; if (*P == ',') { ++P; continue; } if (*P == '}') { ++P; return true; } return false; } }
  if (c == '[') { ++P; m.t = 'a'; ws(); if (P != E && *P == ']') { ++P; return true; } for (;;) { M x; if (!val(x)) return false; m.a.push_back(x); ws(); if (P == E) return false; if (*P == ',') { ++P; continue; } if (*P == ']') { ++P; return true; } return false; } }
  if (c == '"') { ++P; m.t = 's'; return str(m.s); }
  if (c == 'n' || c == 't' || c == 'f') { const char *w = c == 'n' ? "null" : c == 't' ? "true" : "false"; for (; *w; ++w, ++P) if (P == E || *P != (u8)*w) return false; m.t = c == 'n' ? 'n' : 'b'; m.v = c == 't'; return true; }
  if (c == '-' || (c >= '0' && c <= '9')) { bool neg = c == '-'; if (neg) ++P; u64 v = 0; if (!dig()) return false; if (*P == '0') ++P; else while (dig()) v = v * 10 + (*P++ - '0'); m.t = neg ? 'i' : 'u'; m.v = neg ? 0 - v : v; if (P != E && *P == '.') { ++P; if (!dig()) return false; while (dig()) ++P; m.t = 'd'; } if (P != E && (*P == 'e' || *P == 'E')) { ++P; if (P != E && (*P == '+' || *P == '-')) ++P; if (!dig()) return false; while (dig()) ++P; m.t = 'd'; } return true; }
  return false;
}
#if MODE == 0
// '?' is a symbolic byte, '%' a symbolic digit, '#' a symbolic hexadecimal digit, '$' one of a few structural bytes
static const char *const TP[] = {
#if TSET == 0   // short texts of arbitrary bytes
"?", "??", "???", "[??]", "\"??\"", "\"?????\"", "\"\\??\""
#elif TSET == 1 // structure
"$$$", "[$$$$]", "{\"\":$$$}", "[[$$]$"
#elif TSET == 2 // escapes
"\"\\u####\"", "\"\\ud#0a\\ud#1F\"", "\"\\u0##7#\"", "\"\\ud8#4\\u#c3a?", "\"\\u00#f\\u12#\""
#elif TSET == 6
"\"\\u####\\ud###\"", "\"\\ud8##\\udc##?"
#elif TSET == 3 // numbers
"%$%%", "-%%.%e%", "-$%$%", "[%%,-%]", "%%.%%E-%%", "1844674407370955161%"
#elif TSET == 4 // words, objects
"tru?", "[null,fal?e]", "{\"a\":1,\"?\":[],\"?\":2}", "{\"a\":{\"b\":[%]},\"c?\":\"x\"}", " [ { } , $ ]?"
#else           // longer structure
"$$$$$", "[$$$$$]", "{\"?\":$$,\"a\":$}", "\"??????\"", "????"
#endif
};
static u8 hexdig() { u8 h = sx_range("h", 0, 21); return h < 10 ? '0' + h : h < 16 ? 'a' + (h - 10) : 'A' + (h - 16); }
int main() {
  const char *t = TP[sx_choice("template", sizeof TP / sizeof *TP)]; int n = strlen(t); u8 *buf = new u8[n + 1]; u8 *in = new u8[n];
  for (int i = 0; i < n; i++) in[i] = t[i] == '?' ? sx_u8("c") : t[i] == '%' ? '0' + sx_range("d", 0, 9) : t[i] == '#' ? hexdig() : t[i] == '$' ? "[]{}:, \"1ax-.e\\n"[sx_choice("s", 16)] : (u8)t[i];
  M m; P = in; E = in + n; bool ok = val(m); const u8 *end = P; ws(); ok = ok && P == E; bool tail = E - end > 1;
  // whole text, out of a buffer of exactly its size
  u8 *w = new u8[n]; memcpy(w, in, n); Json j(12345678); bool r = j.assign_parse((const char *)w, (const char *)w + n);
  if (r) CHECK(ok, "accepted text is well-formed JSON"); else CHECK(!ok || odd || tail, "well-formed JSON is accepted");
  if (r && !dup) CHECK(same(m, j), "the parsed value is the one the text denotes"); if (!r) CHECK(j.is_int() && j.as_i() == 12345678, "a failed parse leaves the value alone");
  Json js(1); bool r2 = js.assign_parse(String((const char *)in, n)); CHECK(r2 == r, "parsing a String agrees"); if (r2 && !dup) CHECK(same(m, js), "parsing a String yields the same value");
  delete[] w;
  // the same text in pieces
  if (CUT) {
    int c1 = sx_choice("cut", n + 1), c2 = CUT > 1 ? c1 + sx_choice("cut2", n + 1 - c1) : n; int cuts[4] = {0, c1, c2, n};
    Json::streaming_parser sp; int used = 0; bool stopped = false;
    for (int s = 0; s < 3 && !stopped; s++) { int len = cuts[s + 1] - cuts[s]; u8 *p = new u8[len ? len : 1]; memcpy(p, in + cuts[s], len); size_t c = sp.consume((const char *)p, len, String(), s == 2); delete[] p; CHECK(c <= (size_t)len, "the parser consumes no more than it is given"); used += c; if (sp.done()) stopped = true; else CHECK(c == (size_t)len, "an unfinished parser has taken everything"); }
    const u8 *q = in + used; if (stopped && sp.success()) { if (q != E && (*q == ' ' || *q == '\n' || *q == '\r' || *q == '\t')) ++q; }
    bool r3 = stopped && sp.success() && q == E; CHECK(r3 == r, "cutting the text changes nothing"); if (r3 && !dup) CHECK(same(m, sp.result()), "cut text yields the same value"); CHECK(sp.success() + sp.error() <= 1 && sp.done() == (sp.success() || sp.error()), "the parser's state is one of three");
  }
  if (r && !dup) { String o = j.unparse(); Json k; CHECK(k.assign_parse(o) && same(m, k), "serialising and parsing again yields the same value"); }
  return 0;
}
#elif MODE == 1
static int budget;
static void wellformed(const std::vector<u8> &s) { P = s.data(); E = P + s.size(); while (P != E) { u8 c = *P; if (c == 0) sx_assume(false); if (c < 0x80) { ++P; continue; } int n = c >= 0xF0 ? 4 : c >= 0xE0 ? 3 : 2; if (c < 0xC2 || c > 0xF4 || E - P < n) sx_assume(false); for (int i = 1; i < n; i++) if (P[i] < 0x80 || P[i] > 0xBF) sx_assume(false); if ((c == 0xE0 && P[1] < 0xA0) || (c == 0xED && P[1] > 0x9F) || (c == 0xF0 && P[1] < 0x90) || (c == 0xF4 && P[1] > 0x8F)) sx_assume(false); P += n; } }
static std::vector<u8> text() { static const int ls[] = SLENS; int n = ls[sx_choice("len", sizeof ls / sizeof *ls)]; std::vector<u8> s; for (int i = 0; i < n; i++) s.push_back(sx_u8("c")); wellformed(s); return s; }
static Json gen(M &m, int depth) {
  static const int kinds[] = KINDS; int c = depth == DEPTH && depth ? sx_choice("kind", 8) : kinds[sx_choice("kind", sizeof kinds / sizeof *kinds)]; if (c > 5 && !depth) c = 5;
  switch (c) {
    case 0: m.t = 'n'; return Json();
    case 1: m.t = 'b'; m.v = sx_choice("b", 2); return Json(m.v != 0);
    case 2: { m.t = 'i'; int64_t v = (int64_t)sx_range("i", 0, 2 * IMAX - 1) - IMAX; m.v = v; return Json((int)v); }
    case 3: { static const u64 bs[] = {0, 9, 10, 99, 100, 999999999, 1000000000, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 9999999999999999999ull, 10000000000000000000ull, 0x7fffffffffffffff, 0x8000000000000000ull, ~0ull}; u64 v = bs[sx_choice("big", 16)]; if (sx_choice("neg", 2)) { v = 0 - v; m.t = 'i'; m.v = v; if ((int64_t)v > 0) m.t = 'u'; return (int64_t)v > 0 ? Json((unsigned long)v) : Json((long)v); } m.t = 'u'; m.v = v; return Json((unsigned long)v); }
    case 4: { m.t = 's'; m.s = text(); return Json(String((const char *)m.s.data(), m.s.size())); }
    case 5: { bool o = sx_choice("obj", 2); m.t = o ? 'o' : 'a'; return o ? Json::make_object() : Json::make_array(); }
    case 6: { m.t = 'a'; int n = 1 + sx_choice("n", WIDTH); Json j = Json::make_array(); for (int i = 0; i < n; i++) { M x; j.push_back(gen(x, depth - 1)); m.a.push_back(x); } return j; }
    default: { m.t = 'o'; int n = 1 + sx_choice("n", WIDTH); Json j = Json::make_object(); for (int i = 0; i < n; i++) { std::vector<u8> k = text(); for (auto &o : m.k) { bool e = o.size() == k.size(); if (e) { bool q = true; for (size_t z = 0; z < k.size(); z++) q &= k[z] == o[z]; sx_assume(!q); } } M x; j.set(String((const char *)k.data(), k.size()), gen(x, depth - 1)); m.k.push_back(k); m.a.push_back(x); } return j; }
  }
}
int main() {
  M m; Json j = gen(m, DEPTH); CHECK(same(m, j), "a value reads back as built"); String s;
  switch (j.is_a() || j.is_o() ? sx_choice("style", 4) : 0) { case 0: s = j.unparse(); break; case 1: s = j.unparse(Json::indent_depth(4)); break; case 2: s = j.unparse(Json::space_separator(true)); break; default: s = j.unparse(Json::indent_depth(1).tab_width(2).newline_terminator(true)); }
  CHECK(same(m, j), "serialising leaves the value alone"); Json k; bool r = k.assign_parse(s); CHECK(r, "serialised text is parsed"); CHECK(same(m, k), "serialising and parsing gives back an equal value");
  M m2; P = (const u8 *)s.data(); E = P + s.length(); bool ok = val(m2); ws(); CHECK(ok && P == E, "serialised text is well-formed JSON"); CHECK(same(m2, j), "serialised text denotes the value");
  return 0;
}
#elif MODE == 3
int main() {
  static const int64_t C[] = {0, 1, -1, 7, 1000, -1000, 0x7fffffff, -0x7fffffffll - 1, 0x100000000, 0x3fffffffffffffff, -0x3fffffffffffffff}; int64_t xv = C[sx_choice("x", 11)], yv = C[sx_choice("y", 11)];
  int k = sx_choice("kind", 3); Json x((long)xv), y = k == 0 ? Json((long)yv) : k == 1 ? Json((int)yv) : Json((unsigned long)yv); if (k == 1) yv = (int)yv; if (k == 2 && yv < 0) return 0;
  Json z(x); z += y; CHECK(z.as_i() == xv + yv && x.as_i() == xv && y.to_i() == yv, "adding a value adds it"); z = x; z -= y; CHECK(z.as_i() == xv - yv && y.to_i() == yv, "subtracting a value subtracts it"); ++z; CHECK(z.as_i() == xv - yv + 1, "increment"); --z; CHECK((z = x).as_i() == xv, "assignment"); z += (long)yv; CHECK(z.as_i() == xv + yv, "adding a number"); z -= (long)yv; CHECK(z.as_i() == xv, "subtracting a number");
  CHECK((x == y) == (xv == yv), "numbers compare by value"); CHECK((-x).to_i() == -xv, "negation"); Json nul; nul += y; CHECK(nul.to_i() == yv, "null counts as zero"); y += Json(); CHECK(y.to_i() == yv, "adding null");
  return 0;
}
#else
// Two values a and b that started as copies; edits on one never show in the other.
static const char *const KEYS[] = {"a", "b", "e", "i", "z"};
static std::vector<u8> bytes(const char *s) { std::vector<u8> r; for (; *s; ++s) r.push_back(*s); return r; }
static M num(u64 v) { M m; m.t = 'i'; m.v = v; return m; }
static int findKey(const M &m, const std::vector<u8> &k) { for (size_t i = 0; i < m.k.size(); i++) if (m.k[i] == k) return i; return -1; }
static M &slot(M &m, const char *key) { std::vector<u8> k = bytes(key); if (m.t == 'n') m.t = 'o'; int i = findKey(m, k); if (i < 0) { m.k.push_back(k); m.a.push_back(M()); i = m.k.size() - 1; } return m.a[i]; }
static void edit(Json &j, M &m) {
  static u64 tag = 5000; u64 v = tag += 7; char k[2] = {(char)('a' + sx_range("k", 0, KN - 1)), 0}; 
  if (m.t == 'a') {
    int n = m.a.size();
    switch (sx_choice("aop", 9)) {
      case 0: j.push_back(Json((long)v)); m.a.push_back(num(v)); break;
      case 1: if (n) { j.pop_back(); m.a.pop_back(); } break;
      case 2: { int i = sx_choice("i", n < 3 ? n + 2 : 5); j[i] = (long)v; while ((int)m.a.size() <= i) m.a.push_back(M()); m.a[i] = num(v); break; }
      case 3: { int i = sx_choice("i", n < 3 ? n + 1 : 4); j.insert(j.abegin() + i, Json((long)v)); m.a.insert(m.a.begin() + i, num(v)); break; }
      case 4: if (n) { int i = sx_choice("i", n < 3 ? n : 3), e = i + 1 + (i + 2 <= n ? sx_choice("e", 2) : 0); j.erase(j.abegin() + i, j.abegin() + e); m.a.erase(m.a.begin() + i, m.a.begin() + e); } break;
      case 5: { int s = sx_choice("n", 3) * 5; j.resize(s); m.a.resize(s); break; }
      case 6: j.clear(); m.a.clear(); break;
      case 7: if (n) { j.at_insert(0) = Json((long)v); m.a[0] = num(v); j.back() = Json((long)(v ^ 1)); m.a[n - 1] = num(v ^ 1); } break;
      case 8: { if (n && m.a[0].t == 'a') { j.at_insert(0).push_back(Json((long)v)); m.a[0].a.push_back(num(v)); } else { Json x(j); j.push_back(x); M y(m); m.a.push_back(y); } break; }
    }
  } else {
    switch (sx_choice("oop", 8)) {
      case 0: j.set(k, Json((long)v)); slot(m, k) = num(v); break;
      case 1: { bool had = findKey(m, bytes(k)) >= 0; CHECK((j.erase(Str(k)) != 0) == had, "erase reports whether the key was there"); int i = findKey(m, bytes(k)); if (i >= 0) { m.k.erase(m.k.begin() + i); m.a.erase(m.a.begin() + i); } break; }
      case 2: j[k] = (long)v; slot(m, k) = num(v); break;
      case 3: { Json &r = j.get_insert(k); M &s = slot(m, k); if (s.t == 'n') { r = Json::array(); s.t = 'a'; } else { r = Json((long)v); s = num(v); } break; }
      case 4: { Json x = Json::object("a", 1, "z", (long)v); j.merge(x); slot(m, "a") = num(1); slot(m, "z") = num(v); break; }
      case 5: j.clear(); m.a.clear(); m.k.clear(); break;
      case 6: { M &s = slot(m, k); Json &r = j.get_insert(k); if (s.t == 'a') { r.push_back(Json((long)v)); s.a.push_back(num(v)); } else { r = Json((long)v); s = num(v); } break; }
      case 7: { auto it = j.obegin(); if (it != j.oend()) { it.value() = Json((long)v); m.a[0] = num(v); } break; }
    }
  }
}
int main() {
  Json a, b, c; M ma, mb; 
  if (sx_choice("root", 2)) { ma.t = 'a'; a = Json::make_array(); int n = sx_choice("n", 3) * 4; for (int i = 0; i < n; i++) { a.push_back(Json(i)); ma.a.push_back(num(i)); } }
  else { ma.t = 'o'; a = Json::make_object(); int n = sx_choice("n", 3) * NK; for (int i = 0; i < n; i++) { char nm[2] = {(char)('a' + i), 0}; a.set(String(nm), Json(i)); slot(ma, nm) = num(i); } }
  int how = sx_choice("copy", 3); if (how == 0) b = a; else if (how == 1) { Json t(a); b = std::move(t); } else { c = Json::array(a, a); b = c[1]; } mb = ma; M mc = ma;
  for (int s = 0; s < NS; s++) { if (sx_choice("which", 2)) edit(b, mb); else edit(a, ma); CHECK(same(ma, a) && same(mb, b), "editing one copy never changes another"); }
  if (how == 2) CHECK(same(mc, c[0]) && same(mc, c[1]), "a value stored in an array is a copy");
  Json d(a); a = b; CHECK(same(mb, a) && same(ma, d), "assignment copies"); swap(d, a); CHECK(same(ma, a) && same(mb, d) , "swap exchanges");
  if (ma.t == 'o') for (int i = 0; i < 5; i++) { int f = findKey(ma, bytes(KEYS[i])); CHECK(a.count(Str(KEYS[i])) == (f >= 0), "count tells whether a key is there"); CHECK(f >= 0 ? same(ma.a[f], a.get(Str(KEYS[i]))) : a.get(Str(KEYS[i])).is_null(), "get finds exactly the stored keys"); }
  return 0;
}
#endif
