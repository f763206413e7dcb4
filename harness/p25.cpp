// tlx helpers against plain definitions. MODE 1 integers, 2 codecs, 3 digests, 4 strings, 5 siphash.
#include "ref.h"
#include <string>
#include <vector>
#include <algorithm>
#include <string.h>
typedef std::string S; typedef std::vector<S> V;
static unsigned pick(const char *n, unsigned k) { return sx_choice(n, k); }
#ifndef ALPHA
#define ALPHA 0
#endif
static char chr_(const char *n, const char *alpha = nullptr) { if (!alpha) return (char)sx_u8(n); unsigned char c = sx_u8(n); bool ok = false; for (const char *p = alpha; *p; p++) ok |= c == (unsigned char)*p; sx_assume(ok); return (char)c; }
static S str(const char *n, unsigned lo, unsigned hi, const char *alpha = nullptr, bool nul = true) { unsigned l = lo + pick(n, hi - lo + 1); S s; for (unsigned i = 0; i < l; i++) { char c = chr_(n, alpha); if (!nul) sx_assume(c != 0); s += c; } return s; }
static bool same(const V &a, const V &b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (a[i] != b[i]) return false; return true; }
#define EQ(a, b, m) do { auto x_ = (a); auto y_ = (b); CHECK(x_ == y_, m); } while (0)
#if MODE == 1
#include "tlx/math.hpp"
template <class T> static T arg(const char *n) { if (sizeof(T) == 1) return (T)sx_u8(n); if (sizeof(T) == 2) return (T)sx_u16(n); if (sizeof(T) == 4) return (T)sx_u32(n); return (T)sx_u64(n); }
// Characterisations instead of loops where a loop would fork per bit: p is the floor logarithm of x iff 2^p <= x < 2^(p+1).
template <class T> static void ints() {
  typedef std::make_unsigned_t<T> U; enum { W = 8 * sizeof(T) }; T x = arg<T>("x"); U u = (U)x; bool pos = x > 0;
  switch (pos ? pick("portable", 5) : 0) { // the portable forms loop over the bits, so each gets its own paths
    case 1: { unsigned f = tlx::integer_log2_floor_template(x); CHECK((f < W) & (u >> f == 1), "floor of the logarithm (portable)"); return; }
    case 2: { unsigned z = tlx::ffs_template(x); CHECK((z >= 1) & (z <= W) & (u >> (z - 1) & 1) & ((u & (((U)1 << (z - 1)) - 1)) == 0), "first set bit (portable)"); return; }
    case 3: { unsigned z = tlx::ctz_template(x); CHECK((z < W) & (u >> z & 1) & ((u & (((U)1 << z) - 1)) == 0), "trailing zeros (portable)"); return; }
    case 4: { unsigned c = tlx::clz_template(x); CHECK((c < W) & (u >> (W - 1 - c) == 1), "leading zeros (portable)"); return; }
    default: break; }
  unsigned pc = 0; for (int i = 0; i < W; i++) pc += u >> i & 1; EQ(tlx::popcount(x), pc, "population count");
  EQ(tlx::is_power_of_two(x), pos & ((u & (u - 1)) == 0), "power of two");
  U top = (U)1 << (W - (std::is_signed<T>::value ? 2 : 1));   // the greatest power of two there is
  if (pos) {
    unsigned f = tlx::integer_log2_floor(x); CHECK((f < W) & (u >> f == 1), "floor of the logarithm");
    unsigned c = tlx::integer_log2_ceil(x); CHECK(c == f + ((u & (u - 1)) != 0), "ceiling of the logarithm");
    EQ(tlx::clz(x), W - 1 - f, "leading zeros"); unsigned z = tlx::ctz(x); CHECK((z < W) & (u >> z & 1) & ((u & (((U)1 << z) - 1)) == 0), "trailing zeros"); EQ((unsigned)tlx::ffs(x), z + 1, "first set bit");
    T d = tlx::round_down_to_power_of_two(x); EQ((U)d, (U)((U)1 << f), "round down to a power of two");
    if (u <= top) { T r = tlx::round_up_to_power_of_two(x); EQ((U)r, (U)((U)1 << c), "round up to a power of two"); }
  } else if (x == 0) { EQ((unsigned)tlx::ffs(x), 0u, "first set bit of zero"); EQ(tlx::integer_log2_ceil(x), 0u, "ceiling of zero"); EQ(tlx::round_down_to_power_of_two(x), (T)0, "zero rounds down to zero"); }
  else { unsigned z = tlx::ffs(x); CHECK((z >= 1) & (z <= W) & (u >> (z - 1) & 1) & ((u & (((U)1 << (z - 1)) - 1)) == 0), "first set bit of a negative number"); CHECK(tlx::clz(x) == 0, "leading zeros of a negative number"); }
  EQ(tlx::sgn(x), pos ? 1 : x == 0 ? 0 : -1, "sign");
}
static void rot() {
  uint32_t x = sx_u32("x"); int i = pick("i", 70) - 3; unsigned k = (unsigned)i & 31; uint32_t l = k ? x << k | x >> (32 - k) : x, r = k ? x >> k | x << (32 - k) : x; EQ(tlx::rol32_generic(x, i), l, "rotate left"); EQ(tlx::ror32_generic(x, i), r, "rotate right");
#if ROTASM
  EQ(tlx::rol32(x, i), l, "rotate left"); EQ(tlx::ror32(x, i), r, "rotate right");
#endif
  uint64_t y = sx_u64("y"); unsigned m = (unsigned)i & 63; uint64_t L = m ? y << m | y >> (64 - m) : y, R = m ? y >> m | y << (64 - m) : y; EQ(tlx::rol64_generic(y, i), L, "rotate left 64"); EQ(tlx::ror64_generic(y, i), R, "rotate right 64");
}
static void swaps() {
  uint16_t a = sx_u16("a"); uint32_t b = sx_u32("b"); uint64_t c = sx_u64("c"); uint16_t A = a << 8 | a >> 8; uint32_t B = 0; uint64_t C = 0; for (int i = 0; i < 4; i++) B |= (b >> 8 * i & 255) << (24 - 8 * i); for (int i = 0; i < 8; i++) C |= (c >> 8 * i & 255) << (56 - 8 * i);
  EQ(tlx::bswap16(a), A, "swap 2"); EQ(tlx::bswap32(b), B, "swap 4"); EQ(tlx::bswap64(c), C, "swap 8"); EQ(tlx::bswap16_generic(a), A, "swap 2"); EQ(tlx::bswap32_generic(b), B, "swap 4"); EQ(tlx::bswap64_generic(c), C, "swap 8");
  EQ(tlx::bswap16_be(a), A, "big endian 2"); EQ(tlx::bswap32_be(b), B, "big endian 4"); EQ(tlx::bswap64_be(c), C, "big endian 8"); EQ(tlx::bswap16_le(a), a, "little endian 2"); EQ(tlx::bswap32_le(b), b, "little endian 4"); EQ(tlx::bswap64_le(c), c, "little endian 8");
}
static void divs() { // small widths, so that the divisions stay within reach
  unsigned n = sx_u8("n"), k = 1 + pick("k", 20); unsigned q = tlx::div_ceil(n, k); CHECK(q * k >= n && (q == 0 || (q - 1) * k < n), "rounded-up quotient"); unsigned r = tlx::round_up(n, k); CHECK(r >= n && r - n < k && r == q * k, "round up to a multiple");
  uint64_t a = sx_u64("a"), b = sx_u64("b"); uint64_t d = tlx::abs_diff(a, b); CHECK(a > b ? a - d == b : b - d == a, "absolute difference"); int32_t e = (int32_t)sx_u32("e"); CHECK(tlx::abs_diff<int64_t>(e, 0) == (e < 0 ? -(int64_t)e : e), "absolute value");
  uint64_t p = sx_u8("p"); EQ(tlx::power_to_the<0>(p), 1ull, "power 0"); EQ(tlx::power_to_the<1>(p), p, "power 1"); EQ(tlx::power_to_the<2>(p), p * p, "square"); EQ(tlx::power_to_the<3>(p), p * p * p, "cube"); EQ(tlx::power_to_the<5>(p), p * p * p * p * p, "power 5"); EQ(tlx::power_to_the<7>(p), p * p * p * p * p * p * p, "power 7");
  tlx::AggregateMinMax<int> g, h; int v[3] = {(int)sx_u8("v"), (int)sx_u8("v"), (int)sx_u8("v")}; g.add(v[0]); g.add(v[1]); h.add(v[2]); int mn = std::min(v[0], std::min(v[1], v[2])), mx = std::max(v[0], std::max(v[1], v[2])); auto s = g + h; EQ(s.min(), mn, "least"); EQ(s.max(), mx, "greatest"); g += h; EQ(g.min(), mn, "least"); EQ(g.max(), mx, "greatest"); EQ(g.span(), mx - mn, "span");
}
#ifndef WHICH
#define WHICH {0,1,2,3,4,5,6,7,8}
#endif
int main() { static const unsigned which[] = WHICH; switch (which[pick("what", sizeof which / sizeof *which)]) { case 0: ints<int>(); break; case 1: ints<unsigned>(); break; case 2: ints<long>(); break; case 3: ints<unsigned long>(); break; case 4: ints<long long>(); break; case 5: ints<unsigned long long>(); break; case 6: rot(); break; case 7: swaps(); break; default: divs(); } sx_end(); }
#elif MODE == 2
#include "tlx/string/base64.hpp"
#include "tlx/string/hexdump.hpp"
#include "tlx/string/escape_uri.hpp"
#include "tlx/string/escape_html.hpp"
#include "tlx/string/bitdump.hpp"
#include "tlx/string/parse_uri.hpp"
static const char *B64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static bool b64c(unsigned char c) { return (c >= 'A' && c <= 'Z') | (c >= 'a' && c <= 'z') | (c >= '0' && c <= '9') | (c == '+') | (c == '/'); }
static bool wsp(unsigned char c) { return (c == '=') | (c == ' ') | (c == '\n') | (c == '\r') | (c == '\t'); }
static bool hexc(unsigned char c) { return (c >= '0' && c <= '9') | (c >= 'A' && c <= 'F') | (c >= 'a' && c <= 'f'); }
static unsigned hexv(unsigned char c) { return c <= '9' ? c - '0' : (c & 15) + 9; }
static unsigned b64v(unsigned char c) { return c >= 'a' ? c - 'a' + 26 : c >= 'A' ? c - 'A' : c >= '0' ? c - '0' + 52 : c == '+' ? 62 : 63; }
static void b64round() { S s = S("\xf1M\0\x9e?z", 6).substr(0, pick("fixed", 7)) + str("len", 0, NB); unsigned lb = pick("line", 3) * 4; S e = tlx::base64_encode(s, lb); EQ(tlx::base64_decode(e), s, "decoding gives back what was encoded"); S f; unsigned since = 0; for (char c : e) if (c == '\n') { CHECK(lb && since == lb, "lines have the asked length"); since = 0; } else { f += c; since++; } CHECK(!lb || since <= lb, "no line is too long"); EQ(f.size(), (s.size() + 2) / 3 * 4, "length of the code");
  for (size_t i = 0; i < f.size(); i++) { size_t bit = 6 * i; if (bit >= 8 * s.size()) { CHECK(f[i] == '=', "padding"); continue; } unsigned b0 = (unsigned char)s[bit / 8], b1 = bit / 8 + 1 < s.size() ? (unsigned char)s[bit / 8 + 1] : 0; unsigned v = ((b0 << 8 | b1) >> (10 - bit % 8)) & 63; CHECK(b64c(f[i]) & (b64v(f[i]) == v), "every letter stands for its six bits"); } }
static void b64any() { S s = str("len", 0, ND); bool strict = pick("strict", 2), bad = false; unsigned acc = 0, n = 0; S want; for (char c : s) { if (b64c(c)) { acc = acc << 6 | b64v(c); if (n++) want += (char)(acc >> (n == 2 ? 4 : n == 3 ? 2 : 0)); if (n == 4) n = acc = 0; } else if (!wsp(c)) { bad = true; if (strict) break; } }
  if (bad && strict) { sx_allow_throw(1); tlx::base64_decode(s, true); CHECK(false, "a foreign letter is rejected"); } EQ(tlx::base64_decode(s, strict), want, "decoded bytes"); }
static void hex() { S s = S("\xf1M\0\x9e", 4).substr(0, pick("fixed", 5)) + str("len", 0, NB), u = tlx::hexdump(s), l = tlx::hexdump_lc(s); CHECK(u.size() == 2 * s.size() && l.size() == u.size(), "two digits a byte"); for (size_t i = 0; i < s.size(); i++) { unsigned v = (unsigned char)s[i]; for (int j = 0; j < 2; j++) { unsigned d = j ? v & 15 : v >> 4; CHECK(((unsigned char)u[2 * i + j] == (d < 10 ? '0' + d : 'A' + d - 10)) & ((unsigned char)l[2 * i + j] == (d < 10 ? '0' + d : 'a' + d - 10)), "hexadecimal digits"); } } EQ(tlx::parse_hexdump(u), s, "parsed back"); EQ(tlx::parse_hexdump(l), s, "parsed back"); EQ(tlx::hexdump(std::vector<char>(s.begin(), s.end())), u, "vector form"); EQ(tlx::hexdump(std::vector<uint8_t>(s.begin(), s.end())), u, "vector form"); EQ(tlx::hexdump_lc(std::vector<uint8_t>(s.begin(), s.end())), l, "vector form"); }
static void hexany() { S s = str("len", 0, ND); bool ok = s.size() % 2 == 0; for (size_t i = 0; i < s.size(); i++) ok &= hexc(s[i]); if (!ok) { sx_allow_throw(1); tlx::parse_hexdump(s); CHECK(false, "what is not hexadecimal is rejected"); } S w; for (size_t i = 0; i < s.size(); i += 2) w += (char)(hexv(s[i]) << 4 | hexv(s[i + 1])); EQ(tlx::parse_hexdump(s), w, "parsed bytes"); }
static void uri() { S s = str("len", 0, NU); S e = tlx::escape_uri(s), d; for (size_t i = 0; i < e.size();) { unsigned char c = e[i]; if (c == '%') { CHECK(i + 2 < e.size() && hexc(e[i + 1]) && hexc(e[i + 2]), "escapes are complete"); unsigned char v = hexv(e[i + 1]) << 4 | hexv(e[i + 2]); bool unres = (v >= 'A' && v <= 'Z') || (v >= 'a' && v <= 'z') || (v >= '0' && v <= '9') || v == '-' || v == '_' || v == '.' || v == '~'; CHECK(!unres, "plain letters are not escaped"); d += (char)v; i += 3; } else { CHECK((c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || (c >= '0' && c <= '9') || c == '-' || c == '_' || c == '.' || c == '~', "only plain letters stay"); d += (char)c; i++; } } EQ(d, s, "unescaping gives back the text"); bool nul = false; for (char c : s) nul |= c == 0; if (!nul) EQ(tlx::escape_uri(s.c_str()), e, "both forms agree"); }
static void html() { S s = str("len", 0, NU, nullptr, false); S e = tlx::escape_html(s), d; static const char *n[4] = {"&amp;", "&lt;", "&gt;", "&quot;"}; for (size_t i = 0; i < e.size();) { char c = e[i]; CHECK(c != '<' && c != '>' && c != '"', "nothing that needs escaping stays"); if (c != '&') { d += c; i++; continue; } int k = -1; for (int j = 0; j < 4; j++) if (e.compare(i, strlen(n[j]), n[j]) == 0) k = j; CHECK(k >= 0, "known escapes"); if (k < 0) return; d += "&<>\""[k]; i += strlen(n[k]); } EQ(d, s, "unescaping gives back the text"); EQ(tlx::escape_html(s.c_str()), e, "both forms agree"); }
static void bits() { S s = str("len", 1, 2); S m = tlx::bitdump_8_msb(s), l = tlx::bitdump_8_lsb(s); S wm, wl; for (size_t i = 0; i < s.size(); i++) { if (i) wm += ' ', wl += ' '; for (int b = 0; b < 8; b++) { wm += (char)('0' + ((unsigned char)s[i] >> (7 - b) & 1)); wl += (char)('0' + ((unsigned char)s[i] >> b & 1)); } } EQ(m, wm, "bits, most significant first"); EQ(l, wl, "bits, least significant first"); }
static void parts() { S s = str("len", 0, NP_, "a?#/"); tlx::string_view p, q, f; tlx::parse_uri(s, &p, &q, &f); size_t h = s.find('#'); S before = s.substr(0, h), wf = h == S::npos ? S() : s.substr(h + 1); size_t m = before.find('?'); S wp = before.substr(0, m), wq = m == S::npos ? S() : before.substr(m + 1); EQ(S(p.data(), p.size()), wp, "path"); EQ(S(q.data(), q.size()), wq, "query"); EQ(S(f.data(), f.size()), wf, "fragment"); }
#ifndef WHICH
#define WHICH {0,1,2,3,4,5,6,7}
#endif
int main() { (void)B64; static const unsigned which[] = WHICH; switch (which[pick("what", sizeof which / sizeof *which)]) { case 0: b64round(); break; case 1: b64any(); break; case 2: hex(); break; case 3: hexany(); break; case 4: uri(); break; case 5: html(); break; case 6: bits(); break; default: parts(); } sx_end(); }
#elif MODE == 3
#include "tlx/digest.hpp"
#include "digest_ref.h"
// A message of LENS bytes with one arbitrary byte, given in up to three pieces cut anywhere near the block borders.
template <class D> static void digest(S (*ref)(const S &)) {
  static const unsigned lens[] = LENS; unsigned n = lens[pick("len", sizeof lens / sizeof *lens)]; S m; for (unsigned i = 0; i < n; i++) m += (char)(i * 37 + 11); if (n) { static const unsigned at[] = {0, 55, 63, 119, 127, 1000}; unsigned p = at[pick("pos", 6)]; if (p >= n) p = n - 1; if (SYM == 1) m[p] = (char)sx_u8("byte"); } if (SYM == 2) for (unsigned i = 0; i < n; i++) m[i] = (char)sx_u8("m");
  D whole(m); S want = SYM == 2 ? whole.digest() : ref(m); if (SYM != 2) EQ(whole.digest(), want, "digest of the whole message");
  unsigned c1 = 0, c2 = 0; if (n) { static const unsigned cut[] = {0, 1, 55, 56, 63, 64, 65, 111, 112, 127, 128, 129}; c1 = std::min(cut[pick("cut", 12)], n); c2 = std::min(cut[pick("cut2", 12)], n); if (c2 < c1) std::swap(c1, c2); }
  D part; part.process(m.substr(0, c1)); part.process(m.data() + c1, c2 - c1); part.process(m.substr(c2)); EQ(part.digest(), want, "digest of the pieces");
}
static void names() { S m = S("abc").substr(0, pick("len", 4)); S h = dref::md5(m), lc, uc; struct { S (*ref)(const S &); S (*lc)(const S &), (*uc)(const S &), (*lc2)(const void *, uint32_t), (*uc2)(const void *, uint32_t); } t[4] = {{dref::md5, tlx::md5_hex, tlx::md5_hex_uc, tlx::md5_hex, tlx::md5_hex_uc}, {dref::sha1, tlx::sha1_hex, tlx::sha1_hex_uc, tlx::sha1_hex, tlx::sha1_hex_uc}, {dref::sha256, tlx::sha256_hex, tlx::sha256_hex_uc, tlx::sha256_hex, tlx::sha256_hex_uc}, {dref::sha512, tlx::sha512_hex, tlx::sha512_hex_uc, tlx::sha512_hex, tlx::sha512_hex_uc}};
  auto &x = t[pick("kind", 4)]; h = x.ref(m); for (char c : h) for (int j = 4; j >= 0; j -= 4) { int d = (unsigned char)c >> j & 15; lc += "0123456789abcdef"[d]; uc += "0123456789ABCDEF"[d]; } EQ(x.lc(m), lc, "hexadecimal digest"); EQ(x.uc(m), uc, "upper-case digest"); EQ(x.lc2(m.data(), m.size()), lc, "hexadecimal digest"); EQ(x.uc2(m.data(), m.size()), uc, "upper-case digest"); }
int main() { switch (pick("what", 5)) { case 0: digest<tlx::MD5>(dref::md5); break; case 1: digest<tlx::SHA1>(dref::sha1); break; case 2: digest<tlx::SHA256>(dref::sha256); break; case 3: digest<tlx::SHA512>(dref::sha512); break; default: if (SYM != 2) names(); } sx_end(); }
#elif MODE == 5
#include "tlx/siphash.hpp"
static uint64_t rl(uint64_t x, int n) { return x << n | x >> (64 - n); }
static uint64_t sip(uint64_t k0, uint64_t k1, const S &m) { // SipHash-2-4
  uint64_t v0 = k0 ^ 0x736f6d6570736575ull, v1 = k1 ^ 0x646f72616e646f6dull, v2 = k0 ^ 0x6c7967656e657261ull, v3 = k1 ^ 0x7465646279746573ull; auto round = [&] { v0 += v1; v1 = rl(v1, 13); v1 ^= v0; v0 = rl(v0, 32); v2 += v3; v3 = rl(v3, 16); v3 ^= v2; v0 += v3; v3 = rl(v3, 21); v3 ^= v0; v2 += v1; v1 = rl(v1, 17); v1 ^= v2; v2 = rl(v2, 32); };
  size_t n = m.size(); for (size_t i = 0; i <= n / 8; i++) { uint64_t w = 0; for (int j = 7; j >= 0; j--) { size_t p = 8 * i + j; w = w << 8 | (p < n ? (unsigned char)m[p] : j == 7 ? n & 255 : 0); } v3 ^= w; round(); round(); v0 ^= w; } v2 ^= 255; for (int i = 0; i < 4; i++) round(); return v0 ^ v1 ^ v2 ^ v3; }
int main() {
  unsigned n = pick("len", LEN + 1); S m; for (unsigned i = 0; i < n; i++) m += (char)(i * 91 + 5); uint8_t key[16]; for (int i = 0; i < 16; i++) key[i] = i * 17 + 3; unsigned w = pick("where", 4); unsigned char b = sx_u8("byte"); if (w == 0) key[5] = b; else if (w == 1) key[15] = b; else if (n) m[w == 2 ? 0 : n - 1] = (char)b;
  uint64_t k0 = 0, k1 = 0; for (int i = 7; i >= 0; i--) k0 = k0 << 8 | key[i], k1 = k1 << 8 | key[8 + i]; alignas(16) static uint8_t K[16]; memcpy(K, key, 16); uint8_t *d = (uint8_t *)malloc(n + 1); memcpy(d, m.data(), n); uint64_t want = sip(k0, k1, m); EQ(tlx::siphash_plain(K, d, n), want, "SipHash (portable)");
#ifdef __SSE2__
  EQ(tlx::siphash_sse2(K, d, n), want, "SipHash (vector)");
#endif
  EQ(tlx::siphash(K, d, n), want, "SipHash"); if (w >= 2) { uint64_t p0 = 0x0706050403020100ull, p1 = 0x0f0e0d0c0b0a0908ull; EQ(tlx::siphash(m), sip(p0, p1, m), "SipHash with the standard key"); EQ(tlx::siphash(m.data(), n), sip(p0, p1, m), "SipHash with the standard key"); } sx_end();
}
#else
#include "tlx/string.hpp"
static char low(char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static S lowS(S s) { for (char &c : s) c = low(c); return s; }
static bool in(char c, const S &set) { for (char d : set) if (c == d) return true; return false; }
static bool at(const S &s, size_t i, const S &p) { if (i + p.size() > s.size()) return false; for (size_t j = 0; j < p.size(); j++) if (s[i + j] != p[j]) return false; return true; }
static V refSplit(const S &sep, const S &s, size_t limit) { V r; if (!limit) return r; size_t last = 0, i = 0; while (i < s.size()) { if (at(s, i, sep) && r.size() + 1 < limit) { r.push_back(s.substr(last, i - last)); i += sep.size(); last = i; } else i++; } r.push_back(s.substr(last)); return r; }
static S refJoin(const S &g, const V &v) { S r; for (size_t i = 0; i < v.size(); i++) { if (i) r += g; r += v[i]; } return r; }
static const char *AB = "ab ";
static void trims() { S s = str("s", 0, N), d = pick("drop", 2) ? S(" \r\n\t") : str("d", 1, 2); auto l = [&] { size_t i = 0; while (i < s.size() && in(s[i], d)) i++; return i; }(); auto r = [&] { size_t i = s.size(); while (i > l && in(s[i - 1], d)) i--; return i; }(); size_t r0 = s.size(); while (r0 > 0 && in(s[r0 - 1], d)) r0--; S wt = s.substr(l, r - l), wl = s.substr(l), wr = s.substr(0, r0); bool nul = in(0, d);
  EQ(tlx::trim(s, d), wt, "trim"); EQ(tlx::trim_left(s, d), wl, "trim left"); EQ(tlx::trim_right(s, d), wr, "trim right"); S a = s, b = s, c = s; tlx::trim(&a, d); tlx::trim_left(&b, d); tlx::trim_right(&c, d); EQ(a, wt, "trim in place"); EQ(b, wl, "trim left in place"); EQ(c, wr, "trim right in place");
  if (!nul) { EQ(tlx::trim(s, d.c_str()), wt, "trim"); EQ(tlx::trim_left(s, d.c_str()), wl, "trim left"); EQ(tlx::trim_right(s, d.c_str()), wr, "trim right"); a = b = c = s; tlx::trim(&a, d.c_str()); tlx::trim_left(&b, d.c_str()); tlx::trim_right(&c, d.c_str()); EQ(a, wt, "trim in place"); EQ(b, wl, "trim left in place"); EQ(c, wr, "trim right in place"); }
  if (d == " \r\n\t") { EQ(tlx::trim(s), wt, "trim blanks"); EQ(tlx::trim_left(s), wl, "trim blanks left"); EQ(tlx::trim_right(s), wr, "trim blanks right"); } }
static void splits() { S s = str("s", 0, N), sep = str("sep", 1, 3); unsigned li = pick("limit", 4); size_t lim = li == 3 ? S::npos : li; V w = refSplit(sep, s, lim); CHECK(same(tlx::split(sep, s, lim), w), "split at a string"); bool nul = in(0, sep); if (!nul) CHECK(same(tlx::split(sep.c_str(), s, lim), w), "split at a string"); V into{"x"}; tlx::split(&into, sep, s, lim); CHECK(same(into, w), "split into a vector"); if (sep.size() == 1) { CHECK(same(tlx::split(sep[0], s, lim), w), "split at a letter"); V i2{"y"}; tlx::split(&i2, sep[0], s, lim); CHECK(same(i2, w), "split at a letter into a vector"); }
  if (lim == S::npos) { EQ(tlx::join(sep, w), s, "joining what was split"); unsigned mf = pick("min", 4); V m = w; if (m.size() < mf) m.resize(mf); CHECK(same(tlx::split(sep, s, mf, S::npos), m), "at least so many fields"); } }
static void joins() { V v; unsigned n = pick("n", 4); for (unsigned i = 0; i < n; i++) v.push_back(str("p", 0, 2)); S g = str("g", 0, 2); S w = refJoin(g, v); EQ(tlx::join(g, v), w, "join"); if (!in(0, g)) EQ(tlx::join(g.c_str(), v), w, "join"); if (g.size() == 1) EQ(tlx::join(g[0], v), w, "join with a letter"); }
static void words() { S s = str("s", 0, N + 2, "a \t"); unsigned li = pick("limit", 4); size_t lim = li == 3 ? S::npos : li; V w; if (lim) { size_t i = 0; while (i < s.size()) { while (i < s.size() && in(s[i], " \t\r\n")) i++; if (i == s.size()) break; size_t j = i; while (j < s.size() && !in(s[j], " \t\r\n")) j++; if (w.size() + 1 >= lim && j < s.size()) { w.push_back(s.substr(i)); break; } w.push_back(s.substr(i, j - i)); i = j; } } CHECK(same(tlx::split_words(s, lim), w), "split into words"); }
static void quoted() { V v; unsigned n = 1 + pick("n", 3); for (unsigned i = 0; i < n; i++) { S p = str("p", 1, 3, "a \"\\\n"); sx_assume(p[0] != '"'); v.push_back(p); } S j = tlx::join_quoted(v); CHECK(same(tlx::split_quoted(j), v), "splitting gives back the joined fields"); V u; for (unsigned i = 0; i < n; i++) u.push_back(v[i]); S k = tlx::join_quoted(u, 'a', ' ', 'a' + 1); (void)k; }
static void quotedAny() { S s = str("s", 0, N + 1, "a \"\\n"); // what the grammar rejects throws, what it accepts is decoded
  V w; S e; bool bad = false; size_t i = 0; while (i < s.size() && !bad) { if (s[i] == ' ') { i++; continue; } e.clear(); if (s[i] == '"') { i++; bool closed = false; while (i < s.size() && !bad) { if (s[i] == '"') { i++; closed = true; if (i < s.size() && s[i] != ' ') bad = true; break; } if (s[i] == '\\') { i++; if (i >= s.size()) bad = true; else if (s[i] == 'n') e += '\n'; else if (s[i] == '"' || s[i] == '\\') e += s[i]; else bad = true; i++; } else e += s[i++]; } bad |= !closed; } else while (i < s.size() && s[i] != ' ') e += s[i++]; w.push_back(e); }
  if (bad) { sx_allow_throw(1); tlx::split_quoted(s); CHECK(false, "malformed quoting is rejected"); } CHECK(same(tlx::split_quoted(s), w), "quoted fields"); }
static void finds() { S s = str("s", 0, N, nullptr, false), p = str("p", 0, 2, nullptr, false); bool c = false; for (size_t i = 0; i <= s.size(); i++) c |= at(s, i, p); EQ(tlx::contains(s, p), c, "contains"); EQ(tlx::contains(s, p.c_str()), c, "contains"); if (p.size() == 1) EQ(tlx::contains(s, p[0]), c, "contains a letter"); bool sw = at(s, 0, p), ew = s.size() >= p.size() && at(s, s.size() - p.size(), p); EQ(tlx::starts_with(s, p), sw, "starts with"); EQ(tlx::starts_with(s.c_str(), p), sw, "starts with"); EQ(tlx::starts_with(s, p.c_str()), sw, "starts with"); EQ(tlx::starts_with(s.c_str(), p.c_str()), sw, "starts with"); EQ(tlx::ends_with(s, p), ew, "ends with"); EQ(tlx::ends_with(s.c_str(), p), ew, "ends with"); EQ(tlx::ends_with(s, p.c_str()), ew, "ends with"); EQ(tlx::ends_with(s.c_str(), p.c_str()), ew, "ends with"); }
static void icase() { S a = str("a", 0, 2, nullptr, false), b = str("b", 0, 2, nullptr, false); for (char c : a) sx_assume(!(c & 0x80)); for (char c : b) sx_assume(!(c & 0x80)); S A = lowS(a), B = lowS(b); EQ(tlx::to_lower(a), A, "lower case"); S U = a; for (char &c : U) if (c >= 'a' && c <= 'z') c -= 32; EQ(tlx::to_upper(a), U, "upper case"); int c = A < B ? -1 : A > B; EQ(tlx::compare_icase(a, b), c, "compare without case"); EQ(tlx::compare_icase(a.c_str(), b), c, "compare without case"); EQ(tlx::compare_icase(a, b.c_str()), c, "compare without case"); EQ(tlx::compare_icase(a.c_str(), b.c_str()), c, "compare without case"); EQ(tlx::less_icase(a, b), c < 0, "less without case"); EQ(tlx::less_icase(a.c_str(), b), c < 0, "less without case"); EQ(tlx::less_icase(a, b.c_str()), c < 0, "less without case"); EQ(tlx::less_icase(a.c_str(), b.c_str()), c < 0, "less without case"); EQ(tlx::equal_icase(a, b), c == 0, "equal without case"); EQ(tlx::equal_icase(a.c_str(), b), c == 0, "equal without case"); EQ(tlx::equal_icase(a, b.c_str()), c == 0, "equal without case"); EQ(tlx::equal_icase(a.c_str(), b.c_str()), c == 0, "equal without case"); EQ(tlx::less_icase_asc()(a, b), c < 0, "ascending"); EQ(tlx::less_icase_desc()(a, b), c > 0, "descending");
  bool sw = at(A, 0, B), ew = A.size() >= B.size() && at(A, A.size() - B.size(), B); EQ(tlx::starts_with_icase(a, b), sw, "starts with, any case"); EQ(tlx::starts_with_icase(a.c_str(), b), sw, "starts with, any case"); EQ(tlx::starts_with_icase(a, b.c_str()), sw, "starts with, any case"); EQ(tlx::starts_with_icase(a.c_str(), b.c_str()), sw, "starts with, any case"); EQ(tlx::ends_with_icase(a, b), ew, "ends with, any case"); EQ(tlx::ends_with_icase(a, b.c_str()), ew, "ends with, any case"); }
static void replaces() { S s = str("s", 0, N), n = str("n", 1, 2, nullptr, false), w = str("w", 0, 2, "xy"); S all, first = s; for (size_t i = 0; i < s.size();) if (at(s, i, n)) { all += w; i += n.size(); } else all += s[i++]; for (size_t i = 0; i < s.size(); i++) if (at(s, i, n)) { first = s.substr(0, i) + w + s.substr(i + n.size()); break; }
  EQ(tlx::replace_all(s, n, w), all, "replace all"); EQ(tlx::replace_all(s, n.c_str(), w), all, "replace all"); EQ(tlx::replace_all(s, n, w.c_str()), all, "replace all"); EQ(tlx::replace_all(s, n.c_str(), w.c_str()), all, "replace all"); S t = s; tlx::replace_all(&t, n, w); EQ(t, all, "replace all in place"); EQ(tlx::replace_first(s, n, w), first, "replace the first"); EQ(tlx::replace_first(s, n.c_str(), w.c_str()), first, "replace the first"); t = s; tlx::replace_first(&t, n, w); EQ(t, first, "replace the first in place"); if (n.size() == 1 && w.size() == 1) { EQ(tlx::replace_all(s, n[0], w[0]), all, "replace a letter"); EQ(tlx::replace_first(s, n[0], w[0]), first, "replace the first letter"); } }
static void erases() { S s = str("s", 0, N + 1), d = str("d", 1, 2, nullptr, false); S w; for (char c : s) if (!in(c, d)) w += c; EQ(tlx::erase_all(s, d), w, "erase all"); EQ(tlx::erase_all(s, d.c_str()), w, "erase all"); S t = s; tlx::erase_all(&t, d); EQ(t, w, "erase all in place"); t = s; tlx::erase_all(&t, d.c_str()); EQ(t, w, "erase all in place"); if (d.size() == 1) { EQ(tlx::erase_all(s, d[0]), w, "erase a letter"); t = s; tlx::erase_all(&t, d[0]); EQ(t, w, "erase a letter in place"); } }
static void between() { S s = str("s", 0, N + 1, "ab<>"), a = str("a", 1, 2, "ab<"), b = str("b", 1, 2, "b>"); S w; size_t i = 0; while (i <= s.size() && !at(s, i, a)) i++; if (i <= s.size()) { size_t j = i + a.size(); while (j <= s.size() && !at(s, j, b)) j++; if (j <= s.size()) w = s.substr(i + a.size(), j - i - a.size()); } EQ(tlx::extract_between(s, a, b), w, "text between"); EQ(tlx::extract_between(s, a.c_str(), b.c_str()), w, "text between"); EQ(tlx::extract_between(s, a, b.c_str()), w, "text between"); EQ(tlx::extract_between(s, a.c_str(), b), w, "text between"); }
static V wordsOf(const S &s) { V w; S c; for (char x : s) if (in(x, " \t\r\n")) { if (!c.empty()) w.push_back(c); c.clear(); } else c += x; if (!c.empty()) w.push_back(c); return w; }
static void sets() { S s = str("s", 0, N + 1, "ab "), p = str("p", 0, 2, "ab"); bool c = p.empty(); for (auto &x : wordsOf(s)) c |= x == p; EQ(tlx::contains_word(s, p), c, "contains a word"); EQ(tlx::contains_word(s, p.c_str()), c, "contains a word"); S t = str("t", 0, 3, "ab "); V u = wordsOf(s); for (auto &x : wordsOf(t)) { bool h = false; for (auto &y : u) h |= x == y; if (!h) u.push_back(x); } CHECK(same(wordsOf(tlx::union_words(s, t)), u), "union of words"); V l = wordsOf(s); size_t ix = l.size(); for (size_t i = l.size(); i-- > 0;) if (l[i] == p) ix = i; unsigned h = pick("how", 4); if (ix == l.size()) sx_allow_throw(1);
  size_t r = h == 0 ? tlx::index_of(l, p) : h == 1 ? tlx::index_of(l, p.c_str()) : h == 2 ? tlx::index_of_icase(l, p) : tlx::index_of_icase(l, p.c_str()); CHECK(ix < l.size(), "looking for what is not there throws"); EQ(r, ix, "index of"); }
static void misc() { S s = str("s", 0, 3); unsigned l = pick("l", 6); S w = s.substr(0, std::min<size_t>(l, s.size())); while (w.size() < l) w += '.'; EQ(tlx::pad(s, l, '.'), w, "pad");
  uint32_t h = 5381, m = 0; for (char c : s) h = h * 33 + (unsigned char)c, m = (unsigned char)c + (m << 6) + (m << 16) - m; EQ(tlx::hash_djb2(s), h, "djb2"); EQ(tlx::hash_sdbm(s), m, "sdbm"); EQ(tlx::hash_djb2(s.data(), s.size()), h, "djb2"); EQ(tlx::hash_sdbm(s.data(), s.size()), m, "sdbm"); }
static void wraps() { S s = str("s", 0, N + 3, "ab \n"); unsigned k = 1 + pick("w", 4); S o = tlx::word_wrap(s, k); CHECK(o.size() == s.size(), "wrapping keeps the length"); for (size_t i = 0; i < s.size(); i++) CHECK(o[i] == s[i] || (s[i] == ' ' && o[i] == '\n'), "only spaces become line breaks"); size_t b = 0; for (size_t i = 0; i <= o.size(); i++) if (i == o.size() || o[i] == '\n') { S line = o.substr(b, i - b); size_t len = line.size(); while (len && line[len - 1] == ' ') len--; size_t lead = 0; while (lead < len && line[lead] == ' ') lead++; bool blank = false; for (size_t j = lead; j < len; j++) blank |= line[j] == ' '; CHECK(len <= k || !blank, "a line longer than asked is a single word"); b = i + 1; } }
static unsigned lev(const S &a, const S &b, size_t i, size_t j) { if (!i) return j; if (!j) return i; unsigned x = lev(a, b, i - 1, j) + 1, y = lev(a, b, i, j - 1) + 1, z = lev(a, b, i - 1, j - 1) + (a[i - 1] != b[j - 1]); return std::min(x, std::min(y, z)); }
static void distance() { S a = str("a", 0, 3, "abA"), b = str("b", 0, 3, "abA"); size_t d = lev(a, b, a.size(), b.size()), e = lev(lowS(a), lowS(b), a.size(), b.size()); EQ(tlx::levenshtein(a, b), d, "edit distance"); EQ(tlx::levenshtein(a.c_str(), b.c_str()), d, "edit distance"); EQ(tlx::levenshtein_icase(a, b), e, "edit distance without case"); EQ(tlx::levenshtein_icase(a.c_str(), b.c_str()), e, "edit distance without case"); }
int main() { static void (*const f[])() = {trims, splits, joins, words, quoted, quotedAny, finds, icase, replaces, erases, between, sets, misc, wraps, distance}; static const unsigned which[] = WHICH; f[which[pick("what", sizeof which / sizeof *which)]](); sx_end(); }
#endif
