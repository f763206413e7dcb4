// Wormhole key-value records: comparisons, encodings, conversions and checksums against their definitions.
#include "ref.h"
#include <string.h>
#include <stdlib.h>
#include "wormhole/lib.h"
#include "wormhole/kv.h"
static int sgn(int x) { return x < 0 ? -1 : x > 0; }
static int refCmp(const u8 *a, unsigned n, const u8 *b, unsigned m) { unsigned l = n < m ? n : m; int r = 0; for (unsigned i = l; i-- > 0;) { int d = (a[i] > b[i]) - (a[i] < b[i]); r = d ? d : r; if (i == l - 1 && !d) r = 0; } // first difference wins: computed back to front
  bool diff = false; for (unsigned i = 0; i < l; i++) diff |= a[i] != b[i]; int t = (n > m) - (n < m); return diff ? r : t; }
static unsigned refLcp(const u8 *a, const u8 *b, unsigned n) { unsigned r = n; for (unsigned i = n; i-- > 0;) r = (unsigned)sel(a[i] != b[i], i, r); return r; }
static u32 crcBits(const u8 *p, unsigned n, u32 c) { for (unsigned i = 0; i < n; i++) { c ^= p[i]; for (int k = 0; k < 8; k++) c = (c >> 1) ^ (0x82F63B78u & (0 - (c & 1))); } return c; }
static u32 crcRef(const u8 *p, unsigned n, u32 c) { for (unsigned i = 0; i < n; i++) c = _mm_crc32_u8(c, p[i]); return c; }     // one byte at a time; its step is compared with the polynomial in MODE 5
static struct kv *mk(unsigned klen, unsigned vlen) { return (struct kv *)malloc(sizeof(struct kv) + klen + vlen); }
static bool same(const void *a, const void *b, unsigned n) { bool ok = true; for (unsigned i = 0; i < n; i++) ok &= ((const u8 *)a)[i] == ((const u8 *)b)[i]; return ok; }
#ifndef LENS
#define LENS {0,1,3,8,9}
#endif
static const int lens[] = LENS; enum { NL = sizeof lens / sizeof *lens };
static u8 *exact(unsigned n, const char *nm) { u8 *p = (u8 *)malloc(n ? n : 1); if (n) sx_bytes(p, n, nm); return p; }
#if MODE != 2
extern "C" size_t hx_fwrite(const void *, size_t, size_t b, FILE *) { return b; }
#endif
#if MODE == 0     // variable-length integers
int main() {
  int w = sx_choice("width", 3);
  if (w == 0) { u32 v = sx_u32("v"); u32 e = vi128_estimate_u32(v); CHECK(e >= 1 && e <= 5, "the announced size is within bounds"); u8 *b = (u8 *)malloc(e); u8 *p = vi128_encode_u32(b, v); CHECK(p == b + e, "encoding takes the announced size"); CHECK(b[0] != 0, "the first byte is never zero"); u32 r = ~v; const u8 *q = vi128_decode_u32(b, &r); CHECK(q == b + e && r == v, "decoding gives back the value and the length"); }
  else if (w == 1) { u64 v = sx_u64("v"); u32 e = vi128_estimate_u64(v); CHECK(e >= 1 && e <= 10, "the announced size is within bounds"); u8 *b = (u8 *)malloc(e); u8 *p = vi128_encode_u64(b, v); CHECK(p == b + e, "encoding takes the announced size"); CHECK(b[0] != 0, "the first byte is never zero"); u64 r = ~v; const u8 *q = vi128_decode_u64(b, &r); CHECK(q == b + e && r == v, "decoding gives back the value and the length"); }
  else { bool big = sx_choice("big", 2); unsigned m = big ? 10 : 5; u8 *b = exact(m, "b"); sx_assume(b[0] != 0); unsigned n = 0; while (n < m && (b[n] & 0x80)) n++;
    u64 v = 0; for (unsigned i = 0; i <= n && i < m; i++) v |= (u64)(b[i] & 0x7f) << (7 * i);
    if (big) { u64 r; const u8 *q = vi128_decode_u64(b, &r); if (n == m) CHECK(!q && r == 0, "an unterminated encoding is refused"); else CHECK(q == b + n + 1 && r == v, "any terminated encoding decodes to its groups"); }
    else { u32 r; const u8 *q = vi128_decode_u32(b, &r); if (n == m) CHECK(!q && r == 0, "an unterminated encoding is refused"); else CHECK(q == b + n + 1 && r == (u32)v, "any terminated encoding decodes to its groups"); } }
  sx_end();
}
#elif MODE == 1   // bits
#ifdef ALLROT
#define ROT(w) sx_choice("m", w)
#else
static const unsigned char rots[] = {0, 1, 2, 7, 8, 15, 16, 17, 30, 31, 32, 33, 40, 62, 63};
#define ROT(w) (rots[sx_choice("m", 15)] % (w))
#endif
int main() {
  switch (sx_choice("fn", 10)) {
  case 0: { u32 v = sx_u32("v"), r = bits_reverse_u32(v); u32 e = 0; for (int i = 0; i < 32; i++) e |= ((v >> i) & 1u) << (31 - i); CHECK(r == e, "32 bits are reversed"); break; }
  case 1: { u64 v = sx_u64("v"), r = bits_reverse_u64(v); u64 e = 0; for (int i = 0; i < 64; i++) e |= ((v >> i) & 1ull) << (63 - i); CHECK(r == e, "64 bits are reversed"); break; }
  case 2: { u64 v = sx_u64("v"); u8 n = sx_choice("n", 2) * 64 + ROT(64); int s = n & 63; u64 l = 0, r = 0; for (int i = 0; i < 64; i++) { l |= ((v >> i) & 1ull) << ((i + s) & 63); r |= ((v >> i) & 1ull) << ((i - s) & 63); } CHECK(bits_rotl_u64(v, n) == l, "64 bits rotate left"); CHECK(bits_rotr_u64(v, n) == r, "64 bits rotate right"); break; }
  case 3: { u32 v = sx_u32("v"); u8 n = sx_choice("n", 2) * 32 + ROT(32); int s = n & 31; u32 l = 0, r = 0; for (int i = 0; i < 32; i++) { l |= ((v >> i) & 1u) << ((i + s) & 31); r |= ((v >> i) & 1u) << ((i - s) & 31); } CHECK(bits_rotl_u32(v, n) == l, "32 bits rotate left"); CHECK(bits_rotr_u32(v, n) == r, "32 bits rotate right"); break; }
  case 4: { u64 v = sx_u64("v"); sx_assume(v <= 1ull << 63); u64 r = bits_p2_up_u64(v); CHECK(v ? (r >= v && (r & (r - 1)) == 0 && r != 0 && (v == 1 ? r == 1 : r >> 1 < v)) : r == 0, "the smallest power of two not below"); break; }
  case 5: { u32 v = sx_u32("v"); sx_assume(v <= 1u << 31); u32 r = bits_p2_up_u32(v); CHECK(v ? (r >= v && (r & (r - 1)) == 0 && r != 0 && (v == 1 ? r == 1 : r >> 1 < v)) : r == 0, "the smallest power of two not below"); break; }
  case 6: { u64 v = sx_u64("v"), r = bits_p2_down_u64(v); CHECK(v ? (r <= v && r != 0 && (r & (r - 1)) == 0 && (v ^ r) < r) : r == 0, "the greatest power of two not above"); break; }
  case 7: { u32 v = sx_u32("v"), r = bits_p2_down_u32(v); CHECK(v ? (r <= v && r != 0 && (r & (r - 1)) == 0 && (v ^ r) < r) : r == 0, "the greatest power of two not above"); break; }
  case 8: { u64 v = sx_u64("v"); u8 p = sx_choice("p", 60); u64 m = (1ull << p) - 1; sx_assume(v <= ~m); u64 u = bits_round_up(v, p), d = bits_round_down(v, p); CHECK((u & m) == 0 && u >= v && u - v <= m, "rounding up to a power of two"); CHECK((d & m) == 0 && d <= v && v - d <= m, "rounding down to a power of two"); break; }
  default: { u64 v = sx_u16("v"), a = 1 + sx_choice("a", 20); u64 u = bits_round_up_a(v, a), d = bits_round_down_a(v, a); u64 k = v % a; CHECK(u == (k ? v - k + a : v), "rounding up to a multiple"); CHECK(d == v - k, "rounding down to a multiple"); break; } }
  sx_end();
}
#elif MODE == 2   // hexadecimal and decimal text
static u8 outb[256]; static unsigned outn;
extern "C" size_t hx_fwrite(const void *p, size_t a, size_t b, FILE *) { for (size_t i = 0; i < a * b; i++) outb[outn++] = ((const u8 *)p)[i]; return b; }
static u8 hexc(unsigned d) { return (u8)(d < 10 ? '0' + d : 'a' + d - 10); }
int main() {
  switch (sx_choice("fn", 6)) {
  case 0: { u32 v = sx_u32("v"); u8 *b = (u8 *)malloc(8); strhex_32(b, v); bool ok = true; for (int i = 0; i < 8; i++) ok &= b[i] == hexc((v >> (28 - 4 * i)) & 15); CHECK(ok, "eight hexadecimal digits, high first"); break; }
  case 1: { u64 v = sx_u64("v"); u8 *b = (u8 *)malloc(16); strhex_64(b, v); bool ok = true; for (int i = 0; i < 16; i++) ok &= b[i] == hexc((v >> (60 - 4 * i)) & 15); CHECK(ok, "sixteen hexadecimal digits, high first"); break; }
  case 2: { static const u32 base[] = {0, 0xff00, 0x10000, 999999900u, 0x7fffff80u, 0xffffff00u, 4200000000u}; u32 v = base[sx_choice("base", 7)] + sx_u8("v"); u8 *b = (u8 *)malloc(10); strdec_32(b, v); u64 r = 0; bool ok = true; for (int i = 0; i < 10; i++) { ok &= b[i] >= '0' && b[i] <= '9'; r = r * 10 + (b[i] - '0'); } CHECK(ok && r == v, "ten decimal digits of the value"); u8 z[11]; memcpy(z, b, 10); z[10] = 0; CHECK(a2u32(z) == v && a2u64(z) == v && a2s64(z) == (long)v, "decimal text parses back"); break; }
  case 3: { static const u64 base[] = {0, 0xffff00, 99999999999999900ull, ~0ull - 255, 1ull << 63, 10000000000000000000ull}; u64 v = base[sx_choice("base", 6)] + sx_u8("v"); u8 *b = (u8 *)malloc(20); strdec_64(b, v); unsigned __int128 r = 0; bool ok = true; for (int i = 0; i < 20; i++) { ok &= b[i] >= '0' && b[i] <= '9'; r = r * 10 + (b[i] - '0'); } CHECK(ok && r == v, "twenty decimal digits of the value"); break; }
  case 4: { unsigned n = sx_choice("n", 4); u8 *p = exact(n, "d"); str_print_hex(0, p, n); bool ok = outn == 3 * n; for (unsigned i = 0; i < n; i++) ok &= outb[3 * i] == ' ' && outb[3 * i + 1] == hexc(p[i] >> 4) && outb[3 * i + 2] == hexc(p[i] & 15); CHECK(ok, "bytes print in hexadecimal"); break; }
  default: { unsigned n = sx_choice("n", 3); u8 *p = exact(n, "d"); str_print_dec(0, p, n); bool ok = outn == 4 * n; for (unsigned i = 0; i < n; i++) { ok &= outb[4 * i] == ' '; unsigned r = 0; for (int k = 1; k < 4; k++) { u8 c = outb[4 * i + k]; ok &= c >= '0' && c <= '9'; r = r * 10 + (c - '0'); } ok &= r == p[i]; } CHECK(ok, "bytes print in decimal"); break; } }
  sx_end();
}
#elif MODE == 3   // comparisons, matches, common prefixes
int main() {
  unsigned n = lens[sx_choice("n", NL)], m = lens[sx_choice("m", NL)]; unsigned v2 = sx_choice("v", 2) * 130;
  struct kv *a = mk(n, 3), *b = mk(m, v2); a->klen = n; a->vlen = 3; a->hash = 0; b->klen = m; b->vlen = v2; b->hash = 0; if (n) sx_bytes(a->kv, n, "a"); if (m) sx_bytes(b->kv, m, "b"); memset(a->kv + n, 1, 3); memset(b->kv + m, 1, v2);
  a->hash = sx_u64("ha"); b->hash = sx_u64("hb");
  int e = refCmp(a->kv, n, b->kv, m); bool eq = e == 0; unsigned l = n < m ? n : m, lcp = refLcp(a->kv, b->kv, l);
  struct kref ra, rb; kref_ref_kv(&ra, a); kref_ref_raw(&rb, b->kv, m); struct kvref va; kvref_ref_kv(&va, a);
  u8 *k128 = (u8 *)malloc(5 + m); u8 *pk = vi128_encode_u32(k128, m); memcpy(pk, b->kv, m); size_t es = 0; u8 *kv128 = kv128_encode_kv(b, NULL, &es);
  CHECK(sgn(kv_compare(a, b)) == e && sgn(kv_compare(b, a)) == -e, "two records compare as their keys");
  CHECK(sgn(kv_k128_compare(a, k128)) == e && sgn(kv_kv128_compare(a, kv128)) == e, "a record compares with an encoded one as their keys");
  CHECK(sgn(kref_compare(&ra, &rb)) == e && sgn(kref_kv_compare(&ra, b)) == e && sgn(kvref_kv_compare(&va, b)) == e, "a reference compares as its key");
  CHECK(sgn(kref_k128_compare(&ra, k128)) == e && sgn(kref_kv128_compare(&ra, kv128)) == e, "a reference compares with an encoded record as their keys");
  CHECK(kv_match(a, b) == eq && kv_match_kv128(a, kv128) == eq && kref_match(&ra, &rb) == eq && kref_kv_match(&ra, b) == eq, "keys match exactly if they are equal");
  CHECK(kv_match_hash(a, b) == (a->hash == b->hash && eq), "records with equal checksums match exactly if their keys are equal");
  CHECK(kv_key_lcp(a, b) == lcp && kref_lcp(&ra, &rb) == lcp && kref_kv_lcp(&ra, b) == lcp && memlcp(a->kv, b->kv, l) == lcp, "the longest common prefix is exact");
  if (lcp) { unsigned k = 1 + sx_choice("skip", 2); if (k <= lcp) CHECK(kv_key_lcp_skip(a, b, k) == lcp, "the longest common prefix is exact from a known prefix on"); } else CHECK(kv_key_lcp_skip(a, b, 0) == lcp, "the longest common prefix is exact from a known prefix on");
  struct kv *c = kv_dup(a); CHECK(kv_match_full(a, c), "a copy matches fully"); c->kv[sx_choice("at", n + 3)] ^= 1; CHECK(!kv_match_full(a, c), "a full match sees every byte"); b->hash = a->hash; CHECK(kv_match_full(a, b) == (n == m && v2 == 3 && eq), "a full match needs key and value");
  sx_end();
}
#elif MODE == 4   // building, copying, packing
#ifndef VLENS
#define VLENS {0,2,127,128}
#endif
static const int vlens[] = VLENS; enum { NVL = sizeof vlens / sizeof *vlens };
static void isRec(const struct kv *r, const u8 *k, unsigned n, const u8 *v, unsigned m, const char *msg) { CHECK(r && r->klen == n && r->vlen == m && same(r->kv, k, n) && same(r->kv + n, v, m), msg); u32 c = crcRef(k, n, KV_CRC32C_SEED); CHECK(r->hash == ((u64)~c << 32 | c), "a record carries the checksum of its key"); CHECK(kv_size(r) == sizeof(*r) + n + m && key_size(r) == sizeof(*r) + n, "sizes are exact"); }
int main() {
  unsigned n = lens[sx_choice("n", NL)], m = vlens[sx_choice("m", NVL)]; u8 *k = exact(n, "k"), *v = exact(m, "v"); struct kv *r = kv_create(k, n, v, m), *t; isRec(r, k, n, v, m, "a record holds its key and value");
  CHECK(kv_size_align(r, 8) == (kv_size(r) + 7) / 8 * 8 && key_size_align(r, 16) == (key_size(r) + 15) / 16 * 16, "aligned sizes round up"); CHECK(kv_vptr(r) == r->kv + n && kv_kptr(r) == r->kv && kv_vptr_c(r) == r->kv + n && kv_kptr_c(r) == r->kv, "key and value are where they should be");
  struct kref f; kref_ref_hash32(&f, k, n); struct kref g = kv_kref(r), h; kref_ref_kv_hash32(&h, r); CHECK(f.hash32 == g.hash32 && f.hash32 == h.hash32 && f.len == n && g.len == n && h.len == n && f.ptr == k && g.ptr == r->kv && h.ptr == r->kv, "references name the key and its checksum"); h.hash32 = 1; kref_update_hash32(&h); CHECK(h.hash32 == f.hash32, "a reference recomputes the checksum");
  switch (sx_choice("fn", 12)) {
  case 0: isRec(kv_dup(r), k, n, v, m, "a copy is equal"); CHECK(kv_dup(NULL) == NULL, "no copy of nothing"); break;
  case 1: isRec(kv_dup_key(r), k, n, v, 0, "a key copy has the key only"); break;
  case 2: t = mk(n, m); CHECK(kv_dup2(r, t) == t, "a copy goes where asked"); isRec(t, k, n, v, m, "a copy is equal"); isRec(kv_dup2(r, NULL), k, n, v, m, "a copy is equal"); break;
  case 3: t = mk(n, 0); CHECK(kv_dup2_key(r, t) == t, "a copy goes where asked"); isRec(t, k, n, v, 0, "a key copy has the key only"); isRec(kv_dup2_key(r, NULL), k, n, v, 0, "a key copy has the key only"); break;
  case 4: { unsigned p = sx_choice("plen", n + 1); isRec(kv_dup2_key_prefix(r, sx_choice("out", 2) ? mk(p, 0) : NULL, p), k, p, v, 0, "a prefix copy has the prefix"); break; }
  case 5: { size_t e = kv128_estimate_kv(r), s = 0, d = 0; bool own = sx_choice("own", 2); u8 *b = kv128_encode_kv(r, own ? (u8 *)malloc(e) : NULL, &s); CHECK(s == e && kv128_size(b) == e, "the packed size is the announced one"); t = kv128_decode_kv(b, own ? mk(n, m) : NULL, &d); CHECK(d == e, "unpacking consumes the packed size"); isRec(t, k, n, v, m, "a packed record decodes to itself"); break; }
  case 6: t = mk(n, m); kv_refill_kref_v(t, &f, v, m); isRec(t, k, n, v, m, "a record is filled from a reference"); t = mk(n, 0); kv_refill_kref(t, &f); isRec(t, k, n, v, 0, "a key is filled from a reference"); isRec(kv_create_kref(&f, v, m), k, n, v, m, "a record is made from a reference"); break;
  case 7: { struct kvref q; kvref_ref_kv(&q, r); CHECK(q.kptr == r->kv && q.vptr == r->kv + n, "a reference names key and value"); bool own = sx_choice("own", 2); isRec(kvref_dup2_kv(&q, own ? mk(n, m) : NULL), k, n, v, m, "a referenced record copies"); isRec(kvref_dup2_key(&q, own ? mk(n, 0) : NULL), k, n, v, 0, "a referenced key copies"); break; }
  case 8: { t = mk(8, m); u64 x = sx_u64("x"); kv_refill_u64(t, x, v, m); u8 e[8]; for (int i = 0; i < 8; i++) e[i] = (u8)(x >> (56 - 8 * i)); isRec(t, e, 8, v, m, "an integer key is stored high byte first"); break; }
  case 9: { static const char dg[] = "0123456789abcdef"; u64 x = (sx_choice("base", 2) ? 0xfedcba9876543200ull : 0x0123456789abcd00ull) + sx_u8("x"); u8 e[32]; for (int i = 0; i < 16; i++) { unsigned d = (x >> (60 - 4 * i)) & 15; e[i] = (u8)(d < 10 ? '0' + d : 'a' + d - 10); } (void)dg; t = mk(16, m); kv_refill_hex64(t, x, v, m); isRec(t, e, 16, v, m, "an integer key in hexadecimal"); t = mk(8, m); kv_refill_hex32(t, (u32)x, v, m); isRec(t, e + 8, 8, v, m, "a short integer key in hexadecimal");
    unsigned l = sx_choice("klen", 2) ? 19 : 7; for (int i = 16; i < 19; i++) e[i] = '!'; t = mk(l < 16 ? 16 : l, m); kv_refill_hex64_klen(t, x, l, v, m); isRec(t, e, l < 16 ? 16 : l, v, m, "a padded hexadecimal key"); break; }
  case 10: { char s[6] = {0}, w[4] = {0}; unsigned sl = sx_choice("sl", 5), wl = sx_choice("wl", 3); for (unsigned i = 0; i < sl; i++) { s[i] = (char)sx_u8("s"); sx_assume(s[i] != 0); } for (unsigned i = 0; i < wl; i++) { w[i] = (char)sx_u8("w"); sx_assume(w[i] != 0); } isRec(kv_create_str_str(s, w), (u8 *)s, sl, (u8 *)w, wl, "a record from two strings"); isRec(kv_create_str(s, v, m), (u8 *)s, sl, v, m, "a record from a string"); t = mk(sl, wl); kv_refill_str_str(t, s, w); isRec(t, (u8 *)s, sl, (u8 *)w, wl, "a record refilled from two strings"); t = mk(sl, m); kv_refill_str(t, s, v, m); isRec(t, (u8 *)s, sl, v, m, "a record refilled from a string"); break; }
  default: { t = kv_dup(r); u8 *w = exact(m, "w"); kv_refill_value(t, w, m); isRec(t, k, n, w, m, "a new value leaves the key"); const struct kref *z = kref_null(); CHECK(z->len == 0 && z->hash32 == crcRef(0, 0, KV_CRC32C_SEED), "the empty reference"); isRec(kv_null(), k, 0, v, 0, "the empty record"); break; } }
  sx_end();
}
#elif MODE == 5   // checksums
int main() {
  { u8 b = sx_u8("b"); u32 c = sx_u32("c"); CHECK(crc32c_u8(c, b) == crcBits(&b, 1, c), "a one-byte step divides by the Castagnoli polynomial"); }
  unsigned n = sx_choice("n", 20); u8 *p = exact(n, "p"); u32 s = sx_choice("seed", 2) ? KV_CRC32C_SEED : sx_u32("s"); u32 e = crcRef(p, n, s);
  CHECK(crc32c_inc(p, n, s) == e, "the checksum is that of the bytes"); unsigned k = sx_choice("cut", n + 1); CHECK(crc32c_inc(p + k, n - k, crc32c_inc(p, k, s)) == e, "a checksum computed in pieces is the same");
  if (!(n & 3)) CHECK(crc32c_inc_x4(p, n, s) == e, "the checksum of whole words"); if (n >= 1 && n <= 3) CHECK(crc32c_inc_123(p, n, s) == e, "the checksum of a tail"); CHECK(kv_crc32c_extend(e) == ((u64)(u32)~e << 32 | e), "the 64-bit form holds the checksum and its complement"); CHECK(kv_crc32c(p, n) == crcRef(p, n, KV_CRC32C_SEED), "keys use the seeded checksum");
  u64 v = sx_u64("w"); u8 b[8]; memcpy(b, &v, 8); CHECK(crc32c_u64(s, v) == crcRef(b, 8, s) && crc32c_u32(s, (u32)v) == crcRef(b, 4, s) && crc32c_u16(s, (u16)v) == crcRef(b, 2, s) && crc32c_u8(s, (u8)v) == crcRef(b, 1, s), "checksum steps of every width");
  sx_end();
}
#elif MODE == 6   // sorting records
int main() {
  unsigned n = 1 + sx_choice("n", NK); struct kv *a[NK], *o[NK]; for (unsigned i = 0; i < n; i++) { unsigned l = LONG && i % 2 ? 2 : 1; a[i] = o[i] = mk(l, 0); a[i]->klen = l; a[i]->vlen = 0; a[i]->hash = i; a[i]->kv[0] = (u8)sx_range("k", 0, 7); if (l == 2) a[i]->kv[1] = sx_u8("k2"); }
  unsigned lo = 0, hi = n - 1; bool q = sx_choice("q", 2); if (q) kv_qsort(a, n); else { lo = sx_choice("lo", n); hi = lo + sx_choice("hi", n - lo); kv_psort(a, n, lo, hi); }
  u32 seen = 0; for (unsigned i = 0; i < n; i++) { seen |= 1u << a[i]->hash; CHECK(a[i] == o[a[i]->hash], "sorting keeps the records"); } CHECK(seen == (1u << n) - 1, "sorting permutes the records");
  for (unsigned i = lo; i <= hi; i++) for (unsigned j = 0; j < n; j++) { int c = refCmp(a[j]->kv, a[j]->klen, a[i]->kv, a[i]->klen); CHECK(j < i ? c <= 0 : j > i ? c >= 0 : c == 0, "the asked positions hold what sorting puts there"); }
  sx_end();
}
#elif MODE == 7   // tokens
int main() {
  static const char al[] = "ab, ;";

  char s[160]; unsigned n = 0, tk = 0; bool big = sx_choice("big", 2);
  if (big) { tk = 30 + sx_choice("tokens", 36); for (unsigned i = 0; i < tk; i++) { s[n++] = 'a'; s[n++] = ','; } s[n] = 0; }
  else { n = sx_choice("n", NC + 1); for (unsigned i = 0; i < n; i++) s[i] = al[sx_choice("c", 5)]; s[n] = 0; }
  char **t = strtoks(s, ", "); CHECK(t != NULL, "tokens are returned"); unsigned k = 0; bool in = false; unsigned st = 0;
  for (unsigned i = 0; i <= n; i++) { bool d = s[i] == ',' || s[i] == ' ' || s[i] == 0; if (!d && !in) { in = true; st = i; } else if (d && in) { in = false; CHECK(t[k] && strlen(t[k]) == i - st && same(t[k], s + st, i - st), "every token is listed in order"); k++; } }
  CHECK(t[k] == NULL, "the list ends after the last token"); CHECK(strtoks_count(t) == k + 1 || strtoks_count(t) == k, "the list length"); free(t); CHECK(strtoks(NULL, ",") == NULL && strtoks_count(NULL) == 0, "no tokens in nothing");
  sx_end();
}
#else             // maps over 64-bit integers and raw keys, through a one-record map
static struct kv *cur; static u32 lastHash;
static bool hit(const struct kref *k) { lastHash = k->hash32; return cur && kref_kv_match(k, cur); }
static bool mput(void *, struct kv *kv) { cur = kv_dup(kv); return true; }
static struct kv *mget(void *, const struct kref *k, struct kv *out) { return hit(k) ? kv_dup2(cur, out) : NULL; }
static bool mprobe(void *, const struct kref *k) { return hit(k); }
static bool mdel(void *, const struct kref *k) { if (!hit(k)) return false; cur = NULL; return true; }
static bool minp(void *, const struct kref *k, kv_inp_func uf, void *p) { bool h = hit(k); uf(h ? cur : NULL, p); return h; }
static struct kv *pos; static void mseek(void *, const struct kref *k) { lastHash = k->hash32; pos = cur && kref_kv_compare(k, cur) <= 0 ? cur : NULL; } static struct kv *mpeek(void *, struct kv *out) { return pos ? kv_dup2(pos, out) : NULL; }
static u64 mdelr(void *, const struct kref *a, const struct kref *b) { if (cur && kref_kv_compare(a, cur) <= 0 && (!b || kref_kv_compare(b, cur) > 0)) { cur = NULL; return 1; } return 0; }
int main() {
  struct kvmap_api api; memset(&api, 0, sizeof api); api.hashkey = sx_choice("hash", 2); api.put = mput; api.get = mget; api.probe = mprobe; api.del = mdel; api.inpr = minp; api.inpw = minp; api.iter_seek = mseek; api.iter_peek = mpeek; api.delr = mdelr;
  u64 a = sx_u64("a"), b = sx_u64("b"), v = sx_u64("v"), r = 0, rk = 0; u8 ab[8]; for (int i = 0; i < 8; i++) ab[i] = (u8)(a >> (56 - 8 * i)); u32 bh; { u8 bb[8]; for (int i = 0; i < 8; i++) bb[i] = (u8)(b >> (56 - 8 * i)); bh = crcRef(bb, 8, KV_CRC32C_SEED); }
  CHECK(kvmap_kv64_put(&api, NULL, a, v), "an integer key is stored"); CHECK(cur->klen == 8 && cur->vlen == 8 && same(cur->kv, ab, 8) && same(cur->kv + 8, &v, 8), "an integer record has the key high byte first and the value"); if (api.hashkey) { u32 c = crcRef(ab, 8, KV_CRC32C_SEED); CHECK(cur->hash == ((u64)~c << 32 | c), "a stored key carries its checksum"); }
  bool eq = a == b; CHECK(kvmap_kv64_probe(&api, NULL, b) == eq, "probing finds the key exactly"); CHECK(!api.hashkey || lastHash == bh, "a search key carries its checksum"); bool f = kvmap_kv64_get(&api, NULL, b, &r); CHECK(f == eq && (!f || r == v), "getting finds the value"); CHECK(!api.hashkey || lastHash == bh, "a search key carries its checksum");
  kvmap_kv64_iter_seek(&api, NULL, b); bool g = kvmap_kv64_iter_peek(&api, NULL, &rk, &r); CHECK(g == (b <= a), "integer keys order numerically"); if (g) CHECK(rk == a && r == v, "an iterator reads key and value back");
  u8 bb[8]; for (int i = 0; i < 8; i++) bb[i] = (u8)(b >> (56 - 8 * i)); CHECK(kvmap_raw_probe(&api, NULL, 8, bb) == eq && lastHash == (api.hashkey ? bh : 0), "a raw key is probed with its checksum"); struct kv *out = mk(8, 8); CHECK((kvmap_raw_get(&api, NULL, 8, bb, out) == out) == eq && lastHash == (api.hashkey ? bh : 0), "a raw key is read"); kvmap_raw_iter_seek(&api, NULL, 8, bb); CHECK((pos != NULL) == (b <= a) && lastHash == (api.hashkey ? bh : 0), "a raw key is sought");
  struct kv *kb = kv_create(bb, 8, NULL, 0); CHECK(kvmap_kv_probe(&api, NULL, kb) == eq, "a record key is probed"); struct kv *st = NULL; CHECK(kvmap_kv_inpr(&api, NULL, kb, kvmap_inp_steal_kv, &st) == eq && (st == cur) == eq, "a record is reached in place"); CHECK(kvmap_raw_inpw(&api, NULL, 8, bb, kvmap_inp_steal_kv, &st) == eq, "a raw key is reached in place");
  switch (sx_choice("del", 4)) { case 0: CHECK(kvmap_kv64_del(&api, NULL, b) == eq, "deleting needs the key"); break; case 1: CHECK(kvmap_raw_del(&api, NULL, 8, bb) == eq, "deleting needs the key"); break; case 2: CHECK(kvmap_kv_del(&api, NULL, kb) == eq, "deleting needs the key"); break; default: { u64 n = kvmap_kv_delr(&api, NULL, kb, NULL); CHECK(n == (b <= a), "a range delete starts at its key"); eq = n; } }
  CHECK((cur == NULL) == eq, "a deleted key is gone");
  sx_end();
}
#endif
