// MD5, SHA-1, SHA-256 and SHA-512 straight from their definitions (constants from sines and roots), whole message at once.
#pragma once
#include <stdint.h>
#include <string.h>
#include <string>
namespace dref {
static const uint32_t KM[] = {0xd76aa478u,0xe8c7b756u,0x242070dbu,0xc1bdceeeu,0xf57c0fafu,0x4787c62au,0xa8304613u,0xfd469501u,0x698098d8u,0x8b44f7afu,0xffff5bb1u,0x895cd7beu,0x6b901122u,0xfd987193u,0xa679438eu,0x49b40821u,0xf61e2562u,0xc040b340u,0x265e5a51u,0xe9b6c7aau,0xd62f105du,0x2441453u,0xd8a1e681u,0xe7d3fbc8u,0x21e1cde6u,0xc33707d6u,0xf4d50d87u,0x455a14edu,0xa9e3e905u,0xfcefa3f8u,0x676f02d9u,0x8d2a4c8au,0xfffa3942u,0x8771f681u,0x6d9d6122u,0xfde5380cu,0xa4beea44u,0x4bdecfa9u,0xf6bb4b60u,0xbebfbc70u,0x289b7ec6u,0xeaa127fau,0xd4ef3085u,0x4881d05u,0xd9d4d039u,0xe6db99e5u,0x1fa27cf8u,0xc4ac5665u,0xf4292244u,0x432aff97u,0xab9423a7u,0xfc93a039u,0x655b59c3u,0x8f0ccc92u,0xffeff47du,0x85845dd1u,0x6fa87e4fu,0xfe2ce6e0u,0xa3014314u,0x4e0811a1u,0xf7537e82u,0xbd3af235u,0x2ad7d2bbu,0xeb86d391u};
static const uint32_t K2[] = {0x428a2f98u,0x71374491u,0xb5c0fbcfu,0xe9b5dba5u,0x3956c25bu,0x59f111f1u,0x923f82a4u,0xab1c5ed5u,0xd807aa98u,0x12835b01u,0x243185beu,0x550c7dc3u,0x72be5d74u,0x80deb1feu,0x9bdc06a7u,0xc19bf174u,0xe49b69c1u,0xefbe4786u,0xfc19dc6u,0x240ca1ccu,0x2de92c6fu,0x4a7484aau,0x5cb0a9dcu,0x76f988dau,0x983e5152u,0xa831c66du,0xb00327c8u,0xbf597fc7u,0xc6e00bf3u,0xd5a79147u,0x6ca6351u,0x14292967u,0x27b70a85u,0x2e1b2138u,0x4d2c6dfcu,0x53380d13u,0x650a7354u,0x766a0abbu,0x81c2c92eu,0x92722c85u,0xa2bfe8a1u,0xa81a664bu,0xc24b8b70u,0xc76c51a3u,0xd192e819u,0xd6990624u,0xf40e3585u,0x106aa070u,0x19a4c116u,0x1e376c08u,0x2748774cu,0x34b0bcb5u,0x391c0cb3u,0x4ed8aa4au,0x5b9cca4fu,0x682e6ff3u,0x748f82eeu,0x78a5636fu,0x84c87814u,0x8cc70208u,0x90befffau,0xa4506cebu,0xbef9a3f7u,0xc67178f2u};
static const uint64_t K5[] = {0x428a2f98d728ae22ull,0x7137449123ef65cdull,0xb5c0fbcfec4d3b2full,0xe9b5dba58189dbbcull,0x3956c25bf348b538ull,0x59f111f1b605d019ull,0x923f82a4af194f9bull,0xab1c5ed5da6d8118ull,0xd807aa98a3030242ull,0x12835b0145706fbeull,0x243185be4ee4b28cull,0x550c7dc3d5ffb4e2ull,0x72be5d74f27b896full,0x80deb1fe3b1696b1ull,0x9bdc06a725c71235ull,0xc19bf174cf692694ull,0xe49b69c19ef14ad2ull,0xefbe4786384f25e3ull,0xfc19dc68b8cd5b5ull,0x240ca1cc77ac9c65ull,0x2de92c6f592b0275ull,0x4a7484aa6ea6e483ull,0x5cb0a9dcbd41fbd4ull,0x76f988da831153b5ull,0x983e5152ee66dfabull,0xa831c66d2db43210ull,0xb00327c898fb213full,0xbf597fc7beef0ee4ull,0xc6e00bf33da88fc2ull,0xd5a79147930aa725ull,0x6ca6351e003826full,0x142929670a0e6e70ull,0x27b70a8546d22ffcull,0x2e1b21385c26c926ull,0x4d2c6dfc5ac42aedull,0x53380d139d95b3dfull,0x650a73548baf63deull,0x766a0abb3c77b2a8ull,0x81c2c92e47edaee6ull,0x92722c851482353bull,0xa2bfe8a14cf10364ull,0xa81a664bbc423001ull,0xc24b8b70d0f89791ull,0xc76c51a30654be30ull,0xd192e819d6ef5218ull,0xd69906245565a910ull,0xf40e35855771202aull,0x106aa07032bbd1b8ull,0x19a4c116b8d2d0c8ull,0x1e376c085141ab53ull,0x2748774cdf8eeb99ull,0x34b0bcb5e19b48a8ull,0x391c0cb3c5c95a63ull,0x4ed8aa4ae3418acbull,0x5b9cca4f7763e373ull,0x682e6ff3d6b2b8a3ull,0x748f82ee5defb2fcull,0x78a5636f43172f60ull,0x84c87814a1f0ab72ull,0x8cc702081a6439ecull,0x90befffa23631e28ull,0xa4506cebde82bde9ull,0xbef9a3f7b2c67915ull,0xc67178f2e372532bull,0xca273eceea26619cull,0xd186b8c721c0c207ull,0xeada7dd6cde0eb1eull,0xf57d4f7fee6ed178ull,0x6f067aa72176fbaull,0xa637dc5a2c898a6ull,0x113f9804bef90daeull,0x1b710b35131c471bull,0x28db77f523047d84ull,0x32caab7b40c72493ull,0x3c9ebe0a15c9bebcull,0x431d67c49c100d4cull,0x4cc5d4becb3e42b6ull,0x597f299cfc657e2aull,0x5fcb6fab3ad6faecull,0x6c44198c4a475817ull};
static const uint32_t H2[] = {0x6a09e667u,0xbb67ae85u,0x3c6ef372u,0xa54ff53au,0x510e527fu,0x9b05688cu,0x1f83d9abu,0x5be0cd19u};
static const uint64_t H5[] = {0x6a09e667f3bcc908ull,0xbb67ae8584caa73bull,0x3c6ef372fe94f82bull,0xa54ff53a5f1d36f1ull,0x510e527fade682d1ull,0x9b05688c2b3e6c1full,0x1f83d9abfb41bd6bull,0x5be0cd19137e2179ull};
static std::string padded(const std::string &m, unsigned block, bool big) { std::string p = m; unsigned lf = block / 8; p += (char)0x80; while (p.size() % block != block - lf) p += (char)0; uint64_t bits = 8ull * m.size(); for (unsigned i = 0; i < lf; i++) { unsigned sh = 8 * (big ? lf - 1 - i : i); p += (char)(sh < 64 ? bits >> sh : 0); } return p; }
template <class W> static W rr(W x, int n) { return x >> n | x << (8 * sizeof(W) - n); }
template <class W> static W getB(const unsigned char *p) { W w = 0; for (unsigned i = 0; i < sizeof(W); i++) w = w << 8 | p[i]; return w; }
template <class W> static void putB(std::string &o, W w) { for (unsigned i = 0; i < sizeof(W); i++) o += (char)(w >> 8 * (sizeof(W) - 1 - i)); }
static std::string md5(const std::string &m) {
  std::string p = padded(m, 64, false); uint32_t a0 = 0x67452301, b0 = 0xefcdab89, c0 = 0x98badcfe, d0 = 0x10325476; static const int S[4][4] = {{7, 12, 17, 22}, {5, 9, 14, 20}, {4, 11, 16, 23}, {6, 10, 15, 21}};
  for (size_t o = 0; o < p.size(); o += 64) { uint32_t M[16]; for (int i = 0; i < 16; i++) { M[i] = 0; for (int j = 3; j >= 0; j--) M[i] = M[i] << 8 | (unsigned char)p[o + 4 * i + j]; }
    uint32_t a = a0, b = b0, c = c0, d = d0; for (int i = 0; i < 64; i++) { uint32_t F; int g; if (i < 16) { F = (b & c) | (~b & d); g = i; } else if (i < 32) { F = (d & b) | (~d & c); g = (5 * i + 1) % 16; } else if (i < 48) { F = b ^ c ^ d; g = (3 * i + 5) % 16; } else { F = c ^ (b | ~d); g = 7 * i % 16; }
      F += a + KM[i] + M[g]; a = d; d = c; c = b; b += rr(F, 32 - S[i / 16][i % 4]); } a0 += a; b0 += b; c0 += c; d0 += d; }
  std::string r; for (uint32_t w : {a0, b0, c0, d0}) for (int j = 0; j < 4; j++) r += (char)(w >> 8 * j); return r;
}
static std::string sha1(const std::string &m) {
  std::string p = padded(m, 64, true); uint32_t h[5] = {0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0};
  for (size_t o = 0; o < p.size(); o += 64) { uint32_t w[80]; for (int i = 0; i < 80; i++) w[i] = i < 16 ? getB<uint32_t>((const unsigned char *)p.data() + o + 4 * i) : rr(w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16], 31);
    uint32_t a = h[0], b = h[1], c = h[2], d = h[3], e = h[4]; for (int i = 0; i < 80; i++) { uint32_t f, k; if (i < 20) { f = (b & c) | (~b & d); k = 0x5A827999; } else if (i < 40) { f = b ^ c ^ d; k = 0x6ED9EBA1; } else if (i < 60) { f = (b & c) | (b & d) | (c & d); k = 0x8F1BBCDC; } else { f = b ^ c ^ d; k = 0xCA62C1D6; }
      uint32_t t = rr(a, 27) + f + e + k + w[i]; e = d; d = c; c = rr(b, 2); b = a; a = t; } h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e; }
  std::string r; for (uint32_t w : h) putB(r, w); return r;
}
template <class W> static std::string sha2(const std::string &m, const W *K, const W *H, int rounds, const int (&q)[12]) {
  unsigned B = 16 * sizeof(W); std::string p = padded(m, B, true); W h[8]; memcpy(h, H, sizeof h);
  for (size_t o = 0; o < p.size(); o += B) { W w[80]; for (int i = 0; i < rounds; i++) { if (i < 16) { w[i] = getB<W>((const unsigned char *)p.data() + o + sizeof(W) * i); continue; } W x = w[i - 15], y = w[i - 2]; w[i] = w[i - 16] + (rr(x, q[0]) ^ rr(x, q[1]) ^ (x >> q[2])) + w[i - 7] + (rr(y, q[3]) ^ rr(y, q[4]) ^ (y >> q[5])); }
    W v[8]; memcpy(v, h, sizeof v); for (int i = 0; i < rounds; i++) { W t1 = v[7] + (rr(v[4], q[6]) ^ rr(v[4], q[7]) ^ rr(v[4], q[8])) + ((v[4] & v[5]) ^ (~v[4] & v[6])) + K[i] + w[i], t2 = (rr(v[0], q[9]) ^ rr(v[0], q[10]) ^ rr(v[0], q[11])) + ((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2])); for (int j = 7; j > 0; j--) v[j] = v[j - 1]; v[4] += t1; v[0] = t1 + t2; }
    for (int j = 0; j < 8; j++) h[j] += v[j]; }
  std::string r; for (W x : h) putB(r, x); return r;
}
static std::string sha256(const std::string &m) { static const int q[12] = {7, 18, 3, 17, 19, 10, 6, 11, 25, 2, 13, 22}; return sha2<uint32_t>(m, K2, H2, 64, q); }
static std::string sha512(const std::string &m) { static const int q[12] = {1, 8, 7, 19, 61, 6, 14, 18, 41, 28, 34, 39}; return sha2<uint64_t>(m, K5, H5, 80, q); }
}
