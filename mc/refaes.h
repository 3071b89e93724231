// AES-128 from the definition (FIPS 197), byte by byte; no tables copied from the code under test.
#pragma once
#include <array>
#include <cstdint>
#include <cstring>
#include <vector>
namespace refaes {
using Block = std::array<uint8_t, 16>;
inline uint8_t xt(uint8_t a) { return (uint8_t)((a << 1) ^ ((a >> 7) * 0x1b)); }
inline uint8_t mul(uint8_t a, uint8_t b) { uint8_t r = 0; for (; b; b >>= 1, a = xt(a)) if (b & 1) r ^= a; return r; }
inline const std::array<uint8_t, 256>& sbox() {
  static const std::array<uint8_t, 256> s = [] {
    std::array<uint8_t, 256> t{};
    for (int x = 0; x < 256; x++) {
      uint8_t inv = 0;
      for (int y = 1; y < 256 && x; y++) if (mul((uint8_t)x, (uint8_t)y) == 1) { inv = (uint8_t)y; break; }
      uint8_t r = 0x63;
      for (int i = 0; i < 5; i++) r ^= (uint8_t)((inv << i) | (inv >> (8 - i)));
      t[x] = r;
    }
    return t;
  }();
  return s;
}
inline const std::array<uint8_t, 256>& inv() {
  static const std::array<uint8_t, 256> s = [] { std::array<uint8_t, 256> t{}; for (int i = 0; i < 256; i++) t[sbox()[i]] = (uint8_t)i; return t; }();
  return s;
}
inline std::array<Block, 11> schedule(const Block& k) {
  uint8_t w[44][4];
  for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) w[i][j] = k[4 * i + j];
  uint8_t rc = 1;
  for (int i = 4; i < 44; i++) {
    uint8_t t[4] = {w[i - 1][0], w[i - 1][1], w[i - 1][2], w[i - 1][3]};
    if (i % 4 == 0) {
      uint8_t f = t[0];
      t[0] = sbox()[t[1]] ^ rc; t[1] = sbox()[t[2]]; t[2] = sbox()[t[3]]; t[3] = sbox()[f];
      rc = xt(rc);
    }
    for (int j = 0; j < 4; j++) w[i][j] = w[i - 4][j] ^ t[j];
  }
  std::array<Block, 11> r;
  for (int i = 0; i < 44; i++) for (int j = 0; j < 4; j++) r[i / 4][(i % 4) * 4 + j] = w[i][j];
  return r;
}
inline void mix(Block& s, const uint8_t m[4]) {
  for (int c = 0; c < 4; c++) {
    uint8_t a[4] = {s[4 * c], s[4 * c + 1], s[4 * c + 2], s[4 * c + 3]};
    for (int i = 0; i < 4; i++) s[4 * c + i] = mul(a[0], m[(4 - i) % 4]) ^ mul(a[1], m[(5 - i) % 4]) ^ mul(a[2], m[(6 - i) % 4]) ^ mul(a[3], m[(7 - i) % 4]);
  }
}
inline Block invMix(Block s) { static const uint8_t m[4] = {14, 11, 13, 9}; mix(s, m); return s; }
inline Block encrypt(const Block& key, Block s) {
  static const uint8_t m[4] = {2, 3, 1, 1};
  auto rk = schedule(key);
  auto add = [&](int r) { for (int i = 0; i < 16; i++) s[i] ^= rk[r][i]; };
  add(0);
  for (int r = 1; r <= 10; r++) {
    Block t;
    for (int i = 0; i < 16; i++) t[i] = sbox()[s[(i + 4 * (i % 4)) % 16]];
    s = t;
    if (r < 10) mix(s, m);
    add(r);
  }
  return s;
}
inline Block decrypt(const Block& key, Block s) {
  static const uint8_t m[4] = {14, 11, 13, 9};
  auto rk = schedule(key);
  auto add = [&](int r) { for (int i = 0; i < 16; i++) s[i] ^= rk[r][i]; };
  add(10);
  for (int r = 9; r >= 0; r--) {
    Block t;
    for (int i = 0; i < 16; i++) t[(i + 4 * (i % 4)) % 16] = inv()[s[i]];
    s = t;
    add(r);
    if (r) mix(s, m);
  }
  return s;
}
template <class V> Block bytes(const V& v) { Block b; static_assert(sizeof(V) == 16, ""); memcpy(b.data(), &v, 16); return b; }
}  // namespace refaes
