// C17: block cipher, fixed-key hash, expander, seeded generators and the bit helpers they are built from.
#include <openssl/bn.h>
#include "fbpcf/engine/util/AesPrg.h"
#include "fbpcf/engine/util/AesPrgFactory.h"
#include "fbpcf/engine/util/AsyncBuffer.h"
#include "fbpcf/engine/util/Masker.h"
#include "fbpcf/engine/util/aes.h"
#include "fbpcf/engine/util/util.h"
#include "mc/mc.h"
#include "mc/refaes.h"
using namespace mc;
using namespace fbpcf::engine::util;
using refaes::Block;
using Bytes = std::vector<unsigned char>;

static __m128i m(const Block& b) { __m128i r; memcpy(&r, b.data(), 16); return r; }
static Block pattern(int k) {  // distinct 16-byte values; 0 and 1 are the degenerate ones
  Block b;
  for (int i = 0; i < 16; i++) b[i] = k == 0 ? 0 : k == 1 ? 0xff : (uint8_t)(mix(k, i) >> 11);
  return b;
}
static std::string hex(const Block& b) { std::string s; char t[3]; for (auto c : b) { snprintf(t, 3, "%02x", c); s += t; } return s; }
static std::string hex(__m128i v) { return hex(refaes::bytes(v)); }

// one block with one byte set to every value, at every position, with key and plaintext taking turns
static void aesBytes() {
  int pos = choose(16, "byte position"), which = choose(2, "key or block"), base = choose(3, "other bytes");
  for (int v = 0; v < 256; v++) {
    Block key = pattern(which ? base : 5), pt = pattern(which ? 6 : base);
    (which ? key : pt)[pos] = (uint8_t)v;
    Aes aes(m(key));
    std::vector<__m128i> x{m(pt)};
    aes.encryptInPlace(x);
    auto want = refaes::encrypt(key, pt);
    evals(); step();
    check(refaes::bytes(x[0]) == want, "block encryption", [&] { return "key " + hex(key) + " block " + hex(pt) + " got " + hex(x[0]) + " want " + hex(want); });
    auto ek = Aes::expandEncryptionKey(m(key)), dk = Aes::expandDecryptionKey(m(key));
    auto sch = refaes::schedule(key);
    for (int r = 0; r < 11; r++) {
      check(refaes::bytes(ek[r]) == sch[r], "encryption key schedule", [&] { return "key " + hex(key) + " round " + str(r); });
      auto w = r == 0 || r == 10 ? sch[10 - r] : refaes::invMix(sch[10 - r]);
      check(refaes::bytes(dk[r]) == w, "decryption key schedule", [&] { return "key " + hex(key) + " round " + str(r); });
    }
    // the equivalent inverse cipher with the decryption schedule gives the block back
    __m128i y = _mm_xor_si128(m(want), dk[0]);
    for (int r = 1; r < 10; r++) y = _mm_aesdec_si128(y, dk[r]);
    y = _mm_aesdeclast_si128(y, dk[10]);
    check(refaes::bytes(y) == pt, "decryption with the decryption schedule");
    state(mix(mix(pos * 2 + which, base), v));
  }
}
// every batch length: each block is encrypted on its own
static void aesBatch() {
  int n = choose(thorough ? 130 : 70, "batch length"), k = choose(3, "key");
  Block key = pattern(k + 1);
  Aes aes(m(key));
  std::vector<__m128i> x(n), h(n);
  for (int i = 0; i < n; i++) x[i] = h[i] = m(pattern(i * 3 + (i & 1)));
  aes.encryptInPlace(x);
  check((int)x.size() == n, "batch size kept");
  if (n) aes.inPlaceHash(h);
  for (int i = 0; i < n; i++) {
    auto pt = pattern(i * 3 + (i & 1)), ct = refaes::encrypt(key, pt);
    evals(2); step();
    check(refaes::bytes(x[i]) == ct, "batch encryption", [&] { return "block " + str(i) + " of " + str(n); });
    for (int j = 0; j < 16; j++) ct[j] ^= pt[j];
    check(refaes::bytes(h[i]) == ct, "hash in place", [&] { return "block " + str(i) + " of " + str(n); });
  }
  state(mix(n, k));
  auto fk = Aes::getFixedKey();
  check(refaes::bytes(fk) == pattern(0), "fixed key");
}
static void expander() {
  static const int64_t idx[] = {0, 1, 2, 3, 7, 255, 1LL << 20, (1LL << 33) + 5};
  int64_t index = idx[choose(8, "index")];
  int n = 1 + choose(thorough ? 40 : 18, "length");
  Block k0{}, k1{};
  uint64_t lo = (uint64_t)index << 1, hi = lo + 1;
  memcpy(k0.data(), &lo, 8);
  memcpy(k1.data() + 8, &hi, 8);
  std::vector<__m128i> x(n);
  for (int i = 0; i < n; i++) x[i] = m(pattern(i + 2));
  Expander e(index);
  auto r = e.expand(std::vector<__m128i>(x));
  check((int)r.size() == 2 * n, "expanded size");
  for (int i = 0; i < n; i++)
    for (int s = 0; s < 2; s++) {
      auto pt = pattern(i + 2), w = refaes::encrypt(s ? k1 : k0, pt);
      for (int j = 0; j < 16; j++) w[j] ^= pt[j];
      evals(); step();
      check(refaes::bytes(r[2 * i + s]) == w, "expanded seed", [&] { return "index " + str(index) + " element " + str(i) + " side " + str(s); });
    }
  state(mix(index, n));
}

static Bytes streamOf(const Block& seed, size_t n) {
  Bytes r;
  for (uint64_t c = 0; r.size() < n; c++) {
    Block b{};
    memcpy(b.data(), &c, 8);
    b = refaes::encrypt(seed, b);
    r.insert(r.end(), b.begin(), b.end());
  }
  r.resize(n);
  return r;
}
// one request of a kind; consumes bytes of the expected stream
static void request(IPrg& g, int kind, uint32_t n, const Bytes& stream, size_t& at) {
  evals(); step();
  auto where = [&] { return "kind " + str(kind) + " size " + str(n) + " at byte " + str(at); };
  if (kind == 0) {
    auto r = g.getRandomBytes(n);
    check(r == Bytes(stream.begin() + at, stream.begin() + at + n), "random bytes", where);
    at += n;
  } else if (kind == 1) {
    auto r = g.getRandomBits(n);
    std::vector<bool> w(n);
    for (uint32_t i = 0; i < n; i++) w[i] = stream[at + i / 8] >> (i % 8) & 1;
    check(r == w, "random bits", where);
    at += (n + 7) / 8;
  } else if (kind == 2) {
    auto r = g.getRandomUInt64(n);
    std::vector<uint64_t> w(n, 0);
    for (uint32_t i = 0; i < n; i++) for (int j = 0; j < 8; j++) w[i] = w[i] << 8 | stream[at + 8 * i + j];
    check(r == w, "random integers", where);
    at += 8 * n;
  } else {
    auto r = refaes::bytes(g.getRandomM128i());
    check(Bytes(r.begin(), r.end()) == Bytes(stream.begin() + at, stream.begin() + at + 16), "random block", where);
    at += 16;
  }
}
struct Req { int kind; uint32_t n; };
static std::vector<Req> menu(int buf, bool wide) {
  std::vector<Req> r;
  uint32_t B = 16 * buf;
  std::vector<uint32_t> bytes{0, 1, 15, 16, B - 1, B, B + 1, 2 * B + 3};
  std::vector<uint32_t> bits{0, 1, 7, 8, 9, 8 * B - 1, 8 * B, 8 * B + 1};
  std::vector<uint32_t> ints{0, 1, 2, B / 8, B / 8 + 1};
  if (!wide) { bytes = {1, 15, B, B + 1}; bits = {1, 9, 8 * B + 1}; ints = {1, B / 8 + 1}; }
  for (auto n : bytes) r.push_back({0, n});
  for (auto n : bits) r.push_back({1, n});
  for (auto n : ints) r.push_back({2, n});
  r.push_back({3, 1});
  return r;
}
static void prgStream(int depth, bool wide) {
  static const int bufs[] = {1, 2, 3, 1024};
  int buf = bufs[choose(4, "buffer size")], seedk = choose(2, "seed");
  if (buf == 1024) assume(depth <= 2);
  auto ms = menu(buf, wide);
  std::vector<Req> reqs;
  for (int i = 0; i < depth; i++) reqs.push_back(ms[choose((int)ms.size(), "request")]);
  std::string d;
  for (auto& q : reqs) d += " " + str(q.kind) + ":" + str(q.n);
  note("buffer " + str(buf) + d);
  size_t total = 64;
  for (auto& q : reqs) total += q.kind == 0 ? q.n : q.kind == 1 ? (q.n + 7) / 8 : q.kind == 2 ? 8 * q.n : 16;
  static std::map<int, Bytes> cache;
  auto& stream = cache[seedk];
  if (stream.size() < total) stream = streamOf(pattern(7 + seedk), total + 4096);
  run([&] {
    std::unique_ptr<IPrg> g;
    if (depth % 2) g = AesPrgFactory(buf).create(m(pattern(7 + seedk)));
    else g = std::make_unique<AesPrg>(m(pattern(7 + seedk)), buf);
    size_t at = 0;
    for (auto& q : reqs) request(*g, q.kind, q.n, stream, at);
    request(*g, 0, 17, stream, at);
  });
  state(hashStr(d) + buf * 2 + seedk);
}
// in-place requests on a generator without a buffer: whole blocks per request
static void prgInPlace(int depth) {
  static const int sizes[] = {0, 1, 2, 7, 64, 127, 128, 129, 256, 300};
  auto seed = pattern(9);
  auto stream = streamOf(seed, 16 * 400);
  AesPrg g(m(seed));
  size_t at = 0;
  std::string d;
  for (int i = 0; i < depth; i++) {
    int kind = choose(2, "kind"), n = sizes[choose(10, "size")];
    if (kind == 0 && n > 9) n = n / 16 + 1;
    d += " " + str(kind) + ":" + str(n);
    evals(); step();
    if (kind == 0) {
      std::vector<__m128i> v(n, _mm_set1_epi8((char)0x55));
      g.getRandomDataInPlace(v);
      check((int)v.size() == n, "in-place size");
      for (int j = 0; j < n; j++) { check(!memcmp(&v[j], &stream[at], 16), "in-place data", [&] { return d; }); at += 16; }
    } else {
      std::vector<bool> v(n, i & 1);
      g.getRandomBitsInPlace(v);
      check((int)v.size() == n, "in-place bits size");
      for (int j = 0; j < n; j++) check(v[j] == (stream[at + j / 8] >> (j % 8) & 1), "in-place bits", [&] { return d; });
      at += (n + 127) / 128 * 16;
    }
  }
  note(d);
  int thrown = 0;
  try { g.getRandomBytes(1); } catch (const std::exception&) { thrown++; }
  try { g.getRandomBits(1); } catch (const std::exception&) { thrown++; }
  try { g.getRandomUInt64(1); } catch (const std::exception&) { thrown++; }
  check(thrown == 3, "buffered requests are refused without a buffer");
  state(hashStr(d));
}
// the buffer itself: any request split of any buffer size yields the generated items in order
static void buffer() {
  int size = 1 + choose(6, "buffer size"), n = choose(5, "requests");
  std::vector<int> reqs;
  for (int i = 0; i < n; i++) reqs.push_back(choose(10, "request"));
  note("buffer " + str(size) + " requests " + vec(reqs));
  run([&] {
    int next = 0, calls = 0;
    AsyncBuffer<int> b(size, [&](uint64_t s) {
      calls++;
      return std::async([&next, s] { std::vector<int> v; for (uint64_t i = 0; i < s; i++) v.push_back(next++); return v; });
    });
    int at = 0;
    for (int r : reqs) {
      auto v = b.getData(r);
      check((int)v.size() == r, "size of a request");
      for (int x : v) { check(x == at, "item order", [&] { return "expected " + str(at) + " got " + str(x); }); at++; evals(); }
    }
  });
  state(mix(size, hashStr(vec(reqs))));
}
typedef unsigned __int128 u128;
static u128 u(__m128i v) { u128 r; memcpy(&r, &v, 16); return r; }
static void helpers() {
  int pos = choose(128, "bit"), shape = choose(4, "shape");
  u128 v = shape == 0 ? (u128)1 << pos : shape == 1 ? ~((u128)1 << pos) : shape == 2 ? ((u128)-1 >> pos) : ((u128)0x9e3779b97f4a7c15ull << 64 | 0xd1342543de82ef95ull) ^ ((u128)1 << pos);
  __m128i x;
  memcpy(&x, &v, 16);
  evals(8); step();
  check(getLsb(x) == (bool)(v & 1), "lowest bit");
  check(getMsb(x) == (bool)(v >> 127 & 1), "highest bit");
  check(getLast64Bits(x) == (uint64_t)v, "low half");
  for (int off = 0; off < 128; off++) {
    auto y = x;
    lShiftByBitsInPlace(y, off);
    check(u(y) == v << off, "shift left", [&] { return "offset " + str(off) + " got " + hex(y); });
  }
  auto y = x;
  setLsbTo0(y);
  check(u(y) == (v & ~(u128)1), "clear lowest bit");
  y = x;
  setLsbTo1(y);
  check(u(y) == (v | 1), "set lowest bit");
  for (int n = 0; n <= 130; n++) {
    std::vector<bool> d(n, true);
    bool thrown = false;
    try { extractLnbToVector(x, d); } catch (const std::exception&) { thrown = true; }
    check(thrown == (n > 128), "too many bits are refused");
    for (int i = 0; i < n && !thrown; i++) check(d[i] == (bool)(v >> i & 1), "extracted bits", [&] { return "bit " + str(i) + " of " + str(n); });
  }
  Bytes bs(16);
  memcpy(bs.data(), &v, 16);
  check(u(buildM128i(bs)) == v, "block from bytes");
  for (int c = 0; c < 2; c++) for (int s = 0; s < 2; s++) {
    // sender masks both values with the two keys, receiver unmasks with the chosen key
    __m128i k1 = _mm_xor_si128(x, _mm_set_epi64x(77, 0x123456789abcdef1ll));
    check(Masker<bool>::unmask(c ? k1 : x, c, Masker<bool>::mask(s, x), Masker<bool>::mask(!s, k1)) == (c ? !s : s), "masked bit");
    uint64_t a = (uint64_t)v * 3 + s, b = ~(uint64_t)v;
    check(Masker<uint64_t>::unmask(c ? k1 : x, c, Masker<uint64_t>::mask(a, x), Masker<uint64_t>::mask(b, k1)) == (c ? b : a), "masked integer");
  }
  static const uint32_t mods[] = {1, 2, 3, 7, 10, 255, 256, 257, 65537, 4294967295u};
  static BN_CTX* ctx = BN_CTX_new();
  for (int len = 1; len <= 16; len++)
    for (auto q : mods) {
      Bytes b(bs.begin(), bs.begin() + len);
      uint64_t w = 0;
      for (int i = len - 1; i >= 0; i--) w = (w * 256 + b[i]) % q;
      check(mod(b, q, ctx) == w, "bytes modulo", [&] { return "length " + str(len) + " modulo " + str(q); });
    }
  // fresh seeds come from the system source, byte for byte
  static uint8_t fill;
  fill = (uint8_t)(pos + shape);
  randHook = [](unsigned char* p, int n) { for (int i = 0; i < n; i++) p[i] = (unsigned char)(fill + i); };
  auto sd = refaes::bytes(getRandomM128iFromSystemNoise());
  randHook = nullptr;
  for (int i = 0; i < 16; i++) check(sd[i] == (uint8_t)(fill + i), "seed uses every random byte");
  state(mix(pos, shape));
}

int main(int argc, char** argv) {
  return harnessMain(argc, argv, "C17", {
    {"block cipher, every byte value", aesBytes},
    {"batches and hash", aesBatch},
    {"seed expander", expander},
    {"generator, 1 request", [] { prgStream(1, true); }},
    {"generator, 2 requests", [] { prgStream(2, true); }},
    {"generator, 3 requests", [] { prgStream(3, false); }},
    {"generator, 4 requests", [] { prgStream(4, false); }, 0, -1, true},
    {"in-place generator, 2 requests", [] { prgInPlace(2); }},
    {"in-place generator, 3 requests", [] { prgInPlace(3); }},
    {"asynchronous buffer", buffer},
    {"bit helpers", helpers},
  });
}
