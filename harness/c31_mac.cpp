// C31: CMAC (RFC 4493) and S2V (RFC 5297, no associated data) against implementations written from the definitions.
#include <memory>
#include "fbpcf/primitive/mac/AesCmacFactory.h"
#include "fbpcf/primitive/mac/S2vFactory.h"
#include <map>
#include <algorithm>
#include "mc/mc.h"
#include "mc/refaes.h"
using namespace mc;
using Bytes = std::vector<unsigned char>;
namespace mac = fbpcf::primitive::mac;

static Bytes dbl(Bytes b) {
  int c = b[0] >> 7;
  for (int i = 0; i < 16; i++) b[i] = (b[i] << 1) | (i < 15 ? b[i + 1] >> 7 : 0);
  if (c) b[15] ^= 0x87;
  return b;
}
static Bytes enc(const Bytes& k, const Bytes& b) { refaes::Block kk, bb; std::copy_n(k.begin(), 16, kk.begin()); std::copy_n(b.begin(), 16, bb.begin()); auto r = refaes::encrypt(kk, bb); return Bytes(r.begin(), r.end()); }
static Bytes cmac(const Bytes& k, const Bytes& m) {
  Bytes k1 = dbl(enc(k, Bytes(16))), k2 = dbl(k1), x(16);
  size_t n = m.empty() ? 1 : (m.size() + 15) / 16;
  for (size_t i = 0; i + 1 < n; i++) { for (int j = 0; j < 16; j++) x[j] ^= m[16 * i + j]; x = enc(k, x); }
  Bytes last(m.begin() + 16 * (n - 1), m.end());
  bool full = last.size() == 16;
  if (!full) { last.push_back(0x80); last.resize(16); }
  for (int j = 0; j < 16; j++) x[j] ^= last[j] ^ (full ? k1[j] : k2[j]);
  return enc(k, x);
}
static Bytes s2v(const Bytes& k, const Bytes& m) {
  Bytes d = cmac(k, Bytes(16)), t = m;
  if (m.size() < 16) { t.push_back(0x80); t.resize(16); d = dbl(d); }
  for (int j = 0; j < 16; j++) t[t.size() - 16 + j] ^= d[j];
  return cmac(k, t);
}
static Bytes toBytes(__m128i v) { Bytes b(16); _mm_storeu_si128((__m128i*)b.data(), v); return b; }
static std::string hex(const Bytes& b) { std::string s; char t[3]; for (auto c : b) { snprintf(t, 3, "%02x", c); s += t; } return s; }

static std::unique_ptr<mac::IMac> make(int kind, const Bytes& key) {
  if (kind == 0) return mac::AesCmacFactory().create(key);
  return mac::S2vFactory().create(key);
}
static void compare(mac::IMac& m, int kind, const Bytes& key, const Bytes& text, const std::string& what) {
  Bytes want = kind ? s2v(key, text) : cmac(key, text), in = text, got = m.getMac128(text), got2 = toBytes(m.getMacM128i(text));
  evals(2); state(mix(hashStr(what), hashStr(std::string(got.begin(), got.end()))));
  auto d = [&](const Bytes& g) { return what + " length " + str(text.size()) + ": got " + hex(g) + " expected " + hex(want); };
  check(got == want, kind ? "S2V value" : "CMAC value", [&] { return d(got); });
  check(got2 == want, kind ? "S2V value as a block" : "CMAC value as a block", [&] { return d(got2); });
  check(in == text, "the message was changed", [&] { return what; });
}
static Bytes pattern(int p, size_t n) {
  Bytes b(n);
  for (size_t i = 0; i < n; i++) b[i] = p == 0 ? 0 : p == 1 ? 0xff : p == 2 ? (unsigned char)(i * 37 + 11) : p == 3 ? (i == n - 1 ? 0x80 : 0) : (i == 0 ? 0x80 : 0x01);
  return b;
}
static Bytes keyOf(int k) {
  if (k == 0) return Bytes{0x2b, 0x7e, 0x15, 0x16, 0x28, 0xae, 0xd2, 0xa6, 0xab, 0xf7, 0x15, 0x88, 0x09, 0xcf, 0x4f, 0x3c};
  Bytes b(16); for (int i = 0; i < 16; i++) b[i] = hashStr("key" + str(k)) >> (i % 8 * 8) ^ (i * 29 * k); return b;
}
// every length, content pattern and key
static void lengths() {
  int kind = choose(2, "kind"), len = choose(mc::thorough ? 260 : 100, "length"), k = choose(mc::thorough ? 40 : 16, "key");
  note((kind ? "s2v " : "cmac ") + str(len) + " key " + str(k));
  auto m = make(kind, keyOf(k));
  for (int p = 0; p < 5; p++) compare(*m, kind, keyOf(k), pattern(p, len), str(kind) + "/" + str(k) + "/" + str(p));
}
// every byte value at every position, lengths around the block borders
static void bytes() {
  static const int L[] = {1, 8, 15, 16, 17, 31, 32, 33, 48};
  int kind = choose(2, "kind"), len = L[choose(9, "length")], pos = choose(48, "position");
  assume(pos < len);
  note((kind ? "s2v " : "cmac ") + str(len) + " byte " + str(pos));
  auto m = make(kind, keyOf(1));
  Bytes t = pattern(2, len);
  for (int v = 0; v < 256; v++) { t[pos] = v; compare(*m, kind, keyOf(1), t, str(kind) + "/byte/" + str(pos) + "/" + str(v)); }
}
// one authenticator, a sequence of messages: no state carried over; two authenticators of one key agree
static void sequences() {
  static const int L[] = {0, 1, 15, 16, 17, 40};
  int kind = choose(2, "kind");
  auto m = make(kind, keyOf(2)), other = make(kind, keyOf(3));
  std::string nm = kind ? "s2v" : "cmac";
  for (int i = 0; i < 4; i++) { int l = L[choose(6, "length")]; nm += " " + str(l); note(nm); compare(*m, kind, keyOf(2), pattern(2, l), nm); compare(*other, kind, keyOf(3), pattern(2, l), nm + " other"); }
}
// a message and its padded form are different messages
static void binding() {
  int kind = choose(2, "kind"), k = choose(16, "key");
  auto m = make(kind, keyOf(k));
  std::vector<Bytes> texts; std::vector<Bytes> macs;
  for (int l = 0; l <= 34; l++) for (int p = 0; p < 5; p++) {
    Bytes t = pattern(p, l); texts.push_back(t);
    t.push_back(0x80); texts.push_back(t); while (t.size() % 16) t.push_back(0); texts.push_back(t);
    Bytes z = pattern(p, l); while (z.size() < 34) { z.push_back(0); texts.push_back(z); }
  }
  std::sort(texts.begin(), texts.end()); texts.erase(std::unique(texts.begin(), texts.end()), texts.end());
  std::map<Bytes, Bytes> seen;
  for (auto& t : texts) {
    auto g = m->getMac128(t); evals();
    auto r = seen.emplace(g, t);
    check(r.second, kind ? "two messages with one S2V value" : "two messages with one CMAC value", [&] { return hex(t) + " and " + hex(r.first->second); });
  }
  state(mix(kind, mix(k, seen.size())));
}
// long messages: around every power of two
static void longer() {
  int kind = choose(2, "kind"), e = 8 + choose(mc::thorough ? 13 : 11, "log2 of the length"), d = choose(4, "offset");
  size_t len = (size_t(1) << e) + (d == 3 ? 15 : d - 1);
  note((kind ? "s2v " : "cmac ") + str(len));
  auto m = make(kind, keyOf(1));
  for (int p = 2; p < 5; p++) compare(*m, kind, keyOf(1), pattern(p, len), str(kind) + "/long/" + str(p));
}
int main(int argc, char** argv) {
  return harnessMain(argc, argv, "C31", {{"lengths", lengths}, {"bytes", bytes}, {"sequences", sequences}, {"binding", binding}, {"long messages", longer}});
}
