// C25: the AES circuit over plain bits and over secret bits, against AES written out from FIPS 197.
#include "fbpcf/frontend/Bit.h"
#include "fbpcf/mpc_std_lib/aes_circuit/AesCircuit.h"
#include "fbpcf/mpc_std_lib/aes_circuit/AesCircuitCtr.h"
#include "fbpcf/mpc_std_lib/aes_circuit/AesCircuitCtrFactory.h"
#include "fbpcf/mpc_std_lib/aes_circuit/AesCircuitFactory.h"
#include "fbpcf/mpc_std_lib/aes_circuit/DummyAesCircuitFactory.h"
#include "mc/front.h"
#include "mc/refaes.h"
using namespace mc;
namespace ac = fbpcf::mpc_std_lib::aes_circuit;
using refaes::Block; using Keys = std::array<Block, 11>; using Bits = std::vector<bool>;
static Bits toBits(const Block& b) { Bits r; for (int i = 0; i < 16; i++) for (int k = 0; k < 8; k++) r.push_back(b[i] >> (7 - k) & 1); return r; }
static Bits toBits(const Keys& k) { Bits r; for (auto& b : k) { auto t = toBits(b); r.insert(r.end(), t.begin(), t.end()); } return r; }
static Bits toBits(const std::vector<Block>& v) { Bits r; for (auto& b : v) { auto t = toBits(b); r.insert(r.end(), t.begin(), t.end()); } return r; }
static std::string hex(const Block& b) { static const char* d = "0123456789abcdef"; std::string s; for (auto x : b) { s += d[x >> 4]; s += d[x & 15]; } return s; }
static std::string show(const Bits& b) { std::string s; for (size_t i = 0; i + 128 <= b.size(); i += 128) { Block x{}; for (int j = 0; j < 128; j++) x[j / 8] |= b[i + j] << (7 - j % 8); s += (i ? " " : "") + hex(x); } return s; }
// rounds with whatever round keys are given (they need not be a schedule)
static Block enc(const Keys& rk, Block s) {
  static const uint8_t m[4] = {2, 3, 1, 1};
  for (int i = 0; i < 16; i++) s[i] ^= rk[0][i];
  for (int r = 1; r <= 10; r++) {
    Block t; for (int i = 0; i < 16; i++) t[i] = refaes::sbox()[s[(i + 4 * (i % 4)) % 16]];
    s = t; if (r < 10) refaes::mix(s, m);
    for (int i = 0; i < 16; i++) s[i] ^= rk[r][i];
  }
  return s;
}
static Block dec(const Keys& dk, Block s) {  // equivalent inverse cipher
  for (int i = 0; i < 16; i++) s[i] ^= dk[0][i];
  for (int r = 1; r <= 10; r++) {
    Block t; for (int i = 0; i < 16; i++) t[(i + 4 * (i % 4)) % 16] = refaes::inv()[s[i]];
    s = t; if (r < 10) s = refaes::invMix(s);
    for (int i = 0; i < 16; i++) s[i] ^= dk[r][i];
  }
  return s;
}
static Keys inverseKeys(const Keys& k) { Keys r; for (int i = 0; i <= 10; i++) r[i] = i == 0 || i == 10 ? k[10 - i] : refaes::invMix(k[10 - i]); return r; }
static Block pattern(int k) { Block b; for (int i = 0; i < 16; i++) b[i] = k == 0 ? 0 : k == 1 ? 0xff : k == 2 ? i : (uint8_t)(i * 37 + 11 * k + (i * i * k)); return b; }
static std::vector<Block> patterns(size_t n, int s) { std::vector<Block> v; for (size_t i = 0; i < n; i++) v.push_back(pattern((int)i + s)); return v; }
static void eq(const Bits& got, const Bits& want, const char* what) {
  evals(got.size() / 128 + 1); state(hashStr(std::string(what) + show(got)));
  check(got == want, what, [&] { return "got " + show(got) + " want " + show(want); });
}
using C = ac::IAesCircuit<bool>;
static void pair(const C& c, const Keys& k, const std::vector<Block>& text, bool schedule = true) {
  std::vector<Block> e, d; auto dk = schedule ? inverseKeys(k) : k;
  for (auto& t : text) { e.push_back(enc(k, t)); d.push_back(dec(dk, t)); }
  auto r = c.encrypt(toBits(text), toBits(k));
  eq(r, toBits(e), "encryption of plain bits");
  eq(c.decrypt(toBits(text), toBits(dk)), toBits(d), "decryption of plain bits");
  if (schedule) eq(c.decrypt(r, toBits(dk)), toBits(text), "decryption of the encryption of plain bits");
}
static void bytes() {
  auto c = ac::AesCircuitFactory<bool>().create(); int pos = choose(16, "position"), key = choose(3, "key"), bg = choose(2, "background"), first = choose(8, "values") * 32;
  note("byte " + str(pos) + " key " + str(key) + " background " + str(bg) + " values from " + str(first));
  std::vector<Block> v; for (int x = 0; x < 32; x++) { auto b = pattern(bg ? 3 : 0); b[pos] = first + x; v.push_back(b); }
  auto rk = refaes::schedule(pattern(key + 1));
  for (auto& b : v) if (refaes::encrypt(pattern(key + 1), b) != enc(rk, b) || refaes::decrypt(pattern(key + 1), b) != dec(inverseKeys(rk), b)) fail("reference", "");
  pair(*c, rk, v);
}
static void basis() {  // a single bit of text, key or round key
  auto c = ac::AesCircuitFactory<bool>().create(); int what = choose(3, "what"), bit = choose(what == 2 ? 1408 : 128, "bit"), bg = choose(2, "background");
  note("basis " + str(what) + " bit " + str(bit) + " background " + str(bg));
  Block t = pattern(bg), k = pattern(bg ? 4 : 0);
  if (what == 0) t[bit / 8] ^= 128 >> bit % 8;
  if (what == 1) k[bit / 8] ^= 128 >> bit % 8;
  auto rk = refaes::schedule(k);
  if (what == 2) { if (!bg) rk = Keys{}; rk[bit / 128][bit / 8 % 16] ^= 128 >> bit % 8; }
  pair(*c, rk, {t}, what != 2);
}
static void counts() {
  static const int more[] = {15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257};
  int few = mc::thorough ? 40 : 10, n = choose(few + 15, "blocks"), k = choose(4, "key"); if (n >= few) { n = more[n - few]; assume(k < 2); } int ctr = choose(2, "mode"); note("blocks " + str(n) + " key " + str(k) + " mode " + str(ctr));
  auto text = patterns(n, k + 2); auto rk = refaes::schedule(pattern(k));
  if (!ctr) return pair(*ac::AesCircuitFactory<bool>().create(), rk, text);
  auto c = ac::AesCircuitCtrFactory<bool>().create(); int m = choose(3, "mask"); std::vector<Block> mask, want;
  for (int i = 0; i < n; i++) { Block b{}; if (m == 1) b = pattern(i + 7); if (m == 0) b[15] = i; if (m == 2) b[0] = i ^ 255; mask.push_back(b); auto e = enc(rk, b); for (int j = 0; j < 16; j++) e[j] ^= text[i][j]; want.push_back(e); }
  auto r = c->encrypt(toBits(text), toBits(rk), toBits(mask));
  eq(r, toBits(want), "counter mode encryption of plain bits");
  eq(c->decrypt(r, toBits(rk), toBits(mask)), toBits(text), "counter mode decryption of plain bits");
}
static void rejected() {
  auto c = ac::AesCircuitFactory<bool>().create(); auto x = ac::AesCircuitCtrFactory<bool>().create(); auto d = ac::insecure::DummyAesCircuitFactory<bool>().create();
  int lens[] = {0, 1, 127, 128, 129, 255, 256, 257}, keys[] = {0, 128, 1280, 1407, 1408, 1409, 1536, 2816};
  int tn = lens[choose(8, "text")], kn = keys[choose(8, "key")], mn = lens[choose(8, "mask")], which = choose(6, "which");
  assume(which >= 4 || mn == 0);
  note("text " + str(tn) + " key " + str(kn) + " mask " + str(mn) + " call " + str(which));
  Bits t(tn, true), k(kn), m(mn); bool threw = false; Bits r;
  bool want = tn % 128 != 0 || kn != 1408 || (which >= 4 && mn != tn);
  try { r = which == 0 ? c->encrypt(t, k) : which == 1 ? c->decrypt(t, k) : which == 2 ? d->encrypt(t, k) : which == 3 ? d->decrypt(t, k) : which == 4 ? x->encrypt(t, k, m) : x->decrypt(t, k, m); } catch (const std::runtime_error&) { threw = true; }
  evals(); state(mix(mix(tn, kn), mix(mn, which * 2 + threw)));
  check(threw == want, "sizes of text, key and mask", [&] { return str(tn) + " " + str(kn) + " " + str(mn) + " call " + str(which) + " threw " + str(threw); });
  if (!threw) check(r.size() == t.size(), "length of the result");
  if (!threw && (which == 2 || which == 3)) check(r == t, "the placeholder changed its input");
}
// ---- secret bits
struct Case { BackendChoice b; int mode, owner, kowner; std::vector<std::vector<Block>> text, mask; Keys k; std::string nm; };  // text[element][block]
template <int P> static void batched(const Case& c) {
  using B = fbpcf::frontend::Bit<true, P, true>;
  auto in = [&](const std::vector<Bits>& v, int owner) {
    std::vector<B> r; for (size_t i = 0; i < v[0].size(); i++) { Bits e; for (auto& x : v) e.push_back(x[i] ^ (!c.b.plain && owner != P)); r.push_back(B(e, owner)); } return r;
  };
  std::vector<Bits> t, m, k; for (auto& x : c.text) t.push_back(toBits(x)); for (auto& x : c.mask) m.push_back(toBits(x));
  auto ek = c.k, dk = inverseKeys(c.k);
  for (size_t i = 0; i < t.size(); i++) k.push_back(toBits(c.mode == 1 ? dk : ek));
  auto text = in(t, c.owner); auto key = in(k, c.kowner); std::vector<B> r;
  if (c.mode == 0) r = ac::AesCircuitFactory<B>().create()->encrypt(text, key);
  if (c.mode == 1) r = ac::AesCircuitFactory<B>().create()->decrypt(text, key);
  if (c.mode >= 2) { auto mask = in(m, 1 - c.owner * !c.b.plain - c.b.plain); auto x = ac::AesCircuitCtrFactory<B>().create(); r = c.mode == 2 ? x->encrypt(text, key, mask) : x->decrypt(text, key, mask); }
  std::vector<Bits> got(t.size());
  int to = c.b.plain ? 0 : 1 - c.owner;
  for (auto& b : r) { auto v = b.openToParty(to).getValue(); for (size_t i = 0; i < got.size() && i < v.size(); i++) got[i].push_back(v[i]); }
  if (to != P) return;
  for (size_t e = 0; e < got.size(); e++) {
    std::vector<Block> want; for (size_t i = 0; i < c.text[e].size(); i++) { Block w = c.mode == 0 ? enc(ek, c.text[e][i]) : c.mode == 1 ? dec(dk, c.text[e][i]) : enc(ek, c.mask[e][i]); if (c.mode >= 2) for (int j = 0; j < 16; j++) w[j] ^= c.text[e][i][j]; want.push_back(w); }
    eq(got[e], toBits(want), c.mode == 0 ? "encryption of secret bits" : c.mode == 1 ? "decryption of secret bits" : "counter mode of secret bits");
  }
}
template <int P> static void scalar(const Case& c) {
  using B = fbpcf::frontend::Bit<true, P>;
  auto in = [&](const Bits& v, int owner) { std::vector<B> r; for (bool x : v) r.push_back(B(x ^ (!c.b.plain && owner != P), owner)); return r; };
  auto ek = c.k, dk = inverseKeys(c.k);
  auto text = in(toBits(c.text[0]), c.owner); auto key = in(toBits(c.mode == 1 ? dk : ek), c.kowner);
  auto a = ac::AesCircuitFactory<B>().create();
  auto r = c.mode == 1 ? a->decrypt(text, key) : a->encrypt(text, key);
  int to = c.b.plain ? 0 : c.owner; Bits got; for (auto& b : r) got.push_back(b.openToParty(to).getValue());
  if (to != P) return;
  std::vector<Block> want; for (auto& x : c.text[0]) want.push_back(c.mode == 1 ? dec(dk, x) : enc(ek, x));
  eq(got, toBits(want), c.mode == 1 ? "decryption of secret bits, not batched" : "encryption of secret bits, not batched");
}
static Case owners(BackendChoice b, int mode) { return Case{b, mode, b.plain ? 0 : choose(2, "owner"), b.plain ? 0 : choose(2, "key owner"), {}, {}, {}, ""}; }
static void secure() {
  auto b = chooseBackend(); auto c = owners(b, choose(4, "mode")); int k = choose(2, "key"), n = 1 + choose(2, "blocks"), e = 1 + choose(3, "elements") * 2;
  c.k = refaes::schedule(pattern(k + 3));
  for (int i = 0; i < e; i++) { c.text.push_back(patterns(n, 2 + i * n)); c.mask.push_back(patterns(n, 50 + i * n)); }
  c.nm = "backend " + str(b.b) + " mode " + str(c.mode) + " blocks " + str(n) + " elements " + str(e) + " owners " + str(c.owner) + str(c.kowner); note(c.nm);
  runBoth(b, [&] { batched<0>(c); }, [&] { batched<1>(c); });
}
static void secureBlocks() {
  auto b = chooseBackend(); auto c = owners(b, choose(4, "mode")); assume(c.owner == c.kowner); static const int N[] = {3, 4, 5, 8, 9, 16, 17}; int n = N[choose(7, "blocks")];
  c.k = refaes::schedule(pattern(6)); c.text.push_back(patterns(n, 9)); c.mask.push_back(patterns(n, 70));
  c.nm = "many blocks, backend " + str(b.b) + " mode " + str(c.mode) + " blocks " + str(n) + " owner " + str(c.owner); note(c.nm);
  runBoth(b, [&] { batched<0>(c); }, [&] { batched<1>(c); });
}
static void secureBytes() {  // every value of a byte, as 256 elements of a batch
  auto b = chooseBackend(); int mode = choose(2, "mode"), pos = mc::thorough ? choose(16, "position") : choose(4, "position") * 5; Case c{b, mode, b.plain ? 0 : pos & 1, b.plain ? 0 : pos >> 1 & 1, {}, {}, {}, ""};
  c.k = refaes::schedule(pattern(5));
  for (int x = 0; x < 256; x++) { auto t = pattern(3); t[pos] = x; c.text.push_back({t}); }
  c.nm = "backend " + str(b.b) + " mode " + str(mode) + " byte " + str(pos); note(c.nm);
  runBoth(b, [&] { batched<0>(c); }, [&] { batched<1>(c); });
}
static void secureScalar() {
  auto b = chooseBackend(); auto c = owners(b, choose(2, "mode")); int n = 1 + choose(2, "blocks"); c.text.push_back(patterns(n, 3)); c.k = refaes::schedule(pattern(4));
  c.nm = "scalar, backend " + str(b.b) + " mode " + str(c.mode) + " blocks " + str(n) + " owners " + str(c.owner) + str(c.kowner); note(c.nm);
  runBoth(b, [&] { scalar<0>(c); }, [&] { scalar<1>(c); });
}
int main(int argc, char** argv) {
  return harnessMain(argc, argv, "C25", {{"bytes", bytes}, {"single bits", basis}, {"block counts", counts}, {"sizes", rejected},
    {"secret bits", secure, 0, -1, false, 0, 7}, {"secret bits, many blocks", secureBlocks, 0, -1, false, 0, 4}, {"secret bytes", secureBytes}, {"secret bits, not batched", secureScalar}});
}
