// C30: value types of the standard library: conversions in the clear, secret inputs, recovery from shares, oblivious
// swap, batching, opening; random permutations and public seeds.
#include <map>
#include <openssl/sha.h>
#include <set>
#include "mc/typed.h"
#include "fbpcf/mpc_std_lib/util/secureRandomPermutation.h"
#include "fbpcf/mpc_std_lib/util/secureSamplePublicSeed.h"
using namespace mc;
using I5 = ut::Intp<true, 5>; using U7 = ut::Intp<false, 7>; using I64 = ut::Intp<true, 64>; using U1 = ut::Intp<false, 1>;
using Pair1 = std::pair<uint32_t, bool>; using Pair2 = std::pair<I5, U7>; using Pair3 = std::pair<std::pair<U7, bool>, uint32_t>;

static std::vector<uint64_t> sampleValues(uint64_t mask, int bits) {
  std::vector<uint64_t> r;
  if (bits <= 6) { for (uint64_t i = 0; i <= mask; i++) r.push_back(i); return r; }
  r = {0, mask, 1, mask - 1, mask >> 1, (mask >> 1) + 1, 0x5555555555555555ull & mask, 0x123456789abcdefull & mask};
  for (int i = 0; i < bits; i += 1) r.push_back(1ull << i);
  return r;
}

template <class T, int P> struct Run {
  using A = ut::MpcAdapters<T, P>; using V = Val<T>;
  BackendChoice b; int op, oa, ob, target; std::vector<uint64_t> a, c; std::vector<bool> sel; std::string nm;
  template <class S> void expect(const S& s, const std::vector<uint64_t>& want, const char* what) {
    auto got = V::codes(A::openToParty(s, target));
    if (!b.plain && target != P) return;
    evals(); state(mix(hashStr(nm + what), hashStr(vec(got))));
    check(got == want, std::string(what) + ", " + V::name, [&] { return nm + ": got " + vec(got) + " expected " + vec(want); });
  }
  void go() {
    size_t n = a.size();
    if (op == 0) { auto s = secret<T, P>(b.plain, oa, a); expect(s, a, "opened input"); expect(s, a, "opened input"); return; }
    if (op == 1) {
      auto x = secret<T, P>(b.plain, oa, a), y = secret<T, P>(b.plain, ob, c);
      auto i = secret<bool, P>(b.plain, ob, std::vector<uint64_t>(sel.begin(), sel.end()));
      auto r = A::obliviousSwap(x, y, i);
      std::vector<uint64_t> w1, w2; for (size_t k = 0; k < n; k++) { w1.push_back(sel[k] ? c[k] : a[k]); w2.push_back(sel[k] ? a[k] : c[k]); }
      expect(r.first, w1, "first result of the swap"); expect(r.second, w2, "second result of the swap"); expect(x, a, "operand of the swap"); expect(y, c, "operand of the swap");
      return;
    }
    if constexpr (!std::is_same_v<T, bool> && !std::is_same_v<T, std::vector<bool>> && !std::is_same_v<T, Pair1> && !std::is_same_v<T, Pair2> && !std::is_same_v<T, Pair3>) {
      if (op == 2) {
        std::vector<std::vector<bool>> sh(V::bits, std::vector<bool>(n));
        for (int i = 0; i < V::bits; i++) for (size_t k = 0; k < n; k++) { bool v = a[k] >> i & 1, m = c[k] >> i & 1; sh[i][k] = b.plain ? v : P == 0 ? m : m != v; }
        auto s = A::recoverBatchSharedSecrets(sh); expect(s, a, "recovered value"); return;
      }
    }
    if constexpr (!std::is_same_v<T, ut::AggregationValue>) {
      auto x = secret<T, P>(b.plain, oa, a), y = secret<T, P>(b.plain, ob, c), z = secret<T, P>(b.plain, oa, c);
      std::vector<uint64_t> all = a; all.insert(all.end(), c.begin(), c.end()); all.insert(all.end(), c.begin(), c.end());
      auto j = A::batchingWith(x, {y, z});
      expect(j, all, "joined batches"); expect(A::batchingWith(x, {}), a, "batch joined with nothing"); expect(y, c, "operand of joining");
      for (int cut = 0; cut < 4; cut++) {
        uint32_t k = cut == 0 ? 1 : cut == 1 ? n : cut == 2 ? 0 : 3 * n - 1;
        auto st = std::make_shared<std::vector<uint32_t>>(std::vector<uint32_t>{k, (uint32_t)(3 * n) - k});
        auto p = A::unbatching(j, st);
        check(p.size() == 2, "number of pieces", [&] { return nm; });
        if (k) expect(p[0], std::vector<uint64_t>(all.begin(), all.begin() + k), "first piece");
        if (k < 3 * n) expect(p[1], std::vector<uint64_t>(all.begin() + k, all.end()), "second piece");
      }
    }
  }
};
template <class T> static void typed() {
  auto b = chooseBackend();
  int op = choose(4, "op"), oa = b.plain ? 0 : choose(2, "owner a"), ob = b.plain || op == 0 ? 0 : choose(2, "owner b"), t = b.plain ? 0 : choose(2, "open to");
  int pick = choose(mc::thorough ? 6 : 3, "values");
  auto vals = sampleValues(maskOf<T>(), Val<T>::bits);
  std::vector<uint64_t> a, c; std::vector<bool> sel;
  if (pick == 0) for (size_t i = 0; i < vals.size(); i++) { a.push_back(vals[i]); c.push_back(vals[(i * 7 + 3) % vals.size()]); sel.push_back(i & 1); }
  else if (pick == 1) for (uint64_t v : vals) { a.push_back(v); c.push_back(~v & maskOf<T>()); sel.push_back(hashStr(str(v)) & 1); }
  else { uint64_t v = vals[pick % vals.size()]; a = {v}; c = {(v ^ 1) & maskOf<T>()}; sel = {(bool)(pick & 1)}; }
  std::string nm = std::string(Val<T>::name) + str(Val<T>::bits) + " backend " + str(b.b) + " op " + str(op) + " owners " + str(oa) + str(ob) + " to " + str(t) + " values " + str(pick);
  note(nm);
  runBoth(b, [&] { Run<T, 0>{b, op, oa, ob, t, a, c, sel, nm}.go(); }, [&] { Run<T, 1>{b, op, oa, ob, t, a, c, sel, nm}.go(); });
}

// ---- conversions in the clear -----------------------------------------------------------------------------------
template <class T> static void bitsOf(std::vector<uint64_t> vals) {
  using A = ut::Adapters<T>; using V = Val<T>;
  for (uint64_t v : vals) {
    auto x = V::batch({v})[0];
    std::vector<bool> want; for (int i = 0; i < V::bits; i++) want.push_back(v >> i & 1);
    auto got = A::convertToBits(x); auto back = A::convertFromBits(want);
    evals(2); state(mix(hashStr(V::name + vec(got)), v));
    check(got == want, std::string("bits of a value, ") + V::name, [&] { return str(v) + " " + vec(got); });
    check(V::codes({back})[0] == v, std::string("value of bits, ") + V::name, [&] { return str(v); });
  }
}
static void conversions() {
  int what = choose(5, "type"); note("conversions " + str(what));
  std::vector<uint64_t> v;
  for (int i = 0; i < 64; i++) for (int d = -1; d <= 1; d++) for (int j = -1; j < 64; j += 9) v.push_back(((1ull << i) + d) ^ (j < 0 ? 0 : 1ull << j));
  std::vector<uint64_t> v32; for (auto x : v) v32.push_back(x & 0xffffffff);
  if (what == 0) {
    bitsOf<uint32_t>(v32);
    for (int l = 0; l < 32; l++) { std::vector<bool> s(l, true); check(ut::Adapters<uint32_t>::convertFromBits(s) == (1ull << l) - 1, "value of fewer bits"); evals(); }
    bool t = false; try { ut::Adapters<uint32_t>::convertFromBits(std::vector<bool>(33)); } catch (const std::exception&) { t = true; }
    check(t, "too many bits accepted, uint32");
    for (auto x : v) { check(ut::Adapters<uint32_t>::generateFromKey(_mm_set_epi64x(~x, x)) == (uint32_t)x, "value from a random block, uint32"); evals(); }
  } else if (what == 1) {
    bitsOf<ut::AggregationValue>(v);
    for (int l : {0, 32, 63, 65}) { bool t = false; try { ut::Adapters<ut::AggregationValue>::convertFromBits(std::vector<bool>(l)); } catch (const std::exception&) { t = true; } evals(); check(t, "wrong number of bits accepted, aggregation value"); }
    std::set<std::pair<uint32_t, uint32_t>> seen;
    for (auto x : v) {  // two different words of the random block, so independent and uniform
      auto k = ut::Adapters<ut::AggregationValue>::generateFromKey(_mm_set_epi64x(0x1111111122222222ull, x)); evals();
      bool ok = (k.conversionCount == (uint32_t)(x >> 32) && k.conversionValue == (uint32_t)x) || (k.conversionCount == (uint32_t)x && k.conversionValue == (uint32_t)(x >> 32)) || k.conversionCount == 0x11111111 || k.conversionCount == 0x22222222;
      check(ok, "value from a random block, aggregation value", [&] { return str(x); });
    }
  } else if (what == 2) {  // the additive group of aggregation values
    using G = ut::AggregationValue;
    for (auto x : v) for (size_t j = 0; j < v.size(); j += 17) {
      auto y = v[j]; auto a = Val<G>::batch({x})[0], b = Val<G>::batch({y})[0];
      auto code = [](const G& g) { return Val<G>::codes({g})[0]; };
      uint32_t xc = x, xv = x >> 32, yc = y, yv = y >> 32;
      auto pk = [](uint32_t c, uint32_t w) { return c | (uint64_t)w << 32; };
      evals(); state(mix(x, y));
      G e = a; e += b;
      check(code(a + b) == pk(xc + yc, xv + yv) && code(e) == pk(xc + yc, xv + yv), "sum of aggregation values", [&] { return str(x) + " " + str(y); });
      check(code(a - b) == pk(xc - yc, xv - yv), "difference of aggregation values", [&] { return str(x) + " " + str(y); });
      check(code(-a) == pk(-xc, -xv), "negated aggregation value", [&] { return str(x); });
      check((a == b) == (x == y), "equality of aggregation values", [&] { return str(x) + " " + str(y); });
      check(code(G(xv)) == pk(xv > 0, xv), "aggregation value of an amount", [&] { return str(xv); });
    }
  } else if (what == 3) {  // blocks
    std::vector<__m128i> blocks; std::vector<std::pair<uint64_t, uint64_t>> w;
    for (size_t i = 0; i < v.size(); i++) w.push_back({v[i], v[(i * 5 + 2) % v.size()]});
    for (int n : {0, 1, 2, (int)w.size()}) {
      std::vector<__m128i> in; for (int i = 0; i < n; i++) in.push_back(_mm_set_epi64x(w[i].second, w[i].first));
      auto bits = ut::convertToBits(in);
      check(bits.size() == 128, "number of bit rows of blocks"); if (failed()) return;
      for (int j = 0; j < 128; j++) { check((int)bits[j].size() == n, "size of a bit row"); for (int i = 0; i < n; i++) check(bits[j][i] == (bool)((j < 64 ? w[i].first : w[i].second) >> (j % 64) & 1), "bit of a block"); evals(n); }
      auto back = ut::convertFromBits(bits);
      check((int)back.size() == n, "number of blocks of bit rows");
      for (int i = 0; i < n && i < (int)back.size(); i++) check((uint64_t)_mm_extract_epi64(back[i], 0) == w[i].first && (uint64_t)_mm_extract_epi64(back[i], 1) == w[i].second, "block of bit rows");
      state(n);
    }
    for (int l : {0, 127, 129}) { bool t = false; try { ut::convertFromBits(std::vector<std::vector<bool>>(l, std::vector<bool>(2))); } catch (const std::exception&) { t = true; } evals(); check(t, "wrong number of bit rows accepted"); }
  } else { bitsOf<I5>(sampleValues(31, 5)); bitsOf<U7>(sampleValues(127, 7)); bitsOf<I64>(v); bitsOf<U1>({0, 1}); }
}

// ---- random permutations ------------------------------------------------------------------------------------------
struct Tape : fbpcf::engine::util::IPrg {
  std::function<std::vector<unsigned char>(uint32_t)> f;
  std::vector<bool> getRandomBits(uint32_t) override { throw std::runtime_error("bits"); }
  std::vector<unsigned char> getRandomBytes(uint32_t n) override { return f(n); }
  std::vector<uint64_t> getRandomUInt64(uint32_t) override { throw std::runtime_error("words"); }
};
static void permutations() {
  int n = choose(mc::thorough ? 9 : 8, "size");
  note("size " + str(n));
  // every sequence of draws modulo n, n-1, ..., 2: each permutation exactly once
  std::vector<int> d(std::max(0, n - 1)); std::map<std::vector<uint32_t>, int> seen;
  for (;;) {
    size_t k = 0; Tape t;
    t.f = [&](uint32_t len) {
      std::vector<unsigned char> r(len);
      // a large number congruent to the draw: 16-bit-and-more multiples of lcm(1..9) in the higher bytes
      uint64_t big = (uint64_t)(k < d.size() ? d[k] : 0) + 2520ull * (k * 7919 + 13); k++;
      for (uint32_t i = 0; i < len && i < 8; i++) r[i] = big >> (8 * i);
      return r;
    };
    auto p = ut::secureRandomPermutation(n, t); evals();
    std::vector<bool> hit(n); bool ok = (int)p.size() == n; for (auto x : p) { if (x >= (uint32_t)n || hit[x]) ok = false; else hit[x] = true; }
    check(ok, "result is a permutation", [&] { return vec(p); }); if (failed()) return;
    seen[p]++; state(hashStr(vec(p)));
    int i = 0; while (i < (int)d.size() && ++d[i] == n - i) d[i++] = 0;
    if (i == (int)d.size()) break;
  }
  uint64_t f = 1; for (int i = 2; i <= n; i++) f *= i;
  check(seen.size() == f, "number of reachable permutations", [&] { return "size " + str(n) + ": " + str(seen.size()); });
  for (auto& kv : seen) check(kv.second == 1, "permutations are not equally likely", [&] { return vec(kv.first); });
}
static void bigPermutations() {
  static const uint32_t sizes[] = {16, 100, 255, 256, 257, 1000};
  uint32_t n = sizes[choose(6, "size")]; int p = choose(5, "tape"); note("size " + str(n) + " tape " + str(p));
  Tape t; uint64_t k = 0;
  t.f = [&](uint32_t len) { check(len >= 16, "random bytes per draw"); std::vector<unsigned char> r(len); for (auto& x : r) { x = p == 0 ? 0 : p == 1 ? 0xff : p == 2 ? 0x80 : hashBits(p)(1, k, 0); k++; } return r; };
  auto r = ut::secureRandomPermutation(n, t); evals(); state(hashStr(vec(r)));
  std::vector<bool> hit(n); check(r.size() == n, "size of the permutation"); for (auto x : r) { check(x < n && !hit[x], "result is a permutation", [&] { return "size " + str(n) + " tape " + str(p); }); if (failed()) return; hit[x] = true; }
}
// ---- public seeds -------------------------------------------------------------------------------------------------
static bool eq(__m128i a, __m128i b) { return _mm_extract_epi64(a, 0) == _mm_extract_epi64(b, 0) && _mm_extract_epi64(a, 1) == _mm_extract_epi64(b, 1); }
static void seeds() {
  int first = choose(2, "who is first"), salt = choose(4, "randomness"), rounds = 1 + choose(3, "rounds");
  note("first " + str(first) + " salt " + str(salt));
  auto w = std::make_shared<World>(); w->log = true;
  std::vector<__m128i> out[2]; std::vector<std::vector<unsigned char>> drawn;
  uint64_t cnt = 0;
  randHook = [&](unsigned char* p, int n) { for (int i = 0; i < n; i++) p[i] = salt == 0 ? 0 : mix(salt * 77 + cnt, i); cnt++; drawn.emplace_back(p, p + n); };
  parties(2, [&](int me) { auto a = w->agent(me, 1 - me); for (int i = 0; i < rounds; i++) out[me].push_back(ut::secureSamplePublicSeed(me == first, *a)); });
  randHook = nullptr;
  for (int i = 0; i < rounds; i++) {
    evals(); state(mix(first * 4 + salt, _mm_extract_epi64(out[0][i], 0)));
    check(eq(out[0][i], out[1][i]), "seeds of the two parties differ");
    bool found = false;  // the seed is the XOR of a block each side drew
    for (auto& x : drawn) for (auto& y : drawn) if (&x != &y && x.size() == 16 && y.size() == 16) { bool e = true; const unsigned char* s = (const unsigned char*)&out[0][i]; for (int k = 0; k < 16; k++) e &= s[k] == (x[k] ^ y[k]); found |= e; }
    check(found, "the seed is not the sum of both parties' randomness");
  }
  check(w->drained(), "bytes left unread");
  if (salt) for (int i = 1; i < rounds; i++) check(!eq(out[0][i], out[0][i - 1]), "two seeds are the same");
}
// the first party opens something else than it committed to, in any byte
static void cheat() {
  int byte = choose(33, "byte"), bit = choose(8, "bit"); note("byte " + str(byte) + " bit " + str(bit));
  auto w = std::make_shared<World>(); bool threw = false;
  parties(2, [&](int me) {
    auto a = w->agent(me, 1 - me);
    if (me == 1) { try { ut::secureSamplePublicSeed(false, *a); } catch (const std::exception&) { threw = true; } return; }
    std::vector<unsigned char> m(32), dg(32); for (int i = 0; i < 32; i++) m[i] = i * 7 + 1;
    SHA256(m.data(), 32, dg.data());
    a->send(dg); a->receive(16); if (byte < 32) m[byte] ^= 1 << bit; a->send(m);
  });
  evals(); state(byte * 8 + bit);
  check(threw == (byte < 32), byte < 32 ? "a changed share was accepted" : "an honest share was rejected");
}
#include <openssl/sha.h>
int main(int argc, char** argv) {
  std::vector<Suite> s;
  if (PART == 0) s = {{"conversions", conversions}, {"permutations", permutations}, {"big-permutations", bigPermutations}, {"seeds", seeds}, {"cheating-opener", cheat}, {"bool", typed<bool>}, {"bit-string", typed<std::vector<bool>>}};
  if (PART == 1) s = {{"uint32", typed<uint32_t>}, {"aggregation", typed<ut::AggregationValue>}, {"intp", typed<I5>}};
  if (PART == 2) s = {{"intp-unsigned", typed<U7>}, {"intp-64", typed<I64>}, {"intp-1", typed<U1>}};
  if (PART == 3) s = {{"pair-bool", typed<Pair1>}, {"pair", typed<Pair2>}, {"pair-of-pair", typed<Pair3>}};
  return harnessMain(argc, argv, "C30", s);
}
