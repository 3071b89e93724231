// C29: fixed-width plain integers.
#include <exception>
#include <stdexcept>
#include <string>
#include "fbpcf/mpc_std_lib/util/util.h"
#include "mc/mc.h"
using namespace mc;
using namespace fbpcf::mpc_std_lib::util;

static std::vector<uint64_t> values(int w, int full) {  // residues modulo 2^w
  std::vector<uint64_t> r;
  if (w <= full) { for (uint64_t i = 0; i < (1ull << w); i++) r.push_back(i); return r; }
  uint64_t m = w == 64 ? ~0ull : (1ull << w) - 1;
  std::vector<uint64_t> c;
  for (int k = 0; k < w; k++) for (int d = -2; d <= 2; d++) { if (!mc::thorough && k > 3 && k < w - 2 && (k % 8 > 1 && k % 8 < 7)) continue; c.push_back(((1ull << k) + d) & m); c.push_back((~(1ull << k) + d) & m); }
  for (uint64_t v : {0x5555555555555555ull, 0xaaaaaaaaaaaaaaaaull, 0x0123456789abcdefull}) c.push_back(v & m);
  std::sort(c.begin(), c.end()); c.erase(std::unique(c.begin(), c.end()), c.end());
  return c;
}

template <bool S, int W> struct T {
  using I = Intp<S, W>; using N = typename I::NativeType;
  static constexpr uint64_t M = W == 64 ? ~0ull : (1ull << W) - 1;
  static std::string nm() { return std::string(S ? "signed " : "unsigned ") + std::to_string(W); }
  static N native(uint64_t r) {  // the value of the type congruent to r
    r &= M;
    if (S && (r >> (W - 1))) return (N)(int64_t)(r | ~M);
    return (N)r;
  }
  static void same(const I& got, uint64_t want, const char* op, uint64_t a, uint64_t b) {
    N g = got; evals();
    state(mix(mix(hashStr(nm() + op), a), mix(b, (uint64_t)g)));
    check(g == native(want), std::string("result of ") + op + (S ? ", signed" : ", unsigned"), [&] { return nm() + ": " + op + " of " + std::to_string(native(a)) + " and " + std::to_string(native(b)) + ": got " + std::to_string(g) + " expected " + std::to_string(native(want)); });
  }
  template <class F> static void guarded(const char* op, uint64_t a, uint64_t b, F f) {
    try { f(); } catch (const Skip&) { throw; } catch (const std::exception& e) {
      fail(std::string(op) + " rejects an operand in range" + (S ? ", signed" : ", unsigned"), nm() + ": " + std::to_string(native(a)) + " and " + std::to_string(native(b)) + ": " + e.what());
    }
  }
  static void pairs() {
    auto v = values(W, 8);
    for (uint64_t a : v) {
      guarded("construction", a, 0, [&] { I x(native(a)); same(x, a, "construction", a, 0); I y; y = x; same(y, a, "assignment", a, 0); });
      guarded("negation", a, 0, [&] { I x(native(a)); auto r = -x; same(r, 0 - a, "negation", a, 0); same(x, a, "operand of negation", a, 0); });
      for (uint64_t b : v) {
        I x(native(a)), y(native(b));
        guarded("addition", a, b, [&] { same(x + y, a + b, "addition", a, b); });
        guarded("subtraction", a, b, [&] { same(x - y, a - b, "subtraction", a, b); });
        same(x, a, "left operand", a, b); same(y, b, "right operand", a, b);
      }
    }
  }
  static void bits() {
    auto v = values(W, 12);
    for (uint64_t a : v) {
      std::vector<bool> want(W); for (int i = 0; i < W; i++) want[i] = (a >> i) & 1;
      guarded("conversion", a, 0, [&] {
        auto got = Adapters<I>::convertToBits(I(native(a)));
        evals(); state(mix(hashStr(nm() + vec(got)), a));
        check(got == want, "bits of a value", [&] { return nm() + " of " + std::to_string(native(a)) + ": " + vec(got); });
        same(Adapters<I>::convertFromBits(want), a, "value of bits", a, 0);
        for (int len = 0; len < W; len += W > 8 ? 7 : 1) {  // missing high bits are zero
          std::vector<bool> s(want.begin(), want.begin() + len);
          same(Adapters<I>::convertFromBits(s), a & ((1ull << len) - 1), "value of fewer bits", a, len);
        }
        for (uint64_t hi : {0ull, ~0ull}) {
          I k = Adapters<I>::generateFromKey(_mm_set_epi64x(hi, (a & M) | (hi & ~M)));
          same(k, a, "value from a random block", a, hi);
        }
      });
    }
    bool t = false; try { Adapters<I>::convertFromBits(std::vector<bool>(W + 1)); } catch (const std::exception&) { t = true; }
    evals(); check(t, "too many bits accepted", [&] { return nm(); });
  }
  static void limits() {
    check(I::kMax == native(S ? M >> 1 : M) && I::kMin == native(S ? (M >> 1) + 1 : 0), "limits of the type", [&] { return nm(); });
    if (sizeof(N) * 8 == W) return;
    // every native value outside the range (all of them for small types, the borders of each power of two above)
    auto out = [&](N x) {
      bool in = x >= native(S ? (M >> 1) + 1 : 0) && x <= native(S ? M >> 1 : M), threw = false;
      try { I y(x); N g = y; check(!in || g == x, "construction changes the value", [&] { return nm() + " " + std::to_string(x); }); } catch (const std::exception&) { threw = true; }
      evals(); state(mix(hashStr(nm() + "limits"), mix((uint64_t)x, threw)));
      check(threw == !in, in ? "value in range rejected" : "value out of range accepted", [&] { return nm() + " " + std::to_string(x); });
    };
    if (sizeof(N) <= 2) { for (int64_t x = S ? -(1ll << (sizeof(N) * 8 - 1)) : 0; x < (S ? (1ll << (sizeof(N) * 8 - 1)) : (1ll << (sizeof(N) * 8))); x++) out((N)x); return; }
    for (int k = 0; k < (int)sizeof(N) * 8; k++) for (int d = -2; d <= 2; d++) { uint64_t u = (1ull << k) + d; out((N)u); out((N)(0 - u)); }
  }
};
template <int W> static void one(int s, int what) {
  note(std::string(s ? "signed " : "unsigned ") + std::to_string(W) + " part " + std::to_string(what));
  if (s) { if (what == 0) T<true, W>::pairs(); else if (what == 1) T<true, W>::bits(); else T<true, W>::limits(); }
  else { if (what == 0) T<false, W>::pairs(); else if (what == 1) T<false, W>::bits(); else T<false, W>::limits(); }
}
// widths FIRST, FIRST + 8, ...
template <int... W> static void all(std::integer_sequence<int, W...>, int w, int s, int what) { (void)std::initializer_list<int>{(w == W ? (one<W * 8 + FIRST>(s, what), 0) : 0)...}; }
static void go(int what) { int w = choose(8, "width"), s = choose(2, "signed"); all(std::make_integer_sequence<int, 8>(), w, s, what); }
int main(int argc, char** argv) {
  return harnessMain(argc, argv, "C29", {{"arithmetic", [] { go(0); }}, {"bits", [] { go(1); }}, {"limits", [] { go(2); }}});
}
