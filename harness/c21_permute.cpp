// C21: secure permutation and shuffling move values without changing them.
#include <algorithm>
#include <array>
#include <numeric>
#include <set>
#include "mc/typed.h"
#include "fbpcf/engine/util/AesPrgFactory.h"
#include "fbpcf/mpc_std_lib/permuter/AsWaksmanPermuter.h"
#include "fbpcf/mpc_std_lib/permuter/AsWaksmanPermuterFactory.h"
#include "fbpcf/mpc_std_lib/permuter/DummyPermuterFactory.h"
#include "fbpcf/mpc_std_lib/shuffler/PermuteBasedShufflerFactory.h"
#include "fbpcf/mpc_std_lib/shuffler/NonShufflerFactory.h"
using namespace mc;
namespace pm = fbpcf::mpc_std_lib::permuter; namespace sh = fbpcf::mpc_std_lib::shuffler;
using I5 = ut::Intp<true, 5>; using U7 = ut::Intp<false, 7>;
using Ord = std::vector<uint32_t>;

static std::vector<uint64_t> distinct(size_t n, uint64_t mask, int bits, int salt) {
  std::vector<uint64_t> v;
  for (size_t i = 0; i < n; i++) v.push_back(bits <= 1 ? (i * 5 + salt) % 3 == 0 : (bits < 32 ? (i * 5 + salt) & mask : (0x0123456789abcdefull * (i + 1) + salt) & mask));
  return v;
}
static Ord nth(int n, int k) { Ord o(n), left(n); std::iota(left.begin(), left.end(), 0); for (int i = 0; i < n; i++) { int f = n - i; o[i] = left[k % f]; left.erase(left.begin() + k % f); k /= f; } return o; }
static int fact(int n) { return n < 2 ? 1 : n * fact(n - 1); }
static std::string ordStr(const Ord& o) { return vec(std::vector<uint64_t>(o.begin(), o.end())); }
// structured permutations of a larger size
static Ord family(int n, int k) {
  Ord o(n); std::iota(o.begin(), o.end(), 0);
  if (k == 0) return o;
  if (k == 1) { std::reverse(o.begin(), o.end()); return o; }
  if (k == 2) { std::rotate(o.begin(), o.begin() + 1, o.end()); return o; }
  if (k == 3) { std::rotate(o.begin(), o.begin() + n / 2, o.end()); return o; }
  if (k == 4) { for (int i = 0; i + 1 < n; i += 2) std::swap(o[i], o[i + 1]); return o; }
  if (k == 5) { std::swap(o[0], o[n - 1]); return o; }
  if (k == 6) { for (int i = 0; i < n; i++) o[i] = i % 2 ? (i + n) / 2 : i / 2; std::set<uint32_t> s(o.begin(), o.end()); if ((int)s.size() != n || *s.rbegin() >= (uint32_t)n) { for (int i = 0; i < n; i++) o[i] = 2 * i < n ? 2 * i : 2 * (i - (n + 1) / 2) + 1; } return o; }
  uint64_t h = k; for (int i = n; i > 1; i--) { h = mix(h, i); std::swap(o[i - 1], o[h % i]); } return o;
}

template <class T, int P> struct One {
  using A = ut::MpcAdapters<T, P>; using V = Val<T>; using S = typename ut::SecBatchType<T, P>::type;
  static std::unique_ptr<pm::IPermuter<S>> make(int kind) {
    if (kind == 1) { if constexpr (!std::is_same_v<T, std::vector<bool>>) return pm::insecure::DummyPermuterFactory<T, P>(P, 1 - P).create(); }
    return pm::AsWaksmanPermuterFactory<T, P>(P, 1 - P).create();
  }
  static void go(BackendChoice b, int kind, const Ord& o, int who, int owner, const std::vector<uint64_t>& v, const std::string& nm) {
    auto src = secret<T, P>(b.plain, owner, v);
    auto p = make(kind);
    bool mine = b.plain || who == P;
    auto r = mine ? p->permute(src, o.size(), o) : p->permute(src, o.size());
    std::vector<uint64_t> want; for (auto i : o) want.push_back(v[i]);
    for (int t = 0; t < (b.plain ? 1 : 2); t++) {
      auto got = V::codes(A::openToParty(r, t)); auto back = V::codes(A::openToParty(src, t));
      if (!b.plain && t != P) continue;
      evals(); state(mix(hashStr(nm), hashStr(vec(got))));
      check(got == want, std::string("permuted values, ") + V::name, [&] { return nm + ": got " + vec(got) + " expected " + vec(want); });
      check(back == v, std::string("source changed by permuting, ") + V::name, [&] { return nm; });
    }
  }
};
template <class T> void permuteOne(const Ord& o, const std::string& what, int kind, BackendChoice b, int who, int owner) {
  auto v = distinct(o.size(), maskOf<T>(), Val<T>::bits, 1 + owner);
  std::string nm = std::string(Val<T>::name) + (kind ? " dummy" : "") + " backend " + str(b.b) + " order " + what + " of party " + str(who) + " values of " + str(owner); note(nm);
  runBoth(b, [&] { One<T, 0>::go(b, kind, o, who, owner, v, nm); }, [&] { One<T, 1>::go(b, kind, o, who, owner, v, nm); });
}
// the plaintext backend runs one party alone: only the calculation from its own order makes sense there
template <class T> static void all(int full, int fullThorough) {
  auto b = chooseBackend(); int kind = std::is_same_v<T, std::vector<bool>> ? 0 : choose(2, "kind");
  int lim = mc::thorough ? fullThorough : full; if (b.plain) lim++; if (kind) lim = std::min(lim, 3);
  int n = 1 + choose(lim, "size"); int k = choose(fact(n), "permutation");
  int who = b.plain ? 0 : choose(2, "order of"), owner = b.plain ? 0 : n <= 3 ? choose(2, "owner") : 1 - who;
  auto o = nth(n, k); permuteOne<T>(o, ordStr(o), kind, b, who, owner);
}
template <class T> static void large() {
  auto b = chooseBackend();
  int n = mc::thorough ? 6 + choose(44, "size") : (int[]){6, 7, 8, 9, 11, 13, 15, 16, 17, 31, 33, 63, 64, 65, 129, 257}[choose(16, "size")];
  int k = choose(mc::thorough ? 24 : 10, "family"); assume(mc::thorough || n < 40 || k >= 6); int who = b.plain ? 0 : choose(2, "order of");
  auto o = family(n, k); permuteOne<T>(o, ordStr(o), 0, b, who, b.plain ? 0 : 1 - who);
}
// every order, programmed network alone: many orders per plaintext run
template <class T> static void network() {
  int n = 6 + choose(mc::thorough ? 3 : 2, "size"); int parts = fact(n) / 60; int k0 = choose(parts, "permutations");
  note(std::string("orders of size ") + str(n) + " part " + str(k0));
  auto v = distinct(n, maskOf<T>(), Val<T>::bits, 3);
  withScheduler<0>(PLAIN, std::make_shared<World>(), [&] {
    auto src = secret<T, 0>(true, 0, v);
    for (int k = k0; k < fact(n); k += parts) {
      auto o = nth(n, k); auto p = pm::AsWaksmanPermuterFactory<T, 0>(0, 1).create();
      auto got = Val<T>::codes(ut::MpcAdapters<T, 0>::openToParty(p->permute(src, n, o), 0));
      std::vector<uint64_t> want; for (auto i : o) want.push_back(v[i]);
      evals(); state(mix(hashStr(ordStr(o)), hashStr(vec(got))));
      check(got == want, std::string("permuted values, ") + Val<T>::name, [&] { return "order " + ordStr(o) + ": got " + vec(got); });
    }
  });
}
// orders that are no permutation are rejected
static void rejects() {
  int n = 1 + choose(3, "size"), m = choose(5, "length"); Ord o; for (int i = 0; i < m; i++) o.push_back((uint32_t[]){0, 1, 2, 3, 0xffffffffu}[choose(5, "index")]);
  int kind = choose(2, "kind");
  std::set<uint32_t> s(o.begin(), o.end()); bool ok = m == n && (int)s.size() == n && *s.rbegin() < (uint32_t)n;
  note("order " + ordStr(o) + " for " + str(n));
  withScheduler<0>(PLAIN, std::make_shared<World>(), [&] {
    auto src = secret<uint32_t, 0>(true, 0, distinct(n, ~0u, 32, 0)); bool threw = false;
    try { One<uint32_t, 0>::make(kind)->permute(src, n, o); } catch (const std::exception&) { threw = true; }
    evals(); state(mix(hashStr(ordStr(o)), n * 2 + threw));
    check(threw != ok, ok ? "proper order rejected" : "improper order accepted", [&] { return "order " + ordStr(o) + " for " + str(n); });
  });
}

// ---- shuffling ------------------------------------------------------------------------------------------------
// random bytes whose value modulo 2..6 takes every residue as the digit runs through all values, in either byte order
struct TapePrg final : fbpcf::engine::util::IPrg {
  std::vector<int> d; size_t i = 0; explicit TapePrg(std::vector<int> d) : d(d) {}
  std::vector<bool> getRandomBits(uint32_t n) override { std::vector<bool> r; for (auto b : getRandomBytes((n + 7) / 8)) for (int j = 0; j < 8; j++) r.push_back(b >> j & 1); r.resize(n); return r; }
  std::vector<unsigned char> getRandomBytes(uint32_t n) override { std::vector<unsigned char> r(n); int v = i < d.size() ? d[i++] : 0; if (n) r[0] = r[n - 1] = v; return r; }
  std::vector<uint64_t> getRandomUInt64(uint32_t n) override { std::vector<uint64_t> r; for (uint32_t k = 0; k < n; k++) r.push_back(i < d.size() ? d[i++] : 0); return r; }
};
static std::vector<int> tape(int n, int k) { std::vector<int> d; for (int i = n; i > 1; i--) { d.push_back(k % i); k /= i; } return d; }
template <class T, int P> std::vector<uint64_t> shuffled(int kind, bool plain, const std::vector<uint64_t>& v, int owner, const std::vector<int>& d, std::vector<uint64_t>* other) {
  using S = typename ut::SecBatchType<T, P>::type; using A = ut::MpcAdapters<T, P>;
  auto src = secret<T, P>(plain, owner, v);
  std::unique_ptr<sh::IShuffler<S>> s;
  if (kind == 2) s = sh::insecure::NonShufflerFactory<S>().create();
  else if (kind == 3) s = sh::PermuteBasedShufflerFactory<S>(P, 1 - P, std::make_unique<pm::AsWaksmanPermuterFactory<T, P>>(P, 1 - P), std::make_unique<fbpcf::engine::util::AesPrgFactory>(1024)).create();
  else s = std::make_unique<sh::PermuteBasedShuffler<S>>(P, 1 - P, One<T, P>::make(kind), std::make_unique<TapePrg>(d));
  auto r = s->shuffle(src, v.size());
  auto a = Val<T>::codes(A::openToParty(r, 0)), b = Val<T>::codes(A::openToParty(r, 1));
  *other = P == 0 ? b : a;
  return P == 0 ? a : b;
}
template <class T> static void shuffle() {
  auto bk = choose(2, "backend") ? EAGER : LAZY; int kind = std::is_same_v<T, std::vector<bool>> ? (int[]){0, 2, 3}[choose(3, "kind")] : choose(4, "kind");
  int n = 1 + choose(mc::thorough && kind == 0 ? 5 : kind == 1 ? 3 : 4, "size"), owner = choose(2, "owner");
  int fixedWho = choose(2, "fixed party"), fixed = kind >= 2 ? 0 : choose(fact(n), "fixed tape");
  auto v = distinct(n, maskOf<T>(), Val<T>::bits, 1); auto sortedV = v; std::sort(sortedV.begin(), sortedV.end());
  std::string nm = std::string(Val<T>::name) + " shuffler " + str(kind) + " size " + str(n) + " backend " + str(bk) + " party " + str(fixedWho) + " tape " + str(fixed); note(nm);
  std::set<std::vector<uint64_t>> seen;
  for (int k = 0; k < (kind >= 2 ? 3 : fact(n)); k++) {
    std::vector<uint64_t> r[2], o[2]; BackendChoice b{bk, false};
    auto td = [&](int p) { return tape(n, p == fixedWho ? fixed : k); };
    runBoth(b, [&] { r[0] = shuffled<T, 0>(kind, false, v, owner, td(0), &o[0]); }, [&] { r[1] = shuffled<T, 1>(kind, false, v, owner, td(1), &o[1]); });
    if (failed()) return;
    auto s = r[0]; std::sort(s.begin(), s.end()); seen.insert(r[0]); evals(2); state(mix(hashStr(nm), mix(k, hashStr(vec(r[0])))));
    check(s == sortedV, std::string("shuffled values, ") + Val<T>::name, [&] { return nm + " other tape " + str(k) + ": " + vec(r[0]); });
    check(r[0] == r[1], std::string("parties open the shuffled values differently, ") + Val<T>::name, [&] { return nm; });
    if (kind == 2) check(r[0] == v, "order kept by the shuffler that does not shuffle", [&] { return nm; });
  }
  // each party alone can bring about every order
  if (kind < 2 && Val<T>::bits > 2) check((int)seen.size() == fact(n), std::string("orders one party's randomness can bring about, ") + Val<T>::name, [&] { return nm + ": " + str(seen.size()); });
}
int main(int argc, char** argv) {
#if PART == 0
  return harnessMain(argc, argv, "C21", {{"all orders, uint32", [] { all<uint32_t>(5, 6); }, 0, -1, false, 0, 3}, {"large sizes, uint32", [] { large<uint32_t>(); }, 0, -1, false, 0, 3}, {"network", [] { network<uint32_t>(); }, 0, -1, false, 0, 2}, {"improper orders", rejects, 0, -1, false, 0, 3}, {"shuffles, uint32", [] { shuffle<uint32_t>(); }, 0, -1, false, 0, 5}});
#elif PART == 1
  return harnessMain(argc, argv, "C21", {{"all orders, bit strings", [] { all<std::vector<bool>>(5, 6); }, 0, -1, false, 0, 3}, {"large sizes, bit strings", [] { large<std::vector<bool>>(); }, 0, -1, false, 0, 3}, {"network, bit strings", [] { network<std::vector<bool>>(); }, 0, -1, false, 0, 2}, {"shuffles, bit strings", [] { shuffle<std::vector<bool>>(); }, 0, -1, false, 0, 5}});
#elif PART == 2
  using Pr = std::pair<uint32_t, bool>;
  return harnessMain(argc, argv, "C21", {{"all orders, pairs", [] { all<Pr>(4, 5); }, 0, -1, false, 0, 3}, {"large sizes, pairs", [] { large<Pr>(); }, 0, -1, true, 0, 3}, {"shuffles, pairs", [] { shuffle<Pr>(); }, 0, -1, false, 0, 5}});
#else
  using Pr = std::pair<U7, I5>;
  return harnessMain(argc, argv, "C21", {{"all orders, bits", [] { all<bool>(4, 5); }, 0, -1, false, 0, 3}, {"all orders, Intp", [] { all<I5>(4, 5); }, 0, -1, false, 0, 3}, {"large sizes, Intp", [] { large<I5>(); }, 0, -1, true, 0, 3}, {"shuffles, Intp pairs", [] { shuffle<Pr>(); }, 0, -1, false, 0, 5}});
#endif
}
