// C22: compaction keeps exactly the labelled items.
#include <algorithm>
#include "mc/typed.h"
#include "fbpcf/engine/util/AesPrgFactory.h"
#include "fbpcf/mpc_std_lib/compactor/DummyCompactorFactory.h"
#include "fbpcf/mpc_std_lib/compactor/ShuffleBasedCompactorFactory.h"
#include "fbpcf/mpc_std_lib/permuter/AsWaksmanPermuterFactory.h"
#include "fbpcf/mpc_std_lib/permuter/DummyPermuterFactory.h"
#include "fbpcf/mpc_std_lib/shuffler/NonShufflerFactory.h"
#include "fbpcf/mpc_std_lib/shuffler/PermuteBasedShufflerFactory.h"
using namespace mc;
namespace pm = fbpcf::mpc_std_lib::permuter; namespace sh = fbpcf::mpc_std_lib::shuffler; namespace cp = fbpcf::mpc_std_lib::compactor;
using I5 = ut::Intp<true, 5>; using U7 = ut::Intp<false, 7>;
enum Kind { SHUFFLED, SHUFFLED_DUMMY, UNSHUFFLED, DUMMY };
struct Case { BackendChoice b; int kind, owner, lowner, twice; std::vector<uint64_t> v, l; std::string nm; };
template <class T, int P> struct One {
  using A = ut::MpcAdapters<T, P>; using L = ut::MpcAdapters<bool, P>; using S = typename ut::SecBatchType<T, P>::type; using B = typename ut::SecBatchType<bool, P>::type;
  using PT = std::pair<T, bool>; using PS = typename ut::SecBatchType<PT, P>::type;
  static std::unique_ptr<cp::ICompactor<S, B>> make(int kind) {
    if (kind == DUMMY) return cp::insecure::DummyCompactorFactory<T, bool, P>(P, 1 - P).create();
    std::unique_ptr<sh::IShufflerFactory<PS>> f;
    if (kind == UNSHUFFLED) f = std::make_unique<sh::insecure::NonShufflerFactory<PS>>();
    else {
      std::unique_ptr<pm::IPermuterFactory<PS>> g;
      if (kind == SHUFFLED) g = std::make_unique<pm::AsWaksmanPermuterFactory<PT, P>>(P, 1 - P); else g = std::make_unique<pm::insecure::DummyPermuterFactory<PT, P>>(P, 1 - P);
      f = std::make_unique<sh::PermuteBasedShufflerFactory<PS>>(P, 1 - P, std::move(g), std::make_unique<fbpcf::engine::util::AesPrgFactory>(1024));
    }
    return cp::ShuffleBasedCompactorFactory<T, bool, P>(P, 1 - P, std::move(f)).create();
  }
  static void go(const Case& c) {
    size_t n = c.v.size();
    auto src = secret<T, P>(c.b.plain, c.owner, c.v); auto lab = secret<bool, P>(c.b.plain, c.lowner, c.l);
    auto k = make(c.kind);
    std::vector<uint64_t> want; for (size_t i = 0; i < n; i++) if (c.l[i]) want.push_back(c.v[i]);
    auto sorted = want; std::sort(sorted.begin(), sorted.end());
    for (int round = 0; round <= c.twice; round++) {
      auto r = k->compaction(src, lab, n, true);
      for (int t = 0; t < (c.b.plain ? 1 : 2); t++) {
        auto got = Val<T>::codes(A::openToParty(r.first, t)); auto gl = Val<bool>::codes(L::openToParty(r.second, t));
        auto v2 = Val<T>::codes(A::openToParty(src, t)); auto l2 = Val<bool>::codes(L::openToParty(lab, t));
        if (!c.b.plain && t != P) continue;
        evals(2); state(mix(hashStr(c.nm), hashStr(vec(got) + vec(gl))));
        check(got.size() == want.size(), std::string("number of items after compaction, ") + Val<T>::name, [&] { return c.nm + ": " + str(got.size()); });
        auto s = got; std::sort(s.begin(), s.end());
        check(s == sorted, std::string("items after compaction, ") + Val<T>::name, [&] { return c.nm + ": " + vec(got); });
        if (c.kind == UNSHUFFLED || c.kind == DUMMY) check(got == want, std::string("order of items after compaction without shuffling, ") + Val<T>::name, [&] { return c.nm + ": " + vec(got); });
        check(gl == std::vector<uint64_t>(want.size(), 1), std::string("labels after compaction, ") + Val<T>::name, [&] { return c.nm + ": " + vec(gl); });
        check(v2 == c.v && l2 == c.l, std::string("operands changed by compaction, ") + Val<T>::name, [&] { return c.nm; });
      }
    }
  }
};
template <class T> static void compact() {
  auto b = chooseBackend(); int kind = b.plain ? (int[]){UNSHUFFLED, DUMMY}[choose(2, "kind")] : choose(4, "kind");
  int n = 1 + choose(mc::thorough ? 6 : 4, "size"); uint64_t pat = choose(1 << n, "labels");
  // the dummy hands an empty list back in as an input, which the engines refuse (documented restriction of inputs)
  if (kind == DUMMY && !b.plain && pat == 0) { assume(false); }
  Case c{b, kind, b.plain ? 0 : choose(2, "owner"), b.plain ? 0 : choose(2, "label owner"), n <= 2 ? choose(2, "twice") : 0, {}, {}, ""};
  int vals = choose(2, "values"); uint64_t m = maskOf<T>();
  for (int i = 0; i < n; i++) { c.v.push_back(Val<T>::bits == 1 ? (vals ? i % 3 == 0 : i & 1) : vals ? (i % 2 ? m : 0) : (Val<T>::bits < 32 ? (i * 5 + 1) & m : (0x0123456789abcdefull * (i + 1)) & m)); c.l.push_back(pat >> i & 1); }
  c.nm = std::string(Val<T>::name) + " backend " + str(b.b) + " compactor " + str(kind) + " owners " + str(c.owner) + str(c.lowner) + " values " + vec(c.v) + " labels " + vec(c.l); note(c.nm);
  runBoth(b, [&] { One<T, 0>::go(c); }, [&] { One<T, 1>::go(c); });
}
template <class T> static void large() {
  auto b = choose(2, "backend") ? EAGER : LAZY; int n = (int[]){7, 8, 9, 16, 17, 33, 64, 65, 129, 257}[choose(10, "size")], k = choose(5, "labels"); assume(n < 64 || k >= 2);
  Case c{{b, false}, SHUFFLED, choose(2, "owner"), choose(2, "label owner"), 0, {}, {}, ""};
  for (int i = 0; i < n; i++) { c.v.push_back((0x0123456789abcdefull * (i + 1)) & maskOf<T>()); c.l.push_back(k == 0 ? 0 : k == 1 ? 1 : k == 2 ? i == n - 1 : k == 3 ? i == 0 : i % 3 != 0); }
  c.nm = std::string(Val<T>::name) + " backend " + str(b) + " size " + str(n) + " labels " + vec(c.l); note(c.nm);
  runBoth(c.b, [&] { One<T, 0>::go(c); }, [&] { One<T, 1>::go(c); });
}
// the only supported mode reveals the number of items
static void hidden() {
  bool threw = false; int n = 1 + choose(3, "size"); note("hidden size");
  withScheduler<0>(PLAIN, std::make_shared<World>(), [&] {
    auto s = secret<uint32_t, 0>(true, 0, std::vector<uint64_t>(n, 3)); auto l = secret<bool, 0>(true, 0, std::vector<uint64_t>(n, 1));
    try { One<uint32_t, 0>::make(UNSHUFFLED)->compaction(s, l, n, false); } catch (const std::exception&) { threw = true; }
  });
  evals(); state(n); check(threw, "hidden size accepted");
}
int main(int argc, char** argv) {
#if PART == 0
  return harnessMain(argc, argv, "C22", {{"patterns, uint32", compact<uint32_t>, 0, -1, false, 0, 4}, {"large, uint32", large<uint32_t>, 0, -1, false, 0, 4}, {"hidden size", hidden}});
#elif PART == 1
  return harnessMain(argc, argv, "C22", {{"patterns, Intp", compact<I5>, 0, -1, false, 0, 4}});
#elif PART == 2
  return harnessMain(argc, argv, "C22", {{"patterns, bits", compact<bool>, 0, -1, false, 0, 4}});
#else
  using Pr = std::pair<U7, bool>;
  return harnessMain(argc, argv, "C22", {{"patterns, pairs", compact<Pr>, 0, -1, false, 0, 4}});
#endif
}
