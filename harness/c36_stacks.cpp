// C36: every ready-made stack (engine or scheduler, assembled by the library's own factories with their real sizes) computes what
// the plaintext computation gives, for every number of parties, owner and recipient, and accounts for every byte it moves.
#include <cstdio>
#include "fbpcf/engine/SecretShareEngineFactory.h"
#include "fbpcf/scheduler/EagerSchedulerFactory.h"
#include "fbpcf/scheduler/LazySchedulerFactory.h"
#include "fbpcf/scheduler/NetworkPlaintextSchedulerFactory.h"
#include "fbpcf/scheduler/PlaintextSchedulerFactory.h"
#include "fbpcf/scheduler/SchedulerHelper.h"
#include "mc/mc.h"
#include "mc/net.h"
using namespace mc;
using namespace fbpcf;
using namespace fbpcf::engine;
namespace sc = fbpcf::scheduler;
using VB = std::vector<bool>;
using VU = std::vector<uint64_t>;
using Collector = std::shared_ptr<fbpcf::util::MetricCollector>;

using Comm = communication::IPartyCommunicationAgentFactory;
struct Recipe { const char* name; bool bits, integers, heavy; std::function<std::unique_ptr<SecretShareEngineFactory>(int, int, Comm&, Collector)> make; };
static const std::vector<Recipe> kRecipes = {
    {"insecure", true, true, false, getInsecureEngineFactoryWithDummyTupleGenerator},
    {"classic transfers", true, false, true, getSecureEngineFactoryWithClassicOt},
    {"extended transfers", true, false, true, getSecureEngineFactoryWithFERRET},
    {"bits and integers", true, true, true, getSecureEngineFactoryWithBooleanAndIntegerTupleGenerator},
    {"integers only", false, true, true, getSecureEngineFactoryWithIntegerOnlyTupleGenerator},
};
static uint64_t moved(const World& w, int p) {
  uint64_t r = 0;
  for (auto& kv : w.ch) { if (kv.first.first == p) for (auto& c : kv.second) r += c->total[0]; if (kv.first.second == p) for (auto& c : kv.second) r += c->total[1]; }
  return r;
}
static uint64_t arrived(const World& w, int p) {
  uint64_t r = 0;
  for (auto& kv : w.ch) { if (kv.first.first == p) for (auto& c : kv.second) r += c->total[1] - c->q[1].size(); if (kv.first.second == p) for (auto& c : kv.second) r += c->total[0] - c->q[0].size(); }
  return r;
}
static void accounts(const World& w, int p, std::pair<uint64_t, uint64_t> t, const char* what) {
  check(t.first == moved(w, p), std::string("the traffic a stack reports as sent is not what it sent: ") + what, [&] { return str(t.first) + " of " + str(moved(w, p)); });
  check(t.second == arrived(w, p), std::string("the traffic a stack reports as received is not what it received: ") + what, [&] { return str(t.second) + " of " + str(arrived(w, p)); });
  evals(2);
}


static const VU kNumbers{0, 1, 2, ~0ull, 1ull << 63, 0x123456789abcdefull};
static void engines() {
  auto& r = kRecipes[choose(kRecipes.size(), "recipe")];
  int n = 2 + choose(thorough ? 3 : 2, "parties");
  note(std::string(r.name) + ", " + str(n) + " parties");
  auto w = std::make_shared<World>();
  VB l{0, 0, 1, 1}, m{0, 1, 0, 1};
  VU x, y; for (auto i : kNumbers) for (auto j : kNumbers) x.push_back(i), y.push_back(j);
  std::vector<int> refused(n, 0);
  parties(n, [&](int p) {
    Factory f(w, p);
    auto metrics = std::make_shared<fbpcf::util::MetricCollector>("stack");
    auto e = r.make(p, n, f, metrics)->create();
    auto guarded = [&](bool supported, const std::function<void()>& g) {
      try { g(); check(supported, "an engine without tuples of a kind computes with them all the same"); }
      catch (const std::runtime_error& ex) { refused[p]++; check(!supported, std::string("a ready-made engine refuses an operation it is made for: ") + ex.what()); }
    };
    for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) for (int to = 0; to < n; to++) {
    auto who = [&] { return str(n) + " parties, owners " + str(a) + " and " + str(b) + ", to " + str(to) + ": "; };
    auto in = [&](const VB& v, int o) { return o == p ? e->setBatchInput(o, v) : e->setBatchInput(o, VB(v.size(), 0)); };
    auto want = [&](const VB& mine, const VB& v, const char* what) {
      evals(); auto got = e->revealToParty(to, mine);
      check(p != to || got == v, std::string("a ready-made engine computes ") + what + " wrongly", [&] { return who() + vec(got) + " instead of " + vec(v); }); };
    auto wantU = [&](const VU& mine, const VU& v, const char* what) {
      evals(); auto got = e->revealToParty(to, mine);
      check(p != to || got == v, std::string("a ready-made engine computes ") + what + " wrongly", [&] { return who() + vec(got) + " instead of " + vec(v); }); };
    auto no = [&](const VB& v) { return e->computeBatchAsymmetricNOT(v); };
    auto L = in(l, a), M = in(m, b);
    VB axb, notx; for (int i = 0; i < 4; i++) axb.push_back(l[i] ^ m[i]), notx.push_back(!l[i]);
    want(e->computeBatchSymmetricXOR(L, M), axb, "exclusive or");
    want(no(L), notx, "not");
    VB both, lm; for (int i = 0; i < 4; i++) both.push_back(l[i] && m[i]), lm.push_back(l[i] && notx[i]);
    if (r.bits) guarded(r.bits, [&] {
      auto k = e->scheduleBatchAND(L, M); auto kc = e->scheduleBatchCompositeAND(L, {M, no(L), M}); auto ks = e->scheduleAND(L[3], M[3]); auto ksc = e->scheduleCompositeAND(L[2], {M[2], L[2]});
      e->executeScheduledOperations();
      want(e->getBatchANDExecutionResult(k), both, "and");
      auto c = e->getBatchCompositeANDExecutionResult(kc); want(c.at(0), both, "one-to-many and"); want(c.at(1), lm, "one-to-many and"); want(c.at(2), both, "one-to-many and");
      auto s = e->getCompositeANDExecutionResult(ksc);
      want(VB{e->getANDExecutionResult(ks), s.at(0), s.at(1)}, VB{true, false, true}, "single and");
    });
    if (r.integers) guarded(r.integers, [&] {
      auto X = e->setBatchIntegerInput(a, a == p ? x : VU(x.size(), 0)), Y = e->setBatchIntegerInput(b, b == p ? y : VU(y.size(), 0));
      auto k = e->scheduleBatchMult(X, Y); auto ks = e->scheduleMult(X[8], Y[8]);
      auto diff = e->computeBatchSymmetricPlus(X, e->computeBatchSymmetricNeg(Y));
      e->executeScheduledOperations();
      VU px, sx; for (size_t i = 0; i < x.size(); i++) px.push_back(x[i] * y[i]), sx.push_back(x[i] - y[i]);
      wantU(e->getBatchMultExecutionResult(k), px, "products"); wantU(diff, sx, "differences"); wantU(VU{e->getMultExecutionResult(ks)}, VU{x[8] * y[8]}, "single products");
    });
    try { accounts(*w, p, e->getTrafficStatistics(), r.name); } catch (const std::runtime_error& ex) { fail(std::string("a ready-made engine does not tell its traffic: ") + ex.what()); }
    step();
    }
    // what it is not made for is refused, by everybody
    if (!r.bits) guarded(false, [&] { auto L = e->setBatchInput(0, VB(4, false)); e->scheduleBatchAND(L, L); e->executeScheduledOperations(); });
    if (!r.integers) guarded(false, [&] { auto X = e->setBatchIntegerInput(0, x); e->scheduleBatchMult(X, X); e->executeScheduledOperations(); });
    state(mix(hashStr(r.name), n * 7 + p));
  });
  for (int p = 0; p < n; p++) check(refused[p] == refused[0], "the parties of a ready-made engine refuse different operations");
}

using S = sc::IScheduler;
using SR = std::function<std::unique_ptr<S>(int, Comm&)>;
template <class F> static SR from(F f) { return [f](int p, Comm& c) -> std::unique_ptr<S> { return f(p, c)->create(); }; }
template <class F> static SR made(F f) { return [f](int p, Comm& c) -> std::unique_ptr<S> { return f(p, c); }; }
struct SRecipe { const char* name; bool integers; int parties; SR make; };
static const std::vector<SRecipe>& schedulerRecipes() {
  using namespace sc;
  static const std::vector<SRecipe> r{
      {"helper: networked plaintext", false, 2, made(createNetworkPlaintextScheduler<false>)}, {"helper: networked plaintext, unchecked", false, 2, made(createNetworkPlaintextScheduler<true>)},
      {"helper: plaintext integers", true, 1, made(createArithmeticPlaintextScheduler<false>)}, {"helper: plaintext integers, unchecked", true, 1, made(createArithmeticPlaintextScheduler<true>)},
      {"helper: networked plaintext integers", true, 2, made(createArithmeticNetworkPlaintextScheduler<false>)}, {"helper: networked plaintext integers, unchecked", true, 2, made(createArithmeticNetworkPlaintextScheduler<true>)},
      {"helper: eager insecure", false, 2, made(createEagerSchedulerWithInsecureEngine<false>)}, {"helper: eager insecure, unchecked", false, 2, made(createEagerSchedulerWithInsecureEngine<true>)},
      {"helper: lazy insecure", false, 2, made(createLazySchedulerWithInsecureEngine<false>)}, {"helper: lazy insecure, unchecked", false, 2, made(createLazySchedulerWithInsecureEngine<true>)},
      {"helper: eager insecure integers", true, 2, made(createArithmeticEagerSchedulerWithInsecureEngine<false>)}, {"helper: eager insecure integers, unchecked", true, 2, made(createArithmeticEagerSchedulerWithInsecureEngine<true>)},
      {"helper: lazy insecure integers", true, 2, made(createArithmeticLazySchedulerWithInsecureEngine<false>)}, {"helper: lazy insecure integers, unchecked", true, 2, made(createArithmeticLazySchedulerWithInsecureEngine<true>)},
      {"helper: eager extended", false, 2, made(createEagerSchedulerWithRealEngine)}, {"helper: lazy extended", false, 2, made(createLazySchedulerWithRealEngine)},
      {"helper: eager classic", false, 2, made(createEagerSchedulerWithClassicOT)}, {"helper: lazy classic", false, 2, made(createLazySchedulerWithClassicOT)},
      {"factory: plaintext", true, 1, [](int, Comm&) -> std::unique_ptr<S> { return PlaintextSchedulerFactory<false>().create(); }}, {"factory: plaintext, unchecked", true, 1, [](int, Comm&) -> std::unique_ptr<S> { return PlaintextSchedulerFactory<true>().create(); }},
      {"factory: networked plaintext", true, 2, [](int p, Comm& c) -> std::unique_ptr<S> { return NetworkPlaintextSchedulerFactory<false>(p, c).create(); }}, {"factory: networked plaintext, unchecked", true, 2, [](int p, Comm& c) -> std::unique_ptr<S> { return NetworkPlaintextSchedulerFactory<true>(p, c).create(); }},
      {"factory: eager insecure", true, 2, from([](int p, Comm& c) { return getEagerSchedulerFactoryWithInsecureEngine<false>(p, c); })}, {"factory: eager insecure, unchecked", true, 2, from([](int p, Comm& c) { return getEagerSchedulerFactoryWithInsecureEngine<true>(p, c); })},
      {"factory: lazy insecure", true, 2, from([](int p, Comm& c) { return getLazySchedulerFactoryWithInsecureEngine<false>(p, c); })}, {"factory: lazy insecure, unchecked", true, 2, from([](int p, Comm& c) { return getLazySchedulerFactoryWithInsecureEngine<true>(p, c); })},
      {"factory: eager classic", false, 2, from([](int p, Comm& c) { return getEagerSchedulerFactoryWithClassicOT(p, c); })}, {"factory: lazy classic", false, 2, from([](int p, Comm& c) { return getLazySchedulerFactoryWithClassicOT(p, c); })},
      {"factory: eager extended", false, 2, from([](int p, Comm& c) { return getEagerSchedulerFactoryWithRealEngine(p, c); })}, {"factory: lazy extended", false, 2, from([](int p, Comm& c) { return getLazySchedulerFactoryWithRealEngine(p, c); })}};
  return r;
}
static void schedulers() {
  auto& r = schedulerRecipes()[choose(schedulerRecipes().size(), "recipe")];
  note(r.name);
  auto w = std::make_shared<World>();
  VB l{0, 0, 1, 1}, m{0, 1, 0, 1};
  VU x, y; for (auto i : kNumbers) for (auto j : kNumbers) x.push_back(i), y.push_back(j);
  auto body = [&](int p) {
    Factory f(w, p);
    auto s = r.make(p, f);
    auto A = dynamic_cast<sc::IArithmeticScheduler*>(s.get());
    check(!r.integers || A != nullptr, "a scheduler made for integers has none");
    for (int a = 0; a < 2; a++) for (int b = 0; b < 2; b++) for (int to = 0; to < 2; to++) {
      auto who = [&] { return std::string("owners ") + str(a) + " and " + str(b) + ", to " + str(to) + ": "; };
      // the plaintext scheduler holds everything itself
      bool all = r.parties == 1;
      auto want = [&](S::WireId<S::Boolean> i, const VB& v, const char* what) {
        evals(); auto o = s->openBooleanValueToPartyBatch(i, to); auto got = s->getBooleanValueBatch(o);
        check(!(all || p == to) || got == v, std::string("a ready-made scheduler computes ") + what + " wrongly", [&] { return who() + vec(got) + " instead of " + vec(v); }); s->decreaseReferenceCountBatch(o); };
      auto L = s->privateBooleanInputBatch(l, a), M = s->privateBooleanInputBatch(m, b), P = s->publicBooleanInputBatch(m);
      VB axb, notl, both, ln, lp; for (int i = 0; i < 4; i++) axb.push_back(l[i] ^ m[i]), notl.push_back(!l[i]), both.push_back(l[i] && m[i]), ln.push_back(l[i] && !l[i]), lp.push_back(l[i] && m[i]);
      auto N = s->notPrivateBatch(L); auto X = s->privateXorPrivateBatch(L, M), K = s->privateAndPrivateBatch(L, M), Q = s->privateAndPublicBatch(L, P), Y = s->privateXorPublicBatch(L, P);
      auto C = s->privateAndPrivateCompositeBatch(L, {M, N, M});
      want(N, notl, "not"); want(X, axb, "exclusive or"); want(K, both, "and"); want(Q, lp, "and with a public value"); want(Y, axb, "exclusive or with a public value");
      want(C.at(0), both, "one-to-many and"); want(C.at(1), ln, "one-to-many and"); want(C.at(2), both, "one-to-many and");
      auto one = s->privateBooleanInput(true, a); auto two = s->notPrivate(s->privateBooleanInput(true, b)); auto k = s->privateAndPrivate(one, s->notPrivate(two)); auto ok = s->openBooleanValueToParty(k, to); bool g = s->getBooleanValue(ok);
      check(!(all || p == to) || g, "a ready-made scheduler computes a single and wrongly");
      for (auto i : {L, M, N, X, K, Q, C[0], C[1], C[2], Y}) s->decreaseReferenceCountBatch(i);
      if (A && r.integers) {
        auto wantU = [&](S::WireId<S::Arithmetic> i, const VU& v, const char* what) {
          evals(); auto o = A->openIntegerValueToPartyBatch(i, to); auto got = A->getIntegerValueBatch(o);
          check(!(all || p == to) || got == v, std::string("a ready-made scheduler computes ") + what + " wrongly", [&] { return who() + vec(got) + " instead of " + vec(v); }); };
        auto U = A->privateIntegerInputBatch(x, a), V = A->privateIntegerInputBatch(y, b);
        VU pr, sm, ng; for (size_t i = 0; i < x.size(); i++) pr.push_back(x[i] * y[i]), sm.push_back(x[i] + y[i]), ng.push_back(0 - x[i]);
        wantU(A->privateMultPrivateBatch(U, V), pr, "products"); wantU(A->privatePlusPrivateBatch(U, V), sm, "sums"); wantU(A->negPrivateBatch(U), ng, "negations");
      }
      if (!all) accounts(*w, p, s->getTrafficStatistics(), r.name);
      step();
    }
    state(mix(hashStr(r.name), p));
  };
  if (r.parties == 1) body(0); else parties(2, body);
}
int main(int argc, char** argv) {
  return harnessMain(argc, argv, "C36", {{"engines", engines, 0, 0, false, 0, 2}, {"schedulers", schedulers, 0, 0, false, 0, 1}});
}
