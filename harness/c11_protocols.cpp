// C11, second part: protocols built on the engine. Transfers, tuples and multiplications are ideal where they are judged on their
// own elsewhere; what a party is told by the protocol itself is compared over every random tape, for every secret.
#include <malloc.h>
#include "mc/backend.h"
#include "mc/tape.h"
#include "mc/refaes.h"
#include "fbpcf/engine/communication/SecretShareEngineCommunicationAgent.h"
#include "fbpcf/engine/tuple_generator/ProductShareGenerator.h"
#include "fbpcf/engine/tuple_generator/TupleGenerator.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/RcotBasedBidirectionObliviousTransfer.h"
#include "fbpcf/engine/util/aes.h"
#include "fbpcf/frontend/Bit.h"
#include "fbpcf/frontend/mpcGame.h"
#include "fbpcf/mpc_std_lib/compactor/ShuffleBasedCompactor.h"
#include "fbpcf/mpc_std_lib/oram/DifferenceCalculator.h"
#include "fbpcf/mpc_std_lib/oram/LinearOram.h"
#include "fbpcf/mpc_std_lib/oram/ObliviousDeltaCalculator.h"
#include "fbpcf/mpc_std_lib/permuter/AsWaksmanPermuter.h"
#include "fbpcf/mpc_std_lib/shuffler/PermuteBasedShuffler.h"
#include "fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpEncryption.h"
#include "fbpcf/mpc_std_lib/util/bit_impl.h"
#include "fbpcf/mpc_std_lib/util/pair_impl.h"
#include "fbpcf/mpc_std_lib/walr_multiplication/OTBasedMatrixMultiplication.h"
#include "fbpcf/scheduler/IScheduler.h"
using namespace mc;
namespace en = fbpcf::engine; namespace fe = fbpcf::frontend; namespace lib = fbpcf::mpc_std_lib;
using Bits = std::vector<bool>;
static const uint64_t TOP = 1ull << 63;

// ---- products of bits over correlated transfers ---------------------------------------------------------------------
// Transfers whose hashed messages have every combination of lowest bits: the message of a transfer is searched among candidates.
struct Message { __m128i k; };
static __m128i messageFor(__m128i delta, uint64_t salt, bool u, bool v) {
  static std::map<std::tuple<std::string, uint64_t, bool, bool>, __m128i> known;
  auto key = std::make_tuple(keyBytes(delta), salt, u, v);
  auto it = known.find(key); if (it != known.end()) return it->second;
  static en::util::Aes hash(en::util::Aes::getFixedKey());
  for (uint64_t c = 0;; c++) {
    auto k = m128(mix(mix(salt, 3), c), mix(mix(salt, 4), c) & ~1ull);
    std::vector<__m128i> h{k, _mm_xor_si128(k, delta)}; hash.inPlaceHash(h);
    if ((lo64(h[0]) & 1) == u && (lo64(h[1]) & 1) == v) return known[key] = k;
  }
}
class TapedRcot final : public otns::IRandomCorrelatedObliviousTransfer {
 public:
  TapedRcot(Job* j, int me, uint64_t stream, __m128i delta, bool sender) : j_(j), me_(me), s_(stream), d_(delta), sender_(sender) {}
  std::vector<__m128i> rcot(int64_t n) override {
    std::vector<__m128i> r;
    for (int64_t i = 0; i < n; i++, at_++) {
      bool u = j_->bit(s_, 50, at_), v = j_->bit(s_, 51, at_), c = j_->bit(s_, 52, at_);
      auto k = messageFor(d_, mix(s_, at_), u, v);
      if (sender_) { j_->see(me_, u); j_->see(me_, v); } else { j_->see(me_, c); j_->see(me_, c ? v : u); if (c) k = _mm_xor_si128(k, d_); }
      r.push_back(k);
    }
    return r;
  }
  std::pair<uint64_t, uint64_t> getTrafficStatistics() const override { return {0, 0}; }
 private:
  Job* j_; int me_; uint64_t s_; __m128i d_; bool sender_; uint64_t at_ = 0;
};
static __m128i deltaOf(int p) { return m128(mix(p, 31), mix(p, 32) | 1); }
static std::unique_ptr<otns::IBidirectionObliviousTransfer> tapedTransfer(Job& j, int me, Factory& f) {
  return std::make_unique<otns::RcotBasedBidirectionObliviousTransfer>(f.create(1 - me, ""), deltaOf(me), std::make_unique<TapedRcot>(&j, me, 700 + me, deltaOf(me), true), std::make_unique<TapedRcot>(&j, me, 701 - me, deltaOf(1 - me), false));
}
static void bitProducts() {
  int positions = mc::thorough ? 1 + choose(2, "positions") : 1, rest = positions == 2 ? choose(4, "second position") : 0;
  compare({"shares of products of " + str(positions) + " pairs of bits over correlated transfers, other inputs " + str(rest), 2, 16, 1 << 16,
           [=](Job& j, int me, uint64_t s) {
             Factory f(j.world, me);
             en::tuple_generator::ProductShareGenerator g(std::make_unique<TapePrg>(&j, me, 710 + me), tapedTransfer(j, me, f));
             Bits a{(s >> (2 * me) & 1) != 0}, b{(s >> (2 * me + 1) & 1) != 0};
             if (positions == 2) { a.push_back(rest & 1); b.push_back(rest >> 1 & 1); }
             auto r = g.generateBooleanProductShares(a, b);
             for (bool x : r) j.see(me, x);
           },
           [](uint64_t s, const std::vector<int>& who) { return who[0] ? s >> 2 : (s & 3) + 8; }, "transfers of bits tell an input"});
}
// the masks of integer transfers are as many different ones as there are numbers to hide, and the two of a transfer are unrelated
static void integerTransfers() {
  int calls = 1 + choose(3, "calls"), n = (int[]){1, 2, 5, 64}[choose(4, "transfers")]; uint64_t in = (uint64_t[]){0, 5, ~0ull}[choose(3, "inputs")]; int cb = choose(4, "choices");
  std::string nm = "integer transfers " + str(calls) + " calls of " + str(n) + " inputs " + str(in) + " choices " + str(cb); note(nm);
  auto w = std::make_shared<World>(); w->log = true; auto hub0 = std::make_shared<RcotHub>(), hub1 = std::make_shared<RcotHub>(); hub1->salt = 9;
  parties(2, [&](int me) {
    Factory f(w, me); IdealRcotFactory f0(hub0), f1(hub1); std::unique_ptr<otns::IRandomCorrelatedObliviousTransfer> s, r;
    if (me == 0) { s = f0.create(deltaOf(0), f.create(1, "")); r = f1.create(f.create(1, "")); } else { r = f0.create(f.create(0, "")); s = f1.create(deltaOf(1), f.create(0, "")); }
    otns::RcotBasedBidirectionObliviousTransfer ot(f.create(1 - me, ""), deltaOf(me), std::move(s), std::move(r));
    for (int c = 0; c < calls; c++) {
      Bits ch; for (int i = 0; i < n; i++) ch.push_back(cb == 0 ? 0 : cb == 1 ? 1 : (i + me + cb) & 1);
      auto got = ot.biDirectionOT(std::vector<uint64_t>(n, in), std::vector<uint64_t>(n, in), ch);
      check(got == std::vector<uint64_t>(n, in), "harness: received numbers");
    }
  });
  for (int p = 0; p < 2; p++) {
    auto v = w->view(p); std::multiset<uint64_t> pads, xors, sums; size_t at = 0; auto word = [&] { uint64_t x = 0; if (at + 8 > v.size()) { fail("harness: shape of the transfers"); return x; } memcpy(&x, &v[at], 8); at += 8; return x; };
    size_t flips = v.size() / calls - 16 * n;  // the masked choices come first, however they are packed
    for (int c = 0; c < calls && !failed(); c++) {
      at += flips;
      std::vector<uint64_t> m0, m1; for (int i = 0; i < n; i++) m0.push_back(word()); for (int i = 0; i < n; i++) m1.push_back(word());
      for (int i = 0; i < n; i++) { pads.insert(m0[i] - in); pads.insert(m1[i] - in); xors.insert(m0[i] ^ m1[i]); sums.insert(m0[i] - m1[i]); }
    }
    auto distinct = [](const std::multiset<uint64_t>& m) { return std::set<uint64_t>(m.begin(), m.end()).size() == m.size() && !m.count(0); };
    evals(); state(mix(hashStr(nm), digest(View(pads.begin(), pads.end()))));
    check(distinct(pads), "masks of integer transfers repeat", [&] { return nm + " received by party " + str(p); });
    check(distinct(xors) && distinct(sums), "the two masks of an integer transfer are related", [&] { return nm + " received by party " + str(p); });
  }
}
// ---- products of integers and tuples over ideal transfers -----------------------------------------------------------
struct OtHub { std::map<std::tuple<int, int, uint64_t>, std::vector<uint64_t>> in0, in1; };  // (sender, receiver, call)
class IdealOt final : public otns::IBidirectionObliviousTransfer {
 public:
  IdealOt(Job* j, int me, int other, bool log = true) : j_(j), me_(me), o_(other), log_(log) {}
  Bits biDirectionOT(const Bits& a, const Bits& b, const Bits& c) override { auto r = go({a.begin(), a.end()}, {b.begin(), b.end()}, c); return {r.begin(), r.end()}; }
  std::vector<uint64_t> biDirectionOT(const std::vector<uint64_t>& a, const std::vector<uint64_t>& b, const Bits& c) override { return go(a, b, c); }
  std::pair<uint64_t, uint64_t> getTrafficStatistics() const override { return {0, 0}; }
 private:
  std::vector<uint64_t> go(std::vector<uint64_t> a, std::vector<uint64_t> b, const Bits& c) {
    uint64_t call = next_++; auto* h = &j_->hub<OtHub>(1);
    { Quiet q; h->in0[{me_, o_, call}] = a; h->in1[{me_, o_, call}] = b; }
    auto k = std::make_tuple(o_, me_, call); blockUntil([h, k] { return h->in1.count(k) > 0; }, "ideal transfer");
    std::vector<uint64_t> r; Quiet q;
    auto& x = h->in0[k]; auto& y = h->in1[k];
    check(x.size() == c.size(), "harness: both ends of a transfer have the same size");
    for (size_t i = 0; i < c.size() && i < x.size(); i++) { r.push_back(c[i] ? y[i] : x[i]); if (log_) j_->see(me_, r.back()); }
    return r;
  }
  Job* j_; int me_, o_; bool log_; uint64_t next_ = 0;
};
static void integerProducts() {
  // party `who`'s factor differs in its top bits; the masks of the lowest positions range over what these reach
  int who = choose(2, "whose factor"), bits = mc::thorough ? 4 : 3; uint64_t base = (uint64_t[]){0, 1, 0x0123456789abcdefull}[choose(3, "factor")] & (~0ull >> bits), other = (uint64_t[]){0, 1, ~0ull, 6, 1ull << 63}[choose(5, "other factor")];
  compare({"shares of a product of integers, factor " + str(base) + " of party " + str(who) + " times " + str(other), 2, 1ull << bits, 1 << 12,
           [=](Job& j, int me, uint64_t s) {
             IntCoset c; c.bitsOf = [=](uint64_t at) { return me == who && at < (uint64_t)bits ? bits - (int)at : 0; };
             en::tuple_generator::ProductShareGenerator g(std::make_unique<TapePrg>(&j, me, 720 + me, c), std::make_unique<IdealOt>(&j, me, 1 - me));
             j.see(me, g.generateIntegerProductShares({me == who ? base + (s << (64 - bits)) : 7}, {me == who ? 3 : other})[0]);
           },
           [=](uint64_t s, const std::vector<int>& p) { return p[0] == who ? s : 0; }, "transfers of integers tell a factor"});
  // and no two of all the masks are the same
  auto d = std::make_shared<Job>(); Coordinates co; d->co = &co; d->seen.resize(2); int n = 1 + choose(3, "products"); std::set<uint64_t> masks; size_t count = 0;
  parties(2, [&](int me) {
    IntCoset c; c.bits = 0;
    en::tuple_generator::ProductShareGenerator g(std::make_unique<TapePrg>(d.get(), me, 720, c), std::make_unique<IdealOt>(d.get(), me, 1 - me, false));
    for (int k = 0; k < 2; k++) g.generateIntegerProductShares(std::vector<uint64_t>(n, base), std::vector<uint64_t>(n, other));
  });
  for (auto& kv : d->hub<OtHub>(1).in0) if (std::get<0>(kv.first) == 0) for (auto x : kv.second) { masks.insert(x); count++; }
  evals(); state(count); check(masks.size() == count, "masks of integer products repeat", [&] { return str(count - masks.size()) + " of " + str(count); });
}
static void tuples() {
  // with more parties: what a coalition sees while tuples are made does not depend on the others' shares of the factors
  int n = 2 + choose(2, "parties"), size = n == 2 ? 1 + choose(2, "tuples") : 1;
  class Given final : public en::util::IPrg {  // the factors are given
   public:
    Given(uint64_t s, int bits) : s_(s), n_(bits) {}
    Bits getRandomBits(uint32_t k) override { Bits r; for (uint32_t i = 0; i < k; i++) { r.push_back(at_ < n_ ? s_ >> at_ & 1 : (at_ & 1)); at_++; } return r; }
    std::vector<unsigned char> getRandomBytes(uint32_t k) override { return std::vector<unsigned char>(k, 1); }
    std::vector<uint64_t> getRandomUInt64(uint32_t k) override { return std::vector<uint64_t>(k, 1); }
   private:
    uint64_t s_; int n_; int at_ = 0;
  };
  int each = 2 * size;
  compare({str(size) + " tuples of " + str(n) + " parties", n, 1ull << (each * n), 1 << 14,
           [=](Job& j, int me, uint64_t s) {
             std::map<int, std::unique_ptr<en::tuple_generator::IProductShareGenerator>> m;
             for (int o = 0; o < n; o++) if (o != me) m[o] = std::make_unique<en::tuple_generator::ProductShareGenerator>(std::make_unique<TapePrg>(&j, me, 730 + me * 8 + o, IntCoset{}, size), std::make_unique<IdealOt>(&j, me, o));
             en::tuple_generator::TupleGenerator g(std::move(m), std::make_unique<Given>(s >> (each * me), each), std::make_shared<en::tuple_generator::TuplesMetricRecorder>(), size);
             for (auto& t : g.getBooleanTuple(size)) j.see(me, t.getA() + 2 * t.getB() + 4 * t.getC());
           },
           [=](uint64_t s, const std::vector<int>& who) { uint64_t h = 1; for (int p : who) h = mix(h, s >> (each * p) & ((1 << each) - 1)); return h; }, "making tuples tells another party's share"});
}
// ---- integers ----------------------------------------------------------------------------------------------------------
static std::unique_ptr<IArithmeticScheduler> scheduler(Backend b, std::unique_ptr<en::ISecretShareEngine> e) {
  using namespace fbpcf::scheduler;
  if (b == EAGER) return std::make_unique<EagerScheduler>(std::move(e), makeKeeper(ARENA_CHECKED));
  std::shared_ptr<IWireKeeper> w = makeKeeper(ARENA_CHECKED);
  return std::make_unique<LazyScheduler>(std::move(e), w, std::make_unique<GateKeeper>(w));
}
struct IOp { int kind, i, j; };
static void integers() {
  int n = 2 + choose(2, "parties"); Backend b = choose(2, "backend") ? EAGER : LAZY; bool batch = n == 2 && choose(2, "batch");
  int in = choose(3, "inputs"); std::vector<int> owner = in == 0 ? std::vector<int>{0, 1} : in == 1 ? std::vector<int>{n - 1, -1} : std::vector<int>{1, 1};
  std::vector<uint64_t> base = (std::vector<uint64_t>[]){{0, 0}, {1, 3}, {0x0123456789abcdefull, 0x7edcba9876543210ull}}[mc::thorough ? choose(3, "values") : 1 + choose(2, "values")];
  if (!mc::thorough) assume(n == 2 || (in < 2 && base[0] == 1));
  std::vector<IOp> ops; int first = choose(4, "gate");
  if (first < 3) ops.push_back({first, 0, 1});
  ops.push_back({3, choose(2 + (int)ops.size(), "operand"), (int)ops.size() + 1});
  int to = choose(n + 1, "opened to"); if (!mc::thorough && n == 3) assume(to == 1 || to == 3); int last = 1 + (int)ops.size();
  int bits = n == 2 && !batch && mc::thorough ? 2 : 1;  // how many of the top bits are secret
  std::string nm = "integers " + str(n) + " parties backend " + str(b) + (batch ? " batch" : "") + " owners " + vec(owner) + " values " + vec(base) + " opened to " + str(to);
  for (auto& o : ops) nm += "; " + str(o.kind) + " " + str(o.i) + "," + str(o.j);
  auto values = [=](uint64_t s) {
    std::vector<uint64_t> v; for (int i = 0; i < 2; i++) v.push_back((base[i] & (~0ull >> bits)) + (s >> (i * bits) << (64 - bits)));
    for (auto& o : ops) v.push_back(o.kind == 0 ? v[o.i] + v[o.j] : o.kind == 1 ? 0 - v[o.i] : o.kind == 2 ? v[o.i] * 5 : v[o.i] * v[o.j]);
    return v;
  };
  auto known = [=](uint64_t s, const std::vector<int>& who) {
    uint64_t h = 1; auto has = [&](int q) { return std::find(who.begin(), who.end(), q) != who.end(); }; auto v = values(s);
    for (int i = 0; i < 2; i++) if (has(owner[i])) h = mix(h, v[i]);
    if (to == n || has(to)) h = mix(h, v[last]);
    return h;
  };
  compare({nm, n, 1ull << (2 * bits), 1ull << 18,
           [=](Job& j, int me, uint64_t s) {
             Factory f(j.world, me); IntCoset c; c.bits = bits; auto v = values(s);
             auto sc = scheduler(b, std::make_unique<en::SecretShareEngine>(std::make_unique<SeenTuples>(&j, me, n, false), std::make_unique<SeenIntTuples>(&j, me, n, bits),
                                    std::make_unique<en::communication::SecretShareEngineCommunicationAgent>(me, en::communication::getAgentMap(n, me, f)), std::make_unique<TapePrgFactory>(&j, me, c), me, n));
             std::vector<AW> w;
             for (int i = 0; i < 2; i++) {
               if (owner[i] >= 0) { uint64_t x = owner[i] == me ? v[i] : 0; w.push_back(batch ? sc->privateIntegerInputBatch({x}, owner[i]) : sc->privateIntegerInput(x, owner[i])); continue; }
               uint64_t mine = 0, rest = v[i];
               for (int q = 1; q < n; q++) { uint64_t m = TapePrg::coset(&j, 600 + i, q, c); rest -= m; if (q == me) mine = m; }
               if (me == 0) mine = rest;
               j.see(me, mine); w.push_back(batch ? sc->recoverIntegerWireBatch({mine}) : sc->recoverIntegerWire(mine));
             }
             for (auto& o : ops) {
               if (o.kind == 0) w.push_back(batch ? sc->privatePlusPrivateBatch(w[o.i], w[o.j]) : sc->privatePlusPrivate(w[o.i], w[o.j]));
               else if (o.kind == 1) w.push_back(batch ? sc->negPrivateBatch(w[o.i]) : sc->negPrivate(w[o.i]));
               else if (o.kind == 2) w.push_back(batch ? sc->privateMultPublicBatch(w[o.i], sc->publicIntegerInputBatch({5})) : sc->privateMultPublic(w[o.i], sc->publicIntegerInput(5)));
               else w.push_back(batch ? sc->privateMultPrivateBatch(w[o.i], w[o.j]) : sc->privateMultPrivate(w[o.i], w[o.j]));
             }
             for (int p = 0; p < n; p++) if (to == p || to == n) {
               auto o = batch ? sc->openIntegerValueToPartyBatch(w[last], p) : sc->openIntegerValueToParty(w[last], p);
               uint64_t got = batch ? sc->getIntegerValueBatch(o)[0] : sc->getIntegerValue(o);
               if (p == me) check(got == v[last], "harness: revealed integer", [&] { return nm + " " + str(got) + " instead of " + str(v[last]); });
               j.see(me, got);
             }
           },
           known, "what a party receives depends on a secret integer"});
}
// ---- library protocols over an ideal engine: only what is opened to a party, sent outside the engine or drawn counts -----------
class Openings final : public en::communication::ISecretShareEngineCommunicationAgent {
 public:
  Openings(Job* j, int me, std::unique_ptr<en::communication::ISecretShareEngineCommunicationAgent> a) : j_(j), me_(me), a_(std::move(a)) {}
  std::map<int, __m128i> exchangeKeys(const std::map<int, __m128i>& k) override { return a_->exchangeKeys(k); }
  Bits openSecretsToAll(const Bits& s) override { return a_->openSecretsToAll(s); }
  std::vector<uint64_t> openSecretsToAll(const std::vector<uint64_t>& s) override { return a_->openSecretsToAll(s); }
  Bits openSecretsToParty(int id, const Bits& s) override { auto r = a_->openSecretsToParty(id, s); if (id == me_) for (bool x : r) j_->see(me_, x); return r; }
  std::vector<uint64_t> openSecretsToParty(int id, const std::vector<uint64_t>& s) override { auto r = a_->openSecretsToParty(id, s); if (id == me_) for (auto x : r) j_->see(me_, x); return r; }
  std::pair<uint64_t, uint64_t> getTrafficStatistics() const override { return a_->getTrafficStatistics(); }
 private:
  Job* j_; int me_; std::unique_ptr<en::communication::ISecretShareEngineCommunicationAgent> a_;
};
class HashPrg final : public en::util::IPrg {
 public:
  explicit HashPrg(uint64_t s) : s_(s) {}
  Bits getRandomBits(uint32_t n) override { Bits r(n); for (uint32_t i = 0; i < n; i++) r[i] = mix(s_, at_++) & 1; return r; }
  std::vector<unsigned char> getRandomBytes(uint32_t n) override { std::vector<unsigned char> r(n); for (auto& x : r) x = (unsigned char)mix(s_, at_++); return r; }
  std::vector<uint64_t> getRandomUInt64(uint32_t n) override { std::vector<uint64_t> r(n); for (auto& x : r) x = mix(s_, at_++); return r; }
 private:
  uint64_t s_, at_ = 0;
};
struct HashPrgFactory final : en::util::IPrgFactory { std::unique_ptr<en::util::IPrg> create(__m128i k) const override { return std::make_unique<HashPrg>(mix(lo64(k), hi64(k))); } };
template <int P> static void inGame(Job& j, Backend b, const std::function<void(Factory&)>& f) {
  struct Free { ~Free() { fbpcf::scheduler::SchedulerKeeper<P>::freeScheduler(); } } fr;
  Factory fac(j.world, P);
  fbpcf::scheduler::SchedulerKeeper<P>::setScheduler(scheduler(b, std::make_unique<en::SecretShareEngine>(std::make_unique<IdealTuples>(P, 2, hashBits(3), true), std::make_unique<IdealIntTuples>(P, 2, hashBits(4)),
      std::make_unique<Openings>(&j, P, std::make_unique<en::communication::SecretShareEngineCommunicationAgent>(P, en::communication::getAgentMap(2, P, fac))), std::make_unique<HashPrgFactory>(), P, 2)));
  f(fac);
}
template <class F> static void asParty(int me, F f) { if (me == 0) f(std::integral_constant<int, 0>()); else f(std::integral_constant<int, 1>()); }
// a share of a secret bit for party `me`: party 0's is random
static bool shareOf(Job& j, int me, uint64_t id, bool x) { bool r = j.bit(800, id, 0), mine = me == 0 ? r : r != x; j.see(me, mine); return mine; }

// draws below i are uniform: every permutation is reached by the same number of draws
class DigitPrg final : public en::util::IPrg {
 public:
  DigitPrg(Job* j, int me, int n, bool fixed) : j_(j), me_(me), n_(n), fixed_(fixed) {}
  Bits getRandomBits(uint32_t n) override { fail("harness: bits drawn for a permutation"); return Bits(n); }
  std::vector<uint64_t> getRandomUInt64(uint32_t n) override { fail("harness: integers drawn for a permutation"); return std::vector<uint64_t>(n); }
  std::vector<unsigned char> getRandomBytes(uint32_t k) override {  // the number n!/1 has every remainder equally often
    int f = 1; for (int i = 2; i <= n_; i++) f *= i;
    int d = j_->digit(900 + me_, at_++, 0, f); j_->see(me_, d);
    std::vector<unsigned char> r(k, 0); r[0] = d & 255; r.back() = d & 255; // every remainder of 2, 3 or 4 equally often, whichever end is the most significant one
    return r;
  }
 private:
  Job* j_; int me_, n_; bool fixed_; uint64_t at_ = 0;
};
static void compaction() {
  Backend b = choose(2, "backend") ? EAGER : LAZY; int n = 2 + choose(mc::thorough ? 3 : 2, "rows"), judged = n == 4 ? choose(2, "whose view") : -1; bool swapped = choose(2, "sides");
  compare({"compaction of " + str(n) + " rows backend " + str(b), 2, 1ull << n, 1 << 14,
           [=](Job& j, int me, uint64_t s) {
             asParty(me, [&](auto tag) {
               constexpr int P = decltype(tag)::value; using PT = std::pair<lib::util::Intp<false, 2>, bool>; using SB = typename lib::util::SecBatchType<PT, P>::type;
               inGame<P>(j, b, [&](Factory&) {
                 auto perm = std::make_unique<lib::permuter::AsWaksmanPermuter<PT, P>>(P, 1 - P);
                 lib::compactor::ShuffleBasedCompactor<lib::util::Intp<false, 2>, bool, P> c(P, 1 - P, std::make_unique<lib::shuffler::PermuteBasedShuffler<SB>>(P, 1 - P, std::move(perm), std::make_unique<DigitPrg>(&j, P, n, judged == P)));
                 std::vector<uint64_t> v; Bits l; for (int i = 0; i < n; i++) { v.push_back(i); l.push_back(s >> i & 1); }
                 fe::Int<false, 2, true, P, true> src(v, swapped); fe::Bit<true, P, true> lab(l, !swapped);
                 auto r = c.compaction(src, lab, n, true);
                 j.see(me, r.second.getBatchSize());
               });
             });
           },
           [=](uint64_t s, const std::vector<int>& who) { return judged < 0 || who[0] == judged ? (uint64_t)__builtin_popcountll(s) : 100 + s; }, "compaction tells which rows are kept", knowsSeen});
}
static void differences() {
  using T = lib::util::Intp<true, 2>; Backend b = choose(2, "backend") ? EAGER : LAZY; int ind = choose(2, "indicator"), first = choose(2, "first party");
  compare({"difference with indicator " + str(ind) + " backend " + str(b) + " first party " + str(first), 2, 8, 1 << 14,
           [=](Job& j, int me, uint64_t s) {
             asParty(me, [&](auto tag) {
               constexpr int P = decltype(tag)::value;
               inGame<P>(j, b, [&](Factory&) {
                 lib::oram::DifferenceCalculator<T, 3, P> c(P == first, first, 1 - first);
                 uint32_t r = j.digit(810, 0, 0, 8), i0 = r, i1 = (r - ((s >> 2 & 1) ? 7u : ind ? 1u : 0u)) & 7;  // difference of the shares: the index is hit (with a sign) or missed
                 uint32_t mineI = P == first ? i0 : i1; j.see(me, mineI);
                 std::vector<Bits> m; for (int k = 0; k < 2; k++) m.push_back({shareOf(j, me, k, s >> k & 1)});
                 int sub = j.digit(811, P, 0, 4) - 2; j.see(me, sub + 8);
                 c.calculateDifferenceBatch({mineI}, m, {T(sub)});
               });
             });
           },
           [](uint64_t, const std::vector<int>&) { return 0ull; }, "the opened difference tells a value or an index", knowsSeen});
}
static void linearMemory() {
  using T = lib::util::Intp<true, 2>; Backend b = choose(2, "backend") ? EAGER : LAZY; int size = 2 + choose(mc::thorough ? 3 : 2, "cells"), batch = size == 2 ? 1 + choose(2, "batch") : 1, ib = size == 2 ? 1 : 2;
  int per = ib + 2;
  compare({"additions to a memory of " + str(size) + " cells, batch " + str(batch) + " backend " + str(b), 2, 1ull << (per * batch), 1 << 18,
           [=](Job& j, int me, uint64_t s) {
             asParty(me, [&](auto tag) {
               constexpr int P = decltype(tag)::value; using Role = typename lib::oram::IWriteOnlyOram<T>::Role;
               inGame<P>(j, b, [&](Factory& f) {
                 // shares: constant masks (a share is only ever used by the engine); the memory's own draws are the tape
                 std::vector<Bits> idx(ib), val(2);
                 for (int k = 0; k < batch; k++) {
                   uint64_t x = s >> (per * k); if ((x & ((1 << ib) - 1)) >= (uint64_t)size) x &= ~3ull;
                   for (int i = 0; i < ib; i++) { bool m = mix(k, i) & 1; idx[i].push_back(me == 0 ? m : m != (bool)(x >> i & 1)); }
                   for (int i = 0; i < 2; i++) { bool m = mix(k, 9 + i) & 1; val[i].push_back(me == 0 ? m : m != (bool)(x >> (ib + i) & 1)); }
                 }
                 lib::oram::LinearOram<T, P> o(size, P == 0 ? Role::Alice : Role::Bob, 0, 1, f.create(1 - P, ""), std::make_unique<TapePrg>(&j, me, 820 + me));
                 o.obliviousAddBatch(idx, val);
                 for (int i = 0; i < size; i++) j.see(me, (uint64_t)(int64_t)o.secretRead(i) & 3);
               });
             });
           },
           [](uint64_t, const std::vector<int>&) { return 0ull; }, "an addition to a memory tells its index or value", knowsSeen});
}
static void corrections() {
  Backend b = choose(2, "backend") ? EAGER : LAZY; bool whole = choose(2, "with the lowest bit of the correction");
  compare({std::string("corrections of an oblivious array") + (whole ? "" : " without their lowest bit") + ", backend " + str(b), 2, 2, 1 << 12,
           [=](Job& j, int me, uint64_t s) {
             asParty(me, [&](auto tag) {
               constexpr int P = decltype(tag)::value;
               inGame<P>(j, b, [&](Factory&) {
                 lib::oram::ObliviousDeltaCalculator<P> c(P == 0, 0, 1);
                 auto delta = [&](int k) { auto d = m128(j.digit(830, k, 0, 2), j.digit(831, k, 0, 4)), r = m128(mix(k, 3), mix(k, 4)); return me == 0 ? r : _mm_xor_si128(r, d); };
                 auto d0 = delta(0), d1 = delta(1); size_t keep = j.seen[me].size();
                 auto [d, t0, t1] = c.calculateDelta({d0}, {d1}, {me == 0 ? true : s == 0});
                 if (!whole) { j.seen[me].resize(keep); j.see(me, lo64(d[0]) & ~1ull); j.see(me, hi64(d[0])); j.see(me, t0[0] + 2 * t1[0]); }
               });
             });
           },
           [](uint64_t, const std::vector<int>&) { return 0ull; }, whole ? "opened correction of an oblivious array tells its index" : "corrections of an oblivious array tell its index", knowsSeen});
}
// ---- gradients -----------------------------------------------------------------------------------------------------------
class ChosenRcot final : public otns::IRandomCorrelatedObliviousTransfer {  // messages fixed, the receiver's bits on the tape
 public:
  ChosenRcot(Job* j, int me, bool sender) : j_(j), me_(me), sender_(sender) {}
  std::vector<__m128i> rcot(int64_t n) override {
    std::vector<__m128i> r;
    for (int64_t i = 0; i < n; i++, at_++) { auto k = m128(mix(at_, 51), mix(at_, 52) & ~1ull); if (!sender_) { bool c = j_->bit(840, at_, 0); j_->see(me_, c); if (c) k = _mm_xor_si128(k, deltaOf(5)); } r.push_back(k); }
    return r;
  }
  std::pair<uint64_t, uint64_t> getTrafficStatistics() const override { return {0, 0}; }
 private:
  Job* j_; int me_; bool sender_; uint64_t at_ = 0;
};
static void gradients() {
  Backend b = choose(2, "backend") ? EAGER : LAZY; int fo = choose(2, "feature owner"), labels = 1 + choose(2, "labels"), features = labels == 1 ? 1 + choose(2, "features") : 1, calls = labels * features == 1 ? 1 + choose(2, "calls") : 1;
  int bits = labels * features * calls == 1 ? 2 : 1, fb = labels * features * bits;
  // the protocol adds or subtracts a feature: twice a feature is in the subgroup the masks come from
  auto feature = [=](uint64_t s, int c, int l, int f) { return (uint8_t)((128 >> bits) * ((l + f + c) % 4 + 1) + ((s >> (c * fb + (l * features + f) * bits) & ((1 << bits) - 1)) << (8 - bits))); };
  auto label = [=](uint64_t s, int c, int l) { return (s >> (fb * calls + c * labels + l) & 1) != 0; };
  auto sums = [=](uint64_t s) { View v; for (int c = 0; c < calls; c++) for (int f = 0; f < features; f++) { uint8_t x = 0; for (int l = 0; l < labels; l++) if (label(s, c, l)) x += feature(s, c, l, f); v.push_back(x); } return v; };
  compare({"gradient of " + str(features) + " features over " + str(labels) + " labels, " + str(calls) + " calls, features of party " + str(fo) + " backend " + str(b), 2, 1ull << (fb * calls + labels * calls), 1 << 18,
           [=](Job& j, int me, uint64_t s) {
             asParty(me, [&](auto tag) {
               constexpr int P = decltype(tag)::value;
               inGame<P>(j, b, [&](Factory& f) {
                 bool owner = P == fo; IntCoset c; c.bits = bits; c.width = 8;
                 auto ag = f.create(1 - P, ""); auto ag2 = f.create(1 - P, "");
                 auto cot = owner ? std::make_unique<lib::walr::util::COTWithRandomMessage>(deltaOf(5), std::move(ag2), std::make_unique<ChosenRcot>(&j, P, true)) : std::make_unique<lib::walr::util::COTWithRandomMessage>(std::move(ag2), std::make_unique<ChosenRcot>(&j, P, false));
                 lib::walr::OTBasedMatrixMultiplication<P, uint8_t> m(P, 1 - P, owner, 1, std::move(ag), std::make_unique<TapePrgFactory>(&j, P, c), std::move(cot), std::make_shared<lib::walr::OTBasedMatrixMultiplicationMetricRecorder>());
                 for (int k = 0; k < calls; k++) {
                   Bits sh; for (int l = 0; l < labels; l++) sh.push_back(shareOf(j, me, k * labels + l, label(s, k, l)));
                   using LB = fe::Bit<true, P, true>; LB lab{typename LB::ExtractedBit(sh)};
                   if (!owner) { m.matrixVectorMultiplication(lab, std::vector<double>(features, 0)); continue; }
                   std::vector<std::vector<double>> x(labels); for (int l = 0; l < labels; l++) for (int q = 0; q < features; q++) x[l].push_back((int8_t)feature(s, k, l, q));
                   auto got = m.matrixVectorMultiplication(x, lab); auto want = sums(s);
                   for (int q = 0; q < features; q++) check((uint8_t)(int)got[q] == want[k * features + q], "harness: gradient", [&] { return str((uint8_t)(int)got[q]) + " instead of " + str(want[k * features + q]); });
                 }
               });
             });
           },
           [=](uint64_t s, const std::vector<int>& who) { return who[0] == fo ? mix(s & ((1ull << fb * calls) - 1), digest(sums(s))) : 0; }, "a gradient tells features or labels"});
}
// ---- rows: masks never repeat, keys stay with their owner ---------------------------------------------------------------------
static void rows() {
  namespace dp = lib::unified_data_process::data_processor;
  int w = (int[]){16, 32, 48, 20}[choose(4, "width")], sessions = 1 + choose(2, "sessions"), content = choose(3, "content"), how = choose(4, "indexes");
  std::vector<std::vector<uint64_t>> in = how == 0 ? std::vector<std::vector<uint64_t>>{{0, 1, 2, 3}} : how == 1 ? std::vector<std::vector<uint64_t>>{{0, 1}, {2, 3}} : how == 2 ? std::vector<std::vector<uint64_t>>{{7, 3}, {1, 100}, {0}} : std::vector<std::vector<uint64_t>>{{0x100000000ull, 0, 0xffffffffull, 1}, {0x100000001ull, 0x7fffffff, 0x80000000}};
  std::string nm = "rows of " + str(w) + " bytes, " + str(sessions) + " sessions, indexes " + str(how) + " content " + str(content); note(nm);
  auto world = std::make_shared<World>(); world->log = true; uint64_t drawn = 0; std::vector<std::string> keys; int k0 = 0;
  randHook = [&](unsigned char* b, int k) { drawn++; for (int i = 0; i < k; i++) b[i] = (unsigned char)(mix(drawn, i / 8 + 3) >> 8 * (i % 8)); if (k == 16) keys.push_back(std::string((char*)b, 16)); };
  auto row = [&](int s, int b, int r) { std::vector<unsigned char> x(w); for (int i = 0; i < w; i++) x[i] = content == 0 ? 0 : content == 1 ? 0xff : (unsigned char)mix(mix(s, b), r * 64 + i); return x; };
  (void)k0; std::vector<std::string> blocks; std::vector<std::string> plain;
  parties(1, [&](int) {
    Factory f(world, 0), g(world, 1); auto tx = f.create(1, ""); dp::UdpEncryption e(std::move(tx)); auto rx = g.create(0, "");
    for (int s = 0; s < sessions; s++) {
      e.prepareToProcessMyData(w);
      for (size_t b = 0; b < in.size(); b++) {
        std::vector<std::vector<unsigned char>> rows; for (size_t r = 0; r < in[b].size(); r++) rows.push_back(row(s, b, r));
        e.processMyData(rows, in[b]);
        rx->receive(16);
        for (size_t r = 0; r < in[b].size(); r++) {
          check(rx->receiveSingleT<uint64_t>() == in[b][r], "harness: index sent"); auto c = rx->receive(w);
          for (int i = 0; i + 16 <= w; i += 16) { std::string m; for (int k = 0; k < 16; k++) m += (char)(c[i + k] ^ rows[r][i + k]); blocks.push_back(m); }
        }
      }
      e.getExpandedKey();
    }
  });
  randHook = nullptr;
  std::set<std::string> all(blocks.begin(), blocks.end()); evals(); state(hashStr(nm));
  check(all.size() == blocks.size(), "two blocks of rows have the same mask", [&] { return nm + ": " + str(blocks.size() - all.size()) + " of " + str(blocks.size()); });
  check(!all.count(std::string(16, 0)), "a block of a row is sent as it is", [&] { return nm; });
  auto v = world->view(1); std::string got(v.begin(), v.end());
  for (auto& k : keys) check(got.find(k) == std::string::npos, "a key is sent with the rows", [&] { return nm; });
}
int main(int argc, char** argv) {
  mallopt(M_TRIM_THRESHOLD, 1 << 30); mallopt(M_MMAP_THRESHOLD, 1 << 30); mallopt(M_TOP_PAD, 64 << 20);
  return harnessMain(argc, argv, "C11", {
    {"products of bits", bitProducts}, {"transfers of integers", integerTransfers}, {"products of integers", integerProducts}, {"tuples", tuples}, {"integers", integers, 0, -1, false, 0, 6},
    {"compaction", compaction, 0, -1, false, 0, 3}, {"differences", differences, 0, -1, false, 0, 3}, {"additions to a memory", linearMemory, 0, -1, false, 0, 3}, {"corrections", corrections}, {"gradients", gradients, 0, -1, false, 0, 4}, {"rows", rows},
  });
}
