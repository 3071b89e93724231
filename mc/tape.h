// Random tapes that are enumerated completely, and the distributions of what parties see over them.
#pragma once
#include <algorithm>
#include <map>
#include <set>
#include <tuple>
#include "fbpcf/engine/util/IPrg.h"
#include "fbpcf/engine/util/IPrgFactory.h"
#include "fbpcf/engine/communication/ISecretShareEngineCommunicationAgent.h"
#include "mc/ideal.h"
#include "mc/net.h"
#include "mc/ot.h"

namespace mc {
// One random digit per coordinate; a tape is a number below the product of the radices seen so far.
struct Coordinates {
  struct Place { uint64_t weight; int radix; };
  std::map<std::tuple<uint64_t, uint64_t, uint64_t>, Place> index;
  uint64_t tapes = 1;
  Place at(uint64_t a, uint64_t b, uint64_t c, int radix) {
    auto it = index.find({a, b, c});
    if (it == index.end()) { it = index.emplace(std::make_tuple(a, b, c), Place{tapes, radix}).first; if (tapes < 1ull << 40) tapes *= radix; }
    return it->second;
  }
};
using View = std::vector<uint64_t>;
// one run of a protocol: its tape, its channels, what each party has seen or drawn so far
struct Job {
  Coordinates* co = nullptr;
  uint64_t tape = 0;
  std::shared_ptr<World> world;
  std::vector<View> seen;
  std::map<std::string, std::set<int>> keyHolders;  // key of a pseudo-random generator -> parties that created one
  int done = 0;
  std::map<int, std::shared_ptr<void>> shared;  // what ideal functionalities of this run keep
  int digit(uint64_t a, uint64_t b, uint64_t c, int radix) { auto p = co->at(a, b, c, radix); return (int)(tape / p.weight % p.radix); }
  bool bit(uint64_t a, uint64_t b, uint64_t c) { return digit(a, b, c, 2); }
  void see(int p, uint64_t v) { seen[p].push_back(v); }
  template <class T> T& hub(int id) { auto& s = shared[id]; if (!s) s = std::make_shared<T>(); return *std::static_pointer_cast<T>(s); }
};

// integers are drawn from base + {0, 1, ...} * 2^shift: the cosets of a subgroup on which differences of the secrets lie too
struct IntCoset { int bits = 1; std::function<int(uint64_t)> bitsOf; int width = 64; };
class TapePrg final : public fbpcf::engine::util::IPrg {
 public:
  TapePrg(Job* j, int me, uint64_t stream, IntCoset c = {}, uint64_t random = ~0ull) : j_(j), me_(me), s_(stream), c_(c), random_(random) {}  // bits beyond the first `random` are constants
  std::vector<bool> getRandomBits(uint32_t n) override {
    std::vector<bool> r(n);
    for (uint32_t i = 0; i < n; i++) { r[i] = at_ < random_ && j_->bit(s_, 0, at_); at_++; j_->see(me_, r[i]); }
    return r;
  }
  std::vector<unsigned char> getRandomBytes(uint32_t n) override {  // two random bits, in the lowest places of the first byte
    std::vector<unsigned char> r(n);
    for (uint32_t i = 0; i < n; i++) r[i] = i ? (unsigned char)mix(s_ + i, at_) : 0;
    if (n) { r[0] = (unsigned char)(j_->bit(s_, 1, at_) | j_->bit(s_, 2, at_) << 1); at_++; for (auto b : r) j_->see(me_, b); }
    return r;
  }
  std::vector<uint64_t> getRandomUInt64(uint32_t n) override {
    std::vector<uint64_t> r(n);
    for (uint32_t i = 0; i < n; i++) { r[i] = coset(j_, s_, at_, c_); at_++; j_->see(me_, r[i]); }
    return r;
  }
  static uint64_t coset(Job* j, uint64_t s, uint64_t at, const IntCoset& c) {
    int bits = c.bitsOf ? c.bitsOf(at) : c.bits;
    uint64_t h = mix(mix(s, 77), at);
    for (int b = 0; b < bits; b++) { h &= ~(1ull << (c.width - 1 - b)); h |= (uint64_t)j->bit(s, 8 + b, at) << (c.width - 1 - b); }
    return h;
  }
 private:
  Job* j_; int me_; uint64_t s_; IntCoset c_; uint64_t random_, at_ = 0;
};
inline std::string keyBytes(__m128i k) { std::string s(16, 0); memcpy(&s[0], &k, 16); return s; }
class TapePrgFactory final : public fbpcf::engine::util::IPrgFactory {
 public:
  TapePrgFactory(Job* j, int me, IntCoset c = {}) : j_(j), me_(me), c_(c) {}
  std::unique_ptr<fbpcf::engine::util::IPrg> create(__m128i seed) const override {
    Quiet q;
    j_->keyHolders[keyBytes(seed)].insert(me_);
    return std::make_unique<TapePrg>(j_, me_, mix(mix(17, lo64(seed)), hi64(seed)), c_);
  }
 private:
  Job* j_; int me_; IntCoset c_;
};
// the tape as the source of ideal multiplication tuples
inline TupleBits tapeTuples(Job* j, int intBits = 1) {
  return [j, intBits](uint64_t kind, uint64_t index, uint64_t part) -> uint64_t {
    if (kind >= 2 && kind <= 4) {
      if (kind == 4 && part == 0) return 0;
      IntCoset c; c.bits = intBits;
      return TapePrg::coset(j, 1000 + kind * 16 + part, index, c);
    }
    uint64_t p = kind == 1 ? part : part % 16;
    uint64_t r = j->bit(kind, index, part * 4);
    if (kind == 1) { r |= (uint64_t)j->bit(kind, index, part * 4 + 1) << 1; if (p) r |= (uint64_t)j->bit(kind, index, part * 4 + 2) << 2; }
    else if (part >= 16 && p) r |= (uint64_t)j->bit(kind, index, part * 4 + 1) << 1;
    return r;
  };
}
class SeenTuples final : public tg::ITupleGenerator {
 public:
  SeenTuples(Job* j, int me, int n, bool composite) : j_(j), me_(me), g_(me, n, tapeTuples(j), composite) {}
  std::vector<BooleanTuple> getBooleanTuple(uint32_t n) override { auto r = g_.getBooleanTuple(n); for (auto& t : r) see(t); return r; }
  std::map<size_t, std::vector<CompositeBooleanTuple>> getCompositeTuple(const std::map<size_t, uint32_t>& s) override { auto r = g_.getCompositeTuple(s); see(r); return r; }
  std::pair<std::vector<BooleanTuple>, std::map<size_t, std::vector<CompositeBooleanTuple>>> getNormalAndCompositeBooleanTuples(uint32_t n, const std::map<size_t, uint32_t>& c) override {
    auto r = g_.getNormalAndCompositeBooleanTuples(n, c); for (auto& t : r.first) see(t); see(r.second); return r;
  }
  bool supportsCompositeTupleGeneration() override { return g_.supportsCompositeTupleGeneration(); }
  std::pair<uint64_t, uint64_t> getTrafficStatistics() const override { return {0, 0}; }
 private:
  void see(BooleanTuple& t) { j_->see(me_, t.getA() + 2 * t.getB() + 4 * t.getC()); }
  void see(std::map<size_t, std::vector<CompositeBooleanTuple>>& m) { for (auto& kv : m) for (auto& t : kv.second) { j_->see(me_, t.getA()); for (size_t i = 0; i < kv.first; i++) j_->see(me_, t.getB()[i] + 2 * t.getC()[i]); } }
  Job* j_; int me_; IdealTuples g_;
};
class SeenIntTuples final : public tg::IArithmeticTupleGenerator {
 public:
  SeenIntTuples(Job* j, int me, int n, int bits) : j_(j), me_(me), g_(me, n, tapeTuples(j, bits)) {}
  std::vector<IntegerTuple> getIntegerTuple(uint32_t n) override { auto r = g_.getIntegerTuple(n); for (auto& t : r) { j_->see(me_, t.getA()); j_->see(me_, t.getB()); j_->see(me_, t.getC()); } return r; }
  std::pair<uint64_t, uint64_t> getTrafficStatistics() const override { return {0, 0}; }
 private:
  Job* j_; int me_; IdealIntTuples g_;
};

// ---- distributions ---------------------------------------------------------------------------------------------
// everything party p knows after a run: what it drew and was dealt, what it was told, and every byte it received
inline void addBytes(View& v, const std::vector<unsigned char>& b) {
  v.push_back(b.size());
  for (size_t i = 0; i < b.size(); i += 8) { uint64_t w = 0; for (size_t k = 0; k < 8 && i + k < b.size(); k++) w |= (uint64_t)b[i + k] << 8 * k; v.push_back(w); }
}
inline uint64_t digest(const View& v) { uint64_t h = 99; for (auto x : v) h = mix(h, x); return h; }
struct Distribution {  // digests of equally likely views
  std::map<uint64_t, uint64_t> count;
  uint64_t total = 0;
  void add(uint64_t v) { count[v]++; total++; }
  uint64_t key() const {
    uint64_t h = 5; for (auto& kv : count) { uint64_t g = std::__gcd(kv.second, total); h = mix(mix(h, kv.first), mix(kv.second / g, total / g)); }
    return h;
  }
};
// Runs `body(job, party)` for every tape; afterwards `each(job)`. Returns the number of tapes.
inline uint64_t everyTape(int n, uint64_t most, const std::function<void(Job&, int)>& body, const std::function<void(Job&)>& each, const std::function<void()>& restart) {
  Coordinates co;
  for (;;) {
    uint64_t tapes = co.tapes;
    restart();
    bool grew = false;
    for (uint64_t t0 = 0; t0 < tapes && !grew; t0 += 256) {
      std::vector<Job> jobs(std::min<uint64_t>(256, tapes - t0));
      for (size_t i = 0; i < jobs.size(); i++) { auto& j = jobs[i]; j.co = &co; j.tape = t0 + i; j.world = std::make_shared<World>(); j.world->log = true; j.seen.resize(n); }
      std::vector<uint64_t> ctr(n, 0);
      std::map<int, int> fiber;
      randHook = [&](unsigned char* b, int k) {  // keys: known, all different, a function of (party, how many so far in this run)
        auto f = fiber.find(self()); int p = f == fiber.end() ? 0 : f->second; uint64_t c = ctr[p]++;
        for (int i = 0; i < k; i++) b[i] = (unsigned char)(mix(mix(p + 1, c + 1), i / 8 + 3) >> 8 * (i % 8));
      };
      parties(n, [&](int p) {
        fiber[self()] = p;
        for (auto& j : jobs) { ctr[p] = 0; body(j, p); }
      });
      randHook = nullptr;
      if (failed()) return tapes;
      if (co.tapes > tapes) { grew = true; break; }
      for (auto& j : jobs) each(j);
      step(jobs.size());
    }
    if (!grew) return tapes;
    if (co.tapes > most) { fail("harness: too many random bits", str(co.tapes)); return tapes; }
  }
}
// ---- comparing ----------------------------------------------------------------------------------------------------
inline std::vector<std::vector<int>> coalitions(int n) {
  std::vector<std::vector<int>> r;
  for (int m = 1; m < (1 << n) - 1; m++) { std::vector<int> c; for (int p = 0; p < n; p++) if (m >> p & 1) c.push_back(p); r.push_back(c); }
  return r;
}
inline View knows(Job& j, const std::vector<int>& who) {
  View v;
  for (int p : who) { v.push_back(1000 + p); v.insert(v.end(), j.seen[p].begin(), j.seen[p].end()); addBytes(v, j.world->view(p)); }
  return v;
}
inline View knowsSeen(Job& j, const std::vector<int>& who) {  // without what the channels carried
  View v;
  for (int p : who) { v.push_back(1000 + p); v.insert(v.end(), j.seen[p].begin(), j.seen[p].end()); }
  return v;
}
// keys of the generators two parties share must not reach a third one
inline void keysStayPrivate(Job& j, int n) {
  for (int p = 0; p < n; p++) {
    auto b = j.world->view(p); std::string got(b.begin(), b.end());
    for (auto& kv : j.keyHolders) {
      check(kv.second.count(p) || got.find(kv.first) == std::string::npos, "the key of a pair's generator reaches another party", [&] { return "party " + str(p); });
      check((int)kv.second.size() <= 2, "a generator's key is used by more than two parties");
    }
  }
}
// Runs a protocol for every secret and tape and compares. `known(secret, coalition)`: what the coalition may know.
struct Comparison {
  std::string name; int n = 2; uint64_t secrets = 2, tapes = 1 << 16;
  std::function<void(Job&, int, uint64_t)> body;
  std::function<uint64_t(uint64_t, const std::vector<int>&)> known;
  std::string key = "what a party receives depends on a secret";
  std::function<View(Job&, const std::vector<int>&)> view = knows;
};
inline void compare(const Comparison& p) {
  note(p.name);
  auto cs = coalitions(p.n);
  std::map<std::pair<int, uint64_t>, std::pair<uint64_t, uint64_t>> first;  // (coalition, knowledge) -> (distribution, secret)
  for (uint64_t s = 0; s < p.secrets; s++) {
    std::vector<Distribution> d;
    bool keys = false;
    uint64_t tapes = everyTape(p.n, p.tapes, [&](Job& j, int q) { p.body(j, q, s); },
                               [&](Job& j) {
                                 if (!keys) { keysStayPrivate(j, p.n); keys = true; }
                                 for (size_t c = 0; c < cs.size(); c++) d[c].add(digest(p.view(j, cs[c])));
                               },
                               [&] { d.assign(cs.size(), {}); });
    if (failed()) return;
    for (size_t c = 0; c < cs.size(); c++) {
      uint64_t k = d[c].key(); evals(); state(mix(mix(hashStr(p.name), s), mix(c, k)));
      auto it = first.emplace(std::make_pair((int)c, p.known(s, cs[c])), std::make_pair(k, s)).first;
      check(it->second.first == k, p.key, [&] { return p.name + ": parties " + vec(cs[c]) + " tell secret " + str(it->second.second) + " from " + str(s) + " (" + str(tapes) + " random tapes)"; });
    }
    if (failed()) return;
  }
}
}  // namespace mc
