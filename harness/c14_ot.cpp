// C14: every layer of the oblivious transfer stack gives the two ends the correlation it promises.
#include <openssl/bn.h>
#include <algorithm>
#include <memory>
#include <set>
#include "fbpcf/engine/tuple_generator/oblivious_transfer/RcotBasedBidirectionObliviousTransferFactory.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/RcotHelper.h"
#include "mc/mc.h"
#include "mc/net.h"
#include "mc/ot.h"
using namespace mc;
namespace ot = fbpcf::engine::tuple_generator::oblivious_transfer;
namespace fer = ot::ferret;
using M = __m128i;
using Ms = std::vector<M>;
static Ms one(size_t n, uint64_t salt) { Ms r; for (size_t i = 0; i < n; i++) r.push_back(m128(mix(mix(salt, i), 1), mix(mix(salt, i), 2))); return r; }
static M x(M a, M b) { return _mm_xor_si128(a, b); }
static int lsb(M a) { return lo64(a) & 1; }
static const M kZero = m128(0, 0);

// ---- random numbers of the base transfers: a stream, or a corner of the range --------------------------------------
static bool bnCorners = false;
static uint64_t bnCount = 0;
extern "C" int BN_rand_range(BIGNUM* r, const BIGNUM* range) {
  int k = bnCorners ? choose(5, "random exponent", 1) : 0;
  if (k == 0) {
    unsigned char b[32];
    for (int i = 0; i < 4; i++) { uint64_t v = mix(mix(bnCount, i), selfPath()); memcpy(b + 8 * i, &v, 8); }
    bnCount++;
    b[0] &= 0x7f;
    auto t = BN_bin2bn(b, 32, nullptr);
    auto ctx = BN_CTX_new();
    int ok = BN_mod(r, t, range, ctx);
    BN_CTX_free(ctx); BN_free(t);
    return ok;
  }
  if (k <= 2) return BN_set_word(r, k - 1);      // 0, 1
  return BN_copy(r, range) && BN_sub_word(r, k - 2);  // q - 1, q - 2
}
// ---- an ideal base transfer -------------------------------------------------------------------------------------
static M basePair(uint64_t salt, int b, size_t i) { uint64_t t = mix(mix(salt, b + 1), i + 1); return m128(mix(t, 1), mix(t, 2)); }
class IdealBase final : public ot::IBaseObliviousTransfer {
 public:
  IdealBase(uint64_t salt, std::unique_ptr<IPartyCommunicationAgent> a) : salt_(salt), a_(std::move(a)) {}
  std::pair<Ms, Ms> send(size_t n) override { std::pair<Ms, Ms> r; for (size_t i = 0; i < n; i++, at_++) { r.first.push_back(basePair(salt_, 0, at_)); r.second.push_back(basePair(salt_, 1, at_)); } return r; }
  Ms receive(const std::vector<bool>& c) override { Ms r; for (bool b : c) r.push_back(basePair(salt_, b, at_++)); return r; }
  std::pair<uint64_t, uint64_t> getTrafficStatistics() const override { return a_->getTrafficStatistics(); }
  std::unique_ptr<IPartyCommunicationAgent> extractCommunicationAgent() override { return std::move(a_); }
 private:
  uint64_t salt_; size_t at_ = 0;
  std::unique_ptr<IPartyCommunicationAgent> a_;
};
class IdealBaseFactory final : public ot::IBaseObliviousTransferFactory {
 public:
  explicit IdealBaseFactory(uint64_t salt) : salt_(salt) {}
  std::unique_ptr<ot::IBaseObliviousTransfer> create(std::unique_ptr<IPartyCommunicationAgent> a) override { return std::make_unique<IdealBase>(salt_, std::move(a)); }
 private:
  uint64_t salt_;
};
// ---- an ideal bootstrapper that hands its channel back -----------------------------------------------------------
class FlexRcot final : public ot::IFlexibleRandomCorrelatedObliviousTransfer {
 public:
  FlexRcot(std::unique_ptr<IdealRcot> r, std::unique_ptr<IPartyCommunicationAgent> a) : r_(std::move(r)), a_(std::move(a)) {}
  Ms rcot(int64_t n) override { return r_->rcot(n); }
  std::pair<uint64_t, uint64_t> getTrafficStatistics() const override { return a_->getTrafficStatistics(); }
  std::unique_ptr<IPartyCommunicationAgent> extractCommunicationAgent() override { return std::move(a_); }
 private:
  std::unique_ptr<IdealRcot> r_;
  std::unique_ptr<IPartyCommunicationAgent> a_;
};
class FlexFactory final : public ot::IFlexibleRandomCorrelatedObliviousTransferFactory {
 public:
  explicit FlexFactory(std::shared_ptr<RcotHub> h) : h_(h) {}
  std::unique_ptr<ot::IFlexibleRandomCorrelatedObliviousTransfer> createFlexible(M d, std::unique_ptr<IPartyCommunicationAgent> a) override {
    h_->delta.push_back(d);
    return std::make_unique<FlexRcot>(std::make_unique<IdealRcot>(h_, h_->made[0]++, true, nullptr), std::move(a));
  }
  std::unique_ptr<ot::IFlexibleRandomCorrelatedObliviousTransfer> createFlexible(std::unique_ptr<IPartyCommunicationAgent> a) override {
    return std::make_unique<FlexRcot>(std::make_unique<IdealRcot>(h_, h_->made[1]++, false, nullptr), std::move(a));
  }
 private:
  std::shared_ptr<RcotHub> h_;
};

static const std::vector<int64_t> kSizes = {0, 1, 127, 128, 129, 255, 256, 257};
static M pickDelta() {
  switch (choose(4, "delta")) {
    case 0: return m128(0, 1);
    case 1: return m128(~0ull, ~0ull);
    case 2: return m128(0x8000000000000000ull, 0x8000000000000001ull);
    default: return m128(mix(3, 4), mix(5, 6) | 1);
  }
}
// the relation of correlated transfers, over everything obtained from one pair of ends
static void checkRcot(const char* what, const std::vector<Ms>& s, const std::vector<Ms>& r, M delta, const std::vector<int64_t>& sizes, bool fresh = true, size_t enough = 200) {
  std::set<std::pair<uint64_t, uint64_t>> keys;
  size_t n = 0, ones = 0;
  uint64_t h = 0;
  for (size_t c = 0; c < sizes.size(); c++) {
    check((int64_t)s[c].size() == sizes[c] && (int64_t)r[c].size() == sizes[c], std::string(what) + ": number of results");
    if (failed()) return;
    for (size_t i = 0; i < s[c].size(); i++) {
      check(lsb(s[c][i]) == 0, std::string(what) + ": lowest bit of a sender key is set");
      check(eq128(r[c][i], lsb(r[c][i]) ? x(s[c][i], delta) : s[c][i]), std::string(what) + ": keys of the two ends do not correspond",
            [&] { return "call " + str(c) + " transfer " + str(i) + ": sender " + hex(s[c][i]) + ", receiver " + hex(r[c][i]) + ", difference " + hex(delta); });
      if (failed()) return;
      n++; ones += lsb(r[c][i]);
      h = mix(h, lo64(r[c][i]));
      keys.insert({hi64(s[c][i]), lo64(s[c][i])});
    }
  }
  if (fresh) check(keys.size() == n, std::string(what) + ": a key was handed out twice", [&] { return str(keys.size()) + " distinct of " + str(n); });
  if (fresh && n >= enough) check(ones > n / 4 && ones < n - n / 4, std::string(what) + ": choice bits are not random", [&] { return str(ones) + " of " + str(n); });
  evals(2 * n + 1);
  state(mix(h, n));
}
static std::vector<int64_t> pickSizes(const std::vector<int64_t>& from, int maxCalls) {
  std::vector<int64_t> r;
  int n = 1 + choose(maxCalls, "calls");
  for (int i = 0; i < n; i++) r.push_back(from[choose(from.size(), "size")]);
  return r;
}
static void sameTraffic(std::pair<uint64_t, uint64_t> a, std::pair<uint64_t, uint64_t> b) {
  check(a.first == b.second && a.second == b.first, "the two ends count different traffic", [&] { return str(a.first) + "/" + str(a.second) + " against " + str(b.first) + "/" + str(b.second); });
}

// ---- suites -------------------------------------------------------------------------------------------------------
static void npBody(int maxLen, int maxCalls, bool corners) {
  bnCount = choose(corners ? 1 : 2, "stream") * 1000;
  bnCorners = corners;
  int calls = 1 + choose(maxCalls, "calls");
  std::vector<std::vector<bool>> c(calls);
  for (auto& v : c) { int n = choose(maxLen + 1, "length"); for (int i = 0; i < n; i++) v.push_back(chooseBool("choice")); }
  note("choices " + [&] { std::string s; for (auto& v : c) s += vec(v); return s; }());
  std::vector<std::pair<Ms, Ms>> sent(calls);
  std::vector<Ms> got(calls);
  std::pair<uint64_t, uint64_t> tr[2];
  auto w = std::make_shared<World>();
  parties(2, [&](int p) {
    ot::NpBaseObliviousTransferFactory f;
    auto t = f.create(w->agent(p, 1 - p));
    for (int k = 0; k < calls; k++) if (p == 0) sent[k] = t->send(c[k].size()); else got[k] = t->receive(c[k]);
    tr[p] = t->getTrafficStatistics();
    auto a = t->extractCommunicationAgent();
    check(a != nullptr && a->getTrafficStatistics() == tr[p], "the channel handed back is another one");
  });
  bnCorners = false;
  if (failed()) return;
  sameTraffic(tr[0], tr[1]);
  check(w->drained(), "data left in the channel");
  std::set<std::pair<uint64_t, uint64_t>> all;
  size_t n = 0;
  uint64_t h = 0;
  for (int k = 0; k < calls; k++) {
    check(sent[k].first.size() == c[k].size() && sent[k].second.size() == c[k].size() && got[k].size() == c[k].size(), "number of base transfers");
    if (failed()) return;
    for (size_t i = 0; i < c[k].size(); i++) {
      auto a = sent[k].first[i], b = sent[k].second[i];
      check(eq128(got[k][i], c[k][i] ? b : a), "base transfer: the receiver did not get the chosen message", [&] { return "call " + str(k) + " transfer " + str(i) + " of " + vec(c[k]); });
      check(!eq128(a, b), "base transfer: both messages are the same");
      all.insert({hi64(a), lo64(a)}); all.insert({hi64(b), lo64(b)}); n += 2;
      h = mix(h, lo64(got[k][i]));
    }
  }
  if (!corners) check(all.size() == n, "base transfer: a message was handed out twice");
  evals(2 * n); state(h);
}
static void iknpBody(const std::vector<int64_t>& sizes, M delta, bool realBase, int instances) {
  std::vector<std::vector<Ms>> out(2 * instances);
  std::pair<uint64_t, uint64_t> tr[2];
  auto w = std::make_shared<World>();
  bnCount = 7;
  parties(2, [&](int p) {
    std::unique_ptr<ot::IBaseObliviousTransferFactory> bf;
    if (realBase) bf = std::make_unique<ot::NpBaseObliviousTransferFactory>(); else bf = std::make_unique<IdealBaseFactory>(99);
    ot::IknpShRandomCorrelatedObliviousTransferFactory f(std::move(bf));
    for (int k = 0; k < instances; k++) {
      auto a = w->agent(p, 1 - p);
      auto t = p == 0 ? f.createFlexible(delta, std::move(a)) : f.createFlexible(std::move(a));
      for (auto n : sizes) out[2 * k + p].push_back(t->rcot(n));
      tr[p] = t->getTrafficStatistics();
    }
  });
  if (failed()) return;
  sameTraffic(tr[0], tr[1]);
  check(w->drained(), "data left in the channel");
  for (int k = 0; k < instances && !failed(); k++) checkRcot("correlated transfer", out[2 * k], out[2 * k + 1], delta, sizes);
  if (failed() || instances < 2) return;
  std::vector<bool> c[2];
  for (int k = 0; k < 2; k++) for (auto& v : out[2 * k + 1]) for (auto m : v) c[k].push_back(lsb(m));
  if (c[0].size() >= 64) check(c[0] != c[1], "two receivers draw the same choice bits");
}
static void iknpDeltaBody(bool all) {
  int bit = choose(all ? 129 : 1, "bit of the difference");
  M d = bit == 0 ? m128(~0ull, ~0ull) : bit - 1 < 64 ? m128(0, (1ull << (bit - 1)) | 1) : m128(1ull << (bit - 1 - 64), 1);
  iknpBody({130}, d, false, 1);
}
static void iknpEvenBody() {
  int hi = choose(2, "hi"), lo = choose(2, "lo");
  bool thrown = false;
  auto w = std::make_shared<World>();
  run([&] {
    ot::IknpShRandomCorrelatedObliviousTransferFactory f(std::make_unique<IdealBaseFactory>(99));
    try { f.createFlexible(m128(hi ? ~0ull : 0, lo ? ~1ull : 0), w->agent(0, 1)); } catch (const std::exception&) { thrown = true; }
  });
  check(thrown, "a difference with an even lowest bit is accepted");
  evals(1); state(hi * 2 + lo);
}
// chosen-message transfers in both directions
struct Call { int kind; std::vector<bool> b0[2], b1[2], c[2]; std::vector<uint64_t> u0[2], u1[2]; };
// directions over ideal hubs: channel k of one party is channel k of the other, party with the larger id sends on the first
class DirFactory final : public otns::IRandomCorrelatedObliviousTransferFactory {
 public:
  DirFactory(std::shared_ptr<RcotHub> s, std::shared_ptr<RcotHub> r) : s_(s), r_(r) {}
  std::unique_ptr<otns::IRandomCorrelatedObliviousTransfer> create(M d, std::unique_ptr<IPartyCommunicationAgent> a) override { IdealRcotFactory f(s_); return f.create(d, std::move(a)); }
  std::unique_ptr<otns::IRandomCorrelatedObliviousTransfer> create(std::unique_ptr<IPartyCommunicationAgent> a) override { IdealRcotFactory f(r_); return f.create(std::move(a)); }
 private:
  std::shared_ptr<RcotHub> s_, r_;
};
static void bidiRun(const std::vector<Call>& calls, const std::function<std::shared_ptr<otns::IRandomCorrelatedObliviousTransferFactory>(int)>& mk, bool explore, bool masks = false) {
  auto w = std::make_shared<World>();
  w->log = masks;
  std::vector<std::vector<bool>> gb[2];
  std::vector<std::vector<uint64_t>> gu[2];
  std::pair<uint64_t, uint64_t> tr[2];
  RunOpts o; o.explore = explore;
  bnCount = 11;
  parties(2, [&](int p) {
    Factory af(w, p);
    ot::RcotBasedBidirectionObliviousTransferFactory f(p, af, mk(p));
    auto t = f.create(1 - p);
    for (auto& c : calls) {
      if (c.kind == 0) gb[p].push_back(t->biDirectionOT(c.b0[p], c.b1[p], c.c[p]));
      else gu[p].push_back(t->biDirectionOT(c.u0[p], c.u1[p], c.c[p]));
    }
    tr[p] = t->getTrafficStatistics();
  }, o);
  if (failed()) return;
  check(w->drained(), "data left in the channel");
  uint64_t h = 0;
  size_t ib = 0, iu = 0;
  for (auto& c : calls) {
    for (int p = 0; p < 2; p++) {
      int q = 1 - p;
      if (c.kind == 0) {
        auto& g = gb[p][ib];
        check(g.size() == c.c[p].size(), "number of chosen bits");
        for (size_t i = 0; i < g.size() && !failed(); i++) { check(g[i] == (c.c[p][i] ? c.b1[q][i] : c.b0[q][i]), "bit transfer: the receiver did not get the chosen message", [&] { return "party " + str(p) + " transfer " + str(i) + " of " + str(g.size()); }); h = mix(h, g[i]); }
        evals(g.size());
      } else {
        auto& g = gu[p][iu];
        check(g.size() == c.c[p].size(), "number of chosen numbers");
        for (size_t i = 0; i < g.size() && !failed(); i++) { check(g[i] == (c.c[p][i] ? c.u1[q][i] : c.u0[q][i]), "number transfer: the receiver did not get the chosen message", [&] { return "party " + str(p) + " transfer " + str(i) + " of " + str(g.size()); }); h = mix(h, g[i]); }
        evals(g.size());
      }
    }
    (c.kind == 0 ? ib : iu)++;
  }
  state(h);
  if (!masks || failed()) return;
  // all messages were zero, so what went over the wire are the masks: none may serve twice
  for (int p = 0; p < 2; p++) {
    auto v = w->view(p);
    std::set<uint64_t> seen;
    for (size_t i = 0; i + 8 <= v.size(); i += 8) {
      bool small = true;
      uint64_t q; memcpy(&q, v.data() + i, 8);
      for (int k = 0; k < 8; k++) small &= v[i + k] < 2;
      if (small && q != 0) continue;  // masked choice bits
      check(q != 0, "number transfer: a message is sent in the clear");
      check(seen.insert(q).second, "number transfer: two messages have the same mask");
    }
  }
}
static std::function<std::shared_ptr<otns::IRandomCorrelatedObliviousTransferFactory>(int)> ideal(uint64_t salt) {
  auto a = std::make_shared<RcotHub>(), b = std::make_shared<RcotHub>();
  a->salt = 17 + salt; b->salt = 9191 + salt;
  return [a, b](int p) { return std::static_pointer_cast<otns::IRandomCorrelatedObliviousTransferFactory>(std::make_shared<DirFactory>(p == 0 ? a : b, p == 0 ? b : a)); };
}
static void fillBits(Call& c, int n) {
  c.kind = 0;
  for (int p = 0; p < 2; p++) for (int i = 0; i < n; i++) { int v = choose(8, "messages and choice"); c.b0[p].push_back(v & 1); c.b1[p].push_back(v >> 1 & 1); c.c[p].push_back(v >> 2); }
}
static void bidiSmallBody(int n, int salts) { uint64_t salt = choose(salts, "keys"); Call c; fillBits(c, n); bidiRun({c}, ideal(salt), false); }
static void bidiLongBody(bool numbers) {
  static const std::vector<int> len = {0, 1, 2, 63, 64, 65, 127, 128, 129, 1000};
  static const std::vector<uint64_t> alpha = {0, 1, 1ull << 63, ~0ull, 5};
  int n = len[choose(len.size(), "length")], shift = choose(thorough ? 8 : 3, "arrangement");
  Call c; c.kind = numbers;
  for (int p = 0; p < 2; p++) for (int i = 0; i < n; i++) {
    uint64_t t = mix(mix(shift, p), i);
    c.c[p].push_back(t & 1);
    if (numbers) { c.u0[p].push_back(alpha[(t >> 8) % 5]); c.u1[p].push_back(i % 3 ? alpha[(t >> 16) % 5] : mix(t, 7)); }
    else { c.b0[p].push_back(t >> 8 & 1); c.b1[p].push_back(t >> 9 & 1); }
  }
  note("length " + str(n));
  bidiRun({c}, ideal(shift), false);
}
static void bidiNumberBody() {
  static const std::vector<uint64_t> alpha = {0, 1, 1ull << 63, ~0ull, 5};
  Call c; c.kind = 1;
  for (int p = 0; p < 2; p++) { c.u0[p].push_back(alpha[choose(5, "message 0")]); c.u1[p].push_back(alpha[choose(5, "message 1")]); c.c[p].push_back(chooseBool("choice")); }
  bidiRun({c}, ideal(3), false);
}
static void bidiMixedBody(int calls) {
  std::vector<Call> cs(1 + choose(calls, "calls"));
  int k = 0;
  for (auto& c : cs) {
    c.kind = choose(2, "kind");
    int n = choose(4, "length");
    k++;
    for (int p = 0; p < 2; p++) for (int i = 0; i < n; i++) {
      uint64_t t = mix(mix(k, p), i);
      c.c[p].push_back(t & 1);
      if (c.kind) { c.u0[p].push_back(mix(t, 7)); c.u1[p].push_back(mix(t, 8)); } else { c.b0[p].push_back(t >> 8 & 1); c.b1[p].push_back(t >> 9 & 1); }
    }
  }
  bidiRun(cs, ideal(0), false);
}
static void bidiMaskBody() {
  Call c; c.kind = 1;
  int n = 64;
  int pat = choose(4, "choices");
  for (int p = 0; p < 2; p++) { c.u0[p].assign(n, 0); c.u1[p].assign(n, 0); for (int i = 0; i < n; i++) c.c[p].push_back(pat < 2 ? pat : (mix(pat, i + p * n) & 1)); }
  bidiRun({c, c}, ideal(pat), false, true);
}
static void bidiSchedBody(int kind) {
  Call c; c.kind = kind;
  for (int p = 0; p < 2; p++) { c.c[p].push_back(p); if (kind) { c.u0[p].push_back(3 + p); c.u1[p].push_back(8 + p); } else { c.b0[p].push_back(p); c.b1[p].push_back(!p); } }
  bidiRun({c}, ideal(1), true);
}
static void bidiStackBody(bool ferret) {
  Call c, d; c.kind = 0; d.kind = 1;
  int n = ferret ? 40 : 130;
  for (int p = 0; p < 2; p++) for (int i = 0; i < n; i++) {
    uint64_t t = mix(mix(77, p), i);
    c.c[p].push_back(t & 1); d.c[p].push_back(t >> 1 & 1);
    c.b0[p].push_back(t >> 8 & 1); c.b1[p].push_back(t >> 9 & 1); d.u0[p].push_back(mix(t, 7)); d.u1[p].push_back(mix(t, 8));
  }
  bidiRun({c, d, c}, [&](int) -> std::shared_ptr<otns::IRandomCorrelatedObliviousTransferFactory> {
    if (ferret) return ot::createFerretRcotFactory(64, 10, 4);
    return std::shared_ptr<otns::IRandomCorrelatedObliviousTransferFactory>(ot::createClassicRcotFactory());
  }, false);
}
// base correlations for ferret: receiver bits given
struct Base { Ms s, r; };
static Base baseFor(const std::vector<bool>& bits, M delta, uint64_t salt) {
  Base b;
  for (size_t i = 0; i < bits.size(); i++) {
    auto k = one(1, mix(salt, i))[0];
    if (lsb(k)) k = x(k, m128(0, 1));
    b.s.push_back(k); b.r.push_back(bits[i] ? x(k, delta) : k);
  }
  return b;
}
static size_t position(const std::vector<bool>& bits, size_t from, size_t n) { size_t p = 0; for (size_t i = 0; i < n; i++) p = 2 * p + !bits[from + i]; return p; }
static void points(const char* what, const Ms& s, const Ms& r, M delta, const std::vector<bool>& bits, size_t depth, size_t count) {
  size_t len = size_t(1) << depth;
  check(s.size() == len * count && r.size() == len * count, std::string(what) + ": number of results");
  if (failed()) return;
  std::set<std::pair<uint64_t, uint64_t>> keys;
  for (size_t k = 0; k < count; k++) {
    size_t pos = position(bits, k * depth, depth);
    for (size_t i = 0; i < len; i++) {
      auto a = s[k * len + i], b = r[k * len + i];
      check(lsb(a) == 0, std::string(what) + ": lowest bit of a sender key is set");
      check(eq128(b, i == pos ? x(a, delta) : a), std::string(what) + (i == pos ? ": the chosen point does not differ by the difference" : ": a point other than the chosen one differs"),
            [&] { return "choice bits " + vec(bits) + " point " + str(i) + " of tree " + str(k); });
      if (failed()) return;
      keys.insert({hi64(a), lo64(a)});
    }
  }
  check(keys.size() == len * count, std::string(what) + ": a key was handed out twice");
  evals(2 * len * count);
}
static void spcotBody(int maxDepth, int maxCalls) {
  M delta = pickDelta();
  int calls = 1 + choose(maxCalls, "calls"), depth = choose(maxDepth + 1, "depth");
  std::vector<std::vector<bool>> bits(calls);
  for (int k = 0; k < calls; k++) for (int i = 0; i < depth; i++) bits[k].push_back(chooseBool("choice"));
  std::vector<Ms> out[2];
  std::vector<Base> base;
  for (int k = 0; k < calls; k++) base.push_back(baseFor(bits[k], delta, k + 1));
  auto w = std::make_shared<World>();
  parties(2, [&](int p) {
    std::unique_ptr<IPartyCommunicationAgent> a = w->agent(p, 1 - p);
    fer::SinglePointCotFactory f;
    auto c = f.create(a);
    if (p == 0) c->senderInit(delta); else c->receiverInit();
    for (int k = 0; k < calls; k++) out[p].push_back(p == 0 ? c->senderExtend(std::move(base[k].s)) : c->receiverExtend(std::move(base[k].r)));
  });
  if (failed()) return;
  check(w->drained(), "data left in the channel");
  std::set<uint64_t> firsts;
  for (int k = 0; k < calls && !failed(); k++) { points("single point", out[0][k], out[1][k], delta, bits[k], depth, 1); if (!failed()) check(firsts.insert(hi64(out[0][k][0])).second, "single point: two extensions give the same keys"); }
  uint64_t h = depth;
  for (auto& v : bits) for (bool b : v) h = mix(h, b);
  state(mix(h, lo64(delta)));
}
static void mpcotBody(bool big) {
  M delta = pickDelta();
  static const std::vector<std::pair<int, int>> cfg = {{1, 1}, {2, 1}, {4, 2}, {8, 2}, {4, 4}, {8, 1}, {16, 4}, {6, 3}, {12, 3}};
  auto [len, weight] = cfg[choose(big ? cfg.size() : 5, "length and weight")];
  int depth = 0;
  while ((weight << depth) < len) depth++;
  int need = depth * weight;
  int calls = 1 + choose(need <= 4 ? 2 : 1, "calls");
  std::vector<std::vector<bool>> bits(calls);
  for (int k = 0; k < calls; k++) for (int i = 0; i < need; i++) bits[k].push_back(chooseBool("choice"));
  std::vector<Base> base;
  for (int k = 0; k < calls; k++) base.push_back(baseFor(bits[k], delta, k + 1));
  std::vector<Ms> out[2];
  int needs[2] = {-1, -1};
  auto w = std::make_shared<World>();
  parties(2, [&](int p) {
    std::unique_ptr<IPartyCommunicationAgent> a = w->agent(p, 1 - p);
    fer::RegularErrorMultiPointCotFactory f(std::make_unique<fer::SinglePointCotFactory>());
    auto c = f.create(a);
    if (p == 0) c->senderInit(delta, len, weight); else c->receiverInit(len, weight);
    needs[p] = c->getBaseCotNeeds();
    for (int k = 0; k < calls; k++) out[p].push_back(p == 0 ? c->senderExtend(std::move(base[k].s)) : c->receiverExtend(std::move(base[k].r)));
  });
  if (failed()) return;
  check(needs[0] == need && needs[1] == need, "multi point: number of base transfers asked for", [&] { return str(needs[0]); });
  check(w->drained(), "data left in the channel");
  for (int k = 0; k < calls && !failed(); k++) points("multi point", out[0][k], out[1][k], delta, bits[k], depth, weight);
  uint64_t h = mix(len, weight);
  for (auto& v : bits) for (bool b : v) h = mix(h, b);
  state(mix(h, lo64(delta)));
}
static void mpcotBadBody() {
  int what = choose(3, "mistake");
  bool invalid = false;
  auto w = std::make_shared<World>();
  run([&] {
    std::unique_ptr<IPartyCommunicationAgent> a = w->agent(0, 1);
    fer::RegularErrorMultiPointCotFactory f(std::make_unique<fer::SinglePointCotFactory>());
    try {
      auto c = f.create(a);
      int have = what == 0 ? 0 : choose(8, "base transfers");
      if (what == 0) { c->senderInit(m128(1, choose(2, "difference") ? ~1ull : 0), 8, 2); }
      else {
        if (have == 4) { invalid = true; return; }
        if (what == 1) { c->senderInit(m128(1, 1), 8, 2); c->senderExtend(one(have, 3)); } else { c->receiverInit(8, 2); c->receiverExtend(one(have, 3)); }
      }
    } catch (const std::invalid_argument&) { invalid = true; }
  });
  check(invalid, what == 0 ? "multi point: a difference with an even lowest bit is accepted" : "multi point: a wrong number of base transfers is accepted");
  state(what); evals(1);
}
static const std::vector<std::array<int, 3>> kParams = {{16, 4, 2}, {8, 2, 1}, {64, 10, 4}, {32, 3, 16}, {96, 11, 3}, {1024, 100, 8}};
static void extenderBody() {
  M delta = pickDelta();
  auto pr = kParams[choose(kParams.size(), "parameters")];
  int depth = 0;
  while ((pr[2] << depth) < pr[0]) depth++;
  int need = depth * pr[2] + pr[1];
  int pattern = choose(thorough ? 66 : 10, "choice bits"), calls = 1 + choose(2, "calls");
  std::vector<bool> bits(need);
  for (int i = 0; i < need; i++) bits[i] = pattern == 0 ? false : pattern == 1 ? true : pattern < 6 ? (mix(pattern, i) & 1) : i == (pattern - 6) * std::max(1, need / (thorough ? 60 : 4)) % need;
  std::vector<Ms> out[2];
  int needs[2] = {-1, -1}, sizes[2];
  std::vector<Base> base;
  for (int k = 0; k < calls; k++) base.push_back(baseFor(bits, delta, k + 1));
  auto w = std::make_shared<World>();
  parties(2, [&](int p) {
    fer::RcotExtenderFactory f(std::make_unique<fer::TenLocalLinearMatrixMultiplierFactory>(), std::make_unique<fer::RegularErrorMultiPointCotFactory>(std::make_unique<fer::SinglePointCotFactory>()));
    auto e = f.create();
    needs[p] = p == 0 ? e->senderInit(delta, pr[0], pr[1], pr[2]) : e->receiverInit(pr[0], pr[1], pr[2]);
    sizes[p] = e->getBaseCotSize();
    e->setCommunicationAgent(w->agent(p, 1 - p));
    for (int k = 0; k < calls; k++) out[p].push_back(p == 0 ? e->senderExtendRcot(std::move(base[k].s)) : e->receiverExtendRcot(std::move(base[k].r)));
  });
  if (failed()) return;
  check(needs[0] == need && needs[1] == need && sizes[0] == need && sizes[1] == need, "extender: number of base transfers asked for");
  check(w->drained(), "data left in the channel");
  std::vector<int64_t> want(calls, pr[0]);
  checkRcot("extender", out[0], out[1], delta, want, pr[1] >= 10, ~size_t(0));
}
static void extendedBody(bool stack) {
  M delta = pickDelta();
  auto pr = stack ? std::array<int, 3>{64, 10, 4} : kParams[choose(5, "parameters")];
  int depth = 0;
  while ((pr[2] << depth) < pr[0]) depth++;
  int64_t k = pr[0] - (depth * pr[2] + pr[1]);
  if (k <= 0) { assume(false); }
  std::vector<int64_t> from = {0, 1, k - 1, k, k + 1, 2 * k + 1};
  auto sizes = pickSizes(from, stack ? (thorough ? 3 : 2) : thorough ? 4 : 3);
  auto hub = std::make_shared<RcotHub>();
  std::vector<Ms> out[2];
  std::pair<uint64_t, uint64_t> tr[2];
  auto w = std::make_shared<World>();
  parties(2, [&](int p) {
    std::shared_ptr<otns::IRandomCorrelatedObliviousTransferFactory> f;
    if (stack) f = ot::createFerretRcotFactory(pr[0], pr[1], pr[2]);
    else f = std::make_shared<ot::ExtenderBasedRandomCorrelatedObliviousTransferFactory>(
           std::make_unique<FlexFactory>(hub), std::make_unique<fer::RcotExtenderFactory>(std::make_unique<fer::TenLocalLinearMatrixMultiplierFactory>(), std::make_unique<fer::RegularErrorMultiPointCotFactory>(std::make_unique<fer::SinglePointCotFactory>())), pr[0], pr[1], pr[2]);
    auto t = p == 0 ? f->create(delta, w->agent(p, 1 - p)) : f->create(w->agent(p, 1 - p));
    for (auto n : sizes) out[p].push_back(t->rcot(n));
    tr[p] = t->getTrafficStatistics();
  });
  if (failed()) return;
  sameTraffic(tr[0], tr[1]);
  check(w->drained(), "data left in the channel");
  checkRcot("extended transfer", out[0], out[1], delta, sizes, pr[1] >= 10, 1000);
}
// the extension as its user sees it: what is handed out, and what seeds later extensions
struct BaseLog { std::vector<std::vector<uint64_t>> base; uint64_t next = 1000; };
class LoggedExtender final : public fer::IRcotExtender {
 public:
  LoggedExtender(std::shared_ptr<BaseLog> l, int need, int give) : l_(l), need_(need), give_(give) {}
  int senderInit(M, int64_t, int64_t, int64_t) override { return need_; }
  int receiverInit(int64_t, int64_t, int64_t) override { return need_; }
  void setCommunicationAgent(std::unique_ptr<IPartyCommunicationAgent>) override {}
  int getBaseCotSize() const override { return need_; }
  Ms senderExtendRcot(Ms&& b) override { return go(b, 0); }
  Ms receiverExtendRcot(Ms&& b) override { return go(b, 1); }
  std::pair<uint64_t, uint64_t> getTrafficStatistics() const override { return {11 * l_->base.size(), 13}; }
 private:
  Ms go(Ms& b, int role) {
    check(role == role_ || role_ < 0, "extender: both roles used"); role_ = role;
    std::vector<uint64_t> v; for (auto e : b) v.push_back(lo64(e)); l_->base.push_back(v);
    check((int)b.size() == need_, "extender: number of base transfers given");
    Ms r; for (int i = 0; i < give_; i++) r.push_back(m128(7, l_->next++));
    return r;
  }
  std::shared_ptr<BaseLog> l_; int need_, give_, role_ = -1;
};
static void extensionBasesBody() {
  int need = std::vector<int>{1, 2, 3, 8}[choose(4, "base size")], k = std::vector<int>{1, 2, 5, 9}[choose(4, "gain")], role = choose(2, "role");
  auto sizes = pickSizes({0, 1, k - 1, k, k + 1, 2 * k + 1, need, 4 * k + need}, thorough ? 4 : 3);
  auto log = std::make_shared<BaseLog>();
  ot::ExtenderBasedRandomCorrelatedObliviousTransfer t(role ? fbpcf::engine::util::Role::receiver : fbpcf::engine::util::Role::sender, std::make_unique<LoggedExtender>(log, need, need + k));
  check(t.getNumberOfBaseRcotResultsNeeded() == need, "extension: base transfers asked for");
  Ms first; for (int i = 0; i < need; i++) first.push_back(m128(7, 1 + i));
  t.setBaseRcotResults(std::move(first));
  std::set<uint64_t> out, seeds;
  auto what = [&] { std::string r = "base " + str(need) + " gain " + str(k) + " calls"; for (auto z : sizes) r += " " + str(z); return r; };
  for (auto z : sizes) {
    auto r = t.rcot(z);
    check((int64_t)r.size() == z, "extension: number of transfers", what);
    for (auto e : r) check(lo64(e) >= 1000 && lo64(e) < log->next && out.insert(lo64(e)).second, "extension: a transfer was handed out twice or is none", what);
  }
  for (size_t i = 0; i < log->base.size(); i++) for (auto e : log->base[i]) {
    check(seeds.insert(e).second, "extension: a base transfer seeds two extensions", what);
    check(!out.count(e), "extension: a transfer was handed out and seeds an extension", what);
    check(i == 0 ? e < 1000 : e >= 1000, "extension: seeded by something that is no transfer", what);
  }
  check(t.getTrafficStatistics() == std::pair<uint64_t, uint64_t>(11 * log->base.size(), 13), "extension: traffic");
  evals(out.size()); state(mix(mix(need, k), mix(out.size(), log->base.size())));
}
static void matrixBody() {
  int n = 1 + choose(thorough ? 40 : 18, "size"), seed = choose(thorough ? 6 : 3, "seed");
  static const std::vector<int64_t> lens = {0, 1, 3, 4, 5, 8, 127, 300};
  int64_t len = lens[choose(lens.size(), "length")];
  fer::TenLocalLinearMatrixMultiplierFactory f;
  auto m = f.create(), m2 = f.create();
  M sd = one(1, seed + 100)[0];
  // columns of the matrix, read off with unit vectors; then any other vector must give their combination
  std::vector<Ms> col;
  for (int j = 0; j < n; j++) { Ms v(n, kZero); v[j] = m128(0, 1); col.push_back(m->multiplyWithRandomMatrix(sd, len, v)); check((int64_t)col.back().size() == len, "matrix: number of results"); if (failed()) return; }
  auto v = one(n, 5);
  auto r = m2->multiplyWithRandomMatrix(sd, len, v);
  check((int64_t)r.size() == len, "matrix: number of results");
  for (int64_t i = 0; i < len && !failed(); i++) {
    M e = kZero;
    for (int j = 0; j < n; j++) {
      check(eq128(col[j][i], kZero) || eq128(col[j][i], m128(0, 1)), "matrix: an entry is neither 0 nor 1");
      if (lsb(col[j][i])) e = x(e, v[j]);
    }
    check(eq128(r[i], e), "matrix: not the same linear map for the same seed", [&] { return "size " + str(n) + " row " + str(i); });
  }
  if (len == 300 && n >= 2) {
    for (int j = 0; j < n && !failed(); j++) { bool any = false; for (auto e : col[j]) any |= lsb(e); check(any, "matrix: an input takes no part in the result"); }
    auto o = m->multiplyWithRandomMatrix(one(1, seed + 101)[0], len, v);
    bool same = true;
    for (int64_t i = 0; i < len; i++) same &= eq128(o[i], r[i]);
    check(!same, "matrix: another seed gives the same matrix");
  }
  evals(len * n); state(mix(mix(n, seed), len));
}

int main(int argc, char** argv) {
  std::vector<Suite> s;
  auto add = [&](std::string n, std::function<void()> b, int bound = 0, int bt = -1, bool th = false) { Suite q; q.name = n; q.body = [b] { bnCorners = false; bnCount = 5; b(); }; q.bound = bound; q.boundThorough = bt; q.thoroughOnly = th; s.push_back(q); };
  add("base-all-choices", [] { npBody(thorough ? 5 : 3, 2, false); });
  add("base-corner-exponents", [] { npBody(2, thorough ? 2 : 1, true); }, 1, 2);
  add("correlated-differences", [] { iknpDeltaBody(true); });
  add("correlated-even-difference", iknpEvenBody);
  add("correlated-sizes", [] { auto z = pickSizes(kSizes, thorough ? 3 : 2); M d = pickDelta(); iknpBody(z, d, false, 2); });
  add("correlated-real-base", [] { auto z = pickSizes({1, 128, 130}, thorough ? 2 : 1); M d = pickDelta(); iknpBody(z, d, true, 1); });
  add("chosen-bits-1", [] { bidiSmallBody(1, 8); });
  add("chosen-bits-2", [] { bidiSmallBody(2, 2); });
  add("chosen-bits-long", [] { bidiLongBody(false); });
  add("chosen-numbers", bidiNumberBody);
  add("chosen-numbers-long", [] { bidiLongBody(true); });
  add("chosen-mixed-calls", [] { bidiMixedBody(thorough ? 4 : 3); });
  add("chosen-masks", bidiMaskBody);
  add("chosen-schedules-bits", [] { bidiSchedBody(0); }, 2, 3);
  add("chosen-schedules-numbers", [] { bidiSchedBody(1); }, 2, 3);
  add("chosen-full-stack", [] { bidiStackBody(choose(2, "stack")); });
  add("single-point", [] { spcotBody(thorough ? 6 : 4, 1); });
  add("single-point-repeated", [] { spcotBody(thorough ? 3 : 2, 3); });
  add("multi-point", [] { mpcotBody(thorough); });
  add("multi-point-misuse", mpcotBadBody);
  add("extender", extenderBody);
  add("extended-refills", [] { extendedBody(false); });
  add("extended-full-stack", [] { extendedBody(true); });
  add("extension-bases", extensionBasesBody);
  add("matrix", matrixBody);
  return harnessMain(argc, argv, "C14", s);
}
