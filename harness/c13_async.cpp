// C13: background generation under every schedule: nothing lost, doubled, reordered or left running; the order of correlated
// steps depends on the requests only; failures reach a caller and end neither the process nor anyone's progress.
#include <future>
#include <memory>
#include <thread>
#include "fbpcf/engine/tuple_generator/ArithmeticTupleGeneratorFactory.h"
#include "fbpcf/engine/tuple_generator/ProductShareGeneratorFactory.h"
#include "fbpcf/engine/tuple_generator/TupleGeneratorFactory.h"
#include "fbpcf/engine/tuple_generator/TwoPartyTupleGenerator.h"
#include "fbpcf/engine/tuple_generator/TwoPartyTupleGeneratorFactory.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/RcotBasedBidirectionObliviousTransferFactory.h"
#include "fbpcf/engine/util/AesPrgFactory.h"
#include "fbpcf/engine/util/AsyncBuffer.h"
#include "mc/mc.h"
#include "mc/net.h"
#include "mc/ot.h"
#include "mc/refaes.h"
using namespace mc;
namespace tg = fbpcf::engine::tuple_generator;
namespace ut = fbpcf::engine::util;
using G = tg::ITupleGenerator;
#ifdef MC_TSAN
static const bool races = true;   // data races are looked for: fewer cases, every schedule step costs more
#else
static const bool races = false;
#endif
static RunOpts ex(bool delay = false) { RunOpts o; o.explore = true; o.delay = delay; return o; }
struct Broken : std::runtime_error { Broken() : std::runtime_error("generation failed") {} };
static uint32_t pickSize(uint32_t b, int n) { const uint32_t c[] = {b, 1, b + 1, 0, 2 * b + 1}; return c[choose(n, "request")]; }

// ---- the buffer itself --------------------------------------------------------------------------------------------
struct Meter { int started = 0, running = 0, ended = 0; };
static void bufferBody(int maxReq, bool deferred) {
  uint32_t b = 1 + choose(3, "buffer");
  std::vector<uint32_t> rs(choose(maxReq + 1, "requests"));
  for (auto& r : rs) r = pickSize(b, 5);
  int kind = deferred ? 1 + choose(3, "future") : 0;  // how generations are run: a thread, on demand, at once, a thread the future does not own
  note("buffer " + str(b) + " requests " + vec(rs) + " kind " + str(kind));
  Meter m;
  std::vector<uint64_t> sizes;
  std::vector<int> got;
  std::vector<size_t> lens;
  run([&] {
    auto gen = [&](uint64_t size) {
      int call = m.started++;
      { Quiet q; sizes.push_back(size); }
      auto work = [&m, call](uint64_t size) {
        { Quiet q; m.running++; }
        yieldPoint("generating");
        std::vector<int> v;
        for (uint64_t i = 0; i < size; i++) v.push_back(call * 100 + (int)i);
        yieldPoint("generating");
        { Quiet q; m.running--; m.ended++; }
        return v;
      };
      if (kind == 0) return std::async(work, size);
      if (kind == 1) return std::async(std::launch::deferred, work, size);
      if (kind == 3) {
        auto p = std::make_shared<std::promise<std::vector<int>>>();
        auto f = p->get_future();
        std::thread([p, work, size] { p->set_value(work(size)); }).detach();
        return f;
      }
      std::promise<std::vector<int>> p; p.set_value(work(size)); return p.get_future();
    };
    {
      ut::AsyncBuffer<int> buf(b, gen);
      for (auto r : rs) { auto v = buf.getData(r); lens.push_back(v.size()); got.insert(got.end(), v.begin(), v.end()); }
    }
    int still = 0;
    { Quiet q; still = m.running; }
    check(still == 0, "a generation is still running after the buffer is gone");
  }, ex());
  if (failed()) return;
  for (size_t i = 0; i < rs.size(); i++) check(lens[i] == rs[i], "number of items", [&] { return str(lens[i]); });
  for (size_t i = 0; i < got.size(); i++) check(got[i] == int(i / b * 100 + i % b), "items lost, doubled or out of order", [&] { return "item " + str(i) + " is " + str(got[i]); });
  for (auto z : sizes) check(z == b, "size of a generation");
  evals(got.size() + 1); state(mix(mix(b, hashStr(vec(rs))), mix(m.started, kind)));
}
static void bufferFailureBody(int maxReq) {
  uint32_t b = 1 + choose(2, "buffer");
  int bad = choose(4, "generation that fails"), how = choose(3, "kind");  // while running, when started, in an already finished future
  std::vector<uint32_t> rs(choose(maxReq + 1, "requests"));
  for (auto& r : rs) r = pickSize(b, 3);
  note("buffer " + str(b) + " generation " + str(bad) + " fails, kind " + str(how) + " requests " + vec(rs));
  int started = 0; size_t got = 0; bool seen = false, ctor = false; int running = 0;
  std::vector<int> items;
  run([&] {
    auto gen = [&](uint64_t size) {
      int call = started++;
      if (how == 1 && call == bad) throw Broken();
      if (how == 2 && call == bad) { std::promise<std::vector<int>> p; p.set_exception(std::make_exception_ptr(Broken())); return p.get_future(); }
      return std::async([&running, call, bad, how](uint64_t size) {
        struct In { int& r; In(int& x) : r(x) { Quiet q; r++; } ~In() { Quiet q; r--; } } in(running);
        yieldPoint("generating");
        if (how == 0 && call == bad) throw Broken();
        std::vector<int> v;
        for (uint64_t i = 0; i < size; i++) v.push_back(call * 100 + (int)i);
        return v;
      }, size);
    };
    try {
      ut::AsyncBuffer<int> buf(b, gen);
      ctor = true;
      try { for (auto r : rs) { auto v = buf.getData(r); got += v.size(); items.insert(items.end(), v.begin(), v.end()); } } catch (const std::exception&) { seen = true; }
    } catch (const Broken&) { check(!ctor, "destroying a buffer throws"); check(how == 1 && bad == 0, "failure of the first generation"); seen = true; }
    int still; { Quiet q; still = running; }
    check(still == 0, "a generation is still running after the buffer is gone");
  }, ex());
  if (failed()) return;
  size_t want = 0;
  for (auto r : rs) want += r;
  // everything up to the failing generation is delivered; whoever needs more is told. (A failure to start may be told one generation early.)
  check(got <= (size_t)bad * b, "items of a failed generation", [&] { return str(got); });
  check(seen || got == want, "a failure is not reported");
  if (want <= size_t(std::max(0, how == 1 ? bad - 1 : bad)) * b && !(how == 1 && bad == 0)) check(!seen && got == want, "a failure that nobody met is reported");
  for (size_t i = 0; i < items.size(); i++) check(items[i] == int(i / b * 100 + i % b), "items lost, doubled or out of order");
  evals(3); state(mix(mix(b * 16 + bad * 4 + how, hashStr(vec(rs))), got * 2 + seen));
}

// ---- random generator ----------------------------------------------------------------------------------------------
static void prgBody(int maxReq) {
  int buf = 1 + choose(2, "buffer");
  std::vector<int> kinds(choose(maxReq + 1, "requests")), ns;
  for (auto& k : kinds) { k = choose(3, "kind"); const int z[] = {1, 16 * buf, 16 * buf + 1}; ns.push_back(z[choose(3, "size")]); }
  note("buffer " + str(buf) + " kinds " + vec(kinds) + " sizes " + vec(ns));
  std::vector<unsigned char> got;
  __m128i seed = m128(0x1122334455667788ull, 0x99aabbccddeeff00ull);
  run([&] {
    ut::AesPrg prg(seed, buf);
    for (size_t i = 0; i < kinds.size(); i++) {
      if (kinds[i] == 0) { auto v = prg.getRandomBytes(ns[i]); got.insert(got.end(), v.begin(), v.end()); }
      else if (kinds[i] == 1) { auto v = prg.getRandomBits(8 * ns[i]); for (int j = 0; j < ns[i]; j++) { int x = 0; for (int k = 0; k < 8; k++) x |= v[8 * j + k] << k; got.push_back(x); } }
      else { auto v = prg.getRandomUInt64(ns[i]); for (auto x : v) for (int k = 7; k >= 0; k--) got.push_back(x >> 8 * k); }
    }
  }, ex());
  if (failed()) return;
  auto key = refaes::bytes(seed);
  for (size_t i = 0; i < got.size(); i += 16) {
    auto blk = refaes::encrypt(key, refaes::bytes(m128(0, i / 16)));
    for (size_t j = i; j < got.size() && j < i + 16; j++) check(got[j] == blk[j - i], "random stream", [&] { return "byte " + str(j); });
  }
  evals(got.size() + 1); state(mix(buf, mix(hashStr(vec(kinds)), hashStr(vec(ns)))));
}

// ---- two-party tuples ----------------------------------------------------------------------------------------------
// correlated transfers that notice overlapping use and, when asked to, meet the peer for every call
struct Wire { uint64_t salt = 0; __m128i delta{}; };
class WatchedRcot final : public otns::IRandomCorrelatedObliviousTransfer {
 public:
  WatchedRcot(std::shared_ptr<Wire> w, bool sender, std::unique_ptr<IPartyCommunicationAgent> peer, int failAt) : w_(w), sender_(sender), peer_(std::move(peer)), failAt_(failAt) {}
  std::vector<__m128i> rcot(int64_t n) override {
    { Quiet q; check(!busy_, "one correlated transfer is used by two generations at once"); busy_ = true; }
    uint64_t at = next_;                    // instrumented: unordered use is a data race
    yieldPoint("transfer");
    if (calls_++ == failAt_) { Quiet q; busy_ = false; throw Broken(); }
    if (peer_) {
      if (sender_) { peer_->sendSingleT<int64_t>(n); check(peer_->receiveSingleT<int64_t>() == n, "the parties run generation steps in different orders"); }
      else { int64_t m = peer_->receiveSingleT<int64_t>(); check(m == n, "the parties run generation steps in different orders"); peer_->sendSingleT<int64_t>(n); }
    }
    std::vector<__m128i> r;
    for (int64_t i = 0; i < n; i++) {
      uint64_t t = mix(mix(w_->salt + 5, 1), at + i + 1);
      auto k = m128(mix(t, 1), mix(t, 2) & ~1ull);
      if (!sender_ && (mix(t, 3) & 1)) k = _mm_xor_si128(k, w_->delta);
      r.push_back(k);
    }
    next_ = at + n;
    { Quiet q; busy_ = false; }
    return r;
  }
  std::pair<uint64_t, uint64_t> getTrafficStatistics() const override { return {0, 0}; }
  bool busy_ = false;
 private:
  std::shared_ptr<Wire> w_; bool sender_; std::unique_ptr<IPartyCommunicationAgent> peer_; int failAt_; int calls_ = 0; uint64_t next_ = 0;
};
struct Req { int kind; uint32_t n; };  // 0 bits, 1 one-to-many, 2 both
using CM = std::map<size_t, std::vector<G::CompositeBooleanTuple>>;
struct Got { std::vector<G::BooleanTuple> b; CM c; };
static std::string show(const std::vector<Req>& rs) { std::string s; for (auto& r : rs) s += " " + str("bmx"[r.kind]) + str(r.n); return s; }
static std::vector<Req> pickReqs(uint32_t b, int maxReq, int sizes) {
  std::vector<Req> rs(choose(maxReq + 1, "requests"));
  for (auto& r : rs) { r.kind = choose(3, "kind"); r.n = pickSize(b, sizes); }
  return rs;
}
static std::unique_ptr<tg::TwoPartyTupleGenerator> twoParty(int me, std::shared_ptr<Wire> w[2], uint64_t buf, Factory* f, int failS = -1, int failR = -1) {
  // party 0's sending transfer is party 1's receiving one
  std::unique_ptr<IPartyCommunicationAgent> a, b;
  if (f) { a = f->create(1 - me, ""); b = f->create(1 - me, ""); if (me) std::swap(a, b); }
  auto s = std::make_unique<WatchedRcot>(w[me], true, std::move(a), failS), r = std::make_unique<WatchedRcot>(w[1 - me], false, std::move(b), failR);
  return std::make_unique<tg::TwoPartyTupleGenerator>(std::move(s), std::move(r), w[me]->delta, std::make_shared<tg::TuplesMetricRecorder>(), buf);
}
static Got ask(G& g, const Req& r) {
  Got o;
  std::map<size_t, uint32_t> c{{3, r.n}};
  if (r.kind == 0) o.b = g.getBooleanTuple(r.n);
  else if (r.kind == 1) o.c = g.getCompositeTuple(c);
  else { auto p = g.getNormalAndCompositeBooleanTuples(r.n, c); o.b = std::move(p.first); o.c = std::move(p.second); }
  return o;
}
static uint64_t judge(const std::vector<Req>& rs, std::vector<std::vector<Got>>& out, int n, const std::string& what) {
  uint64_t h = 1;
  for (size_t k = 0; k < rs.size() && !failed(); k++) {
    size_t nb = rs[k].kind == 1 ? 0 : rs[k].n, nc = rs[k].kind == 0 ? 0 : rs[k].n;
    for (int p = 0; p < n; p++) {
      check(out[p][k].b.size() == nb, "number of tuples");
      if (rs[k].kind) check(out[p][k].c.count(3) && out[p][k].c.at(3).size() == nc, "number of one-to-many tuples");
      if (failed()) return 0;
    }
    for (size_t i = 0; i < nb; i++) {
      bool a = 0, b = 0, c = 0;
      for (int p = 0; p < n; p++) { auto& t = out[p][k].b[i]; a ^= t.getA(); b ^= t.getB(); c ^= t.getC(); h = mix(h, t.getA() * 4 + t.getB() * 2 + t.getC()); }
      check(c == (a && b), "tuples of the parties do not belong together", [&] { return "request " + str(k) + " of" + what; });
    }
    for (size_t i = 0; i < nc; i++) for (size_t j = 0; j < 3; j++) {
      bool a = 0, b = 0, c = 0;
      for (int p = 0; p < n; p++) { auto& t = out[p][k].c.at(3)[i]; a ^= t.getA(); b ^= t.getB()[j]; c ^= t.getC()[j]; h = mix(h, t.getA() * 4 + t.getB()[j] * 2 + t.getC()[j]); }
      check(c == (a && b), "one-to-many tuples of the parties do not belong together", [&] { return "request " + str(k) + " of" + what; });
    }
  }
  evals(rs.size());
  return h;
}
static void makeWires(std::shared_ptr<Wire> w[2]) {
  for (int k = 0; k < 2; k++) { w[k] = std::make_shared<Wire>(); w[k]->salt = 11 + k; w[k]->delta = m128(mix(k, 77), mix(k, 78) | 1); }
}
// one party under every schedule; the other one ran under the default schedule with the same requests
static void oneSideBody(int maxReq, int maxBuf, int sizes) {
  uint32_t b = 1 + choose(maxBuf, "buffer");
  auto rs = pickReqs(b, maxReq, sizes);
  note("buffer " + str(b) + show(rs));
  std::shared_ptr<Wire> w[2];
  makeWires(w);
  std::vector<std::vector<Got>> out(2);
  for (int p = 1; p >= 0; p--)
    run([&] { auto t = twoParty(p, w, b, nullptr); for (auto& r : rs) out[p].push_back(ask(*t, r)); }, p ? RunOpts{} : ex(true));
  if (failed()) return;
  state(mix(judge(rs, out, 2, show(rs)), b));
}
// both parties under every schedule, meeting for every transfer
static void bothSidesBody(int maxReq, int maxBuf, int sizes) {
  uint32_t b = 1 + choose(maxBuf, "buffer");
  auto rs = pickReqs(b, maxReq, sizes);
  note("buffer " + str(b) + show(rs));
  std::shared_ptr<Wire> w[2];
  makeWires(w);
  auto net = std::make_shared<World>();
  std::vector<std::vector<Got>> out(2);
  parties(2, [&](int p) { Factory f(net, p); auto t = twoParty(p, w, b, &f); for (auto& r : rs) out[p].push_back(ask(*t, r)); }, ex(true));
  if (failed()) return;
  check(net->drained(), "data left in a channel");
  state(mix(judge(rs, out, 2, show(rs)), b));
}
// many steps: the queue of scheduled steps grows and wraps
static void manyStepsBody() {
  int kind = choose(4, "kind");
  std::vector<Req> rs;
  if (kind == 3) for (int i = 0; i < 700; i++) rs.push_back({2, 1});
  else for (int i = 0; i < 12; i++) rs.push_back({kind == 2 ? i % 2 : kind == 1 ? 2 : i / 6, 60u});
  note(kind == 3 ? "700 times bits and one-to-many" : show(rs));
  std::shared_ptr<Wire> w[2];
  makeWires(w);
  std::vector<std::vector<Got>> out(2);
  for (int p = 1; p >= 0; p--) run([&] { auto t = twoParty(p, w, 1, nullptr); for (auto& r : rs) out[p].push_back(ask(*t, r)); }, p ? RunOpts{} : ex(true));
  if (failed()) return;
  state(mix(judge(rs, out, 2, show(rs)), kind));
}
// a transfer fails: the request that needs it says so, and the generator can be given up
static void brokenTransferBody(int maxReq) {
  uint32_t b = 1 + choose(2, "buffer");
  int at = choose(5, "call that fails"), which = choose(2, "transfer");
  auto rs = pickReqs(b, maxReq, 3);
  note("buffer " + str(b) + " " + (which ? "receiving" : "sending") + " call " + str(at) + " fails" + show(rs));
  std::shared_ptr<Wire> w[2];
  makeWires(w);
  std::vector<std::vector<Got>> out(2);
  bool told = false;
  run([&] { auto t = twoParty(1, w, b, nullptr); for (auto& r : rs) out[1].push_back(ask(*t, r)); }, RunOpts{});
  run([&] {
    auto t = twoParty(0, w, b, nullptr, which ? -1 : at, which ? at : -1);
    try { for (auto& r : rs) out[0].push_back(ask(*t, r)); } catch (const std::exception&) { told = true; }
  }, ex(true));
  if (failed()) return;
  std::vector<Req> done(rs.begin(), rs.begin() + out[0].size());
  out[1].resize(done.size());
  check(told || done.size() == rs.size(), "a failure is not reported");
  uint64_t h = judge(done, out, 2, show(rs));
  state(mix(mix(h, b * 100 + at * 10 + which * 2 + told), done.size()));
}

// ---- generators over product shares ----------------------------------------------------------------------------------
static std::unique_ptr<tg::IProductShareGeneratorFactory> productFactory(int me, Factory& af, std::shared_ptr<RcotNet> net) {
  return std::make_unique<tg::ProductShareGeneratorFactory>(
      std::make_unique<ut::AesPrgFactory>(64), std::make_unique<otns::RcotBasedBidirectionObliviousTransferFactory>(me, af, std::make_shared<ChannelRcotFactory>(net)));
}
static void generalBody(int n, int maxReq, bool ints) {
  uint32_t b = 1 + choose(2, "buffer");
  std::vector<Req> rs(choose(maxReq + 1, "requests"));
  for (auto& r : rs) r = {0, pickSize(b, 3)};
  note(str(n) + " parties, buffer " + str(b) + show(rs));
  auto w = std::make_shared<World>();
  auto net = std::make_shared<RcotNet>();
  std::vector<std::vector<Got>> out(n);
  std::vector<std::vector<tg::IArithmeticTupleGenerator::IntegerTuple>> iout(n);
  parties(n, [&](int p) {
    Factory af(w, p);
    if (ints) {
      tg::ArithmeticTupleGeneratorFactory f(std::shared_ptr<tg::IProductShareGeneratorFactory>(productFactory(p, af, net)), std::make_unique<ut::AesPrgFactory>(64), b, p, n);
      auto t = f.create();
      for (auto& r : rs) { auto v = t->getIntegerTuple(r.n); check(v.size() == r.n, "number of integer tuples"); iout[p].insert(iout[p].end(), v.begin(), v.end()); }
    } else {
      tg::TupleGeneratorFactory f(std::shared_ptr<tg::IProductShareGeneratorFactory>(productFactory(p, af, net)), std::make_unique<ut::AesPrgFactory>(64), b, p, n, std::make_shared<fbpcf::util::MetricCollector>("p"));
      auto t = f.create();
      for (auto& r : rs) out[p].push_back(ask(*t, r));
    }
  }, ex(true));
  if (failed()) return;
  check(w->drained(), "data left in a channel");
  uint64_t h = n;
  if (!ints) h = judge(rs, out, n, show(rs));
  else for (size_t i = 0; i < iout[0].size(); i++) {
    uint64_t x = 0, y = 0, z = 0;
    for (int p = 0; p < n; p++) { x += iout[p][i].getA(); y += iout[p][i].getB(); z += iout[p][i].getC(); }
    check(z == x * y, "integer tuples of the parties do not belong together", [&] { return show(rs); });
    h = mix(h, z); evals(1);
  }
  state(mix(h, b));
}

int main(int argc, char** argv) {
  std::vector<Suite> s;
  auto add = [&](const char* n, std::function<void()> f, int bound, int boundT, bool thoroughOnly = false) { Suite x; x.name = n; x.body = f; x.bound = bound; x.boundThorough = boundT; x.thoroughOnly = thoroughOnly; s.push_back(x); };
  if (!races) {
    add("buffer", [] { bufferBody(thorough ? 4 : 3, false); }, 3, 4);
    add("buffer-other-futures", [] { bufferBody(thorough ? 4 : 3, true); }, 2, 3);
    add("buffer-failure", [] { bufferFailureBody(thorough ? 4 : 3); }, 3, 4);
    add("random-generator", [] { prgBody(thorough ? 3 : 2); }, 3, 4);
    add("one-side", [] { oneSideBody(2, 2, thorough ? 5 : 3); }, 2, 3);
    add("one-side-long", [] { oneSideBody(3, thorough ? 3 : 1, 2); }, 2, 2);
    add("both-sides", [] { bothSidesBody(thorough ? 2 : 1, thorough ? 2 : 1, 2); }, 2, 2);
    add("many-steps", manyStepsBody, 0, 0);
    add("both-sides-2", [] { bothSidesBody(2, 2, 2); }, 1, 1);
    add("broken-transfer", [] { brokenTransferBody(2); }, 1, 2);
    add("general-2", [] { generalBody(2, 2, false); }, 1, 2);
    add("general-3", [] { generalBody(3, 1, false); }, 1, 2);
    add("integer-2", [] { generalBody(2, 2, true); }, 1, 2);
    add("integer-3", [] { generalBody(3, 1, true); }, 1, 2);
  } else {
    add("buffer", [] { bufferBody(3, false); }, 2, 3);
    add("buffer-failure", [] { bufferFailureBody(2); }, 2, 3);
    add("random-generator", [] { prgBody(2); }, 2, 3);
    add("one-side", [] { oneSideBody(2, 2, 2); }, 1, 2);
    add("both-sides", [] { bothSidesBody(2, 1, 2); }, 1, 1);
    add("many-steps", manyStepsBody, 0, 0);
    add("broken-transfer", [] { brokenTransferBody(1); }, 1, 2);
    add("general-2", [] { generalBody(2, 1, false); }, 1, 2);
    add("integer-2", [] { generalBody(2, 1, true); }, 1, 2);
  }
  return harnessMain(argc, argv, "C13", s);
}
