// C12: tuples of every generator satisfy their product relation, whatever is requested in whatever order, and are new each time.
#include <algorithm>
#include <memory>
#include <set>
#include "fbpcf/engine/tuple_generator/ArithmeticTupleGeneratorFactory.h"
#include "fbpcf/engine/tuple_generator/DummyArithmeticTupleGeneratorFactory.h"
#include "fbpcf/engine/tuple_generator/DummyTupleGeneratorFactory.h"
#include "fbpcf/engine/tuple_generator/NullArithmeticTupleGeneratorFactory.h"
#include "fbpcf/engine/tuple_generator/NullTupleGeneratorFactory.h"
#include "fbpcf/engine/tuple_generator/ProductShareGeneratorFactory.h"
#include "fbpcf/engine/tuple_generator/TupleGeneratorFactory.h"
#include "fbpcf/engine/tuple_generator/TwoPartyTupleGeneratorFactory.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/RcotBasedBidirectionObliviousTransferFactory.h"
#include "fbpcf/engine/util/AesPrgFactory.h"
#include "mc/mc.h"
#include "mc/net.h"
#include "mc/ot.h"
using namespace mc;
namespace tg = fbpcf::engine::tuple_generator;
namespace ut = fbpcf::engine::util;
using G = tg::ITupleGenerator;
using BT = G::BooleanTuple;
using CT = G::CompositeBooleanTuple;
using CM = std::map<size_t, std::vector<CT>>;
using Sizes = std::map<size_t, uint32_t>;

struct Req { int kind; uint32_t n; Sizes c; };  // 0: bits, 1: one-to-many, 2: both in one call
struct Got { std::vector<BT> b; CM c; };

static std::unique_ptr<tg::IProductShareGeneratorFactory> productFactory(int me, Factory& af, std::shared_ptr<RcotNet> net) {
  return std::make_unique<tg::ProductShareGeneratorFactory>(
      std::make_unique<ut::AesPrgFactory>(64), std::make_unique<otns::RcotBasedBidirectionObliviousTransferFactory>(me, af, std::make_shared<ChannelRcotFactory>(net)));
}
enum Gen { TWO, MANY };
static std::unique_ptr<tg::ITupleGeneratorFactory> genFactory(Gen g, int me, int n, Factory& af, std::shared_ptr<RcotNet> net, uint64_t buf, std::shared_ptr<fbpcf::util::MetricCollector> mcx) {
  if (g == TWO) return std::make_unique<tg::TwoPartyTupleGeneratorFactory>(std::make_shared<ChannelRcotFactory>(net), af, me, buf, mcx);
  return std::make_unique<tg::TupleGeneratorFactory>(std::shared_ptr<tg::IProductShareGeneratorFactory>(productFactory(me, af, net)), std::make_unique<ut::AesPrgFactory>(64), buf, me, n, mcx);
}
static Got ask(G& g, const Req& r) {
  Got o;
  if (r.kind == 0) o.b = g.getBooleanTuple(r.n);
  else if (r.kind == 1) o.c = g.getCompositeTuple(r.c);
  else { auto p = g.getNormalAndCompositeBooleanTuples(r.n, r.c); o.b = std::move(p.first); o.c = std::move(p.second); }
  return o;
}
static std::string show(const std::vector<Req>& rs) {
  std::string s;
  for (auto& r : rs) { s += r.kind != 1 ? " bits:" + str(r.n) : ""; if (r.kind) { s += " many:{"; for (auto& kv : r.c) s += str(kv.first) + "x" + str(kv.second) + " "; s += "}"; } s += ";"; }
  return s;
}
// outputs of all parties for the same requests
static void judge(const std::vector<Req>& rs, std::vector<std::vector<Got>>& out, int n, uint64_t* h, bool fresh = true) {
  std::set<std::vector<bool>> wide[8];
  size_t wides = 0, at = 0;
  for (size_t k = 0; k < rs.size(); k++) {
    auto& r = rs[k];
    size_t want = r.kind == 1 ? 0 : r.n;
    for (int p = 0; p < n; p++) {
      check(out[p][k].b.size() == want, "number of tuples", [&] { return str(out[p][k].b.size()) + " for" + show(rs); });
      size_t kinds = r.kind == 0 ? 0 : r.c.size();
      check(out[p][k].c.size() == kinds, "sizes of one-to-many tuples", [&] { return show(rs); });
      if (r.kind) for (auto& kv : r.c) check(out[p][k].c.count(kv.first) && out[p][k].c.at(kv.first).size() == kv.second, "number of one-to-many tuples", [&] { return show(rs); });
      if (failed()) return;
    }
    for (size_t i = 0; i < want; i++, at++) {
      bool a = 0, b = 0, c = 0;
      for (int p = 0; p < n; p++) { auto& t = out[p][k].b[i]; a ^= t.getA(); b ^= t.getB(); c ^= t.getC(); *h = mix(*h, t.getA() * 4 + t.getB() * 2 + t.getC()); }
      check(c == (a && b), "a tuple's product is wrong", [&] { return "request " + str(k) + " tuple " + str(i) + " of" + show(rs); });
      if (failed()) return;
    }
    if (r.kind) for (auto& kv : r.c) for (size_t i = 0; i < kv.second; i++) {
      bool a = 0;
      std::vector<bool> b(kv.first), c(kv.first);
      for (int p = 0; p < n; p++) {
        auto& t = out[p][k].c.at(kv.first)[i];
        check(t.getB().size() == kv.first && t.getC().size() == kv.first, "width of a one-to-many tuple");
        if (failed()) return;
        a ^= t.getA();
        for (size_t j = 0; j < kv.first; j++) { b[j] = b[j] ^ t.getB()[j]; c[j] = c[j] ^ t.getC()[j]; *h = mix(*h, t.getB()[j] * 2 + t.getC()[j]); }
        if (kv.first >= 64) { std::vector<bool> key(t.getB().begin(), t.getB().begin() + 64); wide[p].insert(key); if (p == 0) wides++; }
      }
      for (size_t j = 0; j < kv.first; j++) {
        check(c[j] == (a && b[j]), "a one-to-many tuple's product is wrong", [&] { return "request " + str(k) + " width " + str(kv.first) + " tuple " + str(i) + " bit " + str(j) + " of" + show(rs); });
        if (failed()) return;
      }
    }
    evals(want + 1);
  }
  if (fresh) for (int p = 0; p < n; p++) check(wide[p].size() == wides, "a one-to-many tuple was handed out twice", [&] { return show(rs); });
}
static uint64_t metric(const std::shared_ptr<fbpcf::util::MetricCollector>& c, const char* name) {
  auto m = c->collectMetrics();
  return (uint64_t)m[c->getPrefix() + ".tuple_generator"][name].asInt();
}
static void runGen(Gen g, int n, uint64_t buf, const std::vector<Req>& rs, uint64_t salt, bool explore = false, bool realOrder = false) {
  auto w = std::make_shared<World>();
  auto net = std::make_shared<RcotNet>();
  net->salt = salt;
  std::vector<std::vector<Got>> out(n);
  std::vector<uint64_t> used(n), made(n);
  std::vector<std::array<uint64_t, 4>> comp(n);
  RunOpts o; o.explore = explore;
  parties(n, [&](int p) {
    Factory af(w, p);
    auto mcx = std::make_shared<fbpcf::util::MetricCollector>("p" + str(p));
    auto f = genFactory(g, p, n, af, net, buf, mcx);
    auto t = f->create();
    check(t->supportsCompositeTupleGeneration() == (g == TWO), "support of one-to-many tuples");
    for (auto& r : rs) out[p].push_back(ask(*t, r));
    used[p] = metric(mcx, "boolean_tuples_consumed");
    comp[p] = {metric(mcx, "composite_tuples_without_expansion_requested"), metric(mcx, "composite_tuples_requiring_expansion_requested"),
               metric(mcx, "mini_tuples_without_expansion_requested"), metric(mcx, "mini_tuples_requiring_expansion_requested")};
    t.reset();
    made[p] = metric(mcx, "boolean_tuples_generated");
  }, o);
  if (failed()) return;
  uint64_t h = mix(buf, n), bits = 0;
  std::array<uint64_t, 4> wantC{};
  for (auto& r : rs) { if (r.kind != 1) bits += r.n; if (r.kind) for (auto& kv : r.c) { int e = kv.first > 128; wantC[e] += kv.second; wantC[2 + e] += kv.second * kv.first; } }
  for (int p = 0; p < n; p++) {
    check(used[p] == bits, "metrics: tuples consumed", [&] { return str(used[p]) + " reported, " + str(bits) + " requested:" + show(rs); });
    check(made[p] >= bits, "metrics: fewer tuples generated than consumed", [&] { return str(made[p]) + " for " + str(bits); });
    check(comp[p] == wantC, "metrics: one-to-many tuples requested", [&] { return show(rs); });
  }
  check(w->drained(), "data left in a channel");
  judge(rs, out, n, &h);
  state(h);
}
static Sizes pickSizesMap(uint64_t buf) {
  uint32_t b = buf;
  switch (choose(9, "one-to-many")) {
    case 0: return {};
    case 1: return {{1, 1}};
    case 2: return {{2, 2}, {3, 1}};
    case 3: return {{127, 1}, {128, 1}, {129, 1}};
    case 4: return {{64, b + 1}};
    case 5: return {{200, b}, {5, 0}};
    case 6: return {{0, 2}, {1, b - 1}};
    case 7: return {{129, b + 1}, {256, 1}, {257, 2}};
    default: return {{63, 2 * b + 1}, {65, 1}};
  }
}
static Req pickReq(uint64_t buf, bool composite) {
  Req r;
  r.kind = composite ? choose(3, "kind") : 0;
  r.n = 0;
  if (r.kind != 1) { const uint32_t b = buf, c[] = {0, 1, b - 1, b, b + 1, 2 * b + 1}; r.n = c[choose(r.kind == 2 ? 4 : 6, "tuples")]; }
  if (r.kind) r.c = pickSizesMap(buf);
  return r;
}
static void historyBody(Gen g, int n, const std::vector<uint64_t>& bufs, int maxReq) {
  uint64_t buf = bufs[choose(bufs.size(), "buffer")];
  std::vector<Req> rs(1 + choose(maxReq, "requests"));
  for (auto& r : rs) r = pickReq(buf, g == TWO);
  note("buffer " + str(buf) + ":" + show(rs));
  runGen(g, n, buf, rs, 3);
}
// every pair of widths with one tuple each, and every width on its own
static void widthBody(int max) {
  int a = choose(max + 1, "width");
  runGen(TWO, 2, 4, {Req{1, 0, {{(size_t)a, 3}}}, Req{2, 1, {{(size_t)a, 1}, {(size_t)(a + 7), 2}}}}, a);
}
// many keys: every combination of lowest bits appears, whole batches checked
static void manyBody(Gen g, int n) {
  uint64_t salt = choose(thorough ? 12 : 4, "keys"), buf = 64;
  std::vector<Req> rs;
  for (int i = 0; i < 6; i++) rs.push_back(Req{0, 64, {}});
  auto w = std::make_shared<World>();
  auto net = std::make_shared<RcotNet>();
  net->salt = salt + 100;
  std::vector<std::vector<Got>> out(n);
  parties(n, [&](int p) {
    Factory af(w, p);
    auto f = genFactory(g, p, n, af, net, buf, std::make_shared<fbpcf::util::MetricCollector>("p"));
    auto t = f->create();
    for (auto& r : rs) out[p].push_back(ask(*t, r));
  });
  if (failed()) return;
  uint64_t h = salt;
  judge(rs, out, n, &h);
  for (int p = 0; p < n && !failed(); p++) {
    std::set<std::vector<bool>> blocks;
    size_t cnt[2] = {0, 0};
    for (auto& o : out[p]) { std::vector<bool> v; for (auto& t : o.b) { v.push_back(t.getA()); v.push_back(t.getB()); cnt[0] += t.getA(); cnt[1] += t.getB(); } blocks.insert(v); }
    check(blocks.size() == rs.size(), "the same tuples were handed out twice");
    for (int k = 0; k < 2; k++) check(cnt[k] > 96 && cnt[k] < 384 - 96, "shares of tuples are not random", [&] { return "party " + str(p) + " factor " + str(k) + ": " + str(cnt[k]) + " of 384 are one"; });
  }
  state(h);
}
static void integerBody(int n, int maxReq) {
  static const std::vector<uint64_t> bufs = {1, 2, 3};
  uint64_t buf = bufs[choose(bufs.size(), "buffer")];
  std::vector<uint32_t> rs(1 + choose(maxReq, "requests"));
  for (auto& r : rs) { const uint32_t b = buf, c[] = {0, 1, b, b + 1, 2 * b + 1}; r = c[choose(5, "tuples")]; }
  auto w = std::make_shared<World>();
  auto net = std::make_shared<RcotNet>();
  net->salt = 5;
  std::vector<std::vector<tg::IArithmeticTupleGenerator::IntegerTuple>> out(n);
  std::vector<std::vector<size_t>> got(n);
  parties(n, [&](int p) {
    Factory af(w, p);
    tg::ArithmeticTupleGeneratorFactory f(std::shared_ptr<tg::IProductShareGeneratorFactory>(productFactory(p, af, net)), std::make_unique<ut::AesPrgFactory>(64), buf, p, n);
    auto t = f.create();
    for (auto r : rs) { auto v = t->getIntegerTuple(r); got[p].push_back(v.size()); out[p].insert(out[p].end(), v.begin(), v.end()); }
  });
  if (failed()) return;
  check(w->drained(), "data left in a channel");
  uint64_t h = mix(buf, n);
  for (int p = 0; p < n; p++) {
    for (size_t k = 0; k < rs.size(); k++) check(got[p][k] == rs[k], "number of integer tuples");
    std::set<uint64_t> as;
    for (auto& t : out[p]) { as.insert(t.getA()); as.insert(t.getB()); }
    check(as.size() == 2 * out[p].size(), "an integer tuple was handed out twice");
  }
  if (failed()) return;
  for (size_t i = 0; i < out[0].size(); i++) {
    uint64_t a = 0, b = 0, c = 0;
    for (int p = 0; p < n; p++) { a += out[p][i].getA(); b += out[p][i].getB(); c += out[p][i].getC(); }
    check(c == a * b, "an integer tuple's product is wrong", [&] { return "buffer " + str(buf) + " tuple " + str(i); });
    h = mix(h, c);
  }
  evals(out[0].size()); state(h);
}
// shares of products of the two parties' factors
static void productBody(int n, bool ints, int calls = 1) {
  static const std::vector<uint64_t> al = {0, 1, 2, 1ull << 63, ~0ull, 0x123456789abcdef1ull};
  std::vector<std::vector<bool>> lb[2], rb[2], ob[2];
  std::vector<std::vector<uint64_t>> li[2], ri[2], oi[2];
  static const std::vector<int> lens = {0, 1, 2, 3, 64, 65, 127, 128, 129, 500};
  bool longs = n < 0;
  if (longs) n = lens[choose(lens.size(), "length")];
  for (int k = 0; k < calls; k++) for (int p = 0; p < 2; p++) {
    std::vector<bool> a, b; std::vector<uint64_t> x, y;
    for (int i = 0; i < n; i++) {
      uint64_t t = mix(mix(k, p), i);
      if (ints) { x.push_back(longs ? al[t % 6] : al[choose(6, "left")]); y.push_back(longs ? al[t / 7 % 6] : al[choose(6, "right")]); }
      else { int v = longs ? t & 3 : choose(4, "factors"); a.push_back(v & 1); b.push_back(v >> 1); }
    }
    lb[p].push_back(a); rb[p].push_back(b); li[p].push_back(x); ri[p].push_back(y);
  }
  auto w = std::make_shared<World>();
  auto net = std::make_shared<RcotNet>();
  net->salt = 9;
  parties(2, [&](int p) {
    Factory af(w, p);
    auto t = productFactory(p, af, net)->create(1 - p);
    for (int k = 0; k < calls; k++) if (ints) oi[p].push_back(t->generateIntegerProductShares(li[p][k], ri[p][k])); else ob[p].push_back(t->generateBooleanProductShares(lb[p][k], rb[p][k]));
  });
  if (failed()) return;
  check(w->drained(), "data left in a channel");
  uint64_t h = n;
  for (int k = 0; k < calls; k++) {
    check(ints ? (int)oi[0][k].size() == n && (int)oi[1][k].size() == n : (int)ob[0][k].size() == n && (int)ob[1][k].size() == n, "number of product shares");
    if (failed()) return;
    for (int i = 0; i < n; i++) {
      if (ints) { check(oi[0][k][i] + oi[1][k][i] == li[0][k][i] * ri[1][k][i] + li[1][k][i] * ri[0][k][i], "shares of a product of integers are wrong", [&] { return "length " + str(n) + " element " + str(i); }); h = mix(h, oi[0][k][i] + oi[1][k][i]); }
      else { check((ob[0][k][i] ^ ob[1][k][i]) == ((lb[0][k][i] && rb[1][k][i]) != (lb[1][k][i] && rb[0][k][i])), "shares of a product of bits are wrong", [&] { return "length " + str(n) + " element " + str(i); }); h = mix(h, ob[0][k][i] ^ ob[1][k][i]); }
      if (failed()) return;
    }
    evals(n);
  }
  state(h);
}
static void productMisuseBody() {
  int a = choose(4, "left"), b = choose(4, "right"), ints = choose(2, "kind");
  assume(a != b);
  bool thrown[2] = {false, false};
  auto w = std::make_shared<World>();
  auto net = std::make_shared<RcotNet>();
  parties(2, [&](int p) {
    Factory af(w, p);
    auto t = productFactory(p, af, net)->create(1 - p);
    try { if (ints) t->generateIntegerProductShares(std::vector<uint64_t>(a), std::vector<uint64_t>(b)); else t->generateBooleanProductShares(std::vector<bool>(a), std::vector<bool>(b)); } catch (const std::exception&) { thrown[p] = true; }
  });
  check(thrown[0] && thrown[1], "factors of different lengths are accepted");
  evals(1); state(a * 8 + b * 2 + ints);
}
static void accessorBody() {
  int v = choose(8, "tuple"), n = choose(9, "width"), bad = choose(2, "mismatch"), pat = choose(4, "pattern");
  BT t(v >> 2, v >> 1 & 1, v & 1);
  check(t.getA() == (v >> 2) && t.getB() == (v >> 1 & 1) && t.getC() == (v & 1), "a tuple does not hold what it was made of");
  std::vector<bool> b, c;
  for (int i = 0; i < n; i++) { b.push_back(mix(pat, i) & 1); c.push_back(mix(pat, i) >> 1 & 1); }
  if (bad) {
    bool thrown = false;
    c.push_back(true);
    try { CT x(v & 1, b, c); } catch (const std::invalid_argument&) { thrown = true; }
    check(thrown, "a one-to-many tuple of two sizes is accepted");
  } else {
    CT x(v & 1, b, c);
    check(x.getA() == (v & 1) && x.getB() == b && x.getC() == c, "a one-to-many tuple does not hold what it was made of");
    uint64_t p = mix(v, 1), q = mix(pat, 2), r = mix(n, 3);
    tg::IArithmeticTupleGenerator::IntegerTuple y(p, q, r);
    check(y.getA() == p && y.getB() == q && y.getC() == r, "an integer tuple does not hold what it was made of");
  }
  evals(1); state(v * 100 + n * 10 + bad * 5 + pat);
}
// generators that give nothing or zeros
static void trivialBody() {
  int gen = choose(2, "generator"), n = choose(4, "tuples"), m = choose(4, "one-to-many"), call = choose(4, "call");
  Sizes c;
  if (m == 1) c = {{3, 2}};
  if (m == 2) c = {{1, 1}, {128, 2}, {129, 3}};
  if (m == 3) c = {{5, 0}};
  auto mcx = std::make_shared<fbpcf::util::MetricCollector>("p");
  std::unique_ptr<tg::ITupleGenerator> t;
  std::unique_ptr<tg::IArithmeticTupleGenerator> a;
  if (gen == 0) { t = tg::NullTupleGeneratorFactory(mcx).create(); a = tg::NullArithmeticTupleGeneratorFactory().create(); }
  else { t = tg::insecure::DummyTupleGeneratorFactory(mcx).create(); a = tg::insecure::DummyArithmeticTupleGeneratorFactory().create(); }
  bool thrown = false;
  Got o;
  size_t ni = 0;
  try {
    if (call == 3) { auto v = a->getIntegerTuple(n); ni = v.size(); for (auto& x : v) check(x.getA() * x.getB() == x.getC(), "an integer tuple's product is wrong"); }
    else o = ask(*t, Req{call, (uint32_t)n, c});
  } catch (const std::runtime_error&) { thrown = true; }
  bool empty = call == 0 || call == 3 ? n == 0 : call == 1 ? c.empty() : n == 0 && c.empty();
  if (gen == 0) {
    check(thrown == !empty, "an engine without tuples hands some out", [&] { return "call " + str(call); });
  } else {
    check(!thrown, "a request fails");
    if (call == 3) check(ni == (size_t)n, "number of integer tuples");
    else { std::vector<std::vector<Got>> out(1); out[0].push_back(o); uint64_t h = 0; judge({Req{call, (uint32_t)n, c}}, out, 1, &h, false); }
  }
  evals(1); state(gen * 1000 + n * 100 + m * 10 + call);
}
static void noCompositeBody() {
  int call = 1 + choose(2, "call");
  bool thrown[3] = {};
  int n = 2 + choose(2, "parties");
  auto w = std::make_shared<World>();
  auto net = std::make_shared<RcotNet>();
  parties(n, [&](int p) {
    Factory af(w, p);
    auto t = genFactory(MANY, p, n, af, net, 2, std::make_shared<fbpcf::util::MetricCollector>("p"))->create();
    try { ask(*t, Req{call, 1, {{2, 1}}}); } catch (const std::exception&) { thrown[p] = true; }
  });
  for (int p = 0; p < n; p++) check(thrown[p], "an unsupported request does not fail");
  evals(1); state(call * 4 + n);
}

int main(int argc, char** argv) {
  std::vector<Suite> s;
  auto add = [&](std::string n, std::function<void()> b, int bound = 0, int bt = -1, bool th = false) { Suite q; q.name = n; q.body = b; q.bound = bound; q.boundThorough = bt; q.thoroughOnly = th; s.push_back(q); };
  add("accessors", accessorBody);
  add("null-and-zero-generators", trivialBody);
  add("product-bits-1", [] { productBody(1, false, 2); });
  add("product-bits-2", [] { productBody(2, false); });
  add("product-bits-long", [] { productBody(-1, false, 2); });
  add("product-integers", [] { productBody(1, true); });
  add("product-integers-long", [] { productBody(-1, true); });
  add("product-misuse", productMisuseBody);
  add("two-party-histories", [] { historyBody(TWO, 2, thorough ? std::vector<uint64_t>{1, 2, 3, 5, 8} : std::vector<uint64_t>{1, 2, 3}, 2); });
  add("two-party-histories-3", [] { historyBody(TWO, 2, {2}, 3); }, 0, -1, true);
  add("two-party-widths", [] { widthBody(thorough ? 400 : 140); });
  add("two-party-many", [] { manyBody(TWO, 2); });
  add("general-2-histories", [] { historyBody(MANY, 2, {1, 2, 3, 8}, thorough ? 4 : 3); });
  add("general-3-histories", [] { historyBody(MANY, 3, {1, 2, 3, 8}, thorough ? 4 : 3); });
  add("general-4-histories", [] { historyBody(MANY, 4, {2, 3}, thorough ? 3 : 2); });
  add("general-many", [] { int n = 2 + choose(2, "parties"); manyBody(MANY, n); });
  add("general-no-one-to-many", noCompositeBody);
  add("integer-2-histories", [] { integerBody(2, thorough ? 4 : 3); });
  add("integer-3-histories", [] { integerBody(3, thorough ? 4 : 2); });
  return harnessMain(argc, argv, "C12", s);
}
