// C28: the gradient aggregation protocol.
#include <cmath>
#include "mc/front.h"
#include "mc/ot.h"
#include "fbpcf/engine/util/AesPrgFactory.h"
#include "fbpcf/frontend/Bit.h"
#include "fbpcf/mpc_std_lib/walr_multiplication/DummyMatrixMultiplicationFactory.h"
#include "fbpcf/mpc_std_lib/walr_multiplication/OTBasedMatrixMultiplicationFactory.h"
#include "fbpcf/mpc_std_lib/walr_multiplication/util/NumberMapper.h"
using namespace mc;
namespace wl = fbpcf::mpc_std_lib::walr; namespace fe = fbpcf::frontend;
using Mat = std::vector<std::vector<double>>; using Vd = std::vector<double>;
struct Round { Mat f; Vd noise; std::vector<bool> l; };
struct Case { Backend b; bool dummy, xorLabels; int fo, lowner; uint64_t divisor; std::vector<Round> rounds; double tol; int prg; std::string nm; };
static std::string show(const Vd& v) { std::string s = "["; for (auto x : v) s += std::to_string(x) + " "; return s + "]"; }
using Metrics = std::map<std::string, long>;
static Metrics metrics(fbpcf::util::MetricCollector& c, const std::string& prefix) {
  Metrics m;
  auto all = c.collectMetrics();
  for (const auto& [k, v] : all.items()) { check(k.asString() == prefix, "name of the recorder", [&] { return k.asString(); }); for (const auto& [k2, v2] : v.items()) m[k2.asString()] = v2.asInt(); }
  return m;
}
// how party p shares the labels
template <int P> static fe::Bit<true, P, true> shareLabels(const Case& c, const std::vector<bool>& l) {
  using B = fe::Bit<true, P, true>;
  auto dontCare = std::vector<bool>(l.size(), true);
  if (!c.xorLabels) return B(P == c.lowner ? l : dontCare, c.lowner);
  std::vector<bool> half, other; for (size_t i = 0; i < l.size(); i++) { bool h = i % 3 != 1; half.push_back(h); other.push_back(h != l[i]); }
  return B(P == 0 ? half : dontCare, 0) ^ B(P == 1 ? other : dontCare, 1);
}
template <class U, int P> static void side(const Case& c, std::shared_ptr<World> w2, std::shared_ptr<RcotHub> hub) {
  Factory fac(w2, P); bool featureOwner = P == c.fo;
  auto col = std::make_shared<fbpcf::util::MetricCollector>("x");
  std::unique_ptr<wl::IWalrMatrixMultiplication<P>> k;
  if (c.dummy) k = wl::insecure::DummyMatrixMultiplicationFactory<P>(P, 1 - P, fac, col).create();
  else k = wl::OTBasedMatrixMultiplicationFactory<P, U>(P, 1 - P, featureOwner, c.divisor, fac, std::make_unique<fbpcf::engine::util::AesPrgFactory>(c.prg),
        std::make_unique<wl::util::COTWithRandomMessageFactory>(std::make_unique<IdealRcotFactory>(hub)), col).create();
  Metrics want; uint64_t rcot = 0, engine[2] = {0, 0};
  for (auto& r : c.rounds) {
    auto labels = shareLabels<P>(c, r.l);
    long nl = r.l.size(), nf = r.noise.size(); rcot += nl;
    auto before = fbpcf::scheduler::SchedulerKeeper<P>::getTrafficStatistics();
    if (featureOwner) {
      auto got = k->matrixVectorMultiplication(r.f, labels);
      Vd exp = r.noise; for (int i = 0; i < nl; i++) if (r.l[i]) for (int j = 0; j < nf; j++) exp[j] += r.f[i][j];
      evals(); state(mix(hashStr(c.nm), hashStr(show(got))));
      check(got.size() == exp.size(), "length of the product", [&] { return c.nm; });
      for (int j = 0; j < nf; j++) check(std::abs(got[j] - exp[j]) <= c.tol * (nl + 1), c.dummy ? "product (dummy)" : c.tol == 0 ? "product of representable values" : "product", [&] { return c.nm + " got " + show(got) + " want " + show(exp) + " feature " + str(j); });
    } else k->matrixVectorMultiplication(labels, r.noise);
    auto after = fbpcf::scheduler::SchedulerKeeper<P>::getTrafficStatistics();
    engine[0] += after.first - before.first; engine[1] += after.second - before.second;
    if (c.dummy) { want[featureOwner ? "features_received" : "features_sent"] += nf; continue; }
    want["ot_messages_used"] += nl;
    want[featureOwner ? "columns_sent" : "columns_received"] += nl; want[featureOwner ? "columns_received" : "columns_sent"] += 1;
    want[featureOwner ? "features_sent" : "features_received"] += nl * nf; want[featureOwner ? "features_received" : "features_sent"] += nf;
  }
  for (auto n : {"features_sent", "features_received"}) want[n] += 0;
  auto got = metrics(*col, c.dummy ? "x.dummy_matrix_multiplication" : std::string("x.ot_based_matrix_multiplication_") + (featureOwner ? "feature_owner" : "label_owner"));
  for (auto& kv : want) check(got.count(kv.first) && got[kv.first] == kv.second, "metric " + kv.first, [&] { return c.nm + ": " + str(got[kv.first]) + " instead of " + str(kv.second); });
  // traffic: everything that went over the protocol's own channels, plus the transfers, plus the engine's share of the calls
  uint64_t sent = 0, recv = 0; if (!c.dummy) { sent = 3 * rcot; recv = 5 * rcot; }
  auto t0 = k->getNonEngineTrafficStatistics(), t1 = k->getTrafficStatistics();
  for (auto& kv : w2->ch) for (auto& ch : kv.second) { sent += ch->log[P].size(); if (featureOwner) recv += ch->log[1 - P].size(); }
  check(t0.first == sent, "traffic of the protocol, sent", [&] { return c.nm + ": " + str(t0.first) + " instead of " + str(sent); });
  if (featureOwner) check(t0.second == recv, "traffic of the protocol, received", [&] { return c.nm + ": " + str(t0.second) + " instead of " + str(recv); });
  check(t1.first == t0.first + engine[0] && t1.second == t0.second + engine[1], "total traffic", [&] { return c.nm; });
}
template <class U> static void play(const Case& c) {
  note(c.nm); auto w2 = std::make_shared<World>(); w2->log = true; auto hub = std::make_shared<RcotHub>(); hub->salt = hashStr(c.nm);
  runBoth({c.b, false}, [&] { side<U, 0>(c, w2, hub); }, [&] { side<U, 1>(c, w2, hub); });
  check(w2->drained(), "bytes left unread between the parties", [&] { return c.nm; });
}
template <class U> using Si = std::make_signed_t<U>;
static void name(Case& c, const char* t, int width) {
  c.nm = std::string(t) + str(width) + (c.dummy ? " dummy" : "") + " backend " + str(c.b) + " feature owner " + str(c.fo) + " labels of " + str(c.lowner) + (c.xorLabels ? " xored" : "") + " divisor " + str(c.divisor) + " prg " + str(c.prg);
  for (auto& r : c.rounds) { c.nm += " labels "; for (bool b : r.l) c.nm += b ? '1' : '0'; if (r.noise.size() <= 4) { c.nm += " noise " + show(r.noise); for (auto& f : r.f) c.nm += " " + show(f); } else c.nm += " features " + str(r.noise.size()); }
}
// every matrix over the alphabet, every label vector
template <class U> static void matrices() {
  Case c{}; c.b = choose(2, "backend") ? EAGER : LAZY; c.dummy = choose(2, "dummy"); c.fo = choose(2, "feature owner"); c.lowner = choose(2, "label owner"); c.prg = 64;
  int nl = 1 + choose(mc::thorough ? 3 : 2, "labels"), nf = 1 + choose(nl == 3 ? 1 : 2, "features"); int full = (nl * nf <= 2) || mc::thorough;
  c.divisor = 4; double q = 1.0 / 4; double big = (double)(std::numeric_limits<Si<U>>::max() / 8) * q;
  if (sizeof(U) == 8) big = (double)(1ull << 50);
  const double val[6] = {0, q, -q, big, -big, 5 * q}; int alpha = full ? 6 : 4;
  if (full && nl * nf > 2) alpha = 4;
  if (!mc::thorough && sizeof(U) < 4) alpha = std::min(alpha, 3);
  Round r; uint64_t pat = choose(1 << nl, "label values"); for (int i = 0; i < nl; i++) r.l.push_back(pat >> i & 1);
  for (int i = 0; i < nl; i++) { r.f.emplace_back(); for (int j = 0; j < nf; j++) r.f[i].push_back(val[choose(alpha, "value")]); }
  int z = mc::thorough ? choose(3, "noise") : 1 + choose(2, "noise"); for (int j = 0; j < nf; j++) r.noise.push_back(z == 0 ? 0 : z == 1 ? val[3] - j * q : -7 * q);
  c.rounds.push_back(r); name(c, "uint", 8 * sizeof(U)); play<U>(c);
}
// shapes, ways of sharing, divisors, numbers of rounds and sizes around the generator's buffer
template <class U> static void shapes() {
  Case c{}; c.b = choose(2, "backend") ? EAGER : LAZY; c.dummy = choose(2, "dummy"); c.fo = choose(2, "feature owner"); c.lowner = choose(2, "label owner"); c.xorLabels = choose(2, "xored");
  c.divisor = mc::thorough ? (uint64_t[]){1, 2, 16, sizeof(U) == 1 ? 64u : 1024u}[choose(4, "divisor")] : choose(2, "divisor") ? 16 : 1;
  int nl = mc::thorough ? (int[]){1, 2, 3, 5, 8, 9, 17}[choose(7, "labels")] : (int[]){1, 2, 3, 8, 9, 65}[choose(6, "labels")];
  int nf = mc::thorough ? (int[]){0, 1, 2, 3, 7, 8, 9, 17, 33}[choose(9, "features")] : (int[]){0, 1, 3, 9, 33, 130}[choose(6, "features")], rounds = 1 + (nl <= 3 ? choose(2, "rounds") : 0);
  if (!mc::thorough) assume((nl <= 9 && nf <= 33) || (nl * nf < 600 && c.divisor == 16 && c.lowner == c.fo));
  c.prg = nf > 8 ? (int[]){1, 4, 64}[choose(3, "buffer")] : 2;
  int lp = choose(4, "labels"); long lim = (long)std::min<double>(std::numeric_limits<Si<U>>::max(), 1e12) / (nl + 1);
  for (int k = 0; k < rounds; k++) {
    Round r; for (int i = 0; i < nl; i++) { r.l.push_back(lp == 0 ? 0 : lp == 1 ? 1 : lp == 2 ? (i + k) % 2 : i == nl - 1); r.f.emplace_back(); for (int j = 0; j < nf; j++) { long v = (long)(mix(mix(i + 1, j + 1), k + 1) % (2 * (uint64_t)lim + 1)) - lim; r.f[i].push_back((double)v / c.divisor); } }
    for (int j = 0; j < nf; j++) r.noise.push_back((double)((long)(mix(j + 77, k) % (2 * (uint64_t)lim + 1)) - lim) / c.divisor);
    c.rounds.push_back(r); nl = std::min(nl, 2);
  }
  name(c, "shape uint", 8 * sizeof(U)); play<U>(c);
}
// values the divisor does not represent: within the promised precision
template <class U> static void precision() {
  Case c{}; c.b = LAZY; c.dummy = false; c.fo = choose(2, "feature owner"); c.prg = 4; c.divisor = (uint64_t[]){3, 10, 100}[choose(3, "divisor")]; c.tol = (1.0 + 1e-9) / c.divisor;
  int nl = 1 + choose(2, "labels"); const double val[7] = {1.0 / 3, -1.0 / 3, 0.119, -0.119, 0.2999999, -0.2999999, 1e-9};
  Round r; uint64_t pat = choose(1 << nl, "values"); for (int i = 0; i < nl; i++) { r.l.push_back(pat >> i & 1); r.f.push_back({val[choose(7, "v")]}); }
  r.noise = {val[choose(7, "noise")]}; c.rounds.push_back(r); name(c, "precision uint", 8 * sizeof(U)); play<U>(c);
}
// calls that do not fit
template <class U, int P> static void misuse(bool dummy, int fo, int how, std::shared_ptr<World> w2, std::shared_ptr<RcotHub> hub, const std::string& nm) {
  Case c{}; c.fo = fo; std::vector<bool> l{true, false, true}; Factory fac(w2, P); bool featureOwner = P == fo;
  auto labels = shareLabels<P>(c, l);
  std::unique_ptr<wl::IWalrMatrixMultiplication<P>> k;
  if (dummy) k = wl::insecure::DummyMatrixMultiplicationFactory<P>(P, 1 - P, fac).create();
  else k = wl::OTBasedMatrixMultiplicationFactory<P, U>(P, 1 - P, featureOwner, 4, fac, std::make_unique<fbpcf::engine::util::AesPrgFactory>(8), std::make_unique<wl::util::COTWithRandomMessageFactory>(std::make_unique<IdealRcotFactory>(hub))).create();
  bool threw = false; Vd v{1, 2};
  try {
    switch (how) {
      case 0: if (featureOwner) k->matrixVectorMultiplication(Mat{v, v}, labels); else threw = true; break;           // too few columns
      case 1: if (featureOwner) k->matrixVectorMultiplication(Mat{v, v, v, v}, labels); else threw = true; break;     // too many
      case 2: case 3: case 4: case 5: {
        Mat m{v, v, v}; if (how == 4) m[1] = {1}; if (how == 5) m[2] = {1, 2, 3}; if (how == 2) m[2] = {}; if (how == 3) m[0] = {1, 2, 3};
        if (featureOwner) k->matrixVectorMultiplication(m, labels);
        else if (dummy) { k->matrixVectorMultiplication(labels, v); threw = true; }
        else threw = true;
        break;
      }
      default: if (dummy) threw = true; else if (featureOwner) k->matrixVectorMultiplication(labels, v); else k->matrixVectorMultiplication(Mat{v, v, v}, labels);
    }
  } catch (const std::exception&) { threw = true; }
  evals(); state(hashStr(nm)); check(threw, "unfitting call accepted", [&] { return nm; });
}
static void misuses() {
  bool dummy = choose(2, "dummy"); int fo = choose(2, "feature owner"), how = choose(7, "how"); static const char* n[] = {"too few columns", "too many columns", "empty last column", "long first column", "short middle column", "long last column", "wrong side"};
  auto nm = std::string(dummy ? "dummy " : "") + n[how] + " feature owner " + str(fo); note(nm);
  auto w2 = std::make_shared<World>(), w = std::make_shared<World>(); auto hub = std::make_shared<RcotHub>();
  parties(2, [&](int p) { if (p == 0) withScheduler<0>(LAZY, w, [&] { misuse<uint32_t, 0>(dummy, fo, how, w2, hub, nm); }); else withScheduler<1>(LAZY, w, [&] { misuse<uint32_t, 1>(dummy, fo, how, w2, hub, nm); }); });
}
// transfers of random messages, chosen by the receiver
static void cot() {
  auto w = std::make_shared<World>(); w->log = true; auto hub = std::make_shared<RcotHub>(); hub->salt = choose(2, "salt");
  int n = (int[]){0, 1, 2, 3, 4, 7, 8, 9, 16, 17}[choose(10, "size")]; uint64_t pat = n <= 4 ? choose(1 << n, "choice") : (uint64_t[]){0, ~0ull, 0x5555555555555555ull, 1, 1ull << (n - 1)}[choose(5, "choice")];
  int rounds = 1 + choose(2, "rounds"); auto delta = choose(2, "delta") ? m128(~0ull, ~0ull) : m128(0x8000000000000000ull, 1);
  auto nm = "transfers " + str(n) + " choices " + str(pat) + " delta " + hex(delta); note(nm);
  std::vector<bool> ch; for (int i = 0; i < n; i++) ch.push_back(pat >> i & 1);
  std::vector<__m128i> k0, k1, r;
  parties(2, [&](int p) {
    wl::util::COTWithRandomMessageFactory f(std::make_unique<IdealRcotFactory>(hub));
    auto o = p == 0 ? f.create(delta, w->agent(0, 1), w->agent(0, 1)) : f.create(w->agent(1, 0), w->agent(1, 0));
    for (int k = 0; k < rounds; k++) {
      if (p == 0) { auto s = o->send(n); check((int)s.first.size() == n && (int)s.second.size() == n, "number of messages"); k0.insert(k0.end(), s.first.begin(), s.first.end()); k1.insert(k1.end(), s.second.begin(), s.second.end()); }
      else { auto m = o->receive(ch); check((int)m.size() == n, "number of messages"); r.insert(r.end(), m.begin(), m.end()); }
    }
    auto t = o->getTrafficStatistics(); uint64_t sent = 3 * n * rounds, recv = 5 * n * rounds;
    for (auto& kv : w->ch) for (auto& c : kv.second) { sent += c->log[p].size(); recv += c->log[1 - p].size(); }
    check(t.first == sent, "traffic sent", [&] { return nm; });
    if (p == 0) check(t.second == recv, "traffic received", [&] { return nm; });
    check(o->extractCommunicationAgent() != nullptr, "channel handed back");
  });
  check(w->drained(), "bytes left unread");
  for (int i = 0; i < n * rounds; i++) {
    evals(); state(mix(hashStr(nm), i));
    check(eq128(r[i], ch[i % n] ? k1[i] : k0[i]), "received message", [&] { return nm + " index " + str(i); });
    check(eq128(_mm_xor_si128(k0[i], k1[i]), delta), "difference of the messages", [&] { return nm + " index " + str(i); });
  }
  bool threw = false;
  wl::util::COTWithRandomMessageFactory f(std::make_unique<IdealRcotFactory>(hub));
  try { f.create(w->agent(1, 0), w->agent(1, 0))->send(n); } catch (const std::exception&) { threw = true; }
  check(threw, "receiver may not send");
}
// numbers
template <class U> static void mapper() {
  using S = Si<U>; constexpr S mx = std::numeric_limits<S>::max();
  const uint64_t divs[] = {1, 2, 3, 4, 10, 16, 100, 127};
  int d = choose(8 + (sizeof(U) > 1 ? 2 : 0), "divisor"); uint64_t dv = d < 8 ? divs[d] : d == 8 ? 1000 : 1 << 15;
  wl::util::NumberMapper<U> m(dv); auto nm = "mapper uint" + str(8 * sizeof(U)) + " divisor " + str(dv); note(nm);
  check(m.getDivisor() == dv, "divisor");
  std::vector<S> codes;
  if (sizeof(U) <= 2) for (long v = -(long)mx; v <= (long)mx; v++) codes.push_back((S)v);
  else { S lim = sizeof(U) == 8 ? (S)(1ll << 52) : mx; for (S x = 1; x > 0 && x <= lim / 2; x *= 2) for (int e = -1; e <= 1; e++) { codes.push_back(x + e); codes.push_back(-(x + e)); } codes.push_back(lim); codes.push_back(-lim); }
  std::vector<double> in; for (S v : codes) in.push_back((double)v / dv);
  auto fx = m.mapToFixedPointType(in); auto back = m.mapToSignedDouble(fx); auto ub = m.mapToUnsignedDouble(fx);
  check(fx.size() == in.size() && back.size() == in.size() && ub.size() == in.size(), "number of values");
  for (size_t i = 0; i < codes.size(); i++) {
    auto at = [&] { return nm + " value " + std::to_string(in[i]) + " -> " + str((uint64_t)fx[i]) + " -> " + std::to_string(back[i]); };
    evals(); state(mix(hashStr(nm), (uint64_t)fx[i]));
    double tol = std::max(1.0, std::abs(in[i])) * (1 + 1e-9) / dv;
    check(std::abs(back[i] - in[i]) < tol, "precision of a number", at);
    if ((dv & (dv - 1)) == 0) check(back[i] == in[i] && fx[i] == (U)codes[i], "representable number", at);
    check(m.mapToSignedDouble((U)codes[i]) == (double)codes[i] / dv, "signed reading", at);
    check(m.mapToUnsignedDouble((U)codes[i]) == (double)(U)codes[i] / dv, "unsigned reading", at);
    if (in[i] >= 0) check(std::abs(ub[i] - in[i]) < tol, "unsigned precision of a number", at);
    check(m.mapToFixedPointType(in[i]) == fx[i] && m.mapToSignedDouble(fx[i]) == back[i] && m.mapToUnsignedDouble(fx[i]) == ub[i], "one number and a list of numbers", at);
  }
  uint64_t top = std::numeric_limits<U>::max();
  for (uint64_t v : {(uint64_t)1, top - 1, top}) { m.setDivisor(v); check(m.getDivisor() == v, "new divisor", [&] { return nm + " " + str(v); }); }
  if (sizeof(U) < 8) for (uint64_t v : {top + 1, ~(uint64_t)0}) { bool threw = false; try { m.setDivisor(v); } catch (const std::invalid_argument&) { threw = true; } check(threw && m.getDivisor() == top, "divisor too large", [&] { return nm + " " + str(v); }); }
}
#define S(T, n) {"matrices, " n, matrices<T>, 0, -1, false, 0, 4}, {"shapes, " n, shapes<T>, 0, -1, false, 0, 4}, {"precision, " n, precision<T>}
int main(int argc, char** argv) {
#if PART == 0
  return harnessMain(argc, argv, "C28", {S(uint32_t, "uint32"), {"misuse", misuses}, {"transfers", cot}, {"numbers, uint8", mapper<uint8_t>}, {"numbers, uint16", mapper<uint16_t>}, {"numbers, uint32", mapper<uint32_t>}, {"numbers, uint64", mapper<uint64_t>}});
#elif PART == 1
  return harnessMain(argc, argv, "C28", {S(uint64_t, "uint64")});
#else
  return harnessMain(argc, argv, "C28", {S(uint8_t, "uint8"), S(uint16_t, "uint16")});
#endif
}
