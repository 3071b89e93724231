// C23: oblivious memory behaves like an array.
#include <algorithm>
#include <cmath>
#include "mc/typed.h"
#include "fbpcf/engine/util/AesPrgFactory.h"
#include "fbpcf/mpc_std_lib/oram/DifferenceCalculatorFactory.h"
#include "fbpcf/mpc_std_lib/oram/DummyDifferenceCalculatorFactory.h"
#include "fbpcf/mpc_std_lib/oram/DummyObliviousDeltaCalculatorFactory.h"
#include "fbpcf/mpc_std_lib/oram/DummySinglePointArrayGeneratorFactory.h"
#include "fbpcf/mpc_std_lib/oram/LinearOramFactory.h"
#include "fbpcf/mpc_std_lib/oram/ObliviousDeltaCalculatorFactory.h"
#include "fbpcf/mpc_std_lib/oram/SinglePointArrayGeneratorFactory.h"
#include "fbpcf/mpc_std_lib/oram/WriteOnlyOramFactory.h"
using namespace mc;
namespace om = fbpcf::mpc_std_lib::oram;
using I5 = ut::Intp<true, 5>; using AV = ut::AggregationValue;
template <class T> uint64_t add(uint64_t a, uint64_t b) {
  if (std::is_same_v<T, AV>) return (uint32_t)(a + b) | (uint64_t)((uint32_t)(a >> 32) + (uint32_t)(b >> 32)) << 32;
  return (a + b) & maskOf<T>();
}
template <class T> uint64_t sub(uint64_t a, uint64_t b) {
  if (std::is_same_v<T, AV>) return (uint32_t)(a - b) | (uint64_t)((uint32_t)(a >> 32) - (uint32_t)(b >> 32)) << 32;
  return (a - b) & maskOf<T>();
}
template <class T> uint64_t code(const T& v) { return Val<T>::codes({v})[0]; }
// bit-sliced XOR shares: party 1's share of number i is mask(i), party 0's the rest
using Shares = std::vector<std::vector<bool>>;
static Shares share(int party, const std::vector<uint64_t>& v, int bits, uint64_t salt) {
  Shares r(bits, std::vector<bool>(v.size()));
  for (int b = 0; b < bits; b++) for (size_t i = 0; i < v.size(); i++) {
    bool m = salt == 0 ? false : salt == 1 ? true : mix(mix(salt, i), b) & 1;
    r[b][i] = party ? m : m != (bool)(v[i] >> b & 1);
  }
  return r;
}
static int widthOf(int size) { int w = 0; while ((1 << w) < size) w++; return std::max(w, 1); }
enum Kind { LINEAR, SECURE, DUMMY_POINTS, DUMMY_DELTA, ALL_DUMMY };
static const char* kindName[] = {"linear", "write-only", "write-only, dummy points", "write-only, dummy delta", "write-only, dummies"};
// amIParty0 decides the role; either party id may have it
template <class T, int P> std::unique_ptr<om::IWriteOnlyOramFactory<T>> factory(int kind, int first, mc::Factory& f) {
  bool am0 = first == P; int p0 = first, p1 = 1 - first;
  if (kind == LINEAR) return om::getSecureLinearOramFactory<T, P>(am0, p0, p1, f);
  if (kind == SECURE) return om::getSecureWriteOnlyOramFactory<T, 12, P>(am0, p0, p1, f);
  std::unique_ptr<om::ISinglePointArrayGeneratorFactory> g;
  if (kind == DUMMY_DELTA) g = std::make_unique<om::SinglePointArrayGeneratorFactory>(am0, std::make_unique<om::insecure::DummyObliviousDeltaCalculatorFactory>(1 - P, f));
  else g = std::make_unique<om::insecure::DummySinglePointArrayGeneratorFactory>(am0, 1 - P, f);
  std::unique_ptr<om::IDifferenceCalculatorFactory<T>> d;
  if (kind == ALL_DUMMY) d = std::make_unique<om::insecure::DummyDifferenceCalculatorFactory<T, 12>>(am0, 1 - P, f);
  else d = std::make_unique<om::DifferenceCalculatorFactory<T, 12, P>>(am0, p0, p1);
  return std::make_unique<om::WriteOnlyOramFactory<T>>(am0 ? om::IWriteOnlyOram<T>::Role::Alice : om::IWriteOnlyOram<T>::Role::Bob, 1 - P, f, std::move(g), std::move(d));
}
struct Batch { std::vector<uint64_t> index, value; };
struct Case { int backend, kind, size, width, first; uint64_t salt; std::vector<Batch> h; bool readBetween; std::string nm; };
// per party: what each read returned
struct Seen { std::vector<uint64_t> alice, bob, sec; };
template <class T, int P> void play(const Case& c, std::shared_ptr<World> w, std::vector<Seen>& out, std::pair<uint64_t, uint64_t>& traffic) {
  mc::Factory f(w, P); auto fac = factory<T, P>(c.kind, c.first, f);
  auto o = fac->create(c.size);
  using R = typename om::IWriteOnlyOram<T>::Role;
  auto look = [&] { Seen s; for (int i = 0; i < c.size; i++) { s.alice.push_back(code<T>(o->publicRead(i, R::Alice))); s.sec.push_back(code<T>(o->secretRead(i))); s.bob.push_back(code<T>(o->publicRead(i, R::Bob))); } out.push_back(s); };
  if (c.readBetween) look();
  for (auto& b : c.h) { o->obliviousAddBatch(share(P, b.index, c.width, c.salt), share(P, b.value, Val<T>::bits, c.salt > 1 ? c.salt + 9 : c.salt)); if (c.readBetween || &b == &c.h.back()) look(); }
  bool threw = false; try { o->publicRead(c.size, R::Alice); } catch (const std::exception&) { threw = true; }
  check(threw, "read beyond the end accepted");
  threw = false; try { o->secretRead(c.size); } catch (const std::exception&) { threw = true; }
  check(threw, "secret read beyond the end accepted");
  traffic = o->getTrafficStatistics();
}
template <class T> void run(const Case& c) {
  auto w = std::make_shared<World>(), own = std::make_shared<World>(); std::vector<Seen> s[2]; std::pair<uint64_t, uint64_t> tr[2]; Backend b = c.backend ? EAGER : LAZY;
  parties(2, [&](int p) { if (p == 0) withScheduler<0>(b, w, [&] { play<T, 0>(c, own, s[0], tr[0]); }); else withScheduler<1>(b, w, [&] { play<T, 1>(c, own, s[1], tr[1]); }); });
  if (failed()) return;
  check(w->drained() && own->drained(), "bytes left unread between the parties");
  uint64_t sent[2] = {0, 0};  // over the memory's own channels
  for (auto& kv : own->ch) for (auto& ch : kv.second) { sent[kv.first.first] += ch->total[0]; sent[kv.first.second] += ch->total[1]; }
  for (int p = 0; p < 2; p++) check(tr[p] == std::make_pair(sent[p], sent[1 - p]), std::string("traffic the memory reports, ") + kindName[c.kind], [&] { return c.nm + " party " + str(p) + ": " + str(tr[p].first) + "/" + str(tr[p].second) + " of " + str(sent[p]) + "/" + str(sent[1 - p]); });
  std::vector<std::vector<uint64_t>> want; std::vector<uint64_t> m(c.size, 0);
  if (c.readBetween) want.push_back(m);
  for (auto& x : c.h) { for (size_t i = 0; i < x.index.size(); i++) m[x.index[i]] = add<T>(m[x.index[i]], x.value[i]); if (c.readBetween || &x == &c.h.back()) want.push_back(m); }
  int A = c.first, B = 1 - c.first;
  for (size_t k = 0; k < want.size(); k++) for (int i = 0; i < c.size; i++) {
    evals(5); state(mix(hashStr(c.nm), mix(k * 64 + i, want[k][i])));
    auto d = [&] { return c.nm + " after " + str(k) + " position " + str(i) + ": expected " + str(want[k][i]) + ", Alice " + str(s[A][k].alice[i]) + ", Bob " + str(s[B][k].bob[i]); };
    std::string t = std::string(", ") + kindName[c.kind] + " memory of " + Val<T>::name;
    check(s[A][k].alice[i] == want[k][i], "value published to Alice" + t, d);
    check(s[B][k].bob[i] == want[k][i], "value published to Bob" + t, d);
    check(s[B][k].alice[i] == 0 && s[A][k].bob[i] == 0, "party that is not the receiver sees a value" + t, d);
    check(add<T>(s[0][k].sec[i], s[1][k].sec[i]) == want[k][i], "shares of a value" + t, d);
  }
}
template <class T> uint64_t value(int k) {
  uint64_t m = maskOf<T>(); uint64_t v[] = {1, m, m >> 1, 0, 0x123456789abcdefull, (m >> 1) + 1, 0x00000001ffffffffull};
  return v[k % 7] & m;
}
template <class T> static Case base() {
  Case c; c.backend = choose(2, "backend"); c.kind = choose(5, "kind"); c.first = choose(2, "party in Alice's role"); c.readBetween = false; return c;
}
template <class T> static void name(Case& c) {
  c.nm = std::string(Val<T>::name) + " " + kindName[c.kind] + " backend " + str(c.backend) + " size " + str(c.size) + " width " + str(c.width) + " Alice " + str(c.first) + " shares " + str(c.salt);
  for (auto& b : c.h) c.nm += " indexes " + vec(b.index) + " values " + vec(b.value);
  note(c.nm);
}
// every pair of indexes in one batch or in two batches
template <class T> static void pairs() {
  Case c = base<T>(); c.size = 1 + choose(mc::thorough ? 9 : Val<T>::bits == 64 ? 3 : 5, "size"); c.width = widthOf(c.size) + choose(c.size <= 3 || mc::thorough ? 2 : 1, "spare index bits");
  c.salt = choose(mc::thorough ? 4 : 3, "shares"); int i = choose(c.size, "index"), j = choose(c.size, "index"); bool two = choose(2, "batches");
  int k = choose(mc::thorough ? 7 : 2, "values") + i;
  if (two) { c.h = {{{(uint64_t)i}, {value<T>(k)}}, {{(uint64_t)j}, {value<T>(k + 1)}}}; c.readBetween = true; } else c.h = {{{(uint64_t)i, (uint64_t)j}, {value<T>(k), value<T>(k + 1)}}};
  name<T>(c); run<T>(c);
}
// long histories: all indexes at once, forwards, backwards, hammering one
template <class T> static void bulk() {
  Case c = base<T>(); c.size = mc::thorough ? 1 + choose(40, "size") : (int[]){2, 6, 7, 8, 9, 15, 16, 17, 33, 65, 129}[choose(11, "size")]; c.width = widthOf(c.size); c.salt = 2 + choose(mc::thorough ? 3 : 1, "shares"); c.readBetween = true;
  int n = 1 + choose(3, "batches");
  for (int b = 0; b < n; b++) { Batch x; for (int i = 0; i < c.size + b; i++) { x.index.push_back(b == 0 ? i : b == 1 ? c.size - 1 - i % c.size : i % 2 ? c.size - 1 : i * 3 % c.size); x.value.push_back(value<T>(i * 2 + b)); } c.h.push_back(x); }
  name<T>(c); run<T>(c);
}
// improper batches are refused by both parties
static void rejects() {
  int kind = choose(5, "kind"), what = choose(4, "what"), b = choose(2, "backend"); note(std::string("improper batch ") + kindName[kind] + " " + str(what));
  int threw = 0; auto w = std::make_shared<World>();
  auto f = [&](auto ip) { constexpr int P = decltype(ip)::value; mc::Factory fa(w, P); auto o = factory<uint32_t, P>(kind, 0, fa)->create(5);
    auto ix = share(P, {1, 2, 3}, 3, 2), vx = share(P, {7, 8, 9}, 32, 3);
    if (what == 0) ix.pop_back(); else if (what == 1) ix[1].pop_back(); else if (what == 2) ix.clear(); else vx.clear();
    try { o->obliviousAddBatch(ix, vx); } catch (const std::exception&) { threw++; } };
  parties(2, [&](int p) { if (p == 0) withScheduler<0>(b ? EAGER : LAZY, w, [&] { f(std::integral_constant<int, 0>()); }); else withScheduler<1>(b ? EAGER : LAZY, w, [&] { f(std::integral_constant<int, 1>()); }); });
  evals(); state(kind * 8 + what); check(threw == 2, "improper batch accepted", [&] { return str(kind) + " " + str(what) + " " + str(threw); });
}
// ---- parts -----------------------------------------------------------------------------------------------------
static bool eqBlock(__m128i a, __m128i b) { return _mm_extract_epi64(a, 0) == _mm_extract_epi64(b, 0) && _mm_extract_epi64(a, 1) == _mm_extract_epi64(b, 1); }
template <class F> static void both(int backend, std::shared_ptr<World> w, F f) {
  Backend b = backend ? EAGER : LAZY;
  parties(2, [&](int p) { if (p == 0) withScheduler<0>(b, w, [&] { f(std::integral_constant<int, 0>()); }); else withScheduler<1>(b, w, [&] { f(std::integral_constant<int, 1>()); }); });
}
static void points() {
  int backend = choose(2, "backend"), kind = choose(3, "kind"), first = choose(2, "first share"), size = 1 + choose(mc::thorough ? 33 : 17, "length"), width = widthOf(size) + choose(3, "spare bits"); uint64_t salt = choose(3, "shares");
  note("single points kind " + str(kind) + " length " + str(size) + " width " + str(width) + " shares " + str(salt));
  std::vector<uint64_t> idx; for (int i = 0; i < size; i++) idx.push_back(i); idx.push_back(size - 1);
  auto w = std::make_shared<World>(); std::vector<std::pair<std::vector<bool>, std::vector<__m128i>>> r[2];
  both(backend, w, [&](auto ip) { constexpr int P = decltype(ip)::value; mc::Factory f(w, P); std::unique_ptr<om::ISinglePointArrayGenerator> g;
    if (kind == 0) g = om::SinglePointArrayGeneratorFactory((P == 1) == (bool)first, std::make_unique<om::ObliviousDeltaCalculatorFactory<P>>(P == 0, 0, 1)).create();
    else if (kind == 1) g = om::SinglePointArrayGeneratorFactory((P == 1) == (bool)first, std::make_unique<om::insecure::DummyObliviousDeltaCalculatorFactory>(1 - P, f)).create();
    else g = om::insecure::DummySinglePointArrayGeneratorFactory((P == 1) == (bool)first, 1 - P, f).create();
    r[P] = g->generateSinglePointArrays(share(P, idx, width, salt), size); });
  if (failed()) return;
  check(w->drained(), "bytes left unread between the parties");
  for (int p = 0; p < 2; p++) check(r[p].size() == idx.size(), "number of single-point arrays"); if (failed()) return;
  for (size_t k = 0; k < idx.size(); k++) {
    for (int p = 0; p < 2; p++) check((int)r[p][k].first.size() == size && (int)r[p][k].second.size() == size, "length of a single-point array"); if (failed()) return;
    for (int j = 0; j < size; j++) {
      bool d = r[0][k].first[j] != r[1][k].first[j]; evals(2); state(mix(mix(size * 64 + width, kind * 4 + salt), idx[k] * 64 + j));
      check(d == (j == (int)idx[k]), "indicators of a single-point array", [&] { return "length " + str(size) + " index " + str(idx[k]) + " position " + str(j); });
      check(eqBlock(r[0][k].second[j], r[1][k].second[j]) != (j == (int)idx[k]), "keys of a single-point array", [&] { return "length " + str(size) + " index " + str(idx[k]) + " position " + str(j); });
    }
  }
}
static void deltas() {
  int backend = choose(2, "backend"), kind = choose(2, "kind"), first = choose(2, "party 0"), which = choose(4, "pattern"); uint64_t salt = choose(3, "shares");
  note("delta " + str(kind) + " pattern " + str(which));
  std::vector<uint64_t> lo[2], hi[2], al;
  for (int i = 0; i < 130; i++) for (int a = 0; a < 2; a++) { al.push_back(a);
    for (int s = 0; s < 2; s++) { uint64_t l = which == 0 ? (s ? 0 : i < 64 ? 1ull << i : 0) : which == 1 ? (s ? (i < 64 ? ~(1ull << i) : ~0ull) : 0) : mix(i, s + which), h = which == 0 ? (s == 0 && i >= 64 && i < 128 ? 1ull << (i - 64) : 0) : mix(i + 7, s + which); lo[s].push_back(l); hi[s].push_back(h); } }
  size_t n = al.size(); auto blk = [&](int P, int s) { std::vector<__m128i> v; for (size_t i = 0; i < n; i++) { uint64_t ml = salt == 0 ? 0 : mix(salt, i * 4 + s), mh = salt == 0 ? 0 : mix(salt, i * 4 + s + 2); v.push_back(P ? _mm_set_epi64x(mh, ml) : _mm_set_epi64x(mh ^ hi[s][i], ml ^ lo[s][i])); } return v; };
  auto w = std::make_shared<World>(); std::tuple<std::vector<__m128i>, std::vector<bool>, std::vector<bool>> r[2];
  both(backend, w, [&](auto ip) { constexpr int P = decltype(ip)::value; mc::Factory f(w, P); std::unique_ptr<om::IObliviousDeltaCalculator> c;
    if (kind == 0) c = om::ObliviousDeltaCalculatorFactory<P>(P == first, first, 1 - first).create(); else c = om::insecure::DummyObliviousDeltaCalculatorFactory(1 - P, f).create();
    r[P] = c->calculateDelta(blk(P, 0), blk(P, 1), share(P, al, 1, salt)[0]); });
  if (failed()) return;
  for (int p = 0; p < 2; p++) for (size_t i = 0; i < n; i++) {
    bool a = al[i]; int s = a ? 0 : 1;  // which of the two the expansion keeps
    __m128i want = _mm_set_epi64x(hi[s][i], lo[s][i]); evals(3); state(mix(mix(which * 8 + kind, salt), i));
    check(eqBlock(std::get<0>(r[p])[i], want), "chosen delta", [&] { return "pattern " + str(which) + " element " + str(i); });
    check(std::get<1>(r[p])[i] == ((lo[0][i] & 1) != !a), "first delta bit", [&] { return "pattern " + str(which) + " element " + str(i); });
    check(std::get<2>(r[p])[i] == ((lo[1][i] & 1) != a), "second delta bit", [&] { return "pattern " + str(which) + " element " + str(i); });
  }
}
template <class T, int W> static void differences() {
  int backend = choose(2, "backend"), kind = choose(2, "kind"), first = choose(2, "party 0"); uint64_t salt = choose(3, "shares"); int top = std::min(W >= 30 ? 40 : (1 << W) - 1, 40);
  note("differences width " + str(W) + " kind " + str(kind));
  std::vector<uint64_t> ind[2], min, s[2];
  for (int a = 0; a <= top; a++) for (int d : {-1, 1}) { int b = a - d; if (b < 0 || b > top) continue; ind[0].push_back(a); ind[1].push_back(b); min.push_back(value<T>(a + d)); s[0].push_back(value<T>(a * 3 + 1)); s[1].push_back(value<T>(b * 2 + 2)); }
  size_t n = min.size(); auto w = std::make_shared<World>(); std::vector<uint64_t> r[2];
  both(backend, w, [&](auto ip) { constexpr int P = decltype(ip)::value; mc::Factory f(w, P); std::unique_ptr<om::IDifferenceCalculator<T>> c; int role = P == first ? 0 : 1;
    if (kind == 0) c = om::DifferenceCalculatorFactory<T, W, P>(P == first, first, 1 - first).create(); else c = om::insecure::DummyDifferenceCalculatorFactory<T, W>(P == first, 1 - P, f).create();
    r[P] = Val<T>::codes(c->calculateDifferenceBatch(std::vector<uint32_t>(ind[role].begin(), ind[role].end()), share(P, min, Val<T>::bits, salt), Val<T>::batch(s[role]))); });
  if (failed()) return;
  for (int p = 0; p < 2; p++) for (size_t i = 0; i < n; i++) {
    uint64_t d = sub<T>(min[i], sub<T>(s[0][i], s[1][i])); if (ind[0][i] < ind[1][i]) d = sub<T>(0, d);
    evals(); state(mix(mix(W * 4 + kind, salt), i * 2 + p));
    check(r[p].size() == n && r[p][i] == d, std::string("difference, ") + Val<T>::name, [&] { return "width " + str(W) + " indicators " + str(ind[0][i]) + "," + str(ind[1][i]) + " got " + str(r[p][i]) + " expected " + str(d); });
  }
}
int main(int argc, char** argv) {
#if PART == 0
  return harnessMain(argc, argv, "C23", {{"pairs, uint32", pairs<uint32_t>, 0, -1, false, 0, 6}, {"bulk, uint32", bulk<uint32_t>, 0, -1, false, 0, 5}, {"improper batches", rejects, 0, -1, false, 0, 3}});
#elif PART == 1
  return harnessMain(argc, argv, "C23", {{"pairs, Intp", pairs<I5>, 0, -1, false, 0, 6}, {"bulk, Intp", bulk<I5>, 0, -1, false, 0, 5}});
#elif PART == 2
  return harnessMain(argc, argv, "C23", {{"pairs, aggregation values", pairs<AV>, 0, -1, false, 0, 6}, {"bulk, aggregation values", bulk<AV>, 0, -1, false, 0, 5}});
#else
  return harnessMain(argc, argv, "C23", {{"single points", points, 0, -1, false, 0, 5}, {"deltas", deltas, 0, -1, false, 0, 4}, {"differences, uint32, 2 bits", [] { differences<uint32_t, 2>(); }}, {"differences, Intp, 5 bits", [] { differences<I5, 5>(); }}, {"differences, aggregation values, 12 bits", [] { differences<AV, 12>(); }}, {"differences, uint32, 31 bits", [] { differences<uint32_t, 31>(); }}});
#endif
}
