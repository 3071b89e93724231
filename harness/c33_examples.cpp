// C33: the example applications. PART 0: edit distance, PART 1: strings, billionaires, files and validation, PART 2: shares of strings given as strings.
#include <fstream>
#include <unistd.h>
#include "mc/front.h"
#include "example/edit_distance/MPCTypes.h"
using namespace mc;
namespace ed = fbpcf::edit_distance; namespace fe = fbpcf::frontend;
static std::unique_ptr<IScheduler> scheduler(BackendChoice b, int p, Factory& f) { return makeScheduler(b.b, ARENA_CHECKED, p, 2, f, hashBits(77), true); }
template <int P> struct Freed { ~Freed() { fbpcf::scheduler::SchedulerKeeper<P>::freeScheduler(); } };
static void play(BackendChoice b, const std::function<void(Factory&)>& p0, const std::function<void(Factory&)>& p1) {
  auto w = std::make_shared<World>();
  auto side = [&](int p) { Factory f(w, p); if (p == 0) { Freed<0> x; p0(f); } else { Freed<1> x; p1(f); } };
  if (b.plain) { side(0); return; }
  parties(2, side);
  check(w->drained(), "bytes left unread between the parties");
}
static std::string tmp(const std::string& n) { return "c33_" + std::to_string(getpid()) + "_" + n; }
struct File { std::string p; File(const std::string& n, const std::string& c) : p(tmp(n)) { std::ofstream(p) << c; } ~File() { unlink(p.c_str()); } };

#if PART == 0
#include "example/edit_distance/EditDistanceGame.h"
#include "example/edit_distance/Validator.h"
struct Row { std::string w, g, m; };
struct Data { std::vector<Row> rows; int threshold, del, ins; };
static int64_t distance(const Row& r, int del, int ins) {
  size_t n = r.w.size(), k = r.g.size();
  std::vector<std::vector<int64_t>> d(n + 1, std::vector<int64_t>(k + 1));
  for (size_t i = 0; i <= n; i++) for (size_t j = 0; j <= k; j++) {
    if (!i && !j) continue;
    int64_t best = INT64_MAX;
    if (i && j) best = std::min<int64_t>(best, d[i - 1][j - 1] + std::abs((int)r.w[i - 1] - (int)r.g[j - 1]));
    if (i) best = std::min(best, d[i - 1][j] + ins);
    if (j) best = std::min(best, d[i][j - 1] + del);
    d[i][j] = best;
  }
  return d[n][k];
}
static std::string message(const Row& r, int64_t d, int t) { return d < t ? r.m : d <= 2 * (int64_t)t ? r.m.substr(0, r.m.size() / 2) : ""; }
static std::string csv(const Data& d, int who) {  // 0: sender, 1: receiver, 2: both
  std::string s = who == 0 ? "word,sender_message\n" : who == 1 ? "guess\n" : "guess,sender_message,word\n";
  for (auto& r : d.rows) s += who == 0 ? r.w + "," + r.m + "\n" : who == 1 ? r.g + "\n" : r.g + "," + r.m + "," + r.w + "\n";
  return s;
}
static std::string params(const Data& d) { return "threshold,delete_cost,insert_cost\n" + str(d.threshold) + "," + str(d.del) + "," + str(d.ins) + "\n"; }
template <int P> static std::string game(BackendChoice b, Factory& f, const std::string& in, const std::string& par) {
  ed::EditDistanceGame<P> g(P, scheduler(b, P, f));
  return g.play(ed::EditDistanceInputReader(in, par));
}
static void compare(BackendChoice b, const Data& d, const std::string& nm) {
  note(nm);
  File in0("in0", csv(d, b.plain ? 2 : 0)), in1("in1", csv(d, 1)), par("params", params(d));
  std::string out[2];
  play(b, [&](Factory& f) { out[0] = game<0>(b, f, in0.p, par.p); }, [&](Factory& f) { out[1] = game<1>(b, f, in1.p, par.p); });
  std::vector<folly::dynamic> shares{folly::parseJson(out[0])}; if (!b.plain) shares.push_back(folly::parseJson(out[1]));
  size_t n = d.rows.size();
  for (auto& s : shares) { check(s.at("editDistanceShares").size() == n && s.at("receiverMessageShares").size() == n, "number of shares", [&] { return nm; }); for (auto& m : s.at("receiverMessageShares")) check(m.asString().size() == ed::maxStringLength, "length of a message share", [&] { return nm; }); }
  std::string expected = "distance,receiver_message\n", wrong = expected, cut = expected, other = expected;
  for (size_t i = 0; i < n; i++) {
    auto& r = d.rows[i]; int64_t want = distance(r, d.del, d.ins), got = 0; std::string gm(ed::maxStringLength, 0), wm = message(r, want, d.threshold);
    for (auto& s : shares) { got ^= s.at("editDistanceShares").at(i).asInt(); auto x = s.at("receiverMessageShares").at(i).asString(); for (size_t k = 0; k < gm.size(); k++) gm[k] ^= x.at(k); }
    auto what = [&] { return nm + " word '" + r.w + "' guess '" + r.g + "' message '" + r.m + "' threshold " + str(d.threshold) + " delete " + str(d.del) + " insert " + str(d.ins) + ": got " + str(got) + " '" + gm + "' expected " + str(want) + " '" + wm + "'"; };
    auto padded = wm; padded.resize(ed::maxStringLength, 0);
    check(got == want, "edit distance", what); check(gm == padded, "released message", what); evals(2);
    state(mix(hashStr(r.w + "/" + r.g + "/" + r.m), mix(mix(got, d.threshold), d.del * 64 + d.ins)));
    expected += str(want) + "," + wm + "\n";
    wrong += str(want + (i + 1 == n)) + "," + wm + "\n"; other += str(want) + "," + wm + (i + 1 == n ? "x" : "") + "\n"; if (i + 1 < n) cut += str(want) + "," + wm + "\n";
  }
  // the validator agrees, and tells apart other results
  File o0("out0", out[0]), o1("out1", out[1]), e("expected", expected), w("wrong", wrong), c("cut", cut), o("other", other), more("more", expected + "1,a\n");
  std::vector<std::string> paths{o0.p}; if (!b.plain) paths.push_back(o1.p);
  auto verdict = [&](const File& f) { return ed::Validator(paths, f.p).validate(); };
  check(verdict(e) == ed::Validator::SUCCESS, "validator rejects the right results", [&] { return nm; });
  check(verdict(w) == ed::Validator::RESULT_MISMATCH, "validator accepts a wrong distance", [&] { return nm; });
  check(verdict(o) == ed::Validator::RESULT_MISMATCH, "validator accepts a wrong message", [&] { return nm; });
  check(verdict(c) == ed::Validator::SIZE_MISMATCH, "validator accepts missing results", [&] { return nm; });
  check(verdict(more) == ed::Validator::SIZE_MISMATCH, "validator accepts extra results", [&] { return nm; });
  evals(5);
}
static void words(std::vector<std::string>& out, const std::string& alpha, size_t n) { out = {""}; for (size_t a = 0, b = 1; n; n--) { for (size_t i = a; i < b; i++) for (char c : alpha) out.push_back(out[i] + c); a = b; b = out.size(); } }
static const std::string text = "message=of#15ch";
static const int costs[][2] = {{1, 1}, {2, 5}, {7, 1}, {0, 3}, {100, 40}};
// the engines are slow: they get a piece of the rows at a time
static void piece(const BackendChoice& b, Data& d, size_t quickRows, size_t stride = 1) {
  if (b.plain) return;
  size_t size = thorough ? 160 : quickRows, n = (d.rows.size() + size - 1) / size, k = thorough ? choose((int)n, "piece") : 0;
  std::vector<Row> r; for (size_t i = k * size; i < (thorough ? (k + 1) * size : d.rows.size()) && i < d.rows.size() && r.size() < size; i += thorough ? 1 : stride) r.push_back(d.rows[i]);
  d.rows = r;
}
// every pair of short words over the alphabet, with every message length
static void pairs(const char* alpha, size_t len, int ncost, int nthr) {
  auto b = chooseBackend(); int c = choose(ncost, "costs"), t = choose(nthr, "threshold"); static const int thr[] = {2, 0, 1, 4, 9, 130};
  Data d; d.threshold = thr[t]; d.del = costs[c][0]; d.ins = costs[c][1];
  std::vector<std::string> w; words(w, alpha, len); size_t k = 0;
  for (auto& x : w) for (auto& y : w) { d.rows.push_back({x, y, text.substr(0, k % 16)}); k += 7; }
  if (!b.plain && !thorough) assume(c == 1 && t == (b.b == LAZY ? 0 : 4) % nthr);
  piece(b, d, 40, d.rows.size() / 40 + 1);
  compare(b, d, "backend " + str(b.b) + " pairs of words over " + alpha);
}
// every pair of lengths, several contents
static void lengths() {
  auto b = chooseBackend(); int c = choose(thorough ? 5 : 3, "costs"), t = choose(thorough ? 3 : 1, "threshold"), k = choose(thorough ? 3 : 1, "content");
  Data d; d.del = costs[c][0]; d.ins = costs[c][1]; d.threshold = t == 0 ? 12 : t == 1 ? 40 : 400;
  static const char* con[] = {"abababacabadaba", "\x7f\x01~ \x7f\x01zzAZaz09+", "zyxwvutsrqponml"}; static const char* con2[] = {"babacababaadaba", "\x01\x7f~ zAzA90-zaZA", "abcdefghijklmno"};
  for (int i = 0; i <= 15; i++) for (int j = 0; j <= 15; j++) d.rows.push_back({std::string(con[k]).substr(0, i), std::string(con2[k]).substr(0, j), text.substr(0, (i * 5 + j * 3) % 16)});
  if (!b.plain && !thorough) assume(c == 1);
  piece(b, d, 64, 3);
  compare(b, d, "backend " + str(b.b) + " lengths, content " + str(k));
}
// every pair of characters
static void characters() {
  auto b = chooseBackend(); Data d{{}, 64, 90, 77}; int half = choose(2, "half"); if (!b.plain && !thorough) assume((b.b == LAZY) == (half == 0));
  std::vector<int> cs; for (int i = 1; i < 128; i++) if (!isspace(i) && i != ',' && i != '"') cs.push_back(i);
  for (size_t i = 0; i < cs.size(); i++) for (size_t j = 0; j < cs.size(); j += thorough ? 1 : 7) if ((i + j) % 2 == (size_t)half) { char x = cs[i], y = cs[(j + i) % cs.size()]; if (x == ' ' || y == ' ' || x == '\t' || y == '\t') continue; d.rows.push_back({std::string(1, x), std::string(1, y), std::string(1, y) + x}); }
  piece(b, d, 40, 67);
  compare(b, d, "backend " + str(b.b) + " characters");
}
// thresholds around the distance, every message length
static void thresholds() {
  auto b = chooseBackend(); int t = choose(12, "threshold"); Data d; d.threshold = t < 10 ? t : t == 10 ? 63 : 1 << 20; d.del = 1; d.ins = 1;
  for (int dist = 0; dist <= 10; dist++) for (int m = 0; m <= 15; m += b.plain || thorough ? 1 : 5) d.rows.push_back({std::string("aaaaaaaaaaaa").substr(0, dist), "", text.substr(0, m)});
  for (int dist : {61, 62, 63, 64, 65, 125, 126, 127}) d.rows.push_back({std::string(1, '\x01'), std::string(1, (char)(1 + dist) < 1 ? 'a' : (char)(1 + dist)), "ab"});
  for (auto& r : d.rows) if (r.g == "\x7f" ) r.g = "~";
  if (!b.plain && !thorough) assume(t == 1 || t == 5);
  compare(b, d, "backend " + str(b.b) + " thresholds");
}
// parties that disagree stop, and strings that are too long are refused
static void disagree() {
  auto b = BackendChoice{choose(2, "backend") ? EAGER : LAZY, false}; int what = choose(8, "what"), who = choose(2, "who");
  Data d[2]; for (auto& x : d) x = Data{{{"ab", "b", "m"}, {"c", "c", "n"}}, 3, 2, 1};
  auto& o = d[who];
  if (what == 0) o.rows.pop_back(); if (what == 1) o.rows.push_back({"a", "b", "c"}); if (what == 2) o.threshold++; if (what == 3) o.del--; if (what == 4) o.ins += 256;
  if (what == 5) o.threshold = 3 + 65536;
  if (what == 7) d[0].rows[who].m = std::string(17, 'a');
  note("disagreement " + str(what) + " by " + str(who));
  File in0("in0", csv(d[0], 0)), in1("in1", csv(d[1], 1)), p0("params0", params(d[0])), p1("params1", params(d[1]));
  if (what > 5) {  // a single party holding everything
    if (what == 6) (who ? d[0].rows[1].g : d[0].rows[0].w) = std::string(16, 'a');
    File all("all", csv(d[0], 2)); bool refused = false; auto w = std::make_shared<World>(); Factory f(w, 0); Freed<0> x;
    try { game<0>({PLAIN, true}, f, all.p, p0.p); } catch (const std::runtime_error&) { refused = true; }
    evals(); state(what * 2 + who); check(refused, "string that is too long not refused", [&] { return str(what); }); return;
  }
  int threw[2] = {0, 0};
  auto run1 = [&](int p, const std::function<void()>& f) { try { f(); } catch (const std::runtime_error&) { threw[p] = 1; } };
  mc::run([&] {
    auto w = std::make_shared<World>(); std::vector<int> ids;
    ids.push_back(spawn([&] { Factory f(w, 0); Freed<0> x; run1(0, [&] { game<0>(b, f, in0.p, p0.p); }); }));
    ids.push_back(spawn([&] { Factory f(w, 1); Freed<1> x; run1(1, [&] { game<1>(b, f, in1.p, p1.p); }); }));
    for (int i : ids) join(i);
  }, [] { RunOpts o; o.failOnDeadlock = false; return o; }());
  evals(); state(what * 2 + who);
  check(threw[0] && threw[1], "disagreement about rows or parameters not noticed", [&] { return str(what); });
}
int main(int c, char** v) {
  return harnessMain(c, v, "C33", {
    {"every pair of words of up to 2 letters over 3", [] { pairs("acz", 2, 5, 6); }},
    {"every pair of words of up to 4 letters over 2", [] { pairs("ad", 4, thorough ? 5 : 2, thorough ? 6 : 2); }},
    {"every pair of words of up to 3 letters over 4", [] { pairs("aZf~", 3, 3, 3); }, 0, -1, true},
    {"every pair of lengths", lengths},
    {"every pair of characters", characters},
    {"every threshold around the distance", thresholds},
    {"parties that disagree", disagree},
  });
}
#else
#include "example/billionaire_problem/BillionaireProblemGame.h"
#include "example/edit_distance/AsciiString.h"
#include "example/edit_distance/EditDistanceInputReader.h"
#include "example/edit_distance/EditDistanceResults.h"
#include "example/edit_distance/Util.h"
namespace bp = fbpcf::billionaire_problem;
// ---- billionaires
using Amount = std::array<uint32_t, 3>;
static std::vector<Amount> amounts(const std::vector<uint32_t>& v) {
  std::vector<Amount> r; for (auto a : v) for (auto b : v) for (auto c : v) if ((uint64_t)a + b + c <= 0xffffffffull) r.push_back({a, b, c});
  return r;
}
static std::vector<uint32_t> alphabet(int k) { return k == 0 ? std::vector<uint32_t>{0, 1, 2} : k == 1 ? std::vector<uint32_t>{0, 1, 0x7fffffff, 0x80000000u} : k == 2 ? std::vector<uint32_t>{0, 0xffff, 0x10000, 0xffffffffu} : std::vector<uint32_t>{0, 5, 255, 256, 0xfffffffeu, 1}; }
static void rich(bool batch) {
  auto b = chooseBackend(); auto am = amounts(alphabet(choose(thorough ? 4 : 3, "amounts"))); size_t n = am.size();
  size_t from = batch ? 0 : choose(n, "alice"), to = batch ? n : from + 1; if (!batch && !b.plain && !thorough) assume(from % 5 == 1);
  note("backend " + str(b.b) + (batch ? " batch" : " single") + " alice " + str(from));
  std::vector<Amount> al, bo; for (size_t i = from; i < to; i++) for (auto& y : am) { al.push_back(am[i]); bo.push_back(y); }
  auto total = [](const Amount& x) { return (uint64_t)x[0] + x[1] + x[2]; };
  auto verify = [&](size_t i, bool got) {
    evals(); state(mix(hashStr(vec(std::vector<uint32_t>(al[i].begin(), al[i].end()))), mix(hashStr(vec(std::vector<uint32_t>(bo[i].begin(), bo[i].end()))), got)));
    check(got == (total(al[i]) < total(bo[i])), "who is richer", [&] { return str(total(al[i])) + " and " + str(total(bo[i])) + " backend " + str(b.b); });
  };
  auto side = [&](auto P, Factory& f) {
    constexpr int p = decltype(P)::value;
    if (batch) {
      bp::BillionaireProblemGame<p, true> g(scheduler(b, p, f)); typename bp::BillionaireProblemGame<p, true>::AssetsLists l[2];
      for (int who = 0; who < 2; who++) for (size_t i = 0; i < al.size(); i++) { auto x = who ? bo[i] : al[i]; if (!b.plain && who != p) x = {7, 8, (uint32_t)i}; l[who].cash.push_back(x[0]); l[who].stock.push_back(x[1]); l[who].property.push_back(x[2]); }
      auto r = g.billionaireProblem(l[0], l[1]);
      if (p == 0) { check(r.size() == al.size(), "number of results"); for (size_t i = 0; i < r.size(); i++) verify(i, r[i]); }
    } else {
      bp::BillionaireProblemGame<p, false> g(scheduler(b, p, f));
      for (size_t i = 0; i < al.size(); i++) {
        typename bp::BillionaireProblemGame<p, false>::AssetsLists l[2];
        for (int who = 0; who < 2; who++) { auto x = who ? bo[i] : al[i]; if (!b.plain && who != p) x = {7, 8, 9}; l[who] = {x[0], x[1], x[2]}; }
        bool r = g.billionaireProblem(l[0], l[1]); if (p == 0) verify(i, r);
      }
    }
  };
  play(b, [&](Factory& f) { side(std::integral_constant<int, 0>(), f); }, [&](Factory& f) { side(std::integral_constant<int, 1>(), f); });
}
// ---- strings
static std::string up(std::string s) { for (auto& c : s) if (c >= 'a' && c <= 'z') c -= 32; return s; }
using Strings = std::vector<std::string>;
static void words(Strings& out, const std::string& alpha, size_t n) { out = {""}; for (size_t a = 0, b = 1; n; n--) { for (size_t i = a; i < b; i++) for (char c : alpha) out.push_back(out[i] + c); a = b; b = out.size(); } }
template <int P, int W, bool B> struct Str {
  using S = ed::AsciiString<W, true, P, B>; using Q = ed::AsciiString<W, false, P, B>; using T = std::conditional_t<B, Strings, std::string>;
  BackendChoice b; Factory& f; std::string nm;
  static Strings list(const T& x) { if constexpr (B) return x; else return {x}; }
  static std::vector<size_t> lens(const Strings& s) { std::vector<size_t> r; for (auto& x : s) r.push_back(x.size()); return r; }
  static std::vector<size_t> sizes(const Q& q) { if constexpr (B) return q.size(); else return {q.size()}; }
  void pub(const Q& q, const T& want, const char* what) {
    auto g = list(q.getValue()), w = list(want); evals(2); state(mix(hashStr(nm + what), hashStr([&] { std::string s; for (auto& x : g) s += x + "/"; return s; }())));
    check(g == w, what, [&] { std::string s = nm; for (size_t i = 0; i < w.size() && i < g.size(); i++) if (g[i] != w[i]) s += " '" + g[i] + "' instead of '" + w[i] + "'"; return s; });
    check(sizes(q) == lens(w), std::string(what) + " (size)", [&] { return nm + vec(sizes(q)) + " instead of " + vec(lens(w)); });
  }
  void sec(const S& s, const T& want, const char* what) { for (int to = 0; to < (b.plain ? 1 : 2); to++) { auto q = s.openToParty(to); if (b.plain || to == P) pub(q, want, what); } }
  static T pick(const std::vector<bool>& c, const T& a, const T& o) { if constexpr (B) { T r; for (size_t i = 0; i < a.size(); i++) r.push_back(c[i] ? o[i] : a[i]); return r; } else return c[0] ? o : a; }
  static T upper(const T& a) { if constexpr (B) { T r; for (auto& x : a) r.push_back(up(x)); return r; } else return up(a); }
  static T junk(const T& a) { if constexpr (B) return T(a.size(), "x"); else return "x"; }
  template <bool Sec> static fe::Bit<Sec, P, B> bit(const std::vector<bool>& c) { if constexpr (B) { if constexpr (Sec) return fe::Bit<true, P, true>(c, 0); else return fe::Bit<false, P, true>(c); } else { bool x = c[0]; if constexpr (Sec) return fe::Bit<true, P, false>(x, 0); else return fe::Bit<false, P, false>(x); } }
  void go(const T& a, const T& o, const std::vector<bool>& c, int oa, int ob) {
    if constexpr (P == 1) { if (b.plain) return; }
    if (b.plain) oa = ob = 0;
    auto mine = [&](const T& x, int owner) { return b.plain || owner == P ? x : junk(x); };
    S s(mine(a, oa), oa), t(mine(o, ob), ob); Q p(a), q(o);
    check(s.width() == W && p.width() == W, "width");
    if constexpr (B) check(s.getBatchSize() == a.size() && p.getBatchSize() == a.size(), "batch size");
    sec(s, a, "secret string"); pub(p, a, "public string");
    sec(s.toUpperCase(), upper(a), "upper case of a secret string"); pub(p.toUpperCase(), upper(a), "upper case of a public string");
    auto cs = bit<true>(c); auto cp = bit<false>(c);
    sec(s.mux(cs, t), pick(c, a, o), "selection, all secret"); sec(s.mux(cp, t), pick(c, a, o), "selection by a public bit"); sec(s.mux(cs, q), pick(c, a, o), "selection of a public string");
    sec(p.mux(cs, q), pick(c, a, o), "selection of public strings by a secret bit"); sec(p.mux(cp, t), pick(c, a, o), "selection of secret over public"); pub(p.mux(cp, q), pick(c, a, o), "selection of public strings by a public bit");
    auto n = s.template privateSize<8>();
    for (int to = 0; to < (b.plain ? 1 : 2); to++) {
      auto v = n.openToParty(to).getValue(); std::vector<size_t> got; if constexpr (B) got.assign(v.begin(), v.end()); else got = {(size_t)v};
      evals(); if (b.plain || to == P) check(got == lens(list(a)), "secret size", [&] { return nm + vec(got); });
    }
    auto sh = s.extractAsciiStringShare(); check(sh.width() == W, "width of shares"); S back(std::move(sh)); sec(back, a, "string rebuilt from its shares");
    sec(s, a, "operand of the operations"); sec(t, o, "operand of the operations");
#if PART == 2
    // shares given as strings: this party's is m, the other's a xor m; unused characters are zero
    auto full = [](const std::string& x) { auto y = x; y.resize(W, 0); return y; };
    auto half = [&](const std::string& x) { if (b.plain) return x; std::string y = full(x); for (size_t i = 0; i < y.size(); i++) y[i] = P == 0 ? (char)(17 * i + 200) : (char)(y[i] ^ (char)(17 * i + 200)); return y; };
    T hs; if constexpr (B) for (auto& x : a) hs.push_back(half(x)); else hs = half(a);
    typename S::ExtractedAsciiString e(hs); T back2 = e.getValue(), want = hs;
    if constexpr (B) { for (auto& x : want) x = full(x); } else want = full(want);
    check(back2 == want, "shares built from strings", [&] { return nm; }); S made(std::move(e)); sec(made, a, "string built from share strings");
#endif
  }
  void tooLong(const T& bad) {
    int n = 0; try { Q q(bad); } catch (const std::runtime_error&) { n++; }
    try { S s(bad, 0); } catch (const std::runtime_error&) { n++; }
#if PART == 2
    try { T x = bad; typename S::ExtractedAsciiString e(x); n = 0; } catch (const std::runtime_error&) { n++; }
    n--;
#endif
    evals(2); check(n == 2, "string that is too long accepted", [&] { return nm; });
  }
};
template <int W, bool B> static void onBoth(BackendChoice b, const std::string& nm, const std::conditional_t<B, Strings, std::string>& a, const std::conditional_t<B, Strings, std::string>& o, const std::vector<bool>& c, int oa, int ob, bool bad = false) {
  note(nm);
  auto side = [&](auto P, Factory& f) { constexpr int p = decltype(P)::value; fbpcf::scheduler::SchedulerKeeper<p>::setScheduler(scheduler(b, p, f)); Str<p, W, B> s{b, f, nm}; if (bad) s.tooLong(a); else s.go(a, o, c, oa, ob); };
  play(b, [&](Factory& f) { side(std::integral_constant<int, 0>(), f); }, [&](Factory& f) { side(std::integral_constant<int, 1>(), f); });
}
template <int W> static void strings() {
  auto b = chooseBackend(); int own = b.plain ? 0 : choose(4, "owners"); Strings w; words(w, "aZz\x7f", W > 3 ? 2 : W);
  Strings a, o; std::vector<bool> c; for (size_t i = 0; i < w.size(); i++) { a.push_back(w[i]); o.push_back(w[(i * 7 + 3) % w.size()]); c.push_back(i % 3 == 1); }
  onBoth<W, true>(b, "width " + str(W) + " backend " + str(b.b) + " owners " + str(own), a, o, c, own & 1, own >> 1);
}
static void single() {
  auto b = chooseBackend(); int own = b.plain ? 0 : choose(thorough ? 4 : 2, "owners"); Strings w; words(w, "aZ", 3); auto& a = w[choose(w.size(), "string")]; auto& o = w[choose(thorough ? w.size() : 3, "other")]; bool c = choose(2, "choice");
  onBoth<3, false>(b, "'" + a + "' '" + o + "' backend " + str(b.b) + " owners " + str(own) + " choice " + str(c), a, o, {c}, own & 1, own >> 1);
}
static void chars() {
  auto b = chooseBackend(); Strings a, o; std::vector<bool> c; for (int pos = 0; pos < 2; pos++) for (int i = 1; i < 128; i++) { a.push_back(std::string(pos, 'q') + (char)i); o.push_back(std::string(pos, 'p') + (char)(128 - i)); c.push_back(i % 2); }
  onBoth<2, true>(b, "every character, backend " + str(b.b), a, o, c, 0, 1);
}
static void tooLong() {
  auto b = chooseBackend(); int k = choose(3, "length"), pos = choose(3, "position"); std::string bad(k == 0 ? 4 : k == 1 ? 5 : 300, 'a'); Strings l{"a", "", "abc"}; l[pos] = bad;
  onBoth<3, true>(b, "too long, batch " + str(pos), l, l, {}, 0, 0, true); onBoth<3, false>(b, "too long", bad, bad, {}, 0, 0, true);
}
// ---- files
static void files() {
  int n = choose(4, "rows"), cols = choose(8, "columns"), order = choose(2, "order"), t = choose(3, "numbers"); static const int num[] = {0, 1, 2147483647};
  struct C { const char* n; Strings v; }; std::vector<C> cs; static const char* names[] = {"word", "sender_message", "guess"};
  for (int i = 0; i < 3; i++) if (cols >> i & 1) { C c{names[i], {}}; for (int r = 0; r < n; r++) c.v.push_back(r == 1 && cs.size() ? "" : std::string(1, 'a' + i) + str(r)); cs.push_back(c); }
  if (cs.empty()) cs.push_back({"other", Strings(n, "1")});
  if (order) std::reverse(cs.begin(), cs.end());
  std::string text; for (size_t i = 0; i < cs.size(); i++) text += (i ? "," : "") + std::string(cs[i].n); text += "\n";
  for (int r = 0; r < n; r++) { for (size_t i = 0; i < cs.size(); i++) text += (i ? "," : "") + cs[i].v[r]; text += "\n"; }
  note(text); File d("data", text), p("par", order ? "insert_cost,threshold,delete_cost\n" + str(num[(t + 2) % 3]) + "," + str(num[t]) + "," + str(num[(t + 1) % 3]) + "\n" : "threshold,delete_cost,insert_cost\n" + str(num[t]) + "," + str(num[(t + 1) % 3]) + "," + str(num[(t + 2) % 3]) + "\n");
  ed::EditDistanceInputReader r(d.p, p.p); evals(7); state(hashStr(text + str(t)));
  check(r.getNumRows() == n, "number of rows read", [&] { return text; });
  check(r.getThreshold() == num[t] && r.getDeleteCost() == num[(t + 1) % 3] && r.getInsertCost() == num[(t + 2) % 3], "parameters read", [&] { return str(t); });
  auto col = [&](const char* nm, const Strings& got) { Strings want(n, ""); for (auto& c : cs) if (c.n == std::string(nm)) want = c.v; check(got == want, std::string("column read: ") + nm, [&] { return text; }); };
  col("word", r.getWords()); col("sender_message", r.getSenderMessages()); col("guess", r.getGuesses());
}
// results from any number of shares
static void results() {
  int shares = choose(4, "shares"), n = choose(4, "rows"), bad = choose(shares ? 3 : 1, "bad");
  std::vector<folly::dynamic> v; std::vector<int64_t> want; Strings wm;
  for (int r = 0; r < n; r++) { want.push_back(r == 0 ? 0 : r == 1 ? -5 : 1ll << 31); wm.push_back(std::string("abcdefghijklmno").substr(0, r == 0 ? 15 : r == 1 ? 0 : 7)); }
  for (int s = 0; s < shares; s++) {
    std::vector<int64_t> d; Strings m;
    for (int r = 0; r < n; r++) {
      int64_t x = 0x1234567 * (s + 1) * (r + 3) * (s % 2 ? -1 : 1); std::string y(15, 0); for (size_t i = 0; i < 15; i++) y[i] = (char)(s * 31 + i * 7 + r);
      if (s + 1 == shares) { x = want[r]; y = wm[r]; y.resize(15, 0); for (int q = 0; q < s; q++) { x ^= v[q].at("editDistanceShares").at(r).asInt(); auto z = v[q].at("receiverMessageShares").at(r).asString(); for (size_t i = 0; i < 15; i++) y[i] ^= z[i]; } if (shares == 1) y = wm[r]; }
      d.push_back(x); m.push_back(y);
    }
    if (s + 1 == shares && bad == 1) d.push_back(1); if (s + 1 == shares && bad == 2) m.push_back("a");
    folly::dynamic o = folly::dynamic::object; o["editDistanceShares"] = folly::dynamic::array_range(d); o["receiverMessageShares"] = folly::dynamic::array_range(m); v.push_back(o);
  }
  note(str(shares) + " shares, " + str(n) + " rows, bad " + str(bad)); evals(); bool threw = false; state(shares * 100 + n * 10 + bad);
  try { ed::EditDistanceResults r(v); if (shares && !bad) { check(r.editDistances == want, "recovered distances"); check(r.receiverMessages == wm, "recovered messages"); } } catch (const std::exception&) { threw = true; }
  bool lone = shares == 1 && bad == 1;  // a lone share's number of distances is the number of rows; the messages then do not fit
  check(threw == (!shares || bad), "inconsistent shares", [&] { return str(lone); });
}
// numbers exchanged in the clear, constants
static void numbers() {
  auto b = chooseBackend(); if (b.plain) b = {LAZY, false}; uint64_t v[2]; static const uint64_t al[] = {0, 1, 255, 256, 0x7fffffff, 0xffffffffu}; for (auto& x : v) x = al[choose(6, "value")];
  note(str(v[0]) + " " + str(v[1]));
  auto side = [&](auto P, Factory& f) {
    constexpr int p = decltype(P)::value; fbpcf::scheduler::SchedulerKeeper<p>::setScheduler(scheduler(b, p, f));
    auto a = ed::shareIntFrom<p, 32, 0, 1>(p, v[p]); auto c = ed::shareIntFrom<p, 32, 1, 0>(p, v[p]);
    evals(2); state(mix(a, c * 2 + p)); check(a == v[0] && c == v[1], "number shared in the clear", [&] { return str(a) + " " + str(c); });
  };
  play(b, [&](Factory& f) { side(std::integral_constant<int, 0>(), f); }, [&](Factory& f) { side(std::integral_constant<int, 1>(), f); });
}
int main(int c, char** v) {
#if PART == 2
  return harnessMain(c, v, "C33", {{"strings of width 3, from strings", strings<3>}, {"single strings, from strings", single}, {"too long share strings", tooLong}});
#endif
  return harnessMain(c, v, "C33", {
    {"who is richer, batches", [] { rich(true); }},
    {"who is richer, one by one", [] { rich(false); }},
    {"strings of width 3", strings<3>}, {"strings of width 15", strings<15>}, {"strings of width 2", strings<2>},
    {"single strings", single}, {"every character", chars}, {"strings that are too long", tooLong},
    {"input files", files}, {"recovered results", results}, {"numbers shared in the clear", numbers},
  });
}
#endif
