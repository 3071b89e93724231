// C32: collection helpers and metrics.
#include <map>
#include "fbpcf/common/FunctionalUtil.h"
#include "fbpcf/common/VectorUtil.h"
#include "fbpcf/engine/communication/IPartyCommunicationAgent.h"
#include "fbpcf/engine/tuple_generator/ITupleGenerator.h"
#include "fbpcf/util/MetricCollector.h"
#include "mc/mc.h"
using namespace mc;

template <class F> static bool throws(F f) { try { f(); } catch (const Skip&) { throw; } catch (const std::exception&) { return true; } return false; }

// ---- map, reduce: a function that records its calls; the combination is not commutative and not associative --------
static void functional() {
  int n = choose(mc::thorough ? 18 : 15, "length"), alpha = 3; static const int more[] = {63, 64, 65, 256, 257, 1000}; int few = mc::thorough ? 12 : 9; bool lots = n >= few; if (lots) n = more[n - few];
  std::vector<int> v; std::string nm = "n=" + str(n);
  for (int i = 0; i < n; i++) v.push_back(i < 6 && !lots ? choose(alpha, "value") : i % 3);
  nm += " " + vec(v); note(nm);
  auto orig = v;
  std::vector<int> calls;
  auto out = fbpcf::functional::map<int, std::string>(v, [&](const int& x) { calls.push_back(x); return "<" + std::to_string(x) + "#" + std::to_string(calls.size()) + ">"; });
  evals(); state(hashStr("map" + nm + str(out.size())));
  check(calls == v, "map calls the function once per element in order", [&] { return nm + " calls " + vec(calls); });
  std::vector<std::string> want; for (int i = 0; i < n; i++) want.push_back("<" + std::to_string(v[i]) + "#" + std::to_string(i + 1) + ">");
  check(out == want, "map result", [&] { return nm; });
  std::vector<std::string> sv; for (int x : v) sv.push_back(std::string(1, 'a' + x));
  std::string fold;
  int ncalls = 0;
  bool t = throws([&] { fold = fbpcf::functional::reduce<std::string>(sv, [&](const std::string& a, const std::string& b) { ncalls++; return "(" + a + b + ")"; }); });
  evals(); state(hashStr("reduce" + nm + fold));
  if (n == 0) check(t, "reduce of nothing accepted", [&] { return nm; });
  else {
    std::string w = sv[0]; for (int i = 1; i < n; i++) w = "(" + w + sv[i] + ")";
    check(!t && fold == w && ncalls == n - 1, "reduce result", [&] { return nm + ": " + fold + " expected " + w; });
  }
  check(v == orig, "the input was changed", [&] { return nm; });
}
static void vectors() {
  static const int len[] = {0, 1, 2, 3, 4, 5, 6, 63, 64, 65, 1000};
  int n = len[choose(11, "length a")], m = len[choose(11, "length b")], p = choose(4, "values");
  std::string nm = "n=" + str(n) + " m=" + str(m) + " p=" + str(p); note(nm);
  auto mk = [&](int len, int s) { std::vector<int64_t> r; for (int i = 0; i < len; i++) r.push_back(p == 0 ? i + s : p == 1 ? -(i * 7 + s) : p == 2 ? (int64_t)(hashStr(str(i * 9 + s)) >> 2) : (i % 2 ? -1 : 0)); return r; };
  auto a = mk(n, 1), b = mk(m, 5), a0 = a, b0 = b;
  std::vector<int64_t> add, x, ap; std::vector<std::pair<int64_t, int64_t>> calls;
  bool t1 = throws([&] { add = fbpcf::vector::Add(a, b); }), t2 = throws([&] { x = fbpcf::vector::Xor(a, b); });
  bool t3 = throws([&] { ap = fbpcf::vector::apply<int64_t>(a, b, [&](int64_t l, int64_t r) { calls.emplace_back(l, r); return l * 3 - r; }); });
  evals(3); state(hashStr(nm + str(t1) + str(t2) + str(t3)));
  if (n != m) { check(t1 && t2 && t3 && calls.empty(), "vectors of different lengths accepted", [&] { return nm; }); return; }
  check(!t1 && !t2 && !t3, "vectors of one length rejected", [&] { return nm; });
  check((int)add.size() == n && (int)x.size() == n && (int)ap.size() == n && (int)calls.size() == n, "length of the result", [&] { return nm; });
  if (failed()) return;
  for (int i = 0; i < n; i++) {
    check(add[i] == a[i] + b[i], "Add", [&] { return nm + " at " + str(i); }); check(x[i] == (a[i] ^ b[i]), "Xor", [&] { return nm + " at " + str(i); });
    check(ap[i] == a[i] * 3 - b[i] && calls[i] == std::make_pair(a[i], b[i]), "apply", [&] { return nm + " at " + str(i); });
  }
  check(a == a0 && b == b0, "an operand was changed", [&] { return nm; });
  std::vector<double> da(a.begin(), a.end()), db(b.begin(), b.end()); auto ds = fbpcf::vector::Add(da, db);
  for (int i = 0; i < n; i++) check(ds[i] == da[i] + db[i], "Add of doubles", [&] { return nm; });
}

// ---- metrics ----------------------------------------------------------------------------------------------------
struct Rec : fbpcf::util::IMetricRecorder {
  folly::dynamic v; explicit Rec(folly::dynamic d) : v(d) {}
  folly::dynamic getMetrics() const override { return v; }
};
static void metrics() {
  int cnt = choose(5, "recorders");
  fbpcf::util::MetricCollector c("pre");
  check(c.getPrefix() == "pre", "prefix");
  std::map<std::string, double> total; std::vector<folly::dynamic> all; std::vector<std::string> names;
  std::string nm;
  static const char* keys[] = {"x", "y", "text"};
  for (int i = 0; i < cnt; i++) {
    int name = choose(3, "name"), shape = choose(4, "shape");
    std::string n = std::string("rec") + char('a' + name);
    folly::dynamic d = folly::dynamic::object;
    int base = 1 << (4 * i);
    if (shape & 1) d.insert(keys[0], base * 3);
    if (shape & 2) { d.insert(keys[1], base * 5 + 0.5); d.insert(keys[2], "s" + std::to_string(i)); }
    if (shape == 0) { d.insert(keys[0], base); d.insert(keys[1], base); }
    for (auto& kv : d.items()) if (kv.second.isNumber()) total["pre." + kv.first.asString()] += kv.second.asDouble();
    nm += " " + n + "/" + str(shape);
    all.push_back(d); names.push_back(n);
    c.addNewRecorder(n, std::make_shared<Rec>(d));
    // every recorder shows up, also when its name was taken
    note(nm);
    auto col = c.collectMetrics();
    evals();
    check(col.size() == all.size(), "number of recorders reported", [&] { return nm + ": " + str(col.size()); });
    std::vector<bool> used(all.size());
    for (auto& kv : col.items()) {
      bool hit = false;
      for (size_t k = 0; k < all.size() && !hit; k++) if (!used[k] && all[k] == kv.second && kv.first.asString().rfind("pre." + names[k], 0) == 0) { used[k] = true; hit = true; }
      check(hit, "a recorder's values are reported under its name", [&] { return nm + ": " + kv.first.asString(); });
    }
    for (size_t k = 0; k < all.size(); k++) { bool first = std::find(names.begin(), names.begin() + k, names[k]) == names.begin() + k; if (first) check(col.count("pre." + names[k]) && col["pre." + names[k]] == all[k], "recorder by its name", [&] { return nm; }); }
    auto agg = c.aggregateMetrics();
    evals(); state(hashStr(nm));
    check(agg.size() == total.size(), "number of aggregated metrics", [&] { return nm; });
    for (auto& kv : total) check(agg.count(kv.first) && agg[kv.first].isNumber() && agg[kv.first].asDouble() == kv.second, "aggregated metric", [&] { return nm + " " + kv.first; });
  }
  if (cnt == 0) { state(1); check(c.collectMetrics().size() == 0 && c.aggregateMetrics().size() == 0, "metrics without recorders"); }
}
// ---- the recorders of the engine ----------------------------------------------------------------------------------
static void recorders() {
  namespace tg = fbpcf::engine::tuple_generator;
  tg::TuplesMetricRecorder r;
  fbpcf::engine::communication::PartyCommunicationAgentTrafficRecorder t;
  uint64_t gen = 0, con = 0, cn = 0, ce = 0, mn = 0, me = 0, s = 0, v = 0;
  std::string nm;
  int depth = mc::thorough ? 5 : 4;
  static const uint64_t amount[] = {0, 1, 150};
  for (int i = 0; i < depth; i++) {
    int op = choose(6, "operation"); uint64_t a = amount[choose(3, "amount")];
    nm += " " + str(op) + ":" + str(a); note(nm);
    switch (op) {
      case 0: r.addTuplesGenerated(a); gen += a; break;
      case 1: r.addTuplesConsumed(a); con += a; break;
      case 2: r.addCompositeTuplesWithoutExpansionRequested(a, 7); cn += a; mn += a * 7; break;
      case 3: r.addCompositeTuplesRequiringExpansionRequested(a, 200); ce += a; me += a * 200; break;
      case 4: t.addSentData(a); s += a; break;
      case 5: t.addReceivedData(a); v += a; break;
    }
    auto m = r.getMetrics(); auto x = t.getMetrics();
    evals(); state(hashStr(nm));
    auto eq = [&](const folly::dynamic& d, const char* k, uint64_t w) { check(d.count(k) && d.at(k).asInt() == (int64_t)w, std::string("metric ") + k, [&] { return nm; }); };
    eq(m, "boolean_tuples_generated", gen); eq(m, "boolean_tuples_consumed", con); eq(m, "boolean_tuples_unused", gen - con);
    eq(m, "composite_tuples_requested", cn + ce); eq(m, "composite_tuples_without_expansion_requested", cn); eq(m, "composite_tuples_requiring_expansion_requested", ce);
    eq(m, "mini_tuples_without_expansion_requested", mn); eq(m, "mini_tuples_requiring_expansion_requested", me);
    check(m.size() == 8, "number of tuple metrics");
    eq(x, "sent_data", s); eq(x, "received_data", v); check(x.size() == 2, "number of traffic metrics");
    check(t.getTrafficStatistics() == std::make_pair(s, v), "traffic totals");
  }
}
int main(int argc, char** argv) {
  return harnessMain(argc, argv, "C32", {{"functional", functional}, {"vectors", vectors}, {"metrics", metrics}, {"recorders", recorders}});
}
