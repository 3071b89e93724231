// C07: the queue of deferred gates. Gates are inserted and rounds handed out in every order; a reference keeps the value
// every wire must have once its round has run, and the round each gate may come out in.
#include <set>
#include "fbpcf/scheduler/gate_keeper/GateKeeper.h"
#include "fbpcf/scheduler/gate_keeper/IArithmeticGate.h"
#include "fbpcf/scheduler/gate_keeper/ICompositeGate.h"
#include "fbpcf/scheduler/gate_keeper/INormalGate.h"
#include "mc/prog.h"
using namespace mc;
using namespace fbpcf::scheduler;
using NG = INormalGate::GateType;
using CG = ICompositeGate::GateType;
using AG = IArithmeticGate::GateType;

struct W { bool ar, batch; BW b; AW a; std::vector<uint64_t> v; int gate; bool done = false; };
struct G { std::vector<int> in, out; bool done = false; int64_t round = -1; uint32_t results; };

struct Rig {
  std::shared_ptr<World> world = std::make_shared<World>();
  Factory f{world, 0};
  std::shared_ptr<IWireKeeper> k;
  std::unique_ptr<GateKeeper> g;
  std::unique_ptr<fbpcf::engine::ISecretShareEngine> e;
  std::vector<W> w;
  std::vector<G> gates;
  int64_t lastRound = -1;
  size_t popped = 0, inserted = 0;
  std::string h;
  std::vector<std::pair<uint32_t, size_t>> rounds;
  explicit Rig(Keeper kp) : k(makeKeeper(kp)), g(std::make_unique<GateKeeper>(k)), e(idealEngine(0, 1, f, hashBits(9), true)) {}

  int addB(BW id, bool batch, std::vector<uint64_t> v) { w.push_back({false, batch, id, AW(), v, (int)gates.size()}); return w.size() - 1; }
  int addA(AW id, bool batch, std::vector<uint64_t> v) { w.push_back({true, batch, BW(), id, v, (int)gates.size()}); return w.size() - 1; }
  void gate(std::vector<int> in, std::vector<int> out, uint32_t results) { gates.push_back({in, out, false, -1, results}); inserted++; }
  uint32_t level(const W& x) { return x.ar ? (x.batch ? k->getBatchFirstAvailableLevel(x.a) : k->getFirstAvailableLevel(x.a)) : (x.batch ? k->getBatchFirstAvailableLevel(x.b) : k->getFirstAvailableLevel(x.b)); }
  std::vector<uint64_t> value(const W& x) {
    std::vector<uint64_t> r;
    if (x.ar) { if (x.batch) r = k->getBatchIntegerValue(x.a); else r = {k->getIntegerValue(x.a)}; }
    else if (x.batch) { for (bool v : k->getBatchBooleanValue(x.b)) r.push_back(v); }
    else r = {k->getBooleanValue(x.b)};
    return r;
  }
  // runs one round the way a scheduler does
  bool round() {
    if (popped == inserted) return false;
    uint32_t lv = g->getFirstUnexecutedLevel();
    check((int64_t)lv > lastRound, "rounds come out in increasing depth", [&] { return str(lv) + " after " + str(lastRound) + ": " + h; });
    lastRound = lv;
    auto gs = g->popFirstUnexecutedLevel();
    check(g->getFirstUnexecutedLevel() > lv, "the first unexecuted depth moves on", [&] { return h; });
    popped += gs.size();
    rounds.emplace_back(lv, gs.size());
    check(popped <= inserted, "a gate is handed out more than once", [&] { return h; });
    std::set<IGate*> uniq;
    for (auto& x : gs) uniq.insert(x.get());
    check(uniq.size() == gs.size() && !uniq.count(nullptr), "a gate is handed out more than once", [&] { return h; });
    std::map<int64_t, IGate::Secrets> out;
    uint64_t results = 0, expected = 0;
    for (auto& x : gs) { x->compute(*e, out); results += x->getNumberOfResults(); mc::step(); }
    if (!IGateKeeper::isLevelFree(lv)) {
      e->executeScheduledOperations();
      std::map<int64_t, IGate::Secrets> rev;
      for (auto& kv : out) rev.emplace(kv.first, IGate::Secrets(std::vector<bool>(kv.second.booleanSecrets), std::vector<uint64_t>(kv.second.integerSecrets)));
      for (auto& x : gs) x->collectScheduledResult(*e, rev);
    } else {
      check(out.empty(), "a free round reveals something", [&] { return h; });
    }
    // exactly the gates whose results are recorded for this depth have run now, and what they read was ready
    size_t n = 0;
    for (size_t i = 0; i < gates.size(); i++) {
      auto& gt = gates[i];
      if (gt.done) continue;
      bool now = true;
      for (int o : gt.out) now = now && level(w[o]) <= lv;
      if (!now) continue;
      gt.done = true;
      n++;
      expected += gt.results;
      for (int o : gt.out) {
        w[o].done = true;
        auto got = value(w[o]);
        evals();
        check(got == w[o].v, "a wire read after its round", [&] { return "expected " + vec(w[o].v) + " got " + vec(got) + ": " + h; });
      }
      for (int x : gt.in) check(gates[w[x].gate].done || w[x].gate == (int)i, "a gate runs before one it depends on", [&] { return h; });
    }
    check(n == gs.size(), "gates handed out in a round", [&] { return str(gs.size()) + " expected " + str(n) + ": " + h; });
    check(results == expected, "number of results reported by a round", [&] { return str(results) + " expected " + str(expected) + ": " + h; });
    return true;
  }
  void drain() {
    while (round()) if (failed()) return;
    check(popped == inserted, "every gate is handed out", [&] { return h; });
    check(!g->hasReachedBatchingLimit(), "the batching limit holds with nothing pending", [&] { return h; });
    for (auto& x : w) {
      check(x.done, "every gate is executed", [&] { return h; });
      auto got = value(x);
      check(got == x.v, "a wire read at the end", [&] { return "expected " + vec(x.v) + " got " + vec(got) + ": " + h; });
    }
    for (auto& x : w) {
      if (x.ar) x.batch ? k->decreaseBatchReferenceCount(x.a) : k->decreaseReferenceCount(x.a);
      else x.batch ? k->decreaseBatchReferenceCount(x.b) : k->decreaseReferenceCount(x.b);
    }
    auto ws = k->getWireStatistics();
    check(ws.first == ws.second, "every wire is released", [&] { return str(ws.first) + "/" + str(ws.second) + ": " + h; });
  }

  // ---- insertions: wires are chosen as the last one of a kind or the one before ----
  int pick(bool ar, bool batch, int back, size_t size = ~0ull) {
    for (int i = w.size() - 1; i >= 0; i--) if (w[i].ar == ar && w[i].batch == batch && (size == ~0ull || w[i].v.size() == size) && back-- == 0) return i;
    return -1;
  }
  static const int N = 36;
  // returns false if not applicable
  bool apply(int op, int back) {
    auto bin = [&](bool ar, bool batch, int& l, int& r) {
      l = pick(ar, batch, back);
      if (l < 0) return false;
      r = pick(ar, batch, 1 - back, w[l].v.size());
      if (r < 0) r = l;
      return true;
    };
    auto zip = [&](int l, int r, auto fn) { auto v = w[l].v; for (size_t i = 0; i < v.size(); i++) v[i] = fn(v[i], w[r].v[i]); return v; };
    static const NG nk[] = {NG::FreeAnd, NG::NonFreeAnd, NG::SymmetricXOR, NG::AsymmetricXOR, NG::SymmetricNot, NG::AsymmetricNot};
    static const AG ak[] = {AG::FreeMult, AG::NonFreeMult, AG::SymmetricPlus, AG::AsymmetricPlus, AG::Neg};
    int l, r;
    if (op < 6 || (op >= 6 && op < 12)) {
      bool batch = op >= 6;
      NG t = nk[op % 6];
      if (!bin(false, batch, l, r)) return false;
      bool unary = t == NG::SymmetricNot || t == NG::AsymmetricNot;
      // a lone party is the one that applies asymmetric operations, and "symmetric not" leaves its share alone or flips it alike
      auto v = zip(l, r, [&](uint64_t a, uint64_t b) -> uint64_t { return t == NG::FreeAnd || t == NG::NonFreeAnd ? a & b : unary ? a ^ 1 : a ^ b; });
      BW id = batch ? g->normalGateBatch(t, w[l].b, unary ? BW() : w[r].b) : g->normalGate(t, w[l].b, unary ? BW() : w[r].b);
      int o = addB(id, batch, v);
      gate(unary ? std::vector<int>{l} : std::vector<int>{l, r}, {o}, batch ? v.size() : 1);
    } else if (op < 22) {
      bool batch = op >= 17;
      AG t = ak[(op - 12) % 5];
      if (!bin(true, batch, l, r)) return false;
      bool unary = t == AG::Neg;
      auto v = zip(l, r, [&](uint64_t a, uint64_t b) -> uint64_t { return t == AG::FreeMult || t == AG::NonFreeMult ? a * b : unary ? 0 - a : a + b; });
      AW id = batch ? g->arithmeticGateBatch(t, w[l].a, unary ? AW() : w[r].a) : g->arithmeticGate(t, w[l].a, unary ? AW() : w[r].a);
      int o = addA(id, batch, v);
      gate(unary ? std::vector<int>{l} : std::vector<int>{l, r}, {o}, batch ? v.size() : 1);
    } else if (op < 26 || (op >= 31 && op < 35)) {
      // 31-34: the same gates with the operands in another order, so that each of them comes first, between others and last
      int other = op >= 31, kind = other ? op - 9 : op;
      bool batch = kind >= 24;
      CG t = kind % 2 ? CG::NonFreeAnd : CG::FreeAnd;
      if (!bin(false, batch, l, r)) return false;
      int old = pick(false, batch, 2, w[l].v.size());
      if (old < 0) old = r;
      std::vector<int> rs{r, l, r};
      rs.resize(2 + back);
      if (other) rs = back ? std::vector<int>{old, r} : std::vector<int>{old, r, old};
      std::vector<BW> ids;
      for (int x : rs) ids.push_back(w[x].b);
      auto o = batch ? g->compositeGateBatch(t, w[l].b, ids) : g->compositeGate(t, w[l].b, ids);
      check(o.size() == rs.size(), "number of one-to-many results", [&] { return h; });
      std::vector<int> outs;
      for (size_t i = 0; i < rs.size(); i++) outs.push_back(addB(o[i], batch, zip(l, rs[i], [](uint64_t a, uint64_t b) { return a & b; })));
      std::vector<int> in = rs;
      in.push_back(l);
      gate(in, outs, rs.size() * (batch ? w[l].v.size() : 1));
    } else if (op == 26 || op == 35) {
      l = pick(false, true, back);
      r = pick(false, true, 1 - back);
      if (r < 0) r = l;
      if (l < 0) return false;
      int old = pick(false, true, 2);
      if (old < 0) old = r;
      std::vector<int> in = op == 26 ? std::vector<int>{l, r, l} : std::vector<int>{old, r, l};
      std::vector<uint64_t> v;
      std::vector<BW> ids;
      for (int x : in) { v.insert(v.end(), w[x].v.begin(), w[x].v.end()); ids.push_back(w[x].b); }
      int o = addB(g->batchingUp(ids), true, v);
      gate(in, {o}, 0);
    } else if (op == 27) {
      l = pick(false, true, back);
      if (l < 0) return false;
      uint32_t z = w[l].v.size(), a = z > 1 ? 1 : z;
      std::vector<uint32_t> sizes{a, 0, z - a};
      auto o = g->unbatching(w[l].b, std::make_shared<std::vector<uint32_t>>(sizes));
      check(o.size() == 3, "number of unbatched results", [&] { return h; });
      std::vector<int> outs;
      size_t at = 0;
      auto v = w[l].v;
      for (int i = 0; i < 3; i++) { outs.push_back(addB(o[i], true, {v.begin() + at, v.begin() + at + sizes[i]})); at += sizes[i]; }
      gate({l}, outs, 0);
    } else if (op == 28) {  // reveal booleans
      l = pick(false, back, 0);
      if (l < 0) return false;
      int o = addB(back ? g->outputGateBatch(w[l].b, 0) : g->outputGate(w[l].b, 0), back, w[l].v);
      gate({l}, {o}, back ? w[l].v.size() : 1);
    } else if (op == 29) {  // reveal integers
      l = pick(true, back, 0);
      if (l < 0) return false;
      int o = addA(back ? g->outputGateBatch(w[l].a, 1) : g->outputGate(w[l].a, 1), back, w[l].v);
      gate({l}, {o}, back ? w[l].v.size() : 1);
    } else {
      inputs(back ? 2 : 3);
    }
    return true;
  }
  void inputs(int z) {
    std::vector<uint64_t> bv, iv;
    for (int i = 0; i < z; i++) { bv.push_back((z + i) & 1); iv.push_back(1000 * z + 7 * i); }
    int o = addB(g->inputGate(z != 2), false, {uint64_t(z != 2)}); gate({}, {o}, 1);
    o = addB(g->inputGateBatch(std::vector<bool>(bv.begin(), bv.end())), true, bv); gate({}, {o}, z);
    o = addA(g->inputGate((uint64_t)z), false, {(uint64_t)z}); gate({}, {o}, 1);
    o = addA(g->inputGateBatch(iv), true, iv); gate({}, {o}, z);
  }
};

static void sequences(int depth, Keeper kp, const std::vector<int>& menu) {
  Rig r(kp);
  r.inputs(1);
  r.inputs(3);
  if (choose(2, "start with the inputs evaluated")) r.round();
  for (int d = 0; d < depth; d++) {
    int op = menu[choose(menu.size(), "insert or run a round")];
    if (op == Rig::N) { r.h += "round "; if (!r.round()) assume(false); }
    else {
      int back = choose(2, "operands");
      r.h += str(op) + (back ? "' " : " ");
      assume(r.apply(op, back));
    }
    if (failed()) return;
  }
  note(r.h);
  r.drain();
  uint64_t hs = hashStr(r.h);
  for (auto& x : r.rounds) hs = mix(hs, x.first * 100 + x.second);
  state(hs);
}
// the same program gives every party the same groups, whatever storage it uses and whatever else ran before
static void sameGroups(int depth) {
  Rig a(ARENA_CHECKED), b(MAP);
  // b's store has had other wires before
  for (int i = 0; i < 5; i++) b.k->decreaseReferenceCount(b.k->allocateBooleanValue(i & 1));
  b.k->allocateBatchBooleanValue({true}, 1);
  a.inputs(3);
  b.inputs(3);
  for (int d = 0; d < depth; d++) {
    int op = choose(Rig::N + 1, "insert or run a round"), back = op < Rig::N ? choose(2, "operands") : 0;
    a.h += str(op) + (back ? "' " : " ");
    b.h = a.h;
    if (op == Rig::N) { bool x = a.round(), y = b.round(); check(x == y, "parties agree on pending work", [&] { return a.h; }); if (!x) assume(false); continue; }
    bool x = a.apply(op, back);
    b.apply(op, back);
    assume(x);
  }
  while (a.round()) if (failed()) return;
  while (b.round()) if (failed()) return;
  evals();
  check(a.rounds == b.rounds, "parties agree on the groups", [&] { return a.h; });
  state(hashStr(a.h));
}
// the limit on pending gates depends on how many are pending and on nothing else
static void limit() {
  int shape = choose(4, "shape"), pre = choose(3, "executed before");
  std::shared_ptr<IWireKeeper> k = makeKeeper(ARENA_UNCHECKED);
  auto world = std::make_shared<World>();
  Factory f(world, 0);
  auto e = idealEngine(0, 1, f, hashBits(9), true);
  GateKeeper g(k);
  std::map<size_t, bool> seen;  // pending -> limit reached
  size_t pending = 0;
  BW x = g.inputGate(true), first = x;
  pending++;
  auto add = [&](int i) {
    bool deep = shape == 1 || (shape == 2 && i % 100 == 0) || shape == 3;
    BW src = deep ? x : first;
    BW y = g.normalGate(shape == 3 ? NG::SymmetricXOR : i % 2 ? NG::NonFreeAnd : NG::SymmetricXOR, src, first);
    if (deep) x = y;
    pending++;
  };
  auto look = [&] {
    bool v = g.hasReachedBatchingLimit();
    evals();
    auto it = seen.emplace(pending, v);
    check(it.first->second == v, "the batching limit depends on more than the number of pending gates", [&] { return "pending " + str(pending) + " shape " + str(shape); });
    if (pending == 0) check(!v, "the batching limit holds with nothing pending");
  };
  auto pop = [&] {
    uint32_t lv = g.getFirstUnexecutedLevel();
    auto gs = g.popFirstUnexecutedLevel();
    std::map<int64_t, IGate::Secrets> out;
    for (auto& z : gs) z->compute(*e, out);
    if (!IGateKeeper::isLevelFree(lv)) { e->executeScheduledOperations(); for (auto& z : gs) z->collectScheduledResult(*e, out); }
    pending -= gs.size();
  };
  for (int i = 0; i < pre * 700; i++) add(i);
  while (pending) { pop(); look(); }
  bool reached = false;
  for (int i = 0; i < 400000 && !reached; i++) { add(i); look(); reached = g.hasReachedBatchingLimit(); }
  check(reached, "the number of pending gates is not limited");
  size_t guard = 0;
  while (g.hasReachedBatchingLimit() && pending && guard++ < 500000) { pop(); look(); step(); }
  for (int i = 0; i < 300; i++) { add(i); look(); }
  while (pending) { pop(); look(); }
  check(!g.hasReachedBatchingLimit(), "the batching limit holds with nothing pending");
  note("limit, shape " + str(shape) + " with " + str(pre * 700) + " gates before");
  state(shape * 10 + pre);
}
int main(int argc, char** argv) {
  std::vector<Suite> s;
  std::vector<int> all, few{1, 2, 7, 8, 13, 14, 18, 25, 27, 28, 29, 32, 35, Rig::N};
  for (int i = 0; i <= Rig::N; i++) all.push_back(i);
  s.push_back({"insertions and rounds", [=] { sequences(thorough ? 4 : 3, ARENA_CHECKED, all); }});
  s.push_back({"insertions and rounds, map storage", [=] { sequences(thorough ? 4 : 3, MAP, all); }});
  s.push_back({"longer sequences of fewer kinds", [=] { sequences(thorough ? 6 : 4, ARENA_UNCHECKED, few); }});
  s.push_back({"identical groups", [] { sameGroups(thorough ? 4 : 3); }});
  s.push_back({"limit on pending gates", limit, 0, -1, false, 0, 2});
  return harnessMain(argc, argv, "C07", s);
}
