// C01-C04: programs of gates on each backend. The backends explored are selected by -DBACKENDS and the type of program
// by -DARITH.
#include "mc/prog.h"
using namespace mc;

#ifndef PROP
#define PROP "C01"
#endif
static const std::vector<Backend> backends{BACKENDS};

static Backend pickBackend() { return backends[choose((int)backends.size(), "backend")]; }

// scalar boolean programs over two private and one public input, all input values
static void scalarBool(int depth, bool chain, std::vector<Kind> kinds, bool unordered) {
  Builder b;
  b.input(IN_PRIV, false, false, {(uint64_t)choose(2, "a")}, 0);
  b.input(IN_PRIV, false, false, {(uint64_t)choose(2, "b")}, 1);
  b.input(IN_PUB, false, false, {(uint64_t)choose(2, "c")});
  Backend be = pickBackend();
  Gen g; g.kinds = kinds; g.unordered = unordered;
  for (int d = 0; d < depth; d++) { g.chain = chain && d > 0; if (!grow(b, g)) assume(false); }
  runProgram(b.p, be, ARENA_CHECKED, 2, choose(F_COUNT, "finish"));
}
// batched programs; eight lanes hold every combination of the inputs, further sizes sit around byte boundaries
static void batchBool(int depth, bool chain, std::vector<Kind> kinds, std::vector<int> sizes) {
  Builder b;
  int z = sizes[choose((int)sizes.size(), "batch size")];
  std::vector<uint64_t> x, y, c, r;
  for (int i = 0; i < z; i++) { x.push_back(i & 1); y.push_back((i >> 1) & 1); c.push_back((i >> 2) & 1); r.push_back((i * 5 >> 1) & 1); }
  b.input(z ? IN_PRIV : RECOVER, false, true, x, 0);
  b.input(z ? IN_PRIV : RECOVER, false, true, y, 1);
  b.input(IN_PUB, false, true, c);
  Backend be = pickBackend();
  Gen g; g.kinds = kinds;
  for (int d = 0; d < depth; d++) { g.chain = chain && d > 0; if (!grow(b, g)) assume(false); }
  runProgram(b.p, be, ARENA_CHECKED, 2, choose(F_COUNT, "finish"), 1 + choose(2, "tuples"));
}
static const uint64_t kInts[] = {0, 1, 0xffffffffffffffffull, 0x8000000000000000ull, 0x123456789abcdef1ull};
static void scalarInt(int depth, bool chain, std::vector<Kind> kinds) {
  Builder b;
  b.input(IN_PRIV, true, false, {kInts[choose(5, "x")]}, 0);
  b.input(IN_PRIV, true, false, {kInts[choose(5, "y")]}, 1);
  b.input(IN_PUB, true, false, {0xfedcba9876543211ull});
  Backend be = pickBackend();
  Gen g; g.kinds = kinds;
  for (int d = 0; d < depth; d++) { g.chain = chain && d > 0; if (!grow(b, g)) assume(false); }
  runProgram(b.p, be, ARENA_CHECKED, 2, choose(F_COUNT, "finish"));
}
static void batchInt(int depth, bool chain, std::vector<Kind> kinds, std::vector<int> sizes) {
  Builder b;
  int z = sizes[choose((int)sizes.size(), "batch size")];
  std::vector<uint64_t> x, y, c;
  for (int i = 0; i < z; i++) { x.push_back(kInts[i % 5]); y.push_back(kInts[(i / 5 + i) % 5]); c.push_back(kInts[(i * 3 + 1) % 5]); }
  b.input(z ? IN_PRIV : RECOVER, true, true, x, 0);
  b.input(z ? IN_PRIV : RECOVER, true, true, y, 1);
  b.input(IN_PUB, true, true, c);
  Backend be = pickBackend();
  Gen g; g.kinds = kinds;
  for (int d = 0; d < depth; d++) { g.chain = chain && d > 0; if (!grow(b, g)) assume(false); }
  runProgram(b.p, be, ARENA_CHECKED, 2, choose(F_COUNT, "finish"), 1 + choose(2, "tuples"));
}
// every mixture of pending operations of different kinds at the same and at different depths
static void mixed(int depth, int n, bool bools, bool ints, Keeper keeper, bool lean = false) {
  Builder b;
  int s = choose(2, "inputs");
  struct Cur { int x, y; } sb{}, bb{}, si{}, bi{}, bb2{};
  if (bools) {
    sb.x = b.input(IN_PRIV, false, false, {1}, 0);
    sb.y = b.input(IN_PRIV, false, false, {(uint64_t)!s}, n - 1);
    bb.x = b.input(IN_PRIV, false, true, {1, 1, 0}, n - 1);
    bb.y = b.input(IN_PRIV, false, true, {(uint64_t)s, 1, 1}, 0);
    bb2.x = b.input(IN_PUB, false, true, {1, 0});
    bb2.y = b.input(RECOVER, false, true, {1, 1});
  }
  if (ints) {
    si.x = b.input(IN_PRIV, true, false, {3 + (uint64_t)s}, 0);
    si.y = b.input(IN_PRIV, true, false, {0xfffffffffffffff0ull}, n - 1);
    bi.x = b.input(IN_PRIV, true, true, {5, 1ull << 63}, n - 1);
    bi.y = b.input(RECOVER, true, true, {7, 3 + (uint64_t)s});
  }
  Backend be = lean ? std::vector<Backend>{LAZY, EAGER}[choose(2, "backend")] : pickBackend();
  std::vector<int> menu;
  if (bools) for (int i = 0; i < 10; i++) menu.push_back(i);
  if (ints) for (int i = 10; i < 16; i++) menu.push_back(i);
  for (int d = 0; d < depth; d++) {
    int k = menu[choose((int)menu.size(), "operation")];
    int adv = k == 4 || k == 9 || k == 14 || k == 15 ? 0 : choose(2, "continue from the result");
    int N = b.p.env.size();
    switch (k) {
      case 0: b.apply({AND, {sb.x, sb.y}}); if (adv) sb.y = N; break;
      case 1: b.apply({COMP_AND, {sb.x, sb.y, sb.x}}); if (adv) sb.x = N, sb.y = N + 1; break;
      case 2: b.apply({COMP_AND, {sb.y, sb.y, sb.x, sb.x}}); if (adv) sb.x = N + 2; break;
      case 3: b.apply({XOR, {sb.x, sb.y}}); if (adv) sb.x = N; break;
      case 4: b.apply({OPEN, {sb.y}, d % n}); break;
      case 5: b.apply({AND, {bb.x, bb.y}}); if (adv) bb.x = N; break;
      case 6: b.apply({AND, {bb2.y, bb2.y}}); if (adv) bb2.y = N; break;
      case 7: b.apply({COMP_AND, {bb.x, bb.y, bb.x}}); if (adv) bb.y = N + 1; break;
      case 8: b.apply({BATCH, {bb.x, bb2.y}}); if (adv) { b.apply({UNBATCH, {N}, 0, {3, 2}}); bb.x = N + 1; bb2.y = N + 2; } break;
      case 9: b.apply({OPEN, {bb.x}, (d + 1) % n}); break;
      case 10: b.apply({MULT, {si.x, si.y}}); if (adv) si.x = N; break;
      case 11: b.apply({MULT, {bi.x, bi.y}}); if (adv) bi.x = N; break;
      case 12: b.apply({PLUS, {bi.x, bi.y}}); if (adv) bi.y = N; break;
      case 13: b.apply({NEG, {si.y}}); if (adv) si.y = N; break;
      case 14: b.apply({OPEN, {si.x}, d % n}); break;
      case 15: b.apply({OPEN, {bi.x}, (d + 1) % n}); break;
    }
    if (choose(2, "evaluate now")) { int w = b.p.env.size() - 1; if (b.p.env[w].priv) b.apply({EXTRACT, {w}}); else b.apply({READ_PUB, {w}}); }
  }
  runProgram(b.p, be, keeper, n, lean && be == EAGER ? 1 : choose(F_COUNT, "finish"), 1, n == 2);
}
// shares handed in by two to four parties, every assignment of share bits: each party learns the sum, whoever asks
static void shares(bool ar) {
  Backend be = pickBackend();
  int n = be == PLAIN ? 1 : 2 + choose(3, "parties"), lanes = ar ? 1 : n == 4 ? 1 : 2;
  bool batch = choose(2, "batch");
  std::vector<std::vector<uint64_t>> v(n);
  std::vector<uint64_t> sum(lanes, 0);
  for (auto& x : v) for (int l = 0; l < lanes; l++) { x.push_back(ar ? kInts[choose(n == 4 ? 3 : 5, "share")] : choose(2, "share")); sum[l] = ar ? sum[l] + x[l] : sum[l] ^ x[l]; }
  if (batch) { for (auto& x : v) x.push_back(x[0]); sum.push_back(sum[0]); }
  auto world = std::make_shared<World>();
  std::vector<std::vector<uint64_t>> back(n);
  std::vector<std::vector<std::vector<uint64_t>>> read(n);
  parties(n, [&](int me) {
    Factory f(world, me);
    auto s = makeScheduler(be, ARENA_CHECKED, me, n, f, hashBits(5), true);
    std::vector<bool> bv(v[me].begin(), v[me].end());
      if (ar) {
      auto w = batch ? s->recoverIntegerWireBatch(v[me]) : s->recoverIntegerWire(v[me][0]);
      for (int q = 0; q < n; q++) {
        auto o = batch ? s->openIntegerValueToPartyBatch(w, q) : s->openIntegerValueToParty(w, q);
        if (batch) { auto r = s->getIntegerValueBatch(o); if (me == q) read[me].push_back(r); } else { auto r = s->getIntegerValue(o); if (me == q) read[me].push_back({r}); }
      }
      if (batch) back[me] = s->extractIntegerSecretShareBatch(w); else back[me] = {s->extractIntegerSecretShare(w)};
    } else {
      auto w = batch ? s->recoverBooleanWireBatch(bv) : s->recoverBooleanWire(bv[0]);
      for (int q = 0; q < n; q++) {
        auto o = batch ? s->openBooleanValueToPartyBatch(w, q) : s->openBooleanValueToParty(w, q);
        std::vector<bool> r; if (batch) r = s->getBooleanValueBatch(o); else r.push_back(s->getBooleanValue(o));
        if (me == q) read[me].push_back(std::vector<uint64_t>(r.begin(), r.end()));
      }
      std::vector<bool> r; if (batch) r = s->extractBooleanSecretShareBatch(w); else r.push_back(s->extractBooleanSecretShare(w));
      back[me] = std::vector<uint64_t>(r.begin(), r.end());
    }
  });
  if (failed()) return;
  if (!batch) sum.resize(1);
  auto what = [&] { std::string r = str(be) + (batch ? " batched" : " scalar") + " shares"; for (auto& x : v) { r += " |"; for (auto e : x) r += " " + str(e); } return r; };
  for (int p = 0; p < n; p++) for (auto& r : read[p]) { evals(); check(r == sum, "opened value of recovered shares", [&] { return what() + " party " + str(p); }); }
  std::vector<uint64_t> tot(sum.size(), 0); bool sizes = true;
  for (auto& b : back) { sizes &= b.size() == tot.size(); for (size_t l = 0; l < b.size() && l < tot.size(); l++) tot[l] = ar ? tot[l] + b[l] : tot[l] ^ b[l]; }
  check(sizes && tot == sum, "extracted shares of recovered shares", what);
  check(world->drained(), "data left in a channel", what);
  uint64_t h = mix(be, n * 2 + batch); for (auto e : sum) h = mix(h, e); state(h);
}
// long batches, many operands and many parts: one or two operations on each
static void longBatches(bool ar) {
  static const int sizes[] = {63, 64, 65, 255, 256, 257, 1023, 1025, 65535, 65536, 65537};
  Backend be = pickBackend();
  int shape = choose(6, "shape"), z = sizes[choose(11, "size")], pub = choose(2, "public operand"), twice = choose(2, "twice");
  Builder b;
  auto value = [&](int salt) { std::vector<uint64_t> v; for (int i = 0; i < z; i++) { uint64_t h = mix(i + 1, salt); v.push_back(ar ? h : h & 1); } return v; };
  int x = b.input(IN_PRIV, ar, true, value(1), 0), y = pub ? b.input(IN_PUB, ar, true, value(2)) : b.input(IN_PRIV, ar, true, value(2), 1);
  auto last = [&] { return (int)b.p.env.size() - 1; };
  auto go = [&](int l, int r) {
    if (shape == 0) b.apply({ar ? MULT : AND, {l, r}});
    else if (shape == 1) b.apply({ar ? PLUS : XOR, {l, r}});
    else if (shape == 2) b.apply({ar ? NEG : NOT, {l}});
    else if (ar) assume(false);
    else if (shape == 3) b.apply({COMP_AND, {l, r, l, r}});
    else if (shape == 4) {   // many right hand sides
      assume(z <= 65); std::vector<int> a{l}; for (int i = 0; i < 300; i++) a.push_back(i % 3 ? r : l); if (pub) for (auto& e : a) if (&e != &a[0]) e = r;
      b.apply({COMP_AND, a});
    } else {                 // many parts joined and split again
      assume(!pub && z <= 1025); std::vector<int> a; for (int i = 0; i < 70; i++) a.push_back(i % 3 ? r : l); b.apply({BATCH, a}); int j = last();
      Op o{UNBATCH, {j}}; int left = 70 * z; for (int i = 0; left > 0; i++) { int t = std::min(left, i % 7 == 3 ? 0 : i % 2 ? z + 1 : z - 1); o.sizes.push_back(t); left -= t; } b.apply(o);
    }
  };
  go(x, y);
  if (twice) { assume(shape < 3); go(last(), b.p.env[last()].priv ? y : x); }
  runProgram(b.p, be, ARENA_CHECKED, 2, z > 2000 ? F_OPEN_REVERSE : choose(F_COUNT, "finish"), 1 + choose(2, "tuples"));
}
// more gates pending than the backend is willing to defer
static void manyGates() {
  int shape = choose(3, "shape");
  Backend be = pickBackend();
  Builder b;
  int a = b.input(IN_PRIV, false, false, {1}, 0), c = b.input(IN_PRIV, false, false, {1}, 1);
  int last = c;
  size_t count = 100050;
  for (size_t i = 0; i < count; i++) {
    int N = b.p.env.size();
    if (shape == 0) b.apply({XOR, {a, last}});                       // one free level after another
    else if (shape == 1) b.apply({AND, {a, c}});                     // one wide level
    else b.apply({i % 50 == 0 ? AND : i % 2 ? XOR : NOT, i % 50 && i % 2 == 0 ? std::vector<int>{last} : std::vector<int>{a, last}});
    last = N;
  }
  // only the last wires are looked at
  note("many pending gates, shape " + str(shape));
  auto world = std::make_shared<World>();
  parties(2, [&](int me) {
    Factory f(world, me);
    auto s = makeScheduler(be, ARENA_UNCHECKED, me, 2, f, hashBits(5), true);
    Collected col;
    Exec e(b.p, *s, me, 2, true, col);
    e.run();
    for (int w : {last, last - 1, last - 777, 2}) e.openRead(w, w % 2);
  });
  state(mix(shape, be));
}

int main(int argc, char** argv) {
  std::vector<Suite> s;
  std::vector<Kind> bk{AND, XOR, NOT, COMP_AND}, bk2{AND, XOR, NOT, COMP_AND, EXTRACT, OPEN_READ, OPEN, DROP, DUPDROP}, rb{AND, XOR, NOT, COMP_AND, BATCH, UNBATCH, EXTRACT, OPEN};
  std::vector<Kind> ik{PLUS, MULT, NEG}, ik2{PLUS, MULT, NEG, EXTRACT, OPEN_READ, OPEN, DROP, DUPDROP};
#ifndef ARITH
  s.push_back({"scalar programs", [=] { scalarBool(2, false, bk2, false); }});
  s.push_back({"scalar chains", [=] { scalarBool(thorough ? 4 : 3, true, bk, true); }});
  s.push_back({"batched programs", [=] { batchBool(2, false, rb, {8, 0, 1, 9}); }});
  s.push_back({"batched chains", [=] { batchBool(thorough ? 3 : 2, true, rb, thorough ? std::vector<int>{8, 0, 17} : std::vector<int>{16}); }});
  s.push_back({"mixtures of pending operations", [=] { mixed(thorough ? 4 : 3, 2, true, false, ARENA_UNCHECKED); }});
  s.push_back({"mixtures of pending operations, map storage", [=] { mixed(2, 2, true, false, MAP); }});
  s.push_back({"mixtures with three parties", [=] { mixed(thorough ? 3 : 2, 3, true, false, ARENA_CHECKED); }});
  s.push_back({"shares of several parties", [=] { shares(false); }});
  s.push_back({"long batches", [=] { longBatches(false); }, 0, -1, false, 0, 4});
  if (backends[0] == LAZY) s.push_back({"more gates than may be pending", manyGates, 0, -1, false, 0, 1});
#else
  s.push_back({"scalar programs", [=] { scalarInt(2, false, ik2); }});
  s.push_back({"scalar chains", [=] { scalarInt(thorough ? 4 : 3, true, ik); }});
  s.push_back({"batched programs", [=] { batchInt(2, false, ik2, {6, 0, 1}); }});
  s.push_back({"batched chains", [=] { batchInt(thorough ? 4 : 3, true, ik, {25}); }});
  s.push_back({"mixtures of integer and boolean operations", [=] { mixed(thorough ? 4 : 3, 2, true, true, ARENA_UNCHECKED, true); }});
  s.push_back({"shorter mixtures on every backend", [=] { mixed(2, 2, true, true, ARENA_CHECKED); }});
  s.push_back({"mixtures with three parties", [=] { mixed(2, 3, true, true, ARENA_CHECKED); }});
  s.push_back({"shares of several parties", [=] { shares(true); }});
  s.push_back({"long batches", [=] { longBatches(true); }, 0, -1, false, 0, 4});
#endif
  return harnessMain(argc, argv, PROP, s);
}
