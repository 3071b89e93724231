// C05: lifetimes of wires, on the wire store itself and through the value handles applications use.
#include <optional>
#include "fbpcf/frontend/Bit.h"
#include "mc/prog.h"
using namespace mc;
using namespace fbpcf::scheduler;
using fbpcf::frontend::Bit;

// ---- the store ---------------------------------------------------------------------------------------------------
struct Ref { uint64_t count, level, size; std::vector<uint64_t> v; };
enum { KB, KI, KBB, KIB };
static uint64_t val(int kind, int seed) { return kind == KB || kind == KBB ? seed & 1 : 0x9e3779b97f4a7c15ull * (seed + 1); }
struct Store {
  std::unique_ptr<IWireKeeper> k;
  int kind;
  std::map<uint64_t, Ref> ref;
  uint64_t allocated = 0, released = 0;
  std::vector<uint64_t> mk(int seed, int size) { std::vector<uint64_t> r; for (int i = 0; i < size; i++) r.push_back(val(kind, seed + i)); return r; }
  BW b(uint64_t id) { return BW(id); }
  AW a(uint64_t id) { return AW(id); }
  uint64_t alloc(int seed, int size, uint32_t level, size_t expected) {
    auto v = mk(seed, kind >= KBB ? size : 1);
    std::vector<bool> bv(v.begin(), v.end());
    uint64_t id;
    switch (kind) {
      case KB: id = k->allocateBooleanValue(bv[0], level).getId(); break;
      case KI: id = k->allocateIntegerValue(v[0], level).getId(); break;
      case KBB: id = k->allocateBatchBooleanValue(bv, expected, level).getId(); break;
      default: id = k->allocateBatchIntegerValue(v, expected, level).getId();
    }
    check(!ref.count(id), "two live wires share an identity", [&] { return str(id); });
    ref[id] = {1, level, expected, v};
    allocated++;
    return id;
  }
  void set(uint64_t id, int seed, bool inPlace) {
    auto& r = ref[id];
    r.v = mk(seed, kind >= KBB ? r.size : 1);
    std::vector<bool> bv(r.v.begin(), r.v.end());
    switch (kind) {
      case KB: k->setBooleanValue(b(id), bv[0]); break;
      case KI: k->setIntegerValue(a(id), r.v[0]); break;
      case KBB: if (inPlace) k->getWritableBatchBooleanValue(b(id)) = bv; else k->setBatchBooleanValue(b(id), bv); break;
      default: if (inPlace) k->getWritableBatchIntegerValue(a(id)) = r.v; else k->setBatchIntegerValue(a(id), r.v);
    }
  }
  void level(uint64_t id, uint32_t l) {
    ref[id].level = l;
    switch (kind) {
      case KB: k->setFirstAvailableLevel(b(id), l); break;
      case KI: k->setFirstAvailableLevel(a(id), l); break;
      case KBB: k->setBatchFirstAvailableLevel(b(id), l); break;
      default: k->setBatchFirstAvailableLevel(a(id), l);
    }
  }
  void count(uint64_t id, bool up) {
    switch (kind) {
      case KB: up ? k->increaseReferenceCount(b(id)) : k->decreaseReferenceCount(b(id)); break;
      case KI: up ? k->increaseReferenceCount(a(id)) : k->decreaseReferenceCount(a(id)); break;
      case KBB: up ? k->increaseBatchReferenceCount(b(id)) : k->decreaseBatchReferenceCount(b(id)); break;
      default: up ? k->increaseBatchReferenceCount(a(id)) : k->decreaseBatchReferenceCount(a(id));
    }
    auto& r = ref[id];
    if (up) r.count++;
    else if (--r.count == 0) { ref.erase(id); released++; }
  }
  void verify(const std::string& h) {
    for (auto& kv : ref) {
      uint64_t id = kv.first, lv, sz = kv.second.size;
      std::vector<uint64_t> got;
      switch (kind) {
        case KB: got = {k->getBooleanValue(b(id))}; lv = k->getFirstAvailableLevel(b(id)); break;
        case KI: got = {k->getIntegerValue(a(id))}; lv = k->getFirstAvailableLevel(a(id)); break;
        case KBB: for (bool x : k->getBatchBooleanValue(b(id))) got.push_back(x); lv = k->getBatchFirstAvailableLevel(b(id)); sz = k->getBatchSize(b(id)); break;
        default: got = k->getBatchIntegerValue(a(id)); lv = k->getBatchFirstAvailableLevel(a(id)); sz = k->getBatchSize(a(id));
      }
      evals(3);
      check(got == kv.second.v, "value of a live wire", [&] { return "wire " + str(id) + " expected " + vec(kv.second.v) + " got " + vec(got) + " after " + h; });
      check(lv == kv.second.level, "availability level of a live wire", [&] { return str(lv) + " after " + h; });
      check(sz == kv.second.size, "batch size of a live wire", [&] { return str(sz) + " after " + h; });
    }
    auto ws = k->getWireStatistics();
    check(ws.first == allocated && ws.second == released, "wire statistics", [&] { return str(ws.first) + "/" + str(ws.second) + " expected " + str(allocated) + "/" + str(released) + " after " + h; });
  }
};
static void store(int depth, Keeper keeper) {
  Store s;
  s.kind = choose(4, "kind");
  s.k = makeKeeper(keeper);
  std::string h;
  for (int d = 0; d < depth; d++) {
    std::vector<uint64_t> live;
    for (auto& kv : s.ref) live.push_back(kv.first);
    int n = (live.size() < 3 ? 2 : 0) + 5 * live.size();
    int c = choose(n, "operation");
    if (live.size() < 3) {
      if (c < 2) { int size = c ? 9 : 1 + d; s.alloc(d, size, c ? 0 : 3, s.kind >= KBB ? (c ? size + 2 : size) : 0); h += c ? "alloc'," : "alloc,"; goto done; }
      c -= 2;
    }
    {
      uint64_t id = live[c / 5];
      switch (c % 5) {
        case 0: s.count(id, true); h += "inc" + str(c / 5) + ","; break;
        case 1: s.count(id, false); h += "dec" + str(c / 5) + ","; break;
        case 2: s.set(id, d + 17, false); h += "set" + str(c / 5) + ","; break;
        case 3: s.set(id, d + 23, true); h += "write" + str(c / 5) + ","; break;
        case 4: s.level(id, d + 1); h += "level" + str(c / 5) + ","; break;
      }
    }
  done:
    step();
    s.verify(h);
    if (failed()) return;
  }
  note(h);
  state(mix(hashStr(h), s.kind));
}
// all four kinds share one store: the counts, values and identities of one kind never influence another
static void kinds(int depth) {
  std::shared_ptr<IWireKeeper> k = makeKeeper(Keeper(choose(3, "allocator")));
  std::vector<int> cnt(4, 0), rc;
  BW b[2]; AW a[2];
  b[0] = k->allocateBooleanValue(true, 1); a[0] = k->allocateIntegerValue(77, 2);
  b[1] = k->allocateBatchBooleanValue({true, false, true}, 3, 3); a[1] = k->allocateBatchIntegerValue({5, 6}, 2, 4);
  cnt = {1, 1, 1, 1};
  uint64_t released = 0;
  std::string h;
  for (int d = 0; d < depth; d++) {
    std::vector<int> ops;
    for (int i = 0; i < 4; i++) if (cnt[i]) { ops.push_back(2 * i); ops.push_back(2 * i + 1); }
    if (ops.empty()) break;
    int o = ops[choose(ops.size(), "operation")];
    bool up = o & 1;
    switch (o / 2) {
      case 0: up ? k->increaseReferenceCount(b[0]) : k->decreaseReferenceCount(b[0]); break;
      case 1: up ? k->increaseReferenceCount(a[0]) : k->decreaseReferenceCount(a[0]); break;
      case 2: up ? k->increaseBatchReferenceCount(b[1]) : k->decreaseBatchReferenceCount(b[1]); break;
      case 3: up ? k->increaseBatchReferenceCount(a[1]) : k->decreaseBatchReferenceCount(a[1]); break;
    }
    cnt[o / 2] += up ? 1 : -1;
    if (!cnt[o / 2]) released++;
    h += str(o) + ",";
    step();
    evals();
    check(k->getWireStatistics() == std::make_pair<uint64_t, uint64_t>(4, uint64_t(released)), "wire statistics", [&] { return h; });
    if (cnt[0]) check(k->getBooleanValue(b[0]) && k->getFirstAvailableLevel(b[0]) == 1, "boolean wire", [&] { return h; });
    if (cnt[1]) check(k->getIntegerValue(a[0]) == 77 && k->getFirstAvailableLevel(a[0]) == 2, "integer wire", [&] { return h; });
    if (cnt[2]) check(k->getBatchBooleanValue(b[1]) == std::vector<bool>({true, false, true}) && k->getBatchFirstAvailableLevel(b[1]) == 3, "boolean batch wire", [&] { return h; });
    if (cnt[3]) check(k->getBatchIntegerValue(a[1]) == std::vector<uint64_t>({5, 6}) && k->getBatchFirstAvailableLevel(a[1]) == 4, "integer batch wire", [&] { return h; });
    if (failed()) return;
  }
  state(hashStr(h));
}

// ---- handles -----------------------------------------------------------------------------------------------------
using BV = std::vector<bool>;
template <bool batch> auto mkv(int x) { if constexpr (batch) return BV{bool(x & 1), bool(x & 2), bool(x & 4)}; else return bool(x & 1); }
struct Step { int k, i, j, l; };
static std::string showStep(const Step& s) {
  static const char* n[] = {"copy-assign", "copy", "move-assign", "and", "xor", "not", "or", "drop", "input", "array-and", "read", "swap", "vector-and", "open-held", "rebatch", "extract", "split and join"};
  return std::string(n[s.k]) + "(" + str(s.i) + "," + str(s.j) + "," + str(s.l) + ") ";
}
template <int id, bool batch>
static void runHandles(const std::vector<Step>& prog, int me, int slots, bool plain, std::vector<std::optional<int>> m, std::string h) {
  using Sec = Bit<true, id, batch>;
  using Pub = Bit<false, id, batch>;
  auto ws0 = SchedulerKeeper<id>::getWireStatistics();
  {
    std::vector<Sec> s(slots);
    std::vector<std::pair<Pub, int>> held;
    auto read = [&](int i, int party) {
      auto o = s[i].openToParty(party);
      auto got = o.getValue();
      evals();
      if (plain || party == me) check(got == mkv<batch>(*m[i]), "value read through a live handle", [&] { return "slot " + str(i) + " after " + h; });
    };
    for (auto& p : prog) {
      switch (p.k) {
        case 0: s[p.i] = s[p.j]; m[p.i] = m[p.j]; break;
        case 1: { Sec t(s[p.j]); s[p.i] = Sec(t); m[p.i] = m[p.j]; break; }
        case 2: s[p.i] = std::move(s[p.j]); m[p.i] = m[p.j]; m[p.j].reset(); break;
        case 3: s[p.i] = s[p.j] & s[p.l]; m[p.i] = *m[p.j] & *m[p.l]; break;
        case 4: s[p.i] = s[p.j] ^ s[p.l]; m[p.i] = *m[p.j] ^ *m[p.l]; break;
        case 5: s[p.i] = !s[p.j]; m[p.i] = *m[p.j] ^ 7; break;
        case 6: s[p.i] = s[p.j] | s[p.l]; m[p.i] = *m[p.j] | *m[p.l]; break;
        case 7: s[p.i] = Sec(); m[p.i].reset(); break;
        case 8: s[p.i].privateInput(mkv<batch>(p.j), p.i & 1); m[p.i] = p.j; break;
        case 9: {
          std::array<Sec, 2> r{s[p.i], s[p.l]};
          auto o = s[p.j] & r;
          s[p.i] = o[0]; s[p.l] = std::move(o[1]);
          auto a = m[p.i], b = m[p.l], c = m[p.j];
          m[p.i] = *a & *c; m[p.l] = *b & *c;
          break;
        }
        case 10: read(p.i, p.j); break;
        case 11: std::swap(s[p.i], s[p.j]); std::swap(m[p.i], m[p.j]); break;
        case 12: {
          std::vector<Sec> r{s[p.i], s[p.l], s[p.j]};
          auto o = s[p.j] & r;
          auto a = m[p.i], b = m[p.l], c = m[p.j];
          s[p.l] = o[1]; m[p.l] = *b & *c;
          if (p.i != p.l) { s[p.i] = o[0]; m[p.i] = *a & *c; }
          break;
        }
        case 13: held.emplace_back(s[p.i].openToParty(p.j), p.j * 8 + *m[p.i]); break;
        case 14:
          if constexpr (batch) {
            auto x = s[p.i].batchingWith({s[p.j]});
            auto u = x.unbatching(std::make_shared<std::vector<uint32_t>>(std::vector<uint32_t>{3, 3}));
            s[p.i] = u[1];
            m[p.i] = m[p.j];
          }
          break;
        case 16:
          if constexpr (batch) {
            auto u = s[p.j].unbatching(std::make_shared<std::vector<uint32_t>>(std::vector<uint32_t>{1, 2}));
            s[p.j] = Sec();  // the parts outlive what was split
            s[p.i] = u[0].batchingWith({u[1]});
            m[p.i] = m[p.j]; if (p.i != p.j) m[p.j].reset();
          }
          break;
        case 15: { auto sh = s[p.j].extractBit(); Sec t(std::move(sh)); s[p.i] = t; m[p.i] = m[p.j]; break; }
      }
      step();
    }
    for (int i = slots; i-- > 0;) if (m[i]) read(i, i & 1);
    for (auto& hv : held) {
      auto got = hv.first.getValue();
      if (plain || hv.second / 8 == me) check(got == mkv<batch>(hv.second % 8), "value read through an opened handle", [&] { return h; });
    }
  }
  // whatever is still pending is evaluated by going past it
  { Sec x(mkv<batch>(7), 0); for (size_t i = 0; i < prog.size() + 2; i++) x = x & x; x.openToParty(0).getValue(); }
  auto ws = SchedulerKeeper<id>::getWireStatistics();
  check(ws.first == ws.second, "every wire is released once all handles are gone", [&] { return str(ws.first) + " allocated, " + str(ws.second) + " released, after " + h; });
}
template <bool batch>
static void handles(int depth, int slots, std::vector<Backend> bes, Keeper keeper, bool overwrite) {
  Backend be = bes[choose(bes.size(), "backend")];
  std::vector<Step> prog;
  std::vector<std::optional<int>> m0(slots), m;
  // slots 0 and 1 hold values, the others start empty
  prog.push_back({8, 0, 5, 0});
  prog.push_back({8, 1, 3, 0});
  m = m0; m[0] = 5; m[1] = 3;
  std::string h;
  for (int d = 0; d < depth; d++) {
    std::vector<Step> c;
    for (int i = 0; i < slots; i++) {
      if (m[i]) { c.push_back({7, i, 0, 0}); c.push_back({10, i, i & 1, 0}); c.push_back({13, i, 1 - (i & 1), 0}); }
      if (overwrite || !m[i]) c.push_back({8, i, 6, 0});
      for (int j = 0; j < slots; j++) {
        if (!m[j]) continue;
        c.push_back({0, i, j, 0});
        c.push_back({1, i, j, 0});
        if (i != j) c.push_back({2, i, j, 0});
        if (i < j) c.push_back({11, i, j, 0});
        c.push_back({5, i, j, 0});
        if (m[i]) { c.push_back({3, i, i, j}); c.push_back({6, i, i, j}); c.push_back({9, i, j, (i + 1) % slots}); c.push_back({12, i, j, j}); if (batch) c.push_back({14, i, j, 0}); }
        c.push_back({3, i, j, j});
        c.push_back({4, i, j, j});
        c.push_back({15, i, j, 0});
        if (batch) c.push_back({16, i, j, 0});
      }
    }
    std::vector<Step> ok;
    for (auto& p : c) if (p.k != 9 || m[p.l]) ok.push_back(p);
    Step p = ok[choose(ok.size(), "operation")];
    prog.push_back(p);
    h += showStep(p);
    // the effect on which slots hold something (the values are recomputed by each party)
    switch (p.k) {
      case 0: case 1: case 5: case 8: case 3: case 4: case 6: case 15: m[p.i] = 0; break;
      case 2: m[p.i] = 0; m[p.j].reset(); break;
      case 16: m[p.i] = 0; if (p.i != p.j) m[p.j].reset(); break;
      case 7: m[p.i].reset(); break;
      case 11: std::swap(m[p.i], m[p.j]); break;
      default: break;
    }
  }
  note(str(be) + " " + h);
  auto world = std::make_shared<World>();
  if (be == PLAIN) {
    SchedulerKeeper<0>::setScheduler(makeScheduler(be, keeper, 0, 1, *std::make_unique<Factory>(world, 0), hashBits(1), true));
    runHandles<0, batch>(prog, 0, slots, true, m0, h);
    SchedulerKeeper<0>::freeScheduler();
  } else {
    parties(2, [&](int me) {
      Factory f(world, me);
      auto s = makeScheduler(be, keeper, me, 2, f, hashBits(3), true);
      if (me == 0) { SchedulerKeeper<0>::setScheduler(std::move(s)); runHandles<0, batch>(prog, 0, slots, false, m0, h); SchedulerKeeper<0>::freeScheduler(); }
      else { SchedulerKeeper<1>::setScheduler(std::move(s)); runHandles<1, batch>(prog, 1, slots, false, m0, h); SchedulerKeeper<1>::freeScheduler(); }
    });
  }
  state(mix(hashStr(h), be));
}

// ---- wire ids: a gate keeps what it still needs, whenever its operands are released ------------------------------------
struct Wire { bool arith, batch; std::optional<BW> b; std::optional<AW> a; };
using Vals = std::vector<uint64_t>;
static const char* gateNames[] = {"and", "and public", "public and", "xor", "xor public", "public xor", "not", "public not", "one-to-two and", "one-to-two and public", "public one-to-two and",
  "batching", "unbatching", "plus", "plus public", "public plus", "mult", "mult public", "public mult", "negation", "public negation"};
static void early() {
  static const Backend BE[] = {LAZY, EAGER, PLAIN, NETPLAIN};
  int g = choose(21, "gate"); bool arith = g >= 13, batch = choose(2, "batch"); if (g == 11 || g == 12) assume(batch);
  Backend be = BE[choose(4, "backend")]; Keeper keeper = choose(2, "keeper") ? MAP : ARENA_CHECKED;
  static const int sort[] = {0, 1, 2, 0, 1, 2, 0, 2, 0, 1, 2, 0, 0, 0, 1, 2, 0, 1, 2, 0, 2};  // 0 private operands, 1 private with public, 2 public
  int nops = g == 6 || g == 7 || g == 12 || g == 19 || g == 20 ? 1 : g >= 8 && g <= 10 ? 3 : 2;
  bool same = nops > 1 && sort[g] != 1 && choose(2, "one wire for all operands");
  int distinct = same ? 1 : nops, mask = choose(1 << distinct, "released at once"), pend = choose(1 << distinct, "computed operands"), reuse = choose(2, "new wires"), mode = choose(3, "result");
  std::string nm = std::string(gateNames[g]) + (batch ? " of batches" : "") + (same ? " of one wire" : "") + " backend " + str(be) + " computed " + str(pend) + " released " + str(mask) + (reuse ? " then new wires" : "") + " result " + str(mode);
  note(nm);
  auto world = std::make_shared<World>();
  auto body = [&](IArithmeticScheduler& s, int me, bool plain) {
    IScheduler& bs = s;
    size_t len = batch ? 3 : 1;
    auto lit = [&](int k) { Vals v; for (size_t i = 0; i < len; i++) v.push_back(arith ? 0x9e3779b97f4a7c15ull * (k * 5 + i + 1) : (hashStr("v" + str(k)) >> i) & 1); return v; };
    auto bits = [](const Vals& v) { return std::vector<bool>(v.begin(), v.end()); };
    auto release = [&](Wire& w) {
      if (w.b) { w.batch ? bs.decreaseReferenceCountBatch(*w.b) : bs.decreaseReferenceCount(*w.b); }
      else { w.batch ? s.decreaseReferenceCountBatch(*w.a) : s.decreaseReferenceCount(*w.a); }
      w.b.reset(); w.a.reset();
    };
    auto W = [&](BW x) { return Wire{false, batch, x, {}}; }; auto WA = [&](AW x) { return Wire{true, batch, {}, x}; };
    auto input = [&](const Vals& v, bool pub, int owner) {
      if (arith) return pub ? WA(batch ? s.publicIntegerInputBatch(v) : s.publicIntegerInput(v[0])) : WA(batch ? s.privateIntegerInputBatch(v, owner) : s.privateIntegerInput(v[0], owner));
      return pub ? W(batch ? bs.publicBooleanInputBatch(bits(v)) : bs.publicBooleanInput(v[0])) : W(batch ? bs.privateBooleanInputBatch(bits(v), owner) : bs.privateBooleanInput(v[0], owner));
    };
    struct Opd { Wire w; Vals v; bool pub; };
    std::vector<Opd> ops;
    for (int i = 0; i < distinct; i++) {
      bool pub = sort[g] == 2 || (sort[g] == 1 && i > 0); auto v = lit(i); auto w = input(v, pub, plain ? 0 : i & 1);
      if (pend >> i & 1) {  // computed from an input that is itself released at once
        Wire r;
        if (arith) { r = pub ? WA(batch ? s.negPublicBatch(*w.a) : s.negPublic(*w.a)) : WA(batch ? s.privateMultPrivateBatch(*w.a, *w.a) : s.privateMultPrivate(*w.a, *w.a)); for (auto& x : v) x = pub ? -x : x * x; }
        else { r = pub ? W(batch ? bs.notPublicBatch(*w.b) : bs.notPublic(*w.b)) : W(batch ? bs.privateAndPrivateBatch(*w.b, *w.b) : bs.privateAndPrivate(*w.b, *w.b)); if (pub) for (auto& x : v) x ^= 1; }
        release(w); w = r;
      }
      ops.push_back({w, v, pub});
    }
    auto O = [&](int i) -> Opd& { return ops[same ? 0 : i]; };
    std::vector<Wire> out; std::vector<Vals> want; bool pubOut = sort[g] == 2;
    auto comb = [&](int i, auto f) { Vals r; for (size_t k = 0; k < O(0).v.size(); k++) r.push_back(f(O(0).v[k], O(i).v[k])); return r; };
    auto AND = [](uint64_t x, uint64_t y) { return x & y; }; auto XOR = [](uint64_t x, uint64_t y) { return x ^ y; };
#define TWO(k, f, pre) case k: out.push_back(pre(batch ? s.f##Batch(*O(0).w.pre##_F, *O(1).w.pre##_F) : s.f(*O(0).w.pre##_F, *O(1).w.pre##_F)));
#define W_F b
#define WA_F a
    switch (g) {
      TWO(0, privateAndPrivate, W) want = {comb(1, AND)}; break; TWO(1, privateAndPublic, W) want = {comb(1, AND)}; break; TWO(2, publicAndPublic, W) want = {comb(1, AND)}; break;
      TWO(3, privateXorPrivate, W) want = {comb(1, XOR)}; break; TWO(4, privateXorPublic, W) want = {comb(1, XOR)}; break; TWO(5, publicXorPublic, W) want = {comb(1, XOR)}; break;
      case 6: case 7: out.push_back(W(g == 6 ? (batch ? bs.notPrivateBatch(*O(0).w.b) : bs.notPrivate(*O(0).w.b)) : (batch ? bs.notPublicBatch(*O(0).w.b) : bs.notPublic(*O(0).w.b)))); want = {comb(0, [](uint64_t x, uint64_t) { return x ^ 1; })}; break;
      case 8: case 9: case 10: {
        std::vector<BW> r{*O(1).w.b, *O(2).w.b}; auto l = *O(0).w.b;
        auto o = g == 8 ? (batch ? bs.privateAndPrivateCompositeBatch(l, r) : bs.privateAndPrivateComposite(l, r)) : g == 9 ? (batch ? bs.privateAndPublicCompositeBatch(l, r) : bs.privateAndPublicComposite(l, r)) : (batch ? bs.publicAndPublicCompositeBatch(l, r) : bs.publicAndPublicComposite(l, r));
        for (auto& x : o) out.push_back(W(x)); want = {comb(1, AND), comb(2, AND)};
      } break;
      case 11: { out.push_back(W(bs.batchingUp({*O(0).w.b, *O(1).w.b}))); auto v = O(0).v; v.insert(v.end(), O(1).v.begin(), O(1).v.end()); want = {v}; } break;
      case 12: { auto o = bs.unbatching(*O(0).w.b, std::make_shared<std::vector<uint32_t>>(std::vector<uint32_t>{1, 2})); for (auto& x : o) out.push_back(W(x)); auto& v = O(0).v; want = {Vals(v.begin(), v.begin() + 1), Vals(v.begin() + 1, v.end())}; } break;
      TWO(13, privatePlusPrivate, WA) want = {comb(1, std::plus<uint64_t>())}; break; TWO(14, privatePlusPublic, WA) want = {comb(1, std::plus<uint64_t>())}; break; TWO(15, publicPlusPublic, WA) want = {comb(1, std::plus<uint64_t>())}; break;
      TWO(16, privateMultPrivate, WA) want = {comb(1, std::multiplies<uint64_t>())}; break; TWO(17, privateMultPublic, WA) want = {comb(1, std::multiplies<uint64_t>())}; break; TWO(18, publicMultPublic, WA) want = {comb(1, std::multiplies<uint64_t>())}; break;
      default: out.push_back(WA(g == 19 ? (batch ? s.negPrivateBatch(*O(0).w.a) : s.negPrivate(*O(0).w.a)) : (batch ? s.negPublicBatch(*O(0).w.a) : s.negPublic(*O(0).w.a)))); want = {comb(0, [](uint64_t x, uint64_t) { return -x; })};
    }
#undef TWO
    for (int i = 0; i < distinct; i++) if (mask >> i & 1) release(ops[i].w);
    std::vector<std::pair<Wire, Vals>> fresh;
    if (reuse) for (int i = 0; i < 3; i++) { auto v = lit(10 + i); for (auto& x : v) x = arith ? x : !x; fresh.push_back({input(v, i == 2, plain ? 0 : i & 1), v}); }
    auto value = [&](Wire& w) { Vals r; if (w.arith) { if (w.batch) r = s.getIntegerValueBatch(*w.a); else r = {s.getIntegerValue(*w.a)}; } else if (w.batch) { auto b = bs.getBooleanValueBatch(*w.b); r.assign(b.begin(), b.end()); } else r = {bs.getBooleanValue(*w.b)}; return r; };
    auto open = [&](Wire& w, int to) { return w.arith ? WA(w.batch ? s.openIntegerValueToPartyBatch(*w.a, to) : s.openIntegerValueToParty(*w.a, to)) : W(w.batch ? bs.openBooleanValueToPartyBatch(*w.b, to) : bs.openBooleanValueToParty(*w.b, to)); };
    auto expect = [&](Wire& w, const Vals& v, bool mine, const char* what) { auto got = value(w); evals(); if (plain || mine) check(got == v, std::string("value of ") + what, [&] { return nm + ": got " + vec(got) + " expected " + vec(v); }); };
    if (mode == 2) for (auto& w : out) release(w);  // nobody wants the result
    else for (size_t k = 0; k < out.size(); k++) {
      if (pubOut) { expect(out[k], want[k], true, "a result"); release(out[k]); continue; }
      auto o = open(out[k], k & 1); if (mode) release(out[k]);
      expect(o, want[k], me == int(k & 1), "a result"); if (!mode) release(out[k]); release(o);
    }
    for (int i = 0; i < distinct; i++) if (!(mask >> i & 1)) {
      if (ops[i].pub) expect(ops[i].w, ops[i].v, true, "a kept operand"); else { auto o = open(ops[i].w, i & 1); expect(o, ops[i].v, me == (i & 1), "a kept operand"); release(o); }
      release(ops[i].w);
    }
    for (auto& f : fresh) { bool pub = &f == &fresh.back(); if (pub) expect(f.first, f.second, true, "a new wire"); else { auto o = open(f.first, 0); expect(o, f.second, me == 0, "a new wire"); release(o); } release(f.first); }
    {  // go past whatever is still pending
      auto x = bs.privateBooleanInput(true, 0); for (int i = 0; i < 4; i++) { auto y = bs.privateAndPrivate(x, x); bs.decreaseReferenceCount(x); x = y; }
      auto o = bs.openBooleanValueToParty(x, 0); bs.getBooleanValue(o); bs.decreaseReferenceCount(o); bs.decreaseReferenceCount(x);
    }
    auto ws = s.getWireStatistics();
    check(ws.first == ws.second, "every wire is released once nobody refers to it", [&] { return nm + ": " + str(ws.first) + " allocated, " + str(ws.second) + " released"; });
  };
  if (be == PLAIN) { Factory f(world, 0); auto s = makeScheduler(be, keeper, 0, 1, f, hashBits(1), true); body(*s, 0, true); }
  else parties(2, [&](int me) { Factory f(world, me); auto s = makeScheduler(be, keeper, me, 2, f, hashBits(3), true); body(*s, me, false); });
  state(hashStr(nm));
}

int main(int argc, char** argv) {
  std::vector<Suite> s;
  s.push_back({"store, arena", [] { store(thorough ? 7 : 5, ARENA_CHECKED); }});
  s.push_back({"store, unchecked arena", [] { store(thorough ? 6 : 5, ARENA_UNCHECKED); }});
  s.push_back({"store, map", [] { store(thorough ? 7 : 5, MAP); }});
  s.push_back({"store, all kinds together", [] { kinds(thorough ? 8 : 6); }});
  s.push_back({"operands released early", early, 0, 0, false, 0, 3});
  s.push_back({"handles", [] { handles<false>(thorough ? 4 : 3, 2, {LAZY, PLAIN}, ARENA_CHECKED, true); }});
  s.push_back({"three handles", [] { handles<false>(thorough ? 3 : 2, 3, {LAZY, EAGER, PLAIN, NETPLAIN}, MAP, true); }});
  s.push_back({"batch handles", [] { handles<true>(thorough ? 4 : 3, 2, {LAZY}, ARENA_CHECKED, false); }});
  s.push_back({"three batch handles", [] { handles<true>(2, 3, {LAZY, EAGER, PLAIN, NETPLAIN}, MAP, true); }});
  return harnessMain(argc, argv, "C05", s);
}
