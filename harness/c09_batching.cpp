// C09: joining and splitting batches.
#include "fbpcf/frontend/Bit.h"
#include "fbpcf/frontend/BitString.h"
#include "fbpcf/frontend/Int.h"
#include "mc/front.h"
using namespace mc;
using namespace fbpcf::frontend;
using Vals = std::vector<uint64_t>;  // element values of one batch

enum Kind { BIT, UINT, SINT, STRING };
// handles of one kind: creation from shares or inputs, an AND that keeps the value but is pending, reveal
template <int P, int K> struct H;
template <int P> struct H<P, BIT> {
  using S = Bit<true, P, true>;
  static std::vector<bool> enc(const Vals& v) { std::vector<bool> r; for (auto x : v) r.push_back(x & 1); return r; }
  static S input(const Vals& v, int owner, bool mine) { auto e = enc(v); if (!mine) e.flip(); if (v.empty()) { typename S::ExtractedBit x(e); return S(std::move(x)); } return S(e, owner); }
  static S touch(const S& x, const S& y) { return x & y; }
  static Vals reveal(const S& x, int t) { Vals r; for (bool b : x.openToParty(t).getValue()) r.push_back(b); return r; }
  static Vals norm(Vals v) { for (auto& x : v) x &= 1; return v; }
};
template <int P, bool SG> struct HI {
  using S = Int<SG, 4, true, P, true>;
  using U = std::conditional_t<SG, int64_t, uint64_t>;
  static std::vector<U> enc(const Vals& v) { std::vector<U> r; for (auto x : v) r.push_back(SG ? (U)((int64_t)(x << 60) >> 60) : (U)(x & 15)); return r; }
  static S input(const Vals& v, int owner, bool mine) {
    if (v.empty()) { typename S::ExtractedInt e(std::vector<U>{}); return S(std::move(e)); }
    auto e = enc(v); if (!mine) for (auto& x : e) x = 0; return S(e, owner);
  }
  static S touch(const S& x, const S& y) { S r; for (int i = 0; i < 4; i++) r[i] = x[i] & y[i]; return r; }
  static Vals reveal(const S& x, int t) { Vals r; for (auto b : x.openToParty(t).getValue()) r.push_back((uint64_t)b & 15); return r; }
  static Vals norm(Vals v) { for (auto& x : v) x &= 15; return v; }
};
template <int P> struct H<P, UINT> : HI<P, false> {};
template <int P> struct H<P, SINT> : HI<P, true> {};
template <int P> struct H<P, STRING> {
  using S = BitString<true, P, true>;
  static std::vector<std::vector<bool>> enc(const Vals& v) { std::vector<std::vector<bool>> r(3); for (int k = 0; k < 3; k++) for (auto x : v) r[k].push_back((x >> k) & 1); return r; }
  static S input(const Vals& v, int owner, bool mine) {
    auto e = enc(v); if (!mine) for (auto& x : e) x.flip();
    if (v.empty()) { typename S::ExtractedString x(e); return S(std::move(x)); }
    return S(e, owner);
  }
  static S touch(const S& x, const S& y) { return x & y; }
  static Vals reveal(const S& x, int t) {
    auto o = x.openToParty(t).getValue(); Vals r(o[0].size());
    for (int k = 0; k < 3; k++) { if (o[k].size() != r.size()) return {99}; for (size_t i = 0; i < r.size(); i++) r[i] |= (uint64_t)o[k][i] << k; }
    return r;
  }
  static Vals norm(Vals v) { for (auto& x : v) x &= 7; return v; }
};

struct Case {
  BackendChoice b; int kind, target, owner; bool forceParts, forceJoined, nested;
  std::vector<int> sizes, state; std::vector<uint32_t> split;
  std::vector<Vals> parts; std::string name;
};
template <int P, int K> void go(Case& c) {
  using X = H<P, K>; using S = typename X::S;
  auto mine = [&](int o) { return c.b.plain || o == P; };
  auto look = [&](const S& x, const Vals& want, const char* what) {
    check(x.getBatchSize() == want.size(), std::string("batch size: ") + what, [&] { return c.name + " got " + str(x.getBatchSize()) + " expected " + str(want.size()); });
    auto got = X::reveal(x, c.target);
    if (!mine(c.target)) return;
    evals(); state(mix(hashStr(c.name + what), hashStr(vec(got))));
    check(got == X::norm(want), what, [&] { return c.name + ": got " + vec(got) + " expected " + vec(X::norm(want)); });
  };
  std::vector<S> in, ones, part;
  Vals all;
  for (size_t i = 0; i < c.parts.size(); i++) {
    in.push_back(X::input(c.parts[i], c.owner, mine(c.owner)));
    if (c.state[i]) { ones.push_back(X::input(Vals(c.parts[i].size(), ~0ull), 0, mine(0))); part.push_back(X::touch(in.back(), ones.back())); }
    else part.push_back(in.back());
    all.insert(all.end(), c.parts[i].begin(), c.parts[i].end());
  }
  if (c.forceParts) look(part[0], c.parts[0], "part before joining");
  S joined = part[0].batchingWith(std::vector<S>(part.begin() + 1, part.end()));
  check(joined.getBatchSize() == all.size(), "batch size of a joined batch", [&] { return c.name; });
  if (c.forceJoined) look(joined, all, "joined batch");
  // splitting by the sizes asked for, and by the original ones
  for (int round = 0; round < 2; round++) {
    auto st = std::make_shared<std::vector<uint32_t>>(round ? std::vector<uint32_t>(c.sizes.begin(), c.sizes.end()) : c.split);
    auto r = joined.unbatching(st);
    check(r.size() == st->size(), "number of pieces", [&] { return c.name; });
    std::vector<S> r2 = r;
    size_t pos = 0;
    for (size_t i = 0; i < r.size(); i++) {
      Vals want(all.begin() + pos, all.begin() + pos + st->at(i)); pos += st->at(i);
      check(r[i].getBatchSize() == want.size(), "batch size of a piece", [&] { return c.name; });
      look(X::touch(r[i], r[i]), want, "value computed from a piece");
      look(r[i], want, round ? "piece when split by the original sizes" : "piece");
    }
    if (c.nested && r.size() > 1) {  // pieces joined again in reverse order
      std::vector<S> rev(r.rbegin() + 1, r.rend());
      Vals want; size_t e = pos;
      for (size_t i = r.size(); i-- > 0;) { want.insert(want.end(), all.begin() + e - st->at(i), all.begin() + e); e -= st->at(i); }
      look(r.back().batchingWith(rev), want, "pieces joined in reverse order");
    }
  }
  look(joined, all, "joined batch afterwards");
  for (size_t i = 0; i < part.size(); i++) look(part[i], c.parts[i], "part afterwards");
}
template <int K> void run(Case& c) { runBoth(c.b, [&] { go<0, K>(c); }, [&] { go<1, K>(c); }); }

static void body(int kind) {
  Case c; c.kind = kind; c.b = chooseBackend();
  c.target = c.b.plain ? 0 : choose(2, "revealed to"); c.owner = c.b.plain ? 0 : 1 - c.target;
  int k = 1 + choose(mc::thorough ? 4 : 3, "parts");
  int salt = kind == BIT ? choose(3, "bit") : 0;
  int total = 0, id = 1;
  for (int i = 0; i < k; i++) {
    c.sizes.push_back(choose(i < 2 ? 4 : 3, "size"));
    c.state.push_back(choose(2, "pending"));
    if (!mc::thorough) assume(k < 3 || c.sizes[i] < 3);
    Vals v; for (int j = 0; j < c.sizes[i]; j++) v.push_back((uint64_t)(id++) >> salt);
    c.parts.push_back(v); total += c.sizes[i];
  }
  c.forceParts = choose(2, "evaluate before joining"); c.forceJoined = choose(2, "evaluate before splitting");
  c.nested = c.forceParts != c.forceJoined;
  // another split: cut points as choices, empty pieces and a dropped tail allowed
  int pieces = choose(mc::thorough ? 4 : 3, "pieces"), left = total;
  for (int i = 0; i < pieces; i++) { int s = choose(std::min(left, 3) + 1, "piece size"); c.split.push_back(s); left -= s; }
  c.name = "kind " + str(kind) + " backend " + str((int)c.b.b) + " sizes " + vec(c.sizes) + " pending " + vec(c.state) + " evaluate " + str(c.forceParts) + str(c.forceJoined) + " split " + vec(c.split) + " salt " + str(salt);
  note(c.name);
  switch (kind) { case BIT: run<BIT>(c); break; case UINT: run<UINT>(c); break; case SINT: run<SINT>(c); break; default: run<STRING>(c); }
}
// long parts and many parts
static void longParts(int kind) {
  static const int L[] = {63, 64, 65, 255, 256, 257, 1024, 65535, 65536, 65537};
  Case c; c.kind = kind; c.b = chooseBackend(); c.target = 0; c.owner = c.b.plain ? 0 : 1; c.forceParts = false; c.forceJoined = choose(2, "evaluate before splitting"); c.nested = true;
  int shape = choose(3, "shape");
  if (shape < 2) {
    int a = L[choose(kind == BIT ? 10 : 7, "size")]; c.sizes = shape ? std::vector<int>{1, a, 2} : std::vector<int>{a, a, 1};
    int t = 0; for (int x : c.sizes) t += x;
    c.split = {(uint32_t)(t - a), 0, (uint32_t)a};
  } else {
    int k = 20 + choose(3, "parts") * 130, t = 0; for (int i = 0; i < k; i++) { c.sizes.push_back(i % 5 == 2 ? 0 : i % 7 == 3 ? 9 : 1 + i % 3); t += c.sizes.back(); }
    c.split = {(uint32_t)t / 2, (uint32_t)(t - t / 2)};
  }
  int pend = choose(2, "pending"), salt = kind == BIT ? choose(2, "bit") * 3 : 0, id = 1;
  for (int x : c.sizes) { c.state.push_back(pend); Vals v; for (int j = 0; j < x; j++, id++) v.push_back(mix(id, 5) >> salt); c.parts.push_back(v); }
  c.name = "long, kind " + str(kind) + " backend " + str((int)c.b.b) + " shape " + str(shape) + " parts " + str(c.sizes.size()) + " largest " + str(*std::max_element(c.sizes.begin(), c.sizes.end())) + " pending " + str(pend);
  note(c.name);
  switch (kind) { case BIT: run<BIT>(c); break; case UINT: run<UINT>(c); break; case SINT: run<SINT>(c); break; default: run<STRING>(c); }
}
// asking for more values than there are must not return something else silently (immediately evaluated backends)
static void tooMany() {
  int be = choose(2, "backend"); BackendChoice b = be ? BackendChoice{EAGER, false} : BackendChoice{PLAIN, true};
  int n = 1 + choose(3, "size"), extra = 1 + choose(3, "extra"), cut = choose(3, "first piece");
  assume(cut <= n);
  auto f = [&](auto one) {
    auto x = one(std::vector<bool>(n, true));
    bool threw = false;
    try { x.unbatching(std::make_shared<std::vector<uint32_t>>(std::vector<uint32_t>{(uint32_t)cut, (uint32_t)(n - cut + extra)})); } catch (const std::exception&) { threw = true; }
    evals(); state(mix(mix(n, extra), cut * 2 + be));
    check(threw, "split into more values than the batch has was accepted", [&] { return str(n) + "+" + str(extra); });
  };
  runBoth(b, [&] { f([](std::vector<bool> v) { return Bit<true, 0, true>(v, 0); }); }, [&] { f([](std::vector<bool> v) { return Bit<true, 1, true>(v, 0); }); });
}
int main(int argc, char** argv) {
  return harnessMain(argc, argv, "C09", {{"bit", [] { body(BIT); }}, {"unsigned", [] { body(UINT); }}, {"signed", [] { body(SINT); }}, {"string", [] { body(STRING); }}, {"long bits", [] { longParts(BIT); }, 0, -1, false, 0, 3}, {"long integers", [] { longParts(UINT); }, 0, -1, false, 0, 3}, {"long strings", [] { longParts(STRING); }, 0, -1, false, 0, 3}, {"too-many", [] { tooMany(); }}});
}
