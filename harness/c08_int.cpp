// C08: secure integers. One unit per group of widths (compile-time parameters).
#include "fbpcf/frontend/Int.h"
#include "fbpcf/frontend/BitString.h"
#include "mc/backend.h"
using namespace mc;
using namespace fbpcf::frontend;
using fbpcf::scheduler::SchedulerKeeper;

struct Case {
  Backend backend; bool plain; int op, ownerA, ownerB, target, variant;
  bool secA, secB, secC;
  std::vector<uint64_t> a, b; std::vector<bool> c;   // element-wise operands, already masked to the width
  std::vector<uint64_t> share[2]; std::vector<bool> bshare[2];
  std::string name;
};
enum Op { ADD, SUB, LT, LE, GT, GE, EQ, MUX, MAXOP, MINOP, NEG, ABS, CASTDOWN, CASTSAME, CASTUP, OPEN, EXTRACT, REBIT, BITS, NOPS };
static const char* opName[] = {"+", "-", "<", "<=", ">", ">=", "==", "mux", "max", "min", "negate", "abs", "narrow", "same-width cast", "widen", "open", "extract and recover", "replace a bit", "read bits"};

template <int8_t W> constexpr uint64_t mask() { return W == 64 ? ~0ull : (1ull << W) - 1; }
template <bool S, int8_t W> int64_t ext(uint64_t u) {  // value of the low W bits
  u &= mask<W>();
  if (S && W < 64 && (u >> (W - 1))) u |= ~mask<W>();
  return (int64_t)u;
}
template <bool S> using Unit = std::conditional_t<S, int64_t, uint64_t>;
template <bool S, bool B> using Val = std::conditional_t<B, std::vector<Unit<S>>, Unit<S>>;

template <int P, bool S, int8_t W, bool B> struct Run {
  Case& c; std::string what;
  template <bool sec> using I = Int<S, W, sec, P, B>;
  template <bool sec> using Bt = Bit<sec, P, B>;
  std::vector<std::vector<size_t>> groups;  // which elements each handle holds
  explicit Run(Case& c) : c(c) {
    if (B) { groups.emplace_back(); for (size_t i = 0; i < c.a.size(); i++) groups[0].push_back(i); }
    else for (size_t i = 0; i < c.a.size(); i++) groups.push_back({i});
  }
  bool mine(int owner) { return c.plain || owner == P; }
  Val<S, B> pick(const std::vector<uint64_t>& v, const std::vector<size_t>& g, bool real) {
    auto at = [&](size_t i) { return (Unit<S>)ext<S, W>(real ? v[i] : ~v[i]); };  // the other party's argument must be ignored
    if constexpr (B) { std::vector<Unit<S>> r; for (size_t i : g) r.push_back(at(i)); return r; }
    else return at(g[0]);
  }
  auto pickBit(const std::vector<size_t>& g, bool real) {
    if constexpr (B) { std::vector<bool> r; for (size_t i : g) r.push_back(c.c[i] ^ !real); return r; }
    else return (bool)(c.c[g[0]] ^ !real);
  }
  template <bool sec> I<sec> mk(const std::vector<uint64_t>& v, const std::vector<size_t>& g, int owner) {
    if constexpr (sec) {
      if (c.variant & 1) { I<true> r; r.privateInput(pick(v, g, mine(owner)), owner); return r; }
      return I<true>(pick(v, g, mine(owner)), owner);
    } else {
      if (c.variant & 1) { I<false> r; r.publicInput(pick(v, g, true)); return r; }
      return I<false>(pick(v, g, true));
    }
  }
  template <bool sec> Bt<sec> mkBit(const std::vector<size_t>& g) {
    if constexpr (sec) return Bt<true>(pickBit(g, mine(c.ownerB)), c.ownerB);
    else return Bt<false>(pickBit(g, true));
  }
  template <class V, class F> void compare(const V& v, const std::vector<size_t>& g, F expect, const char* part) {
    size_t n;
    if constexpr (B) n = v.size(); else n = 1;
    check(n == g.size(), "size of a batched result", [&] { return c.name + part; });
    for (size_t j = 0; j < g.size() && j < n; j++) {
      uint64_t got;
      if constexpr (B) got = (uint64_t)(int64_t)v[j]; else got = (uint64_t)(int64_t)v;
      uint64_t want = expect(g[j]);
      evals();
      state(mix(mix(hashStr(c.name), g[j]), got));
      check(got == want, std::string("result of ") + opName[c.op] + part, [&] {
        return c.name + " a=" + str((int64_t)ext<S, W>(c.a[g[j]])) + " b=" + str((int64_t)ext<S, W>(c.b[g[j]])) + " c=" + str(c.c[g[j]]) + ": got " + str((int64_t)got) + " expected " + str((int64_t)want); });
    }
  }
  // reveals x (an Int or a Bit, secret or public) and compares it where it is visible
  template <class X, class F> void reveal(const std::vector<X>& xs, F expect, const char* part = "") {
    for (size_t i = 0; i < xs.size(); i++) revealOne(xs[i], groups[i], expect, part);
  }
  template <bool s2, int8_t w2, bool sec, class F> void revealOne(const Int<s2, w2, sec, P, B>& x, const std::vector<size_t>& g, F expect, const char* part) {
    if constexpr (sec) { auto o = x.openToParty(c.target); auto v = o.getValue(); if (mine(c.target)) compare(v, g, expect, part); }
    else compare(x.getValue(), g, expect, part);
  }
  template <bool sec, class F> void revealOne(const Bit<sec, P, B>& x, const std::vector<size_t>& g, F expect, const char* part) {
    if constexpr (sec) { auto o = x.openToParty(c.target); auto v = o.getValue(); if (mine(c.target)) compare(v, g, expect, part); }
    else compare(x.getValue(), g, expect, part);
  }
  template <bool sa, bool sb, bool sc> void ops() {
    std::vector<I<sa>> A; std::vector<I<sb>> Bv;
    for (auto& g : groups) { A.push_back(mk<sa>(c.a, g, c.ownerA)); Bv.push_back(mk<sb>(c.b, g, c.ownerB)); }
    auto va = [&](size_t i) { return ext<S, W>(c.a[i]); };
    auto vb = [&](size_t i) { return ext<S, W>(c.b[i]); };
    auto less = [](int64_t x, int64_t y) { return S ? x < y : (uint64_t)x < (uint64_t)y; };
    constexpr bool so = sa || sb;
    std::vector<I<so>> R; std::vector<Bt<so>> L;
    size_t n = groups.size();
    switch (c.op) {
      case ADD: for (size_t i = 0; i < n; i++) R.push_back(A[i] + Bv[i]); reveal(R, [&](size_t i) { return ext<S, W>(c.a[i] + c.b[i]); }); break;
      case SUB: for (size_t i = 0; i < n; i++) R.push_back(A[i] - Bv[i]); reveal(R, [&](size_t i) { return ext<S, W>(c.a[i] - c.b[i]); }); break;
      case LT: for (size_t i = 0; i < n; i++) L.push_back(A[i] < Bv[i]); reveal(L, [&](size_t i) { return less(va(i), vb(i)); }); break;
      case GT: for (size_t i = 0; i < n; i++) L.push_back(A[i] > Bv[i]); reveal(L, [&](size_t i) { return less(vb(i), va(i)); }); break;
      case LE: for (size_t i = 0; i < n; i++) L.push_back(A[i] <= Bv[i]); reveal(L, [&](size_t i) { return !less(vb(i), va(i)); }); break;
      case GE: for (size_t i = 0; i < n; i++) L.push_back(A[i] >= Bv[i]); reveal(L, [&](size_t i) { return !less(va(i), vb(i)); }); break;
      case EQ: for (size_t i = 0; i < n; i++) L.push_back(A[i] == Bv[i]); reveal(L, [&](size_t i) { return va(i) == vb(i); }); break;
      case MAXOP: for (size_t i = 0; i < n; i++) R.push_back(max(A[i], Bv[i])); reveal(R, [&](size_t i) { return less(va(i), vb(i)) ? vb(i) : va(i); }); break;
      case MINOP: for (size_t i = 0; i < n; i++) R.push_back(min(A[i], Bv[i])); reveal(R, [&](size_t i) { return less(vb(i), va(i)) ? vb(i) : va(i); }); break;
      case MUX: {
        std::vector<I<so || sc>> M;
        for (size_t i = 0; i < n; i++) M.push_back(A[i].mux(mkBit<sc>(groups[i]), Bv[i]));
        reveal(M, [&](size_t i) { return c.c[i] ? vb(i) : va(i); });
        break;
      }
      default: break;
    }
    // operands still carry their values
    reveal(A, va, " (left operand afterwards)");
    reveal(Bv, vb, " (right operand afterwards)");
  }
  template <int8_t NW, bool sa> void castTo(const std::vector<I<sa>>& A) {
    std::vector<Int<S, NW, sa, P, B>> R;
    for (auto& x : A) R.push_back(x.template cast<NW>());
    reveal(R, [&](size_t i) { return ext<S, NW>((uint64_t)ext<S, W>(c.a[i])); });
  }
  template <bool sa> void unary() {
    std::vector<I<sa>> A;
    for (auto& g : groups) A.push_back(mk<sa>(c.a, g, c.ownerA));
    auto va = [&](size_t i) { return ext<S, W>(c.a[i]); };
    size_t n = groups.size();
    std::vector<I<sa>> R;
    switch (c.op) {
      case NEG: if constexpr (S) { for (auto& x : A) R.push_back(-x); reveal(R, [&](size_t i) { return ext<S, W>(-c.a[i]); }); } break;
      case ABS: if constexpr (S) { for (auto& x : A) R.push_back(abs(x)); reveal(R, [&](size_t i) { return va(i) < 0 ? ext<S, W>(-c.a[i]) : va(i); }); } break;
      case CASTDOWN: castTo<(W + 1) / 2, sa>(A); break;
      case CASTSAME: castTo<W, sa>(A); break;
      case CASTUP: if constexpr (W <= 62) castTo<W + 2, sa>(A); else castTo<64, sa>(A); break;
      case OPEN: reveal(A, va); break;
      case BITS: for (int k = 0; k < W; k++) { std::vector<Bt<sa>> L; for (auto& x : A) L.push_back(x[k]); reveal(L, [&](size_t i) { return (c.a[i] >> k) & 1; }); }
        for (auto& x : A) {
          bool threw = false; try { (void)x[W]; } catch (const std::exception&) { threw = true; }
          check(threw, "bit index beyond the width accepted", [&] { return c.name; });
          const auto& cx = x; threw = false; try { (void)cx[W]; } catch (const std::exception&) { threw = true; }
          check(threw, "bit index beyond the width accepted", [&] { return c.name; });
        }
        break;
      case REBIT: for (int k = 0; k < W; k++) { auto R2 = A; for (size_t i = 0; i < n; i++) R2[i][k] = !A[i][k]; reveal(R2, [&](size_t i) { return ext<S, W>(c.a[i] ^ (1ull << k)); }); } break;
      case EXTRACT: if constexpr (sa) {
        std::vector<I<true>> R2;
        for (size_t i = 0; i < n; i++) {
          auto e = A[i].extractIntShare();
          auto v = e.getValue();
          auto bits = e.getBooleanShares();
          check(bits.size() == (size_t)W, "number of boolean shares", [&] { return c.name; });
          for (size_t j = 0; j < groups[i].size(); j++) {
            uint64_t s; if constexpr (B) s = v[j]; else s = v;
            c.share[P].push_back(s);
            uint64_t fromBits = 0;
            for (int k = 0; k < W; k++) { bool bk; if constexpr (B) bk = bits[k][j]; else bk = bits[k]; fromBits |= (uint64_t)bk << k; }
            check(fromBits == (s & mask<W>()), "boolean shares and integer share disagree", [&] { return c.name; });
          }
          if (c.variant & 2) { typename I<true>::ExtractedInt e2(v); R2.push_back(I<true>(std::move(e2))); }
          else R2.push_back(I<true>(std::move(e)));
        }
        reveal(R2, va);
      } break;
    }
    reveal(A, va, " (operand afterwards)");
  }
  void go() {
    bool two = c.op <= MINOP;
    if (!two) { c.secA ? unary<true>() : unary<false>(); return; }
    if (c.op == MUX) {
      switch (c.secA * 4 + c.secB * 2 + c.secC) {
        case 0: ops<false, false, false>(); break; case 1: ops<false, false, true>(); break; case 2: ops<false, true, false>(); break; case 3: ops<false, true, true>(); break;
        case 4: ops<true, false, false>(); break; case 5: ops<true, false, true>(); break; case 6: ops<true, true, false>(); break; case 7: ops<true, true, true>(); break;
      }
    } else switch (c.secA * 2 + c.secB) {
      case 0: ops<false, false, false>(); break; case 1: ops<false, true, false>(); break; case 2: ops<true, false, false>(); break; case 3: ops<true, true, false>(); break;
    }
  }
};

template <int P> void withScheduler(Case& c, std::shared_ptr<World> w, const std::function<void()>& f) {
  struct Free { ~Free() { SchedulerKeeper<P>::freeScheduler(); } } fr;
  Factory fac(w, P);
  SchedulerKeeper<P>::setScheduler(makeScheduler(c.backend, ARENA_CHECKED, P, 2, fac, hashBits(77), true));
  f();
}
static void both(Case& c, const std::function<void()>& p0, const std::function<void()>& p1) {
  auto w = std::make_shared<World>();
  if (c.plain) withScheduler<0>(c, w, p0);
  else {
    parties(2, [&](int p) { if (p == 0) withScheduler<0>(c, w, p0); else withScheduler<1>(c, w, p1); });
    check(w->drained(), "bytes left unread between the parties", [&] { return c.name; });
  }
}

template <bool S, int8_t W> std::vector<uint64_t> values(bool small) {
  std::vector<uint64_t> r;
  if (W <= 4 && (!small || W <= 3)) { for (uint64_t v = 0; v <= mask<W>(); v++) r.push_back(v); return r; }
  uint64_t m = mask<W>(), h = 1ull << (W - 1);
  for (uint64_t v : {(uint64_t)0, (uint64_t)1, m, h, h - 1, (uint64_t)0x5555555555555555ull & m}) r.push_back(v);
  if (!small) for (uint64_t v : {(uint64_t)2, m - 1, h + 1, h - 2, (uint64_t)0xaaaaaaaaaaaaaaaaull & m, (uint64_t)0x123456789abcdef1ull & m, h >> 1, (uint64_t)3}) r.push_back(v);
  return r;
}

template <bool S, int8_t W> void body(bool realBackend) {
  Case c;
  c.plain = !realBackend;
  c.backend = realBackend ? (choose(2, "lazy or eager") ? EAGER : LAZY) : PLAIN;
  bool batch = choose(2, "batched");
  c.op = choose(NOPS, "operator");
  if (!S && (c.op == NEG || c.op == ABS)) assume(false);
  bool two = c.op <= MINOP;
  c.secA = choose(2, "left secret");
  c.secB = two ? choose(2, "right secret") : false;
  c.secC = c.op == MUX ? choose(2, "choice secret") : false;
  if (c.op == EXTRACT) assume(c.secA);
  bool wide = realBackend && W > 3 && !mc::thorough;
  int own = wide ? 1 + choose(2, "owners") : realBackend ? choose(4, "owners") : 0;
  c.ownerA = own & 1; c.ownerB = own >> 1;
  c.target = realBackend ? choose(2, "revealed to") : 0;
  c.variant = c.op == EXTRACT ? choose(4, "construction") : realBackend && !mc::thorough ? 0 : choose(2, "construction");
  auto vs = values<S, W>(realBackend && !mc::thorough);
  auto ws = two ? vs : std::vector<uint64_t>{0};
  std::vector<bool> cs = c.op == MUX ? std::vector<bool>{false, true} : std::vector<bool>{false};
  for (auto a : vs) for (auto b : ws) for (bool ch : cs) { c.a.push_back(a); c.b.push_back(b); c.c.push_back(ch); }
  c.name = std::string(S ? "signed " : "unsigned ") + str((int)W) + "-bit " + opName[c.op] + (batch ? " batched" : "") + (c.secA ? " secret" : " public") + (two ? (c.secB ? ",secret" : ",public") : "") +
      (c.secC ? " by secret" : "") + " backend " + str((int)c.backend) + " owners " + str(own) + " variant " + str(c.variant);
  note(c.name);
  // scalar programs on the real backends: a slice of the pairs per execution keeps programs small
  if (batch) both(c, [&] { Run<0, S, W, true>(c).go(); }, [&] { Run<1, S, W, true>(c).go(); });
  else both(c, [&] { Run<0, S, W, false>(c).go(); }, [&] { Run<1, S, W, false>(c).go(); });
  if (c.op == EXTRACT) for (size_t i = 0; i < c.share[0].size(); i++) {
    uint64_t v = c.share[0][i] ^ (c.plain ? 0 : c.share[1][i]);
    check(v == (uint64_t)ext<S, W>(c.a[i]), "extracted shares recombine to another value", [&] { return c.name; });
  }
}

template <bool S, int8_t W> void range() {
  // values just outside and far outside the range are rejected, the extremes are accepted
  Case c; c.plain = true; c.backend = PLAIN; c.op = OPEN; c.target = 0; c.variant = 0;
  bool batch = choose(2, "batched"), sec = choose(2, "secret");
  std::vector<int64_t> cand;
  for (int64_t b : {(int64_t)mask<W>(), (int64_t)(mask<W>() >> 1), (int64_t)(mask<W>() >> 2), -(int64_t)(mask<W>() >> 1), (int64_t)0, (int64_t)INT64_MAX, (int64_t)INT64_MIN})
    for (int64_t d : {-2, -1, 0, 1, 2}) cand.push_back((int64_t)((uint64_t)b + d));
  for (int k = 0; k < 64; k++) { cand.push_back((int64_t)(1ull << k)); cand.push_back((int64_t)-(1ull << k)); }
  int64_t v = cand[choose(cand.size(), "value")];
  Unit<S> u = (Unit<S>)v;
  bool fits = S ? ext<S, W>(v) == v : ((uint64_t)v & ~mask<W>()) == 0;
  note(std::string(S ? "signed " : "unsigned ") + str((int)W) + " value " + str(v) + (batch ? " batched" : "") + (sec ? " secret" : ""));
  bool threw = false; bool ok = true;
  both(c, [&] {
    try {
      if (batch) {
        std::vector<Unit<S>> vv{0, u, 0};
        if (sec) { Int<S, W, true, 0, true> x(vv, 0); ok = x.openToParty(0).getValue() == vv; }
        else { Int<S, W, false, 0, true> x(vv); ok = x.getValue() == vv; }
      } else {
        if (sec) { Int<S, W, true, 0, false> x(u, 0); ok = x.openToParty(0).getValue() == u; }
        else { Int<S, W, false, 0, false> x(u); ok = x.getValue() == u; }
      }
    } catch (const std::exception&) { threw = true; }
  }, [] {});
  evals();
  state(mix(mix(v, W), S * 4 + batch * 2 + sec));
  check(threw == !fits, fits ? "an in-range value was rejected" : "an out-of-range value was accepted", [&] { return str(v); });
  check(threw || ok, "an input value was altered", [&] { return str(v); });
}

template <int8_t W> void addWidth(std::vector<Suite>& s) {
  auto n = std::to_string((int)W);
  s.push_back({"plain-" + n, [] { body<SIGNED, W>(false); }});
  s.push_back({"real-" + n, [] { body<SIGNED, W>(true); }});
  s.push_back({"range-" + n, [] { range<SIGNED, W>(); }});
}
template <int8_t... W> void addAll(std::vector<Suite>& s) { (addWidth<W>(s), ...); }
int main(int argc, char** argv) {
  std::vector<Suite> s;
  addAll<WIDTHS>(s);
  return harnessMain(argc, argv, "C08", s);
}
