// C08: secure bits, arrays of bits and bit strings.
#include "fbpcf/frontend/Bit.h"
#include "fbpcf/frontend/BitString.h"
#include "mc/front.h"
using namespace mc;
using namespace fbpcf::frontend;

struct Case {
  BackendChoice b; int op, ownerA, ownerB, target; bool secA, secB, secC;
  int len; size_t n;                       // bit string length, batch size
  std::vector<std::vector<bool>> a, b_;    // a[position][element]
  std::vector<bool> c;
  std::string name;
  std::vector<std::vector<bool>> share[2];
};
enum Op { AND, XOR, OR, NOT, OPEN, EXTRACT, ANDARRAY, ANDVECTOR, BIT_OPS };
enum SOp { S_AND, S_XOR, S_NOT, S_MUX, S_OPEN, S_EXTRACT, S_RESIZE, S_SET, S_MISMATCH, S_OPS };
static const char* nm[] = {"&", "^", "|", "!", "open", "extract and recover", "& array", "& vector"};
static const char* snm[] = {"&", "^", "!", "mux", "open", "extract and recover", "resize", "set bits", "mismatched lengths"};

template <int P, bool B> struct Run {
  Case& c;
  using Elem = std::conditional_t<B, std::vector<bool>, bool>;
  bool mine(int o) { return c.b.plain || o == P; }
  Elem pick(const std::vector<bool>& v, bool real) {
    if constexpr (B) { auto r = v; if (!real) r.flip(); return r; } else return v[0] ^ !real;
  }
  template <bool sec> Bit<sec, P, B> mk(const std::vector<bool>& v, int owner) {
    if (v.empty()) {  // a private input may not be empty: an empty batch comes from shares
      if constexpr (sec && B) { typename Bit<true, P, B>::ExtractedBit e(v); return Bit<true, P, B>(std::move(e)); }
    }
    if constexpr (sec) return Bit<true, P, B>(pick(v, mine(owner)), owner); else return Bit<false, P, B>(pick(v, true));
  }
  template <bool sec> BitString<sec, P, B> mks(const std::vector<std::vector<bool>>& v, int owner) {
    if constexpr (sec && B) if (c.n == 0) { typename BitString<true, P, B>::ExtractedString e(v); return BitString<true, P, B>(std::move(e)); }
    std::vector<Elem> e;
    for (auto& x : v) e.push_back(pick(x, !sec || mine(owner)));
    if constexpr (sec) return BitString<true, P, B>(e, owner); else return BitString<false, P, B>(e);
  }
  void eq(const Elem& got, const std::vector<bool>& want, const char* part) {
    std::vector<bool> g; if constexpr (B) g = got; else g = {got};
    evals();
    state(mix(hashStr(c.name + part), hashStr(vec(g))));
    check(g == want, std::string("result of ") + part, [&] { return c.name + ": got " + vec(g) + " expected " + vec(want); });
  }
  template <bool sec> void reveal(const Bit<sec, P, B>& x, const std::vector<bool>& want, const char* part) {
    if constexpr (B) check(x.getBatchSize() == want.size(), "batch size of a bit", [&] { return c.name; });
    if constexpr (sec) { auto o = x.openToParty(c.target); auto v = o.getValue(); if (mine(c.target)) eq(v, want, part); }
    else eq(x.getValue(), want, part);
  }
  template <bool sec> void reveals(const BitString<sec, P, B>& x, const std::vector<std::vector<bool>>& want, const char* part) {
    check(x.size() == want.size(), "length of a bit string", [&] { return c.name; });
    auto look = [&](const std::vector<Elem>& v) {
      check(v.size() == want.size(), "length of a revealed bit string", [&] { return c.name; });
      for (size_t i = 0; i < want.size() && i < v.size(); i++) eq(v[i], want[i], part);
    };
    if constexpr (B) if (x.size()) check(x.getBatchSize() == want[0].size(), "batch size of a bit string", [&] { return c.name; });
    if constexpr (sec) { auto o = x.openToParty(c.target); auto v = o.getValue(); if (mine(c.target)) look(v); }
    else look(x.getValue());
  }
  static std::vector<bool> bin(const std::vector<bool>& x, const std::vector<bool>& y, int op) {
    std::vector<bool> r; for (size_t i = 0; i < x.size(); i++) r.push_back(op == 0 ? x[i] && y[i] : op == 1 ? x[i] != y[i] : x[i] || y[i]); return r;
  }
  static std::vector<bool> inv(std::vector<bool> x) { x.flip(); return x; }
  template <bool sa, bool sb> void bitOps() {
    auto A = mk<sa>(c.a[0], c.ownerA); auto Bb = mk<sb>(c.b_[0], c.ownerB);
    switch (c.op) {
      case AND: reveal(A & Bb, bin(c.a[0], c.b_[0], 0), "&"); break;
      case XOR: reveal(A ^ Bb, bin(c.a[0], c.b_[0], 1), "^"); break;
      case OR: reveal(A | Bb, bin(c.a[0], c.b_[0], 2), "|"); break;
      case NOT: reveal(!A, inv(c.a[0]), "!"); break;
      case OPEN: reveal(A, c.a[0], "open"); break;
      case EXTRACT: if constexpr (sa) {
        auto e = A.extractBit(); auto v = e.getValue();
        if constexpr (B) c.share[P] = {v}; else c.share[P] = {{v}};
        reveal(Bit<true, P, B>(std::move(e)), c.a[0], "recover");
      } break;
      case ANDARRAY: {
        std::array<Bit<sb, P, B>, 3> arr{mk<sb>(c.b_[0], c.ownerB), mk<sb>(c.a[0], c.ownerB), mk<sb>(inv(c.b_[0]), c.ownerB)};
        auto r = A & arr;
        reveal(r[0], bin(c.a[0], c.b_[0], 0), "& array"); reveal(r[1], c.a[0], "& array"); reveal(r[2], bin(c.a[0], inv(c.b_[0]), 0), "& array");
        reveal(arr[2], inv(c.b_[0]), "& array operand");
      } break;
      case ANDVECTOR: for (int len = 1; len <= 3; len++) {
        std::vector<Bit<sb, P, B>> v; for (int i = 0; i < len; i++) v.push_back(mk<sb>(i ? inv(c.b_[0]) : c.b_[0], c.ownerB));
        auto r = A & v;
        check(r.size() == v.size(), "number of results of one-to-many AND", [&] { return c.name; });
        for (int i = 0; i < len; i++) reveal(r[i], bin(c.a[0], i ? inv(c.b_[0]) : c.b_[0], 0), "& vector");
      } break;
    }
    reveal(A, c.a[0], "left operand afterwards"); reveal(Bb, c.b_[0], "right operand afterwards");
  }
  template <bool sa, bool sb, bool sc> void strOps() {
    auto A = mks<sa>(c.a, c.ownerA); auto Bs = mks<sb>(c.b_, c.ownerB);
    auto zip = [&](int k) { std::vector<std::vector<bool>> r; for (int i = 0; i < c.len; i++) r.push_back(bin(c.a[i], c.b_[i], k)); return r; };
    switch (c.op) {
      case S_AND: reveals(A & Bs, zip(0), "string &"); break;
      case S_XOR: reveals(A ^ Bs, zip(1), "string ^"); break;
      case S_NOT: { auto w = c.a; for (auto& x : w) x.flip(); reveals(!A, w, "string !"); } break;
      case S_MUX: {
        auto w = c.a; for (int i = 0; i < c.len; i++) for (size_t j = 0; j < w[i].size(); j++) if (c.c[j]) w[i][j] = c.b_[i][j];
        reveals(A.mux(mk<sc>(c.c, c.ownerB), Bs), w, "string mux");
      } break;
      case S_OPEN: reveals(A, c.a, "open string"); break;
      case S_EXTRACT: if constexpr (sa) {
        auto e = A.extractStringShare(); auto v = e.getValue();
        check(e.size() == (size_t)c.len, "length of an extracted string", [&] { return c.name; });
        for (auto&& x : v) { if constexpr (B) c.share[P].push_back(x); else c.share[P].push_back({(bool)x}); }
        typename BitString<true, P, B>::ExtractedString e2(v);
        reveals(BitString<true, P, B>(std::move(e)), c.a, "recover string"); reveals(BitString<true, P, B>(std::move(e2)), c.a, "recover string");
      } break;
      case S_RESIZE: for (int l = 0; l <= c.len; l++) { auto X = A; X.resize(l); std::vector<std::vector<bool>> w(c.a.begin(), c.a.begin() + l); reveals(X, w, "resize"); } break;
      case S_SET: for (int k = 0; k < c.len; k++) { auto X = A; X[k] = !A.at(k); auto w = c.a; w[k].flip(); reveals(X, w, "set bit");
          const auto& X2 = X; reveal(X2[k], w[k], "read bit"); } break;
      case S_MISMATCH: {
        auto L = c.b_; L.push_back(std::vector<bool>(c.n, true)); auto Lo = mks<sb>(L, c.ownerB);
        auto ch = mk<sc>(c.c, c.ownerB);
        auto thr = [&](auto f) { bool t = false; try { f(); } catch (const std::exception&) { t = true; } check(t, "bit strings of different lengths accepted", [&] { return c.name; }); };
        thr([&] { A & Lo; }); thr([&] { Lo & A; }); thr([&] { A ^ Lo; }); thr([&] { Lo ^ A; }); thr([&] { A.mux(ch, Lo); }); thr([&] { Lo.mux(ch, A); });
        if constexpr (B) { auto d = c.a; d.push_back(std::vector<bool>(c.n + 1)); if (d.size() > 1) thr([&] { typename BitString<true, P, B>::ExtractedString e(d); });
          BitString<sa, P, B> empty; thr([&] { empty.getBatchSize(); }); }
      } break;
    }
    reveals(A, c.a, "left string afterwards"); reveals(Bs, c.b_, "right string afterwards");
  }
};

template <bool B> void go(Case& c, bool strings) {
  auto f = [&](auto run) {
    if (!strings) switch (c.secA * 2 + c.secB) {
      case 0: run.template bitOps<false, false>(); break; case 1: run.template bitOps<false, true>(); break;
      case 2: run.template bitOps<true, false>(); break; case 3: run.template bitOps<true, true>(); break;
    } else switch (c.secA * 4 + c.secB * 2 + c.secC) {
      case 0: run.template strOps<false, false, false>(); break; case 1: run.template strOps<false, false, true>(); break;
      case 2: run.template strOps<false, true, false>(); break; case 3: run.template strOps<false, true, true>(); break;
      case 4: run.template strOps<true, false, false>(); break; case 5: run.template strOps<true, false, true>(); break;
      case 6: run.template strOps<true, true, false>(); break; case 7: run.template strOps<true, true, true>(); break;
    }
  };
  runBoth(c.b, [&] { f(Run<0, B>{c}); }, [&] { f(Run<1, B>{c}); });
}
static std::vector<bool> bitsOf(int v, int n) { std::vector<bool> r; for (int i = 0; i < n; i++) r.push_back((v >> i) & 1); return r; }

static void common(Case& c) {
  c.b = chooseBackend();
  c.secA = choose(2, "left secret"); c.secB = choose(2, "right secret");
  int own = c.b.plain ? 0 : choose(4, "owners");
  c.ownerA = own & 1; c.ownerB = own >> 1; c.target = c.b.plain ? 0 : choose(2, "revealed to");
}
static void finish(Case& c, bool batch, bool strings) {
  c.name = std::string(strings ? snm[c.op] : nm[c.op]) + (batch ? " batch of " + str(c.n) : "") + (c.secA ? " secret" : " public") + (c.secB ? ",secret" : ",public") + " backend " + str((int)c.b.b) + " a=";
  for (auto& x : c.a) c.name += vec(x);
  c.name += " b="; for (auto& x : c.b_) c.name += vec(x);
  c.name += " c=" + vec(c.c);
  note(c.name);
  if (batch) go<true>(c, strings); else go<false>(c, strings);
  if (c.op == (strings ? (int)S_EXTRACT : (int)EXTRACT) && c.secA)
    for (size_t i = 0; i < c.share[0].size(); i++) {
      auto v = c.share[0][i]; if (!c.b.plain) for (size_t j = 0; j < v.size(); j++) v[j] = v[j] ^ c.share[1][i][j];
      check(v == c.a[i], "extracted shares recombine to another value", [&] { return c.name; });
    }
}
static void bits(bool batch) {
  Case c; c.op = choose(BIT_OPS, "operator");
  common(c);
  c.secC = false;
  c.n = batch ? choose(mc::thorough ? 4 : 3, "batch size") : 1;
  c.len = 1;
  c.a = {bitsOf(choose(1 << c.n, "a"), c.n)}; c.b_ = {bitsOf(choose(1 << c.n, "b"), c.n)};
  finish(c, batch, false);
}
static void strings(bool batch) {
  Case c; c.op = choose(S_OPS, "operator");
  common(c);
  c.secC = c.op == S_MUX ? choose(2, "choice secret") : 0;
  c.len = choose(mc::thorough ? 4 : 3, "length");
  c.n = batch ? choose(3, "batch size") : 1;
  if (batch && !mc::thorough) { assume(c.len * c.n <= 2 || c.n == 0); }
  if (c.op == S_MUX) assume(c.len > 0);  // selecting between strings without bits is rejected
  bool two = c.op == S_AND || c.op == S_XOR || c.op == S_MUX;
  for (int i = 0; i < c.len; i++) { c.a.push_back(bitsOf(choose(1 << c.n, "a"), c.n)); c.b_.push_back(two ? bitsOf(choose(1 << c.n, "b"), c.n) : c.a.back()); }
  c.c = bitsOf(c.op == S_MUX ? choose(1 << c.n, "c") : 0, c.n);
  finish(c, batch, true);
}
static std::vector<bool> pattern(int n, uint64_t salt) { std::vector<bool> r; for (int i = 0; i < n; i++) r.push_back(mix(i + 1, salt) & 1); return r; }
static void longBits() {
  static const int N[] = {7, 8, 9, 63, 64, 65, 255, 256, 257, 1025};
  Case c; c.op = choose(BIT_OPS, "operator"); common(c); c.secC = false; c.n = N[choose(10, "batch size")]; c.len = 1;
  c.a = {pattern(c.n, 11)}; c.b_ = {pattern(c.n, 12)};
  finish(c, true, false);
}
static void longStrings(bool batch) {
  static const int L[] = {7, 8, 9, 31, 32, 33, 63, 64, 65, 128, 257};
  Case c; c.op = choose(S_OPS, "operator"); common(c); c.secC = c.op == S_MUX ? choose(2, "choice secret") : 0;
  c.len = L[choose(11, "length")]; c.n = batch ? (c.len < 64 ? 9 : 2) : 1;
  if (c.op == S_RESIZE || c.op == S_SET) assume(c.len <= 9 || (c.len <= 33 && c.ownerA && !batch && c.secA == c.secB));
  for (int i = 0; i < c.len; i++) { c.a.push_back(pattern(c.n, 20 + 2 * i)); c.b_.push_back(pattern(c.n, 21 + 2 * i)); }
  if (c.op != S_AND && c.op != S_XOR && c.op != S_MUX) c.b_ = c.a;
  c.c = c.op == S_MUX ? batch ? pattern(c.n, 3) : bitsOf(choose(2, "c"), 1) : bitsOf(0, c.n);
  finish(c, batch, true);
}
int main(int argc, char** argv) {
  return harnessMain(argc, argv, "C08", {
      {"bit", [] { bits(false); }}, {"bit-batch", [] { bits(true); }}, {"string", [] { strings(false); }}, {"string-batch", [] { strings(true); }},
      {"long bit batches", longBits, 0, -1, false, 0, 3}, {"long strings", [] { longStrings(false); }, 0, -1, false, 0, 3}, {"long string batches", [] { longStrings(true); }, 0, -1, false, 0, 3}});
}
