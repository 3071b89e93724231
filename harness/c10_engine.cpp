// C10: the secret-sharing engine with two to four parties.
#include "fbpcf/engine/ISecretShareEngine.h"
#include "mc/ideal.h"
using namespace mc;
using Engine = fbpcf::engine::ISecretShareEngine;
using Bits = std::vector<bool>;
using Ints = std::vector<uint64_t>;

static std::unique_ptr<Engine> engine(int me, int n, std::shared_ptr<World> w, bool composite) { static std::vector<std::unique_ptr<Factory>> keep; Factory f(w, me); return idealEngine(me, n, f, hashBits(5), composite); }
static Bits input(Engine& e, int me, int owner, const Bits& v, bool batch) {
  if (batch) { Bits junk = v; if (me != owner) junk.flip(); return e.setBatchInput(owner, junk); }
  Bits r; for (bool b : v) r.push_back(e.setInput(owner, me == owner ? std::optional<bool>(b) : (b ? std::optional<bool>() : std::optional<bool>(!b)))); return r;
}
static Ints input(Engine& e, int me, int owner, const Ints& v, bool batch) {
  if (batch) { Ints junk = v; if (me != owner) for (auto& x : junk) x = ~x; return e.setBatchIntegerInput(owner, junk); }
  Ints r; for (auto b : v) r.push_back(e.setIntegerInput(owner, me == owner ? std::optional<uint64_t>(b) : std::nullopt)); return r;
}
template <class T> static void reveal(Engine& e, int me, int n, const std::vector<T>& share, const std::vector<T>& want, const std::string& what) {
  for (int t = 0; t < n; t++) {
    auto got = e.revealToParty(t, share);
    evals(); state(mix(mix(hashStr(what), t), mix(me, hashStr(vec(got)))));
    if (t == me) check(got == want, "revealed value", [&] { return what + " party " + str(me) + ": got " + vec(got) + " expected " + vec(want); });
    else check(got == std::vector<T>(share.size(), T(0)), "a party that is not the receiver gets something from the reveal", [&] { return what + " party " + str(me) + " reveal to " + str(t); });
  }
}

static int chooseN(bool allowFour = true) { return 2 + choose(mc::thorough && allowFour ? 3 : 2, "parties"); }

// ---- inputs and local operations --------------------------------------------------------------------------------
static void local() {
  int n = chooseN(), oa = choose(n, "owner a"), ob = choose(n, "owner b");
  bool ba = choose(2, "batched a"), bb = choose(2, "batched b");
  Bits a{false, false, true, true}, b{false, true, false, true};
  note("n=" + str(n) + " owners " + str(oa) + str(ob) + " batched " + str(ba) + str(bb));
  std::string nm = "n=" + str(n) + " owners " + str(oa) + "," + str(ob) + " batched " + str(ba) + str(bb) + " ";
  auto w = std::make_shared<World>();
  parties(n, [&](int me) {
    auto e = engine(me, n, w, true);
    auto A = input(*e, me, oa, a, ba), B = input(*e, me, ob, b, bb);
    reveal(*e, me, n, A, a, nm + "input a"); reveal(*e, me, n, B, b, nm + "input b");
    Bits x(4), ax(4), nt(4), sn(4), fa(4), want(4), nb(4), andw(4);
    for (int i = 0; i < 4; i++) {
      x[i] = e->computeSymmetricXOR(A[i], B[i]); ax[i] = e->computeAsymmetricXOR(A[i], b[i]); nt[i] = e->computeAsymmetricNOT(A[i]);
      fa[i] = e->computeFreeAND(A[i], b[i]); sn[i] = e->computeSymmetricNOT(b[i]);
      want[i] = a[i] != b[i]; nb[i] = !a[i]; andw[i] = a[i] && b[i];
    }
    reveal(*e, me, n, x, want, nm + "xor"); reveal(*e, me, n, ax, want, nm + "xor with public"); reveal(*e, me, n, nt, nb, nm + "not"); reveal(*e, me, n, fa, andw, nm + "and with public");
    for (int i = 0; i < 4; i++) check(sn[i] == !b[i], "not of a public value", [&] { return nm; });
    reveal(*e, me, n, e->computeBatchSymmetricXOR(A, B), want, nm + "batch xor"); reveal(*e, me, n, e->computeBatchAsymmetricXOR(A, b), want, nm + "batch xor with public");
    reveal(*e, me, n, e->computeBatchAsymmetricNOT(A), nb, nm + "batch not"); reveal(*e, me, n, e->computeBatchFreeAND(A, b), andw, nm + "batch and with public");
    auto inv = b; inv.flip(); check(e->computeBatchSymmetricNOT(b) == inv, "not of a public batch", [&] { return nm; });
    check(e->computeBatchSymmetricXOR({}, {}).empty() && e->computeBatchFreeAND({}, {}).empty() && e->computeBatchAsymmetricXOR({}, {}).empty() && e->computeBatchAsymmetricNOT({}).empty() && e->computeBatchSymmetricNOT({}).empty(), "operation on empty batches");
    // integers
    Ints u{0, 1, ~0ull, 1ull << 63, 0x123456789abcdefull}, v{~0ull, ~0ull, 3, 1ull << 63, 7};
    auto U = input(*e, me, oa, u, ba), V = input(*e, me, ob, v, bb);
    Ints sum(5), neg(5), prod(5), s1(5), s2(5), s3(5), s4(5), pn(5);
    for (int i = 0; i < 5; i++) { sum[i] = u[i] + v[i]; neg[i] = -u[i]; prod[i] = u[i] * v[i]; s1[i] = e->computeSymmetricPlus(U[i], V[i]); s2[i] = e->computeAsymmetricPlus(U[i], v[i]); s3[i] = e->computeSymmetricNeg(U[i]); s4[i] = e->computeFreeMult(U[i], v[i]); }
    reveal(*e, me, n, U, u, nm + "integer input"); reveal(*e, me, n, s1, sum, nm + "plus"); reveal(*e, me, n, s2, sum, nm + "plus public"); reveal(*e, me, n, s3, neg, nm + "neg"); reveal(*e, me, n, s4, prod, nm + "mult public");
    reveal(*e, me, n, e->computeBatchSymmetricPlus(U, V), sum, nm + "batch plus"); reveal(*e, me, n, e->computeBatchAsymmetricPlus(U, v), sum, nm + "batch plus public");
    reveal(*e, me, n, e->computeBatchSymmetricNeg(U), neg, nm + "batch neg"); reveal(*e, me, n, e->computeBatchFreeMult(U, v), prod, nm + "batch mult public");
    check(e->computeBatchSymmetricPlus({}, {}).empty() && e->computeBatchAsymmetricPlus({}, {}).empty() && e->computeBatchSymmetricNeg({}).empty() && e->computeBatchFreeMult({}, {}).empty(), "operation on empty batches");
    // mismatched sizes
    auto thr = [&](const char* what, auto f) { bool t = false; try { f(); } catch (const std::exception&) { t = true; } evals(); check(t, std::string("operands of different sizes accepted: ") + what); };
    Bits sh(3); Ints si(3);
    thr("xor", [&] { e->computeBatchSymmetricXOR(A, sh); }); thr("xor public", [&] { e->computeBatchAsymmetricXOR(A, sh); }); thr("free and", [&] { e->computeBatchFreeAND(A, sh); });
    thr("plus", [&] { e->computeBatchSymmetricPlus(U, si); }); thr("plus public", [&] { e->computeBatchAsymmetricPlus(U, si); }); thr("free mult", [&] { e->computeBatchFreeMult(U, si); });
    thr("batch and", [&] { e->scheduleBatchAND(A, sh); }); thr("batch mult", [&] { e->scheduleBatchMult(U, si); }); thr("composite", [&] { e->scheduleBatchCompositeAND(A, {B, sh}); });
    thr("immediate and", [&] { e->computeBatchANDImmediately(A, sh); }); thr("immediate mult", [&] { e->computeBatchMultImmediately(U, si); });
    if (me == oa) { thr("missing input", [&] { e->setInput(oa, std::nullopt); }); thr("missing integer input", [&] { e->setIntegerInput(oa, std::nullopt); }); }
  });
  check(w->drained(), "bytes left unread between the parties", [&] { return nm; });
}

// ---- scheduled operations ----------------------------------------------------------------------------------------
struct Op { int kind, n, m; };  // 0 and, 1 batch and (n), 2 composite (m), 3 batch composite (n x m), 4 mult, 5 batch mult (n), 6 immediate and (n), 7 immediate mult (n)
static const std::vector<Op> OPS{{0, 1, 1}, {1, 0, 1}, {1, 1, 1}, {1, 3, 1}, {2, 1, 1}, {2, 1, 2}, {2, 1, 3}, {3, 1, 1}, {3, 2, 2}, {3, 2, 1}, {3, 0, 2}, {4, 1, 1}, {5, 0, 1}, {5, 2, 1}, {6, 2, 1}, {6, 0, 1}, {7, 2, 1}, {3, 3, 3}, {1, 9, 1}, {2, 1, 9}};
static const char* kinds[] = {"and", "batch-and", "composite", "batch-composite", "mult", "batch-mult", "and-now", "mult-now"};

static void scheduled(int maxOps, int nops) {
  int n = chooseN();
  bool composite = choose(2, "composite tuples");
  int oa = choose(n, "owner a"), ob = choose(n, "owner b");
  int cnt = choose(maxOps + 1, "operations");
  std::vector<int> seq; std::vector<bool> execAfter;
  for (int i = 0; i < cnt; i++) { seq.push_back(choose(nops, "operation")); execAfter.push_back(i + 1 < cnt ? choose(2, "execute") : 1); }
  bool x = choose(2, "x"), y = choose(2, "y");
  std::string nm = "n=" + str(n) + (composite ? " composite" : " legacy") + " owners " + str(oa) + str(ob) + " xy=" + str(x) + str(y) + ":";
  for (int i = 0; i < cnt; i++) nm += std::string(" ") + kinds[OPS[seq[i]].kind] + "(" + str(OPS[seq[i]].n) + "," + str(OPS[seq[i]].m) + ")" + (execAfter[i] ? " run" : "");
  note(nm);
  auto w = std::make_shared<World>();
  uint64_t rounds[4] = {0};
  parties(n, [&](int me) {
    auto e = engine(me, n, w, composite);
    struct Pending { int op; uint32_t idx; Bits l; std::vector<Bits> r; Ints li, ri; };
    std::vector<Pending> pend;
    auto flush = [&] {
      e->executeScheduledOperations();
      for (auto& p : pend) {
        auto& o = OPS[p.op];
        Bits want; Ints iw;
        switch (o.kind) {
          case 0: reveal(*e, me, n, Bits{e->getANDExecutionResult(p.idx)}, Bits{p.l[0] && p.r[0][0]}, nm + " and"); break;
          case 1: for (int i = 0; i < o.n; i++) want.push_back(p.l[i] && p.r[0][i]); reveal(*e, me, n, e->getBatchANDExecutionResult(p.idx), want, nm + " batch and"); break;
          case 2: for (int j = 0; j < o.m; j++) want.push_back(p.l[0] && p.r[j][0]); reveal(*e, me, n, e->getCompositeANDExecutionResult(p.idx), want, nm + " composite and"); break;
          case 3: {
            auto& r = e->getBatchCompositeANDExecutionResult(p.idx);
            check(r.size() == (size_t)o.m, "number of results of a batched one-to-many AND", [&] { return nm; });
            for (int j = 0; j < o.m && j < (int)r.size(); j++) { want.clear(); for (int i = 0; i < o.n; i++) want.push_back(p.l[i] && p.r[j][i]); reveal(*e, me, n, r[j], want, nm + " batch composite"); }
          } break;
          case 4: reveal(*e, me, n, Ints{e->getMultExecutionResult(p.idx)}, Ints{p.li[0] * p.ri[0]}, nm + " mult"); break;
          case 5: for (int i = 0; i < o.n; i++) iw.push_back(p.li[i] * p.ri[i]); reveal(*e, me, n, e->getBatchMultExecutionResult(p.idx), iw, nm + " batch mult"); break;
        }
      }
      pend.clear();
    };
    for (int i = 0; i < cnt; i++) {
      auto& o = OPS[seq[i]];
      Pending p; p.op = seq[i];
      int N = std::max(o.n, 1);
      Bits L; Ints LI, RI; std::vector<Bits> R;
      if (o.kind < 4 || o.kind == 6) {
        for (int k = 0; k < N; k++) p.l.push_back((k & 1) ^ x);
        L = input(*e, me, oa, p.l, true);
        for (int j = 0; j < o.m; j++) { Bits r; for (int k = 0; k < N; k++) r.push_back(((k >> 1) & 1) ^ y ^ (j & 1)); p.r.push_back(r); R.push_back(input(*e, me, ob, r, true)); }
        if (o.n == 0) { L.clear(); p.l.clear(); for (auto& r : R) r.clear(); for (auto& r : p.r) r.clear(); }
      } else {
        for (int k = 0; k < N; k++) { p.li.push_back(x ? ~0ull - k : (3ull << 62) + k); p.ri.push_back(y ? (1ull << 63) + k : 0x123456789ull * (k + 1)); }
        LI = input(*e, me, oa, p.li, true); RI = input(*e, me, ob, p.ri, true);
        if (o.n == 0) { LI.clear(); RI.clear(); p.li.clear(); p.ri.clear(); }
      }
      switch (o.kind) {
        case 0: p.idx = e->scheduleAND(L[0], R[0][0]); break;
        case 1: p.idx = e->scheduleBatchAND(L, R[0]); break;
        case 2: { Bits r; for (auto& x : R) r.push_back(x[0]); p.idx = e->scheduleCompositeAND(L[0], r); } break;
        case 3: p.idx = e->scheduleBatchCompositeAND(L, R); break;
        case 4: p.idx = e->scheduleMult(LI[0], RI[0]); break;
        case 5: p.idx = e->scheduleBatchMult(LI, RI); break;
        case 6: { Bits want; for (size_t k = 0; k < L.size(); k++) want.push_back(p.l[k] && p.r[0][k]); reveal(*e, me, n, e->computeBatchANDImmediately(L, R[0]), want, nm + " immediate and"); } break;
        case 7: { Ints want; for (size_t k = 0; k < LI.size(); k++) want.push_back(p.li[k] * p.ri[k]); reveal(*e, me, n, e->computeBatchMultImmediately(LI, RI), want, nm + " immediate mult"); } break;
      }
      if (o.kind < 6) pend.push_back(p);
      if (execAfter[i]) flush();
    }
    auto t = e->getTrafficStatistics();
    rounds[me] = t.first - t.second;
  });
  check(w->drained(), "bytes left unread between the parties", [&] { return nm; });
  uint64_t s = 0; for (int i = 0; i < n; i++) s += rounds[i];
  check(s == 0, "bytes sent and received do not balance over the parties", [&] { return nm; });
}
// ---- long batches: every operation around the sizes at which a count may stop fitting ------------------------------
static void wide() {
  static const size_t S[] = {63, 64, 65, 127, 128, 129, 255, 256, 257, 65537, 65535};
  bool composite = choose(2, "composite tuples"); int n = 2 + choose(2, "parties"), op = choose(10, "operation"); size_t sz = S[choose(mc::thorough ? 11 : 10, "size")];
  if (op >= 7) assume(sz <= 257);
  std::string nm = "n=" + str(n) + (composite ? " composite" : " legacy") + " wide operation " + str(op) + " of " + str(sz);
  note(nm);
  auto w = std::make_shared<World>();
  parties(n, [&](int me) {
    auto e = engine(me, n, w, composite);
    Bits a(sz), b(sz), c(sz), z(sz); Ints u(sz), v(sz), p(sz);
    for (size_t i = 0; i < sz; i++) { auto h = mix(i, sz); a[i] = h & 1; b[i] = h >> 1 & 1; c[i] = a[i] && b[i]; u[i] = h * 0x9e3779b97f4a7c15ull; v[i] = mix(h, 3); p[i] = u[i] * v[i]; }
    auto same = [&](auto share, const auto& want) {
      auto got = e->revealToParty(n - 1, share); evals(); state(mix(hashStr(nm), mix(me, got.size())));
      if (me == n - 1) check(got == want, "revealed value of a long batch", [&] { size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) i++; return nm + ": " + str(got.size()) + " values, first difference at " + str(i); });
    };
    if (op == 0) { auto A = input(*e, me, 0, a, true), B = input(*e, me, 1, b, true); for (size_t i = 0; i < sz; i++) z[i] = a[i] != b[i]; same(A, a); same(e->computeBatchSymmetricXOR(A, B), z); same(e->computeBatchAsymmetricXOR(A, b), z); same(e->computeBatchFreeAND(A, b), c); z = a; z.flip(); same(e->computeBatchAsymmetricNOT(A), z); return; }
    if (op == 1) { auto U = input(*e, me, 0, u, true), V = input(*e, me, 1, v, true); Ints q(sz); for (size_t i = 0; i < sz; i++) q[i] = u[i] + v[i]; same(U, u); same(e->computeBatchSymmetricPlus(U, V), q); same(e->computeBatchAsymmetricPlus(U, v), q); same(e->computeBatchFreeMult(U, v), p); for (size_t i = 0; i < sz; i++) q[i] = -u[i]; same(e->computeBatchSymmetricNeg(U), q); return; }
    if (op == 2 || op == 3) { auto U = input(*e, me, 0, u, true), V = input(*e, me, 1, v, true); if (op == 2) { auto i = e->scheduleBatchMult(U, V); e->executeScheduledOperations(); same(e->getBatchMultExecutionResult(i), p); } else same(e->computeBatchMultImmediately(U, V), p); return; }
    auto A = input(*e, me, 0, a, true), B = input(*e, me, 1, b, true);
    if (op == 4) { auto i = e->scheduleBatchAND(A, B); e->executeScheduledOperations(); same(e->getBatchANDExecutionResult(i), c); }
    if (op == 5) same(e->computeBatchANDImmediately(A, B), c);
    if (op == 6) { auto i = e->scheduleBatchCompositeAND(A, {B, A}); e->executeScheduledOperations(); auto r = e->getBatchCompositeANDExecutionResult(i); same(r.at(0), c); same(r.at(1), a); }
    if (op == 7) { auto i = e->scheduleCompositeAND(A[1], B); e->executeScheduledOperations(); for (size_t k = 0; k < sz; k++) z[k] = a[1] && b[k]; same(e->getCompositeANDExecutionResult(i), z); }
    if (op == 8) { std::vector<uint32_t> id; for (size_t k = 0; k < sz; k++) id.push_back(e->scheduleAND(A[k], B[k])); e->executeScheduledOperations(); Bits r; for (auto i : id) r.push_back(e->getANDExecutionResult(i)); same(r, c); }
    if (op == 9) { std::vector<std::pair<uint32_t, uint32_t>> id; std::vector<size_t> len; for (size_t k = 0; k < sz; k++) id.push_back({e->scheduleBatchAND({A[k], B[k]}, {B[k], A[k]}), e->scheduleCompositeAND(A[k], {B[k]})}); e->executeScheduledOperations();
      Bits r0, r1, r2; for (auto& i : id) { auto& t = e->getBatchANDExecutionResult(i.first); r0.push_back(t.at(0)); r1.push_back(t.at(1)); r2.push_back(e->getCompositeANDExecutionResult(i.second).at(0)); } same(r0, c); same(r1, c); same(r2, c); }
  });
  check(w->drained(), "bytes left unread between the parties", [&] { return nm; });
}
// ---- every set of kinds waiting for one execution, each kind once or twice -------------------------------------------
static void together() {
  int n = 2 + choose(2, "parties"); bool composite = choose(2, "composite tuples"); int set = 1 + choose(63, "kinds"), times = 1 + choose(2, "times"), order = choose(2, "order"), rounds = 1 + choose(2, "executions");
  std::string nm = "n=" + str(n) + (composite ? " composite" : " legacy") + " kinds " + str(set) + " x" + str(times) + " order " + str(order) + " executions " + str(rounds);
  note(nm);
  auto w = std::make_shared<World>();
  parties(n, [&](int me) {
    auto e = engine(me, n, w, composite);
    for (int rd = 0; rd < rounds; rd++) {
      struct P { int kind; uint32_t idx; Bits a; std::vector<Bits> b; Ints u, v; }; std::vector<P> ps;
      for (int t = 0; t < times; t++) for (int kk = 0; kk < 6; kk++) {
        int k = order ? 5 - kk : kk; if (!(set >> k & 1)) continue;
        P p; p.kind = k; size_t sz = k == 1 || k == 3 || k == 5 ? 2 + t : 1; int m = k == 2 || k == 3 ? 2 + (t ^ rd) : 1; auto h = mix(mix(k, t), rd + 7);
        for (size_t i = 0; i < sz; i++) { p.a.push_back(mix(h, i) & 1); p.u.push_back(mix(h, i + 50)); p.v.push_back(mix(h, i + 90)); }
        for (int j = 0; j < m; j++) { Bits b; for (size_t i = 0; i < sz; i++) b.push_back(mix(h, 200 + 10 * j + i) & 1); p.b.push_back(b); }
        if (k < 4) {
          auto A = input(*e, me, 0, p.a, true); std::vector<Bits> B; for (auto& b : p.b) B.push_back(input(*e, me, n - 1, b, true));
          if (k == 0) p.idx = e->scheduleAND(A[0], B[0][0]); if (k == 1) p.idx = e->scheduleBatchAND(A, B[0]); if (k == 3) p.idx = e->scheduleBatchCompositeAND(A, B);
          if (k == 2) { Bits r; for (auto& b : B) r.push_back(b[0]); p.idx = e->scheduleCompositeAND(A[0], r); }
        } else { auto U = input(*e, me, 0, p.u, true), V = input(*e, me, n - 1, p.v, true); p.idx = k == 4 ? e->scheduleMult(U[0], V[0]) : e->scheduleBatchMult(U, V); }
        ps.push_back(p);
      }
      e->executeScheduledOperations();
      for (auto& p : ps) {
        auto land = [&](const Bits& b) { Bits r; for (size_t i = 0; i < b.size(); i++) r.push_back(p.a[i] && b[i]); return r; };
        std::string wh = nm + " " + kinds[p.kind] + " " + str(p.idx); Ints pr; for (size_t i = 0; i < p.u.size(); i++) pr.push_back(p.u[i] * p.v[i]);
        if (p.kind == 0) reveal(*e, me, n, Bits{e->getANDExecutionResult(p.idx)}, land(p.b[0]), wh);
        if (p.kind == 1) reveal(*e, me, n, e->getBatchANDExecutionResult(p.idx), land(p.b[0]), wh);
        if (p.kind == 2) { Bits r; for (auto& b : p.b) r.push_back(p.a[0] && b[0]); reveal(*e, me, n, e->getCompositeANDExecutionResult(p.idx), r, wh); }
        if (p.kind == 3) { auto r = e->getBatchCompositeANDExecutionResult(p.idx); check(r.size() == p.b.size(), "number of results of a batched one-to-many AND", [&] { return wh; }); for (size_t j = 0; j < r.size() && j < p.b.size(); j++) reveal(*e, me, n, r[j], land(p.b[j]), wh); }
        if (p.kind == 4) reveal(*e, me, n, Ints{e->getMultExecutionResult(p.idx)}, pr, wh);
        if (p.kind == 5) reveal(*e, me, n, e->getBatchMultExecutionResult(p.idx), pr, wh);
      }
    }
  });
  check(w->drained(), "bytes left unread between the parties", [&] { return nm; });
}
int main(int argc, char** argv) {
  return harnessMain(argc, argv, "C10", {
      {"local", [] { local(); }},
      {"scheduled-1", [] { scheduled(1, OPS.size()); }},
      {"scheduled-2", [] { scheduled(2, OPS.size()); }},
      {"scheduled-3", [] { scheduled(3, 10); }, 0, -1, true},
      {"long batches", wide, 0, 0, false, 0, 4},
      {"kinds together", together, 0, 0, false, 0, 4},
  });
}
