// C11: what a party receives does not depend on what it may not learn. Every tape of the (small) protocols is run, and the
// distributions of what each coalition knows are compared between all secrets with the same inputs and outputs of the coalition.
#include <malloc.h>
#include "mc/backend.h"
#include "mc/tape.h"
#include "fbpcf/engine/communication/SecretShareEngineCommunicationAgent.h"
using namespace mc;
namespace en = fbpcf::engine;
using Bits = std::vector<bool>;
static const uint64_t TOPBIT = 1ull << 63;

static std::unique_ptr<IArithmeticScheduler> scheduler(Job& j, int me, int n, Backend b, Factory& f, IntCoset c = {}, bool composite = true) {
  auto agent = std::make_unique<en::communication::SecretShareEngineCommunicationAgent>(me, en::communication::getAgentMap(n, me, f));
  auto e = std::make_unique<en::SecretShareEngine>(std::make_unique<SeenTuples>(&j, me, n, composite), std::make_unique<SeenIntTuples>(&j, me, n, c.bits), std::move(agent), std::make_unique<TapePrgFactory>(&j, me, c), me, n);
  using namespace fbpcf::scheduler;
  if (b == EAGER) return std::make_unique<EagerScheduler>(std::move(e), makeKeeper(ARENA_CHECKED));
  std::shared_ptr<IWireKeeper> w = makeKeeper(ARENA_CHECKED);
  return std::make_unique<LazyScheduler>(std::move(e), w, std::make_unique<GateKeeper>(w));
}
// ---- programs over bits ------------------------------------------------------------------------------------------
enum Kind { AND, XOR, NOT, ANDPUB, COMP, COPY };
struct Op { int kind, i, j, k; };
struct Prog { int n; Backend b; bool batch; int width; std::vector<int> owner; std::vector<Op> ops; std::vector<std::pair<int, int>> open; bool composite = true, few = false; };  // few: only the first position is secret; owner -1: shared; open: (wire, party)
static std::string show(const Prog& p) {
  static const char* nm[] = {"and", "xor", "not", "and-public", "one-to-many and", "read"};
  std::string s = str(p.n) + " parties " + (p.b == LAZY ? "lazy" : "eager") + (p.batch ? " batches of " + str(p.width) : "") + (p.composite ? "" : " single tuples") + " owners " + vec(p.owner);
  for (auto& o : p.ops) s += std::string("; ") + nm[o.kind] + " " + str(o.i) + "," + str(o.j) + "," + str(o.k);
  for (auto& o : p.open) s += "; open " + str(o.first) + " to " + str(o.second);
  return s;
}
// values of all wires for the inputs packed in s
static uint64_t inputs(const Prog& p, uint64_t s) { return p.few ? (s & 1) | 2 | (s & 2) << 1 : s; }
static std::vector<uint64_t> values(const Prog& p, uint64_t s) {
  uint64_t m = (1ull << p.width) - 1; std::vector<uint64_t> v;
  for (size_t i = 0; i < p.owner.size(); i++) v.push_back(s >> (i * p.width) & m);
  for (auto& o : p.ops) {
    uint64_t a = v[o.i], b = v[o.j];
    if (o.kind == AND) v.push_back(a & b); else if (o.kind == XOR) v.push_back(a ^ b); else if (o.kind == NOT) v.push_back(~a & m);
    else if (o.kind == ANDPUB) v.push_back(a & 1 * m & 0x5555 | (a & 0xaaaa & 0)); else if (o.kind == COMP) { v.push_back(a & b); v.push_back(a & v[o.k]); } else v.push_back(a);
  }
  return v;
}
static void play(const Prog& p, Job& j, int me, uint64_t s) {
  Factory f(j.world, me);
  auto sc = scheduler(j, me, p.n, p.b, f, {}, p.composite);
  std::vector<BW> w;
  auto bitsOf = [&](uint64_t x) { Bits b; for (int i = 0; i < p.width; i++) b.push_back(x >> i & 1); return b; };
  for (size_t i = 0; i < p.owner.size(); i++) {
    uint64_t x = s >> (i * p.width) & ((1ull << p.width) - 1);
    if (p.owner[i] >= 0) { auto b = bitsOf(p.owner[i] == me ? x : 0); w.push_back(p.batch ? sc->privateBooleanInputBatch(b, p.owner[i]) : sc->privateBooleanInput(b[0], p.owner[i])); continue; }
    uint64_t mine = 0, rest = x;
    for (int q = 1; q < p.n; q++) { uint64_t m = 0; for (int k = 0; k < p.width; k++) m |= (uint64_t)j.bit(500 + i, q, k) << k; rest ^= m; if (q == me) mine = m; }
    if (me == 0) mine = rest;
    j.see(me, mine); auto b = bitsOf(mine);
    w.push_back(p.batch ? sc->recoverBooleanWireBatch(b) : sc->recoverBooleanWire(b[0]));
  }
  for (auto& o : p.ops) {
    if (o.kind == AND) w.push_back(p.batch ? sc->privateAndPrivateBatch(w[o.i], w[o.j]) : sc->privateAndPrivate(w[o.i], w[o.j]));
    else if (o.kind == XOR) w.push_back(p.batch ? sc->privateXorPrivateBatch(w[o.i], w[o.j]) : sc->privateXorPrivate(w[o.i], w[o.j]));
    else if (o.kind == NOT) w.push_back(p.batch ? sc->notPrivateBatch(w[o.i]) : sc->notPrivate(w[o.i]));
    else if (o.kind == ANDPUB) { Bits b; for (int i = 0; i < p.width; i++) b.push_back(i % 2 == 0); w.push_back(p.batch ? sc->privateAndPublicBatch(w[o.i], sc->publicBooleanInputBatch(b)) : sc->privateAndPublic(w[o.i], sc->publicBooleanInput(b[0]))); }
    else if (o.kind == COMP) { auto r = p.batch ? sc->privateAndPrivateCompositeBatch(w[o.i], {w[o.j], w[o.k]}) : sc->privateAndPrivateComposite(w[o.i], {w[o.j], w[o.k]}); w.push_back(r[0]); w.push_back(r[1]); }
    else { if (p.batch) { auto v = sc->extractBooleanSecretShareBatch(w[o.i]); for (bool x : v) j.see(me, x); } else j.see(me, sc->extractBooleanSecretShare(w[o.i])); w.push_back(w[o.i]); }  // a share that is looked at
  }
  auto m = values(p, s);
  std::vector<BW> out;
  for (auto& o : p.open) out.push_back(p.batch ? sc->openBooleanValueToPartyBatch(w[o.first], o.second) : sc->openBooleanValueToParty(w[o.first], o.second));
  for (size_t i = 0; i < p.open.size(); i++) {
    uint64_t got = 0; if (p.batch) { auto v = sc->getBooleanValueBatch(out[i]); for (size_t k = 0; k < v.size(); k++) got |= (uint64_t)v[k] << k; } else got = sc->getBooleanValue(out[i]);
    if (p.open[i].second == me) check(got == m[p.open[i].first], "harness: revealed value", [&] { return show(p) + " secret " + str(s) + ": " + str(got) + " instead of " + str(m[p.open[i].first]); });
    j.see(me, got);
  }
}
static void judge(const Prog& p, int maxBits) {
  auto known = [&](uint64_t s, const std::vector<int>& who) {
    uint64_t h = 1; auto in = [&](int q) { return std::find(who.begin(), who.end(), q) != who.end(); }; auto v = values(p, s);
    for (size_t i = 0; i < p.owner.size(); i++) if (in(p.owner[i])) h = mix(h, v[i] + 1);
    for (auto& o : p.open) if (in(o.second)) h = mix(h, v[o.first] + 1);
    return h;
  };
  compare({show(p), p.n, p.few ? 4 : 1ull << (p.owner.size() * p.width), 1ull << maxBits, [&](Job& j, int me, uint64_t s) { play(p, j, me, inputs(p, s)); }, [&](uint64_t s, const std::vector<int>& who) { return known(inputs(p, s), who); }});
}
static Op pick(int wires, bool& nonfree, int composites) {
  Op o{choose(composites ? 6 : 4, "gate"), 0, 0, 0};
  if (o.kind == 4 && !composites) o.kind = COPY;
  o.i = choose(wires, "operand");
  if (o.kind == AND) { o.j = choose(wires, "operand"); assume(o.j >= o.i); nonfree = true; }
  else if (o.kind == XOR) { o.j = choose(wires, "operand"); assume(o.j > o.i); }
  else if (o.kind == COMP) { o.j = choose(wires, "operand"); o.k = choose(wires, "operand"); nonfree = true; }
  return o;
}
static void opens(Prog& p, int last) {
  int how = choose(p.n + (mc::thorough ? 2 : 1), "opened to");
  if (how < p.n) p.open = {{last, how}};
  else if (how == p.n + 1) for (int q = 0; q < p.n; q++) p.open.push_back({last, q});
  else for (int q = 0; q < p.n; q++) p.open.push_back({last - q % 2, q});  // two wires, to different parties
}
static int wiresOf(const Prog& p) { int w = p.owner.size(); for (auto& o : p.ops) w += o.kind == COMP ? 2 : 1; return w; }
static void programs() {
  Prog p{2, choose(2, "backend") ? EAGER : LAZY, false, 1, {}, {}, {}};
  int in = choose(mc::thorough ? 3 : 2, "inputs"); p.owner = in == 0 ? std::vector<int>{0, 1} : in == 1 ? std::vector<int>{0, -1} : std::vector<int>{1, -1};
  int depth = 1 + choose(2, "gates"); bool nf = false;
  for (int d = 0; d < depth; d++) {
    Op o = pick(wiresOf(p), nf, d == depth - 1 && !(nf && !mc::thorough));
    if (d && !mc::thorough) { int last = wiresOf(p) - 1; assume(o.i == last || o.j == last || (o.kind == AND && o.i == 0 && o.j == 1)); }
    p.ops.push_back(o);
  }
  if (depth == 2) assume(nf);
  opens(p, wiresOf(p) - 1);
  judge(p, 15);
}
static void batches() {
  Prog p{2, choose(2, "backend") ? EAGER : LAZY, true, 2, {0, 1}, {}, {}};
  if (mc::thorough && choose(2, "inputs")) p.owner = {1, -1};
  Op o{choose(2, "gate") ? COMP : AND, choose(2, "operand"), 1, 0}; if (!mc::thorough) assume(o.i == 0);
  p.composite = o.kind == AND || choose(2, "one-to-many tuples") == 0;
  if (o.kind == COMP) { if (!mc::thorough) p.width = 1; o.j = choose(2, "operand"); o.k = 1 - o.j; if (p.width == 2) p.composite = true; }
  p.ops = {o}; opens(p, wiresOf(p) - 1);
  p.few = !mc::thorough && p.width == 2;
  judge(p, 20);
}
static void three() {
  Prog p{3, choose(2, "backend") ? EAGER : LAZY, false, 1, {}, {}, {}};
  int in = choose(mc::thorough ? 3 : 2, "inputs"); p.owner = in == 0 ? std::vector<int>{0, 1} : in == 1 ? std::vector<int>{2, -1} : std::vector<int>{1, 2};
  bool nf = false; p.composite = false;
  int free = choose(2, "free gate first");
  if (free) p.ops.push_back({mc::thorough && choose(2, "gate") ? NOT : XOR, 0, 1, 0});
  Op o{AND, choose(wiresOf(p), "operand"), choose(wiresOf(p), "operand"), 0}; assume(o.i <= o.j); (void)nf;
  if (!mc::thorough) assume(o.j == wiresOf(p) - 1);
  p.ops.push_back(o); opens(p, wiresOf(p) - 1);
  if (!mc::thorough) assume(p.open.size() > 1 || p.open[0].second == 1);
  judge(p, 16);
}
// ---- the masks of whole rounds ---------------------------------------------------------------------------------------
// What a party sends in a round is an affine function of its shares and of its tuples' masks. No combination of what is sent may
// be free of masks and still tell a share: every change a share makes to the messages is one that some masks make as well.
struct Gate { int kind, n, m; };  // and, batch and (n), one-to-many and (m), batched one-to-many and (n x m), mult, batch mult (n), immediate and (n), immediate mult (n)
static const std::vector<Gate> GATES{{0, 1, 1}, {1, 2, 1}, {2, 1, 2}, {3, 2, 2}, {4, 1, 1}, {5, 2, 1}, {6, 2, 1}, {7, 2, 1}, {3, 1, 1}, {2, 1, 1}, {2, 1, 3}, {3, 1, 3}};
static void roundMasks(int most, int gates, int later, int parts) {
  int n = 2 + choose(parts, "parties"), p = choose(n, "sender"); bool composite = choose(2, "one-to-many tuples"); std::vector<std::vector<Gate>> rounds(2); std::string nm = str(n) + " parties, sent by " + str(p) + (composite ? "" : ", single tuples");
  int k = 1 + choose(most, "gates"); for (int i = 0; i < k; i++) rounds[0].push_back(GATES[choose(gates, "gate")]);
  k = choose(later + 1, "gates of the second round"); for (int i = 0; i < k; i++) rounds[1].push_back(GATES[choose(gates, "gate")]);
  for (auto& r : rounds) { nm += "; round"; for (auto& g : r) nm += " " + str(g.kind) + ":" + str(g.n) + "x" + str(g.m); }
  note(nm);
  int q = (p + 1) % n;
  using Where = std::tuple<uint64_t, uint64_t, uint64_t, uint64_t>;
  std::set<Where> masks; uint64_t shares = 0; std::vector<std::vector<unsigned char>> seen;
  // one run: the mask `flip` or the share number `input` (or none) of the sender is changed
  auto play = [&](int me, std::shared_ptr<World> w, const Where* flip, int64_t input) {
    Factory f(w, me); uint64_t at = 0, salt = 5;
    auto e = idealEngine(me, n, f, [&, me, flip](uint64_t kind, uint64_t idx, uint64_t part) -> uint64_t {
      uint64_t h = mix(mix(kind * 1000003 + 7, idx), part);
      if ((kind == 1 ? part : part % 16) != (uint64_t)p || kind == 0) return h;
      bool number = kind >= 2 && kind <= 4; std::vector<uint64_t> bits = number ? std::vector<uint64_t>{TOPBIT} : kind == 1 ? std::vector<uint64_t>{1, 2} : std::vector<uint64_t>{1};
      for (auto b : bits) { if (me == p && !flip) masks.insert({kind, idx, part, b}); if (flip && *flip == Where{kind, idx, part, b}) h ^= b; }
      return h;
    }, composite);
    auto bit = [&] { bool r = mix(salt, at) & 1; if (me == p && (int64_t)at == input) r = !r; at++; return r; };
    auto bitv = [&](int k) { Bits r; for (int i = 0; i < k; i++) r.push_back(bit()); return r; };
    auto num = [&] { uint64_t r = mix(salt, at); if (me == p && (int64_t)at == input) r ^= TOPBIT; at++; return r; };
    auto nums = [&](int k) { std::vector<uint64_t> r; for (int i = 0; i < k; i++) r.push_back(num()); return r; };
    for (auto& round : rounds) {
      for (auto& g : round) switch (g.kind) {
        case 0: { bool a = bit(), b = bit(); e->scheduleAND(a, b); break; }
        case 1: { auto a = bitv(g.n), b = bitv(g.n); e->scheduleBatchAND(a, b); break; }
        case 2: { bool a = bit(); e->scheduleCompositeAND(a, bitv(g.m)); break; }
        case 3: { auto a = bitv(g.n); std::vector<Bits> b; for (int i = 0; i < g.m; i++) b.push_back(bitv(g.n)); e->scheduleBatchCompositeAND(a, b); break; }
        case 4: { auto a = num(), b = num(); e->scheduleMult(a, b); break; }
        case 5: { auto a = nums(g.n), b = nums(g.n); e->scheduleBatchMult(a, b); break; }
        case 6: { auto a = bitv(g.n), b = bitv(g.n); e->computeBatchANDImmediately(a, b); break; }
        default: { auto a = nums(g.n), b = nums(g.n); e->computeBatchMultImmediately(a, b); }
      }
      if (!round.empty()) e->executeScheduledOperations();
    }
    shares = at;
  };
  auto runs = [&](const std::vector<std::pair<const Where*, int64_t>>& what) {
    std::vector<std::shared_ptr<World>> w; for (size_t i = 0; i < what.size(); i++) { w.push_back(std::make_shared<World>()); w[i]->log = true; }
    std::map<int, int> fiber; std::vector<uint64_t> drawn(n, 0);  // keys are the same in every run
    randHook = [&](unsigned char* b, int k) { auto f = fiber.find(self()); int me = f == fiber.end() ? 0 : f->second; uint64_t c = drawn[me]++; for (int i = 0; i < k; i++) b[i] = (unsigned char)(mix(mix(me + 1, c + 1), i / 8 + 3) >> 8 * (i % 8)); };
    parties(n, [&](int me) { fiber[self()] = me; for (size_t i = 0; i < what.size(); i++) { drawn[me] = 0; play(me, w[i], what[i].first, what[i].second); } });
    randHook = nullptr;
    std::vector<std::vector<unsigned char>> r; for (auto& x : w) r.push_back(x->view(q)); return r;
  };
  auto base = runs({{nullptr, -1}})[0]; if (failed()) return;
  std::vector<std::pair<const Where*, int64_t>> all; for (auto& m : masks) all.push_back({&m, -1}); size_t nm0 = all.size();
  for (uint64_t i = 0; i < shares; i++) all.push_back({nullptr, (int64_t)i});
  auto got = runs(all); if (failed()) return;
  std::map<size_t, std::vector<unsigned char>> basis;  // by lowest bit
  auto lowest = [](const std::vector<unsigned char>& v) { for (size_t i = 0; i < v.size() * 8; i++) if (v[i / 8] >> i % 8 & 1) return i; return ~(size_t)0; };
  auto reduce = [&](std::vector<unsigned char> v) { for (;;) { auto b = basis.find(lowest(v)); if (b == basis.end()) return v; for (size_t i = 0; i < v.size(); i++) v[i] ^= b->second[i]; } };
  size_t told = 0;
  for (size_t i = 0; i < all.size(); i++) {
    if (got[i].size() != base.size()) { fail("what is sent changes its length with a share or a mask", nm); return; }
    auto v = got[i]; for (size_t k = 0; k < v.size(); k++) v[k] ^= base[k];
    v = reduce(v); auto l = lowest(v);
    if (i < nm0) { if (l != ~(size_t)0) basis[l] = v; } else if (l != ~(size_t)0) told++;
  }
  evals(); state(mix(hashStr(nm), mix(told, basis.size()))); step(all.size());
  check(!told, "messages of a round tell a share: its masks are used more than once", [&] { return nm + ": " + str(told) + " of " + str(shares) + " shares, " + str(nm0) + " masks"; });
}
int main(int argc, char** argv) {
  mallopt(M_TRIM_THRESHOLD, 1 << 30); mallopt(M_MMAP_THRESHOLD, 1 << 30); mallopt(M_TOP_PAD, 64 << 20);
  return harnessMain(argc, argv, "C11", {
    {"programs over bits", programs, 0, -1, false, 0, 6},
    {"batches", batches, 0, -1, false, 0, 5},
    {"masks of a round", [] { mc::thorough ? roundMasks(3, 12, 2, 2) : roundMasks(2, 12, 1, 2); }, 0, -1, false, 0, 4},
    {"masks of a long round", [] { mc::thorough ? roundMasks(4, 8, 0, 1) : roundMasks(3, 12, 0, 2); }, 0, -1, false, 0, 4},
    {"three parties", three, 0, -1, false, 0, 5},
  });
}
