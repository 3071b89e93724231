// Programs of gates as data: generated by choices, executed by every party against a scheduler, compared with a
// reference evaluation.
#pragma once
#include "mc/backend.h"

namespace mc {
enum Kind { IN_PRIV, IN_PUB, RECOVER, AND, XOR, NOT, COMP_AND, BATCH, UNBATCH, EXTRACT, OPEN, OPEN_READ, READ_PUB, DROP, DUPDROP, PLUS, MULT, NEG };
struct Op { Kind k; std::vector<int> a; int p = 0; std::vector<uint32_t> sizes; };
struct V {
  bool ar = false, batch = false, priv = true;
  int opened = -1;  // >= 0: meaningful at that party only
  std::vector<uint64_t> v;
  bool dead = false;
};
struct Program { std::vector<Op> ops; std::vector<std::vector<int>> outs; std::vector<V> env; int n = 2; };

// long batches are abbreviated
inline std::string brief(const std::vector<uint64_t>& v) {
  if (v.size() <= 40) return vec(v);
  uint64_t h = 1; for (auto x : v) h = mix(h, x);
  return str(v.size()) + " values " + vec(std::vector<uint64_t>(v.begin(), v.begin() + 8)) + "... #" + str(h & 0xffff);
}
inline std::string show(const Program& p) {
  static const char* nm[] = {"in", "pub", "recover", "and", "xor", "not", "compand", "batch", "unbatch", "extract", "open", "openread", "readpub", "drop", "dup", "plus", "mult", "neg"};
  std::string s;
  for (size_t i = 0; i < p.ops.size(); i++) {
    auto& o = p.ops[i];
    s += nm[o.k];
    s += "(";
    for (size_t j = 0; j < o.a.size(); j++) s += (j ? "," : "") + std::string("w") + str(o.a[j]);
    for (auto z : o.sizes) s += ":" + str(z);
    s += ")";
    if (o.k == IN_PRIV || o.k == OPEN || o.k == OPEN_READ) s += "@" + str(o.p);
    for (size_t j = 0; j < p.outs[i].size(); j++) {
      auto& v = p.env[p.outs[i][j]];
      s += (j ? "," : "->") + std::string("w") + str(p.outs[i][j]);
      if (o.k <= RECOVER) s += (v.ar ? "i" : "b") + std::string(v.batch ? brief(v.v) : str(v.v[0]));
    }
    s += " ";
  }
  return s;
}

// append an operation; the reference value of its outputs is computed here
struct Builder {
  Program p;
  int add(const V& v) { p.env.push_back(v); return p.env.size() - 1; }
  int input(Kind k, bool ar, bool batch, std::vector<uint64_t> v, int owner = 0) {
    V x; x.ar = ar; x.batch = batch; x.priv = k != IN_PUB; x.v = v;
    int id = add(x);
    p.ops.push_back({k, {}, owner, {}});
    p.outs.push_back({id});
    return id;
  }
  void apply(const Op& o) {
    std::vector<int> outs;
    auto& e = p.env;
    auto bin = [&](auto f) {
      V x = e[o.a[0]];
      x.priv = e[o.a[0]].priv || e[o.a[1]].priv;
      for (size_t i = 0; i < x.v.size(); i++) x.v[i] = f(x.v[i], e[o.a[1]].v[i]);
      outs.push_back(add(x));
    };
    switch (o.k) {
      case AND: bin([](uint64_t a, uint64_t b) { return a & b; }); break;
      case XOR: bin([](uint64_t a, uint64_t b) { return a ^ b; }); break;
      case PLUS: bin([](uint64_t a, uint64_t b) { return a + b; }); break;
      case MULT: bin([](uint64_t a, uint64_t b) { return a * b; }); break;
      case NOT: { V x = e[o.a[0]]; for (auto& y : x.v) y ^= 1; outs.push_back(add(x)); break; }
      case NEG: { V x = e[o.a[0]]; for (auto& y : x.v) y = 0 - y; outs.push_back(add(x)); break; }
      case COMP_AND:
        for (size_t j = 1; j < o.a.size(); j++) {
          V x = e[o.a[0]];
          x.priv = x.priv || e[o.a[j]].priv;
          for (size_t i = 0; i < x.v.size(); i++) x.v[i] &= e[o.a[j]].v[i];
          outs.push_back(add(x));
        }
        break;
      case BATCH: {
        V x = e[o.a[0]];
        x.v.clear();
        for (int i : o.a) x.v.insert(x.v.end(), e[i].v.begin(), e[i].v.end());
        outs.push_back(add(x));
        break;
      }
      case UNBATCH: {
        size_t at = 0;
        for (auto z : o.sizes) {
          V x = e[o.a[0]];
          x.v.assign(e[o.a[0]].v.begin() + at, e[o.a[0]].v.begin() + at + z);
          at += z;
          outs.push_back(add(x));
        }
        break;
      }
      case OPEN: { V x = e[o.a[0]]; x.priv = false; x.opened = o.p; outs.push_back(add(x)); break; }
      case DROP: e[o.a[0]].dead = true; break;
      default: break;
    }
    p.ops.push_back(o);
    p.outs.push_back(outs);
  }
};

inline uint64_t shareOf(const Program& p, size_t op, size_t lane, int party, int n, uint64_t v, bool ar) {
  uint64_t acc = 0;
  for (int q = 1; q < n; q++) {
    uint64_t h = mix(mix(op + 3, lane + 5), q + 7);
    if (!ar) h &= 1;
    if (party == q) return h;
    acc = ar ? acc + h : acc ^ h;
  }
  return ar ? v - acc : v ^ acc;
}

struct Shares { std::vector<std::vector<uint64_t>> s; };  // [party] -> lanes
struct Obs {
  std::vector<std::vector<Shares>> opShares;   // [op] -> one entry per check
  std::vector<std::pair<uint64_t, uint64_t>> wires, gates;
};

// how the final values are looked at
enum Finish { F_EXTRACT, F_OPEN_REVERSE, F_EXTRACT_REVERSE, F_COUNT };

// executes the program as party `me`; reveals are compared in place, shares are collected in `coll` (index: sequential
// check number), to be recombined by the caller
struct Collected { std::vector<std::vector<std::vector<uint64_t>>> shares; std::vector<std::pair<std::string, V>> what; };

class Exec {
 public:
  Exec(const Program& p, IArithmeticScheduler& s, int me, int n, bool garbage, Collected& c, bool singleParty = false)
      : p_(p), s_(s), me_(me), n_(n), garbage_(garbage), c_(c), single_(singleParty), b_(p.env.size()), a_(p.env.size()), owned_(p.env.size(), false) {}

  std::vector<uint64_t> shareValue(int w) {
    auto& v = p_.env[w];
    std::vector<uint64_t> r;
    if (v.ar) { if (v.batch) r = s_.extractIntegerSecretShareBatch(a_[w]); else r = {s_.extractIntegerSecretShare(a_[w])}; }
    else if (v.batch) { for (bool x : s_.extractBooleanSecretShareBatch(b_[w])) r.push_back(x); }
    else r = {s_.extractBooleanSecretShare(b_[w])};
    return r;
  }
  std::vector<uint64_t> readValue(const V& v, BW b, AW a) {
    std::vector<uint64_t> r;
    if (v.ar) { if (v.batch) r = s_.getIntegerValueBatch(a); else r = {s_.getIntegerValue(a)}; }
    else if (v.batch) { for (bool x : s_.getBooleanValueBatch(b)) r.push_back(x); }
    else r = {s_.getBooleanValue(b)};
    return r;
  }
  void collect(int w, const std::string& why) {
    auto r = shareValue(w);
    if (c_.shares.size() <= seq_) { c_.shares.resize(seq_ + 1); c_.what.resize(seq_ + 1); }
    c_.shares[seq_].resize(n_);
    c_.shares[seq_][me_] = r;
    c_.what[seq_] = {why + " of w" + str(w), p_.env[w]};
    seq_++;
  }
  void openTo(const V& v, BW src, AW asrc, int party, BW& b, AW& a) {
    if (v.ar) a = v.batch ? s_.openIntegerValueToPartyBatch(asrc, party) : s_.openIntegerValueToParty(asrc, party);
    else b = v.batch ? s_.openBooleanValueToPartyBatch(src, party) : s_.openBooleanValueToParty(src, party);
  }
  void compare(const V& v, const std::vector<uint64_t>& got, const char* how, int w) {
    evals();
    if (got != v.v) fail(std::string(how) + " differs from plaintext evaluation", "wire w" + str(w) + " expected " + brief(v.v) + " got " + brief(got) + " in " + show(p_));
  }
  void drop(bool ar, bool batch, BW b, AW a) {
    if (ar) { if (batch) s_.decreaseReferenceCountBatch(a); else s_.decreaseReferenceCount(a); }
    else if (batch) s_.decreaseReferenceCountBatch(b);
    else s_.decreaseReferenceCount(b);
  }
  void step(size_t i) {
    auto& o = p_.ops[i];
    auto& outs = p_.outs[i];
    mc::step();
    switch (o.k) {
      case IN_PRIV: case IN_PUB: case RECOVER: {
        int w = outs[0];
        auto v = p_.env[w].v;
        if (o.k == IN_PRIV && me_ != o.p && garbage_) for (size_t l = 0; l < v.size(); l++) v[l] = p_.env[w].ar ? v[l] * 3 + 12345 : v[l] ^ 1;
        if (o.k == RECOVER && !single_) for (size_t l = 0; l < v.size(); l++) v[l] = shareOf(p_, i, l, me_, n_, v[l], p_.env[w].ar);
        std::vector<bool> bv(v.begin(), v.end());
        bool batch = p_.env[w].batch;
        if (p_.env[w].ar) {
          if (o.k == IN_PRIV) a_[w] = batch ? s_.privateIntegerInputBatch(v, o.p) : s_.privateIntegerInput(v[0], o.p);
          else if (o.k == IN_PUB) a_[w] = batch ? s_.publicIntegerInputBatch(v) : s_.publicIntegerInput(v[0]);
          else a_[w] = batch ? s_.recoverIntegerWireBatch(v) : s_.recoverIntegerWire(v[0]);
        } else {
          if (o.k == IN_PRIV) b_[w] = batch ? s_.privateBooleanInputBatch(bv, o.p) : s_.privateBooleanInput(bv[0], o.p);
          else if (o.k == IN_PUB) b_[w] = batch ? s_.publicBooleanInputBatch(bv) : s_.publicBooleanInput(bv[0]);
          else b_[w] = batch ? s_.recoverBooleanWireBatch(bv) : s_.recoverBooleanWire(bv[0]);
        }
        break;
      }
      case AND: case XOR: {
        int l = o.a[0], r = o.a[1];
        bool lp = p_.env[l].priv, rp = p_.env[r].priv, batch = p_.env[l].batch;
        if (!lp && rp) { std::swap(l, r); std::swap(lp, rp); }
        BW x = b_[l], y = b_[r];
        if (o.k == AND) {
          if (lp && rp) b_[outs[0]] = batch ? s_.privateAndPrivateBatch(x, y) : s_.privateAndPrivate(x, y);
          else if (lp) b_[outs[0]] = batch ? s_.privateAndPublicBatch(x, y) : s_.privateAndPublic(x, y);
          else b_[outs[0]] = batch ? s_.publicAndPublicBatch(x, y) : s_.publicAndPublic(x, y);
        } else {
          if (lp && rp) b_[outs[0]] = batch ? s_.privateXorPrivateBatch(x, y) : s_.privateXorPrivate(x, y);
          else if (lp) b_[outs[0]] = batch ? s_.privateXorPublicBatch(x, y) : s_.privateXorPublic(x, y);
          else b_[outs[0]] = batch ? s_.publicXorPublicBatch(x, y) : s_.publicXorPublic(x, y);
        }
        break;
      }
      case PLUS: case MULT: {
        int l = o.a[0], r = o.a[1];
        bool lp = p_.env[l].priv, rp = p_.env[r].priv, batch = p_.env[l].batch;
        if (!lp && rp) { std::swap(l, r); std::swap(lp, rp); }
        AW x = a_[l], y = a_[r];
        if (o.k == PLUS) {
          if (lp && rp) a_[outs[0]] = batch ? s_.privatePlusPrivateBatch(x, y) : s_.privatePlusPrivate(x, y);
          else if (lp) a_[outs[0]] = batch ? s_.privatePlusPublicBatch(x, y) : s_.privatePlusPublic(x, y);
          else a_[outs[0]] = batch ? s_.publicPlusPublicBatch(x, y) : s_.publicPlusPublic(x, y);
        } else {
          if (lp && rp) a_[outs[0]] = batch ? s_.privateMultPrivateBatch(x, y) : s_.privateMultPrivate(x, y);
          else if (lp) a_[outs[0]] = batch ? s_.privateMultPublicBatch(x, y) : s_.privateMultPublic(x, y);
          else a_[outs[0]] = batch ? s_.publicMultPublicBatch(x, y) : s_.publicMultPublic(x, y);
        }
        break;
      }
      case NOT: {
        auto& v = p_.env[o.a[0]];
        BW x = b_[o.a[0]];
        b_[outs[0]] = v.priv ? (v.batch ? s_.notPrivateBatch(x) : s_.notPrivate(x)) : (v.batch ? s_.notPublicBatch(x) : s_.notPublic(x));
        break;
      }
      case NEG: {
        auto& v = p_.env[o.a[0]];
        AW x = a_[o.a[0]];
        a_[outs[0]] = v.priv ? (v.batch ? s_.negPrivateBatch(x) : s_.negPrivate(x)) : (v.batch ? s_.negPublicBatch(x) : s_.negPublic(x));
        break;
      }
      case COMP_AND: {
        auto& v = p_.env[o.a[0]];
        bool rp = o.a.size() > 1 ? p_.env[o.a[1]].priv : true;
        std::vector<BW> rs;
        for (size_t j = 1; j < o.a.size(); j++) rs.push_back(b_[o.a[j]]);
        BW x = b_[o.a[0]];
        std::vector<BW> out;
        if (v.priv && rp) out = v.batch ? s_.privateAndPrivateCompositeBatch(x, rs) : s_.privateAndPrivateComposite(x, rs);
        else if (v.priv || rp) out = v.batch ? s_.privateAndPublicCompositeBatch(x, rs) : s_.privateAndPublicComposite(x, rs);
        else out = v.batch ? s_.publicAndPublicCompositeBatch(x, rs) : s_.publicAndPublicComposite(x, rs);
        check(out.size() == outs.size(), "number of one-to-many results", [&] { return str(out.size()); });
        for (size_t j = 0; j < outs.size() && j < out.size(); j++) b_[outs[j]] = out[j];
        break;
      }
      case BATCH: {
        std::vector<BW> src;
        for (int i2 : o.a) src.push_back(b_[i2]);
        b_[outs[0]] = s_.batchingUp(src);
        break;
      }
      case UNBATCH: {
        auto out = s_.unbatching(b_[o.a[0]], std::make_shared<std::vector<uint32_t>>(o.sizes));
        check(out.size() == outs.size(), "number of unbatched results", [&] { return str(out.size()); });
        for (size_t j = 0; j < outs.size() && j < out.size(); j++) b_[outs[j]] = out[j];
        break;
      }
      case EXTRACT: collect(o.a[0], "share"); break;
      case OPEN: openTo(p_.env[o.a[0]], b_[o.a[0]], a_[o.a[0]], o.p, b_[outs[0]], a_[outs[0]]); break;
      case OPEN_READ: openRead(o.a[0], o.p); break;
      case READ_PUB: readPub(o.a[0]); break;
      case DROP: drop(p_.env[o.a[0]].ar, p_.env[o.a[0]].batch, b_[o.a[0]], a_[o.a[0]]); break;
      case DUPDROP: {
        auto& v = p_.env[o.a[0]];
        if (v.ar) { if (v.batch) { s_.increaseReferenceCountBatch(a_[o.a[0]]); } else s_.increaseReferenceCount(a_[o.a[0]]); }
        else { if (v.batch) s_.increaseReferenceCountBatch(b_[o.a[0]]); else s_.increaseReferenceCount(b_[o.a[0]]); }
        drop(v.ar, v.batch, b_[o.a[0]], a_[o.a[0]]);
        break;
      }
    }
    for (int w : outs) if (o.k != DROP) owned_[w] = true;
    if (o.k == DROP) owned_[o.a[0]] = false;
    for (int w : outs) if (p_.env[w].batch) {
      size_t sz = p_.env[w].ar ? s_.getBatchSize(a_[w]) : s_.getBatchSize(b_[w]);
      check(sz == p_.env[w].v.size(), "batch size of a wire", [&] { return "w" + str(w) + " reports " + str(sz) + " in " + show(p_); });
    }
  }
  void openRead(int w, int party) {
    BW b; AW a;
    auto& v = p_.env[w];
    openTo(v, b_[w], a_[w], party, b, a);
    auto got = readValue(v, b, a);
    if (me_ == party || single_) compare(v, got, "opened value", w);
    drop(v.ar, v.batch, b, a);
  }
  void readPub(int w) {
    auto& v = p_.env[w];
    auto got = readValue(v, b_[w], a_[w]);
    if (v.opened < 0 || v.opened == me_ || single_) compare(v, got, v.opened < 0 ? "public value" : "opened value", w);
  }
  void run() {
    for (size_t i = 0; i < p_.ops.size(); i++) step(i);
  }
  void finish(int mode) {
    std::vector<int> live;
    for (size_t w = 0; w < p_.env.size(); w++) if (owned_[w]) live.push_back(w);
    if (mode == F_EXTRACT) {
      for (int w : live) if (p_.env[w].priv) collect(w, "final share"); else readPub(w);
      for (int w : live) if (p_.env[w].priv) openRead(w, w % n_);
    } else if (mode == F_OPEN_REVERSE) {
      std::vector<std::tuple<int, BW, AW>> opened;
      for (int w : live) if (p_.env[w].priv) { BW b; AW a; openTo(p_.env[w], b_[w], a_[w], (w + 1) % n_, b, a); opened.emplace_back(w, b, a); }
      for (auto it = opened.rbegin(); it != opened.rend(); ++it) {
        auto& v = p_.env[std::get<0>(*it)];
        auto got = readValue(v, std::get<1>(*it), std::get<2>(*it));
        if (single_ || me_ == (std::get<0>(*it) + 1) % n_) compare(v, got, "opened value", std::get<0>(*it));
      }
      for (auto& t : opened) { auto& v = p_.env[std::get<0>(t)]; drop(v.ar, v.batch, std::get<1>(t), std::get<2>(t)); }
      for (int w : live) if (!p_.env[w].priv) readPub(w);
    } else {
      for (auto it = live.rbegin(); it != live.rend(); ++it) if (p_.env[*it].priv) collect(*it, "final share"); else readPub(*it);
    }
    for (int w : live) drop(p_.env[w].ar, p_.env[w].batch, b_[w], a_[w]);
    bool dropped = false;
    for (auto& o : p_.ops) dropped |= o.k == DROP;
    if (dropped && !p_.ops.empty()) {  // gates whose results nobody read may still be pending: evaluate past them
      BW x = s_.privateBooleanInput(true, 0);
      std::vector<BW> xs{x};
      for (size_t i = 0; i <= p_.ops.size(); i++) { x = s_.privateAndPrivate(x, x); xs.push_back(x); }
      s_.extractBooleanSecretShare(x);
      for (auto w : xs) s_.decreaseReferenceCount(w);
    }
    auto ws = s_.getWireStatistics();
    check(ws.first == ws.second, "every wire is released", [&] { return str(ws.first) + " allocated, " + str(ws.second) + " released in " + show(p_); });
  }

 private:
  const Program& p_;
  IArithmeticScheduler& s_;
  int me_, n_;
  bool garbage_;
  Collected& c_;
  bool single_;
  std::vector<BW> b_;
  std::vector<AW> a_;
  std::vector<bool> owned_;
  size_t seq_ = 0;
};

inline uint64_t runProgram(const Program& p, Backend be, Keeper k, int n, int finishMode, uint64_t salt = 1, bool composite = true) {
  note(std::string(be == LAZY ? "lazy " : be == EAGER ? "eager " : be == PLAIN ? "plain " : "netplain ") + show(p) + "finish" + str(finishMode));
  auto world = std::make_shared<World>();
  Collected col;
  bool single = be == PLAIN;
  parties(single ? 1 : n, [&](int me) {
    Factory f(world, me);
    auto s = makeScheduler(be, k, me, n, f, hashBits(salt), composite);
    Exec e(p, *s, me, single ? 1 : n, be != PLAIN, col, single);
    e.run();
    e.finish(finishMode);
  });
  uint64_t h = 7;
  for (size_t i = 0; i < col.shares.size(); i++) {
    auto& sh = col.shares[i];
    auto& v = col.what[i].second;
    std::vector<uint64_t> sum(v.v.size(), 0);
    bool sizes = true;
    for (auto& s : sh) { if (s.size() != sum.size()) { sizes = false; break; } for (size_t l = 0; l < sum.size(); l++) sum[l] = v.ar ? sum[l] + s[l] : sum[l] ^ s[l]; }
    evals();
    if (!sizes || sum != v.v) fail("shares do not recombine to the value", col.what[i].first + " expected " + brief(v.v) + " got " + (sizes ? brief(sum) : "wrong size") + " in " + show(p));
    for (auto x : sum) h = mix(h, x);
  }
  if (!single && !world->drained()) fail("unread messages between the parties", show(p));
  for (auto& v : p.env) for (auto x : v.v) h = mix(h, x);
  state(mix(h, hashStr(show(p))));
  return h;
}

// all operations of the given kinds on the current environment
struct Gen {
  std::vector<Kind> kinds;
  int n = 2;
  bool unordered = true;      // binary operations on l <= r only
  bool chain = false;         // one operand must come from the last operation that produced something
  std::vector<int> compSizes{2};
  std::vector<int> openTo{0, 1};
};
inline std::vector<Op> candidates(const Builder& b, const Gen& g) {
  std::vector<Op> r;
  auto& e = b.p.env;
  std::vector<int> last;
  for (auto it = b.p.outs.rbegin(); it != b.p.outs.rend(); ++it) if (!it->empty()) { last = *it; break; }
  auto recent = [&](std::initializer_list<int> ws) {
    if (!g.chain) return true;
    for (int w : ws) for (int l : last) if (w == l) return true;
    return false;
  };
  int N = e.size();
  auto usable = [&](int w) { return !e[w].dead && e[w].opened < 0; };
  for (Kind k : g.kinds) {
    switch (k) {
      case AND: case XOR: case PLUS: case MULT:
        for (int l = 0; l < N; l++) for (int q = 0; q < N; q++) {
          if (!usable(l) || !usable(q) || !recent({l, q})) continue;
          if (g.unordered && q < l) continue;
          if (e[l].ar != (k == PLUS || k == MULT) || e[q].ar != e[l].ar || e[l].batch != e[q].batch || e[l].v.size() != e[q].v.size()) continue;
          r.push_back({k, {l, q}, 0, {}});
        }
        break;
      case NOT: case NEG:
        for (int l = 0; l < N; l++) if (usable(l) && recent({l}) && e[l].ar == (k == NEG)) r.push_back({k, {l}, 0, {}});
        break;
      case COMP_AND:
        for (int l = 0; l < N; l++) {
          if (!usable(l) || e[l].ar) continue;
          for (int cs : g.compSizes) {
            if (cs == 0) { if (recent({l})) r.push_back({k, {l}, 0, {}}); continue; }
            for (int q = 0; q < N; q++) {
              if (!usable(q) || e[q].ar || e[q].batch != e[l].batch || e[q].v.size() != e[l].v.size() || !recent({l, q})) continue;
              Op o{k, {l, q}, 0, {}};
              // fill the remaining positions with the following compatible wires of the same visibility
              int at = q;
              while ((int)o.a.size() - 1 < cs) {
                int tries = 0;
                do { at = (at + 1) % N; } while (++tries <= N && (!usable(at) || e[at].ar || e[at].batch != e[l].batch || e[at].priv != e[q].priv || e[at].v.size() != e[l].v.size()));
                o.a.push_back(at);
              }
              r.push_back(o);
            }
          }
        }
        break;
      case BATCH:
        for (int l = 0; l < N; l++) for (int q = 0; q < N; q++) {
          if (!usable(l) || !usable(q) || e[l].ar || e[q].ar || !e[l].batch || !e[q].batch || e[l].priv != e[q].priv || !recent({l, q})) continue;
          r.push_back({k, {l, q}, 0, {}});
        }
        for (int l = 0; l < N; l++) if (usable(l) && !e[l].ar && e[l].batch && recent({l})) { r.push_back({k, {l}, 0, {}}); r.push_back({k, {l, l, l}, 0, {}}); }
        break;
      case UNBATCH:
        for (int l = 0; l < N; l++) {
          if (!usable(l) || e[l].ar || !e[l].batch || !recent({l})) continue;
          uint32_t z = e[l].v.size();
          r.push_back({k, {l}, 0, {z}});
          r.push_back({k, {l}, 0, {z / 2, z - z / 2}});
          r.push_back({k, {l}, 0, {0, z}});
          if (z >= 2) r.push_back({k, {l}, 0, {1, z - 2, 1}});
        }
        break;
      case EXTRACT:
        for (int l = 0; l < N; l++) if (usable(l) && e[l].priv && recent({l})) r.push_back({k, {l}, 0, {}});
        break;
      case OPEN: case OPEN_READ:
        for (int l = 0; l < N; l++) if (usable(l) && e[l].priv && recent({l})) for (int p : g.openTo) r.push_back({k, {l}, p, {}});
        break;
      case READ_PUB:
        for (int l = 0; l < N; l++) if (!e[l].dead && !e[l].priv && recent({l})) r.push_back({k, {l}, 0, {}});
        break;
      case DROP: case DUPDROP:
        for (int l = 0; l < N; l++) if (!e[l].dead) r.push_back({k, {l}, 0, {}});
        break;
      default: break;
    }
  }
  return r;
}
inline bool grow(Builder& b, const Gen& g) {
  auto c = candidates(b, g);
  if (c.empty()) return false;
  b.apply(c[choose((int)c.size(), "gate")]);
  return true;
}
}  // namespace mc
