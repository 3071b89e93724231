// C15: in-process channels between threads: every interleaving of small message scripts, every chunking; typed helpers;
// channel pairing; the opening exchanges built on channels.
#include <thread>
#include "fbpcf/engine/communication/InMemoryPartyCommunicationAgentFactory.h"
#include "fbpcf/engine/communication/InMemoryPartyCommunicationAgentHost.h"
#include "fbpcf/engine/communication/SecretShareEngineCommunicationAgent.h"
#include "mc/net.h"
using namespace mc;
using namespace fbpcf::engine::communication;
using Bytes = std::vector<unsigned char>;
using MemHost = InMemoryPartyCommunicationAgentHost;

static std::vector<int> composition(int total, int code) {  // code in [0, 2^(total-1))
  std::vector<int> r;
  int cur = 1;
  if (!total) return r;
  for (int i = 0; i + 1 < total; i++) { if (code >> i & 1) { r.push_back(cur); cur = 1; } else cur++; }
  r.push_back(cur);
  return r;
}
static int codes(int total) { return total ? 1 << (total - 1) : 1; }
static RunOpts ex(bool spurious = false) { RunOpts o; o.explore = true; o.spurious = spurious; return o; }

// one direction: every chunking of sends against every chunking of receives, every interleaving
static void oneWay(int total) {
  int a = choose(codes(total), "send sizes"), b = choose(codes(total), "receive sizes"), dir = choose(2, "direction"), empty = choose(2, "empty message first");
  auto snd = composition(total, a), rcv = composition(total, b);
  note("send " + vec(snd) + " receive " + vec(rcv));
  MemHost host;
  auto a0 = host.getAgent(0), a1 = host.getAgent(1);
  auto& s = dir ? *a1 : *a0;
  auto& r = dir ? *a0 : *a1;
  Bytes got;
  auto res = run([&] {
    std::thread t([&] {
      int at = 0;
      if (empty) s.send({});
      for (int n : snd) { Bytes m; for (int i = 0; i < n; i++) m.push_back(10 + at++); s.send(m); }
    });
    for (int n : rcv) { auto m = r.receive(n); check((int)m.size() == n, "size of a receive"); got.insert(got.end(), m.begin(), m.end()); }
    t.join();
  }, ex(true));
  Bytes want;
  for (int i = 0; i < total; i++) want.push_back(10 + i);
  evals();
  check(got == want, "bytes received", [&] { return "got " + vec(got) + " with sends " + vec(snd) + " receives " + vec(rcv); });
  auto st = s.getTrafficStatistics(), rt = r.getTrafficStatistics();
  check(st == std::make_pair<uint64_t, uint64_t>(total, 0) && rt == std::make_pair<uint64_t, uint64_t>(0, total), "traffic statistics", [&] { return str(st.first) + "," + str(st.second) + " " + str(rt.first) + "," + str(rt.second); });
  state(mix(mix(a, b), dir * 2 + empty));
}
// both directions at once: each party runs a script of sends and receives
static void twoWay(int len) {
  // script: bit set = send next chunk (1 or 2 bytes), otherwise receive next chunk; scripts are paired so that they can finish
  std::vector<int> ops[2];
  int sent[2] = {0, 0}, recvd[2] = {0, 0};
  for (int i = 0; i < len; i++)
    for (int p = 0; p < 2; p++) {
      int k = choose(4, "step");  // 0: send 1, 1: send 2, 2: receive 1, 3: receive 2
      ops[p].push_back(k);
      if (k < 2) sent[p] += k + 1; else recvd[p] += k - 1;
    }
  for (int p = 0; p < 2; p++) assume(recvd[p] <= sent[1 - p]);
  // can it finish? simulate greedily
  {
    size_t i[2] = {0, 0}; int avail[2] = {0, 0};
    bool moved = true;
    while (moved) {
      moved = false;
      for (int p = 0; p < 2; p++)
        while (i[p] < ops[p].size()) {
          int k = ops[p][i[p]];
          if (k < 2) avail[p] += k + 1;
          else if (avail[1 - p] >= k - 1) avail[1 - p] -= k - 1;
          else break;
          i[p]++;
          moved = true;
        }
    }
    assume(i[0] == ops[0].size() && i[1] == ops[1].size());
  }
  MemHost host;
  std::unique_ptr<InMemoryPartyCommunicationAgent> ag[2] = {host.getAgent(0), host.getAgent(1)};
  Bytes got[2];
  auto party = [&](int p) {
    int at = 0;
    for (int k : ops[p]) {
      if (k < 2) { Bytes m; for (int i = 0; i <= k; i++) m.push_back(100 * p + at++); ag[p]->send(m); }
      else { auto m = ag[p]->receive(k - 1); got[p].insert(got[p].end(), m.begin(), m.end()); }
    }
    for (int left = sent[1 - p] - recvd[p]; left > 0; left--) { auto m = ag[p]->receive(1); got[p].push_back(m[0]); }
  };
  note(vec(ops[0]) + " / " + vec(ops[1]));
  run([&] { std::thread t([&] { party(1); }); party(0); t.join(); }, ex());
  for (int p = 0; p < 2; p++) {
    Bytes want;
    for (int i = 0; i < sent[1 - p]; i++) want.push_back(100 * (1 - p) + i);
    evals();
    check(got[p] == want, "bytes received", [&] { return vec(got[p]) + " expected " + vec(want); });
    auto st = ag[p]->getTrafficStatistics();
    check((int)st.first == sent[p] && (int)st.second == sent[1 - p], "traffic statistics");
  }
  state(mix(hashStr(vec(ops[0])), hashStr(vec(ops[1]))));
}
struct Rec { uint32_t a; unsigned char b[5]; double c; bool operator==(const Rec& o) const { return a == o.a && !memcmp(b, o.b, 5) && c == o.c; } };
// typed helpers in any order on one channel
static void typed(int depth) {
  MemHost host;
  std::unique_ptr<InMemoryPartyCommunicationAgent> ag[2] = {host.getAgent(0), host.getAgent(1)};
  uint64_t bytes[2] = {0, 0};
  std::string h;
  run([&] {
    for (int d = 0; d < depth; d++) {
      int from = choose(2, "sender"), k = choose(8, "type");
      auto& s = *ag[from];
      auto& r = *ag[1 - from];
      h += str(from) + ":" + str(k);
      switch (k) {
        case 0: case 1: {
          int n = choose(19, "bits");
          int pat = n <= 3 ? choose(1 << n, "pattern") : choose(4, "pattern");
          std::vector<bool> v;
          for (int i = 0; i < n; i++) v.push_back(n <= 3 ? pat >> i & 1 : pat == 0 ? true : pat == 1 ? i % 2 : pat == 2 ? i % 3 == 0 : i == n - 1);
          if (k) s.sendT<bool>(v); else s.sendBool(v);
          auto g = k ? r.receiveT<bool>(n) : r.receiveBool(n);
          check(g == v, "bits round trip", [&] { return vec(v) + " got " + vec(g); });
          bytes[from] += (n + 7) / 8;
          h += "/" + str(n) + "." + str(pat);
          break;
        }
        case 2: {
          int n = choose(4, "integers");
          std::vector<uint64_t> v;
          for (int i = 0; i < n; i++) v.push_back(0xfedcba9876543210ull * (i + 1) + d);
          s.sendInt64(v);
          check(r.receiveInt64(n) == v, "integers round trip");
          bytes[from] += 8 * n;
          h += "/" + str(n);
          break;
        }
        case 3: {
          int n = choose(3, "records");
          std::vector<Rec> v;
          for (int i = 0; i < n; i++) v.push_back({uint32_t(i + 7), {1, 2, 3, 4, (unsigned char)i}, 0.5 * i});
          s.sendT<Rec>(v);
          check(r.receiveT<Rec>(n) == v, "records round trip");
          bytes[from] += sizeof(Rec) * n;
          break;
        }
        case 4: { uint32_t x = 0xa1b2c3d4 + d; s.sendSingleT<uint32_t>(x); check(r.receiveSingleT<uint32_t>() == x, "single value round trip"); bytes[from] += 4; break; }
        case 5: { __m128i x = _mm_set_epi32(1, 2, 3, 4 + d); s.sendSingleT<__m128i>(x); __m128i y = r.receiveSingleT<__m128i>(); check(!memcmp(&x, &y, 16), "block round trip"); bytes[from] += 16; break; }
        case 6: { Bytes v{1, 2, 3, (unsigned char)d}; s.sendT<unsigned char>(v); check(r.receiveT<unsigned char>(4) == v, "bytes round trip"); bytes[from] += 4; break; }
        case 7: { std::vector<uint16_t> v{0x1234, 0xffff, 0}; s.sendT<uint16_t>(v); check(r.receiveT<uint16_t>(3) == v, "short integers round trip"); bytes[from] += 6; break; }
      }
      evals();
      auto a = ag[0]->getTrafficStatistics(), b = ag[1]->getTrafficStatistics();
      check(a.first == bytes[0] && a.second == bytes[1] && b.first == bytes[1] && b.second == bytes[0], "traffic statistics", [&] { return h; });
      if (failed()) return;
    }
  });
  note(h);
  state(hashStr(h));
}
// every party opens channels to the others in any order and at any time; the n-th pairs with the n-th
static void pairing(int parties, int each) {
  using F = InMemoryPartyCommunicationAgentFactory;
  std::map<std::pair<int, int>, std::shared_ptr<F::HostInfo>> hosts;
  for (int i = 0; i < parties; i++) for (int j = i + 1; j < parties; j++) { hosts[{i, j}] = std::make_shared<F::HostInfo>(); hosts[{i, j}]->mutex = std::make_unique<std::mutex>(); }
  std::vector<std::vector<int>> order(parties);
  for (int i = 0; i < parties; i++) {
    std::map<int, int> left;
    for (int j = 0; j < parties; j++) if (j != i) left[j] = each;
    for (int k = 0; k < each * (parties - 1); k++) {
      std::vector<int> c;
      for (auto& kv : left) if (kv.second) c.push_back(kv.first);
      int j = c[choose(c.size(), "order of opening")];
      left[j]--;
      order[i].push_back(j);
    }
  }
  std::vector<std::map<int, std::vector<std::unique_ptr<IPartyCommunicationAgent>>>> ch(parties);
  std::vector<std::unique_ptr<F>> fs(parties);
  std::string h;
  run([&] {
    std::vector<std::thread> ts;
    for (int i = 0; i < parties; i++) {
      std::map<int, std::shared_ptr<F::HostInfo>> mine;
      for (int j = 0; j < parties; j++) if (j != i) mine[j] = hosts[{std::min(i, j), std::max(i, j)}];
      fs[i] = std::make_unique<F>(i, std::move(mine));
      ts.emplace_back([&, i] {
        for (int j : order[i]) ch[i][j].push_back(fs[i]->create(j, "t"));
        for (auto& kv : ch[i]) for (size_t n = 0; n < kv.second.size(); n++) kv.second[n]->send({(unsigned char)(i * 16 + kv.first), (unsigned char)n});
        for (auto it = ch[i].rbegin(); it != ch[i].rend(); ++it) for (size_t n = 0; n < it->second.size(); n++) {
          auto m = it->second[n]->receive(2);
          evals();
          check(m == Bytes({(unsigned char)(it->first * 16 + i), (unsigned char)n}), "the n-th channel of one party is the n-th of the other", [&] { return "party " + str(i) + " channel " + str(n) + " to " + str(it->first) + " got " + vec(m); });
        }
      });
    }
    for (auto& t : ts) t.join();
  }, ex());
  for (auto& o : order) h += vec(o);
  note(h);
  state(hashStr(h));
}
// an agent can be taken once, and asking for an unknown party is refused
static void refusals() {
  int which = choose(4, "case");
  bool threw = false;
  if (which < 2) {
    MemHost host;
    auto a = host.getAgent(which);
    try { auto b = host.getAgent(which); } catch (const std::exception&) { threw = true; }
  } else {
    using F = InMemoryPartyCommunicationAgentFactory;
    auto hi = std::make_shared<F::HostInfo>();
    hi->mutex = std::make_unique<std::mutex>();
    F f(which - 2, {{3 - which, hi}});
    try { auto a = f.create(which == 2 ? 0 : 1, "self"); } catch (const std::exception&) { threw = true; }
  }
  check(threw, "refusal of a second owner or unknown party", [&] { return str(which); });
  state(which);
}
// the exchanges of the secret-sharing engine, for every sharing of every value
static void exchange(int n, int lanes) {
  auto world = std::make_shared<World>();
  bool ints = choose(2, "type");
  int size = choose(lanes + 1, "values"), who = choose(n + 1, "to whom");
  std::vector<std::vector<uint64_t>> sh(n);
  std::vector<uint64_t> want(size, 0);
  for (int p = 0; p < n; p++) for (int l = 0; l < size; l++) {
    uint64_t v = ints ? std::vector<uint64_t>{0, 1, ~0ull, 1ull << 63}[l == 0 ? choose(4, "share") : (p + l) % 4] : choose(2, "share");
    sh[p].push_back(v);
    want[l] = ints ? want[l] + v : want[l] ^ v;
  }
  RunOpts o;
  o.explore = n < 4;
  parties(n, [&](int me) {
    std::map<int, std::unique_ptr<IPartyCommunicationAgent>> m;
    Factory f(world, me);
    for (int j = 0; j < n; j++) if (j != me) m[j] = f.create(j, "x");
    SecretShareEngineCommunicationAgent a(me, std::move(m));
    std::map<int, __m128i> keys;
    for (int j = 0; j < n; j++) if (j != me) keys[j] = _mm_set_epi32(0, 0, me, j);
    auto got = a.exchangeKeys(keys);
    for (int j = 0; j < n; j++) if (j != me) { __m128i e = _mm_set_epi32(0, 0, j, me); auto g = got.at(j); check(!memcmp(&g, &e, 16), "exchanged keys"); }
    check((int)got.size() == n - 1, "exchanged keys");
    std::vector<uint64_t> r;
    std::vector<bool> b(sh[me].begin(), sh[me].end());
    if (who == n) { if (ints) r = a.openSecretsToAll(sh[me]); else for (bool x : a.openSecretsToAll(b)) r.push_back(x); }
    else { if (ints) r = a.openSecretsToParty(who, sh[me]); else for (bool x : a.openSecretsToParty(who, b)) r.push_back(x); }
    evals();
    check(r.size() == want.size(), "number of opened values", [&] { return str(r.size()); });
    if (who == n || who == me) check(r == want, "opened values", [&] { return vec(r) + " expected " + vec(want); });
    else check(r == std::vector<uint64_t>(size, 0), "a party the values are not opened to learns something", [&] { return vec(r); });
    uint64_t per = ints ? 8 * size : (size + 7) / 8;
    auto t = a.getTrafficStatistics();
    uint64_t es = 16 * (n - 1) + (who == n ? per * (n - 1) : who == me ? 0 : per), er = 16 * (n - 1) + (who == n || who == me ? per * (n - 1) : 0);
    check(t.first == es && t.second == er, "traffic statistics", [&] { return str(t.first) + "," + str(t.second) + " expected " + str(es) + "," + str(er); });
  }, o);
  check(world->drained(), "unread messages");
  state(mix(mix(ints, who), mix(size, hashStr(vec(want)))));
}
#ifdef MC_TSAN
static const bool races = true;  // every step costs more
#else
static const bool races = false;
#endif
int main(int argc, char** argv) {
  std::vector<Suite> s;
  s.push_back({"one direction, all chunkings", [] { oneWay(thorough ? 5 : 4); }, 2, 3});
  s.push_back({"one direction, deeper interleavings", [] { oneWay(2); }, 5, 7});
  s.push_back({"both directions", [] { twoWay(2); }, 4, 6});
  s.push_back({"both directions, longer scripts", [] { twoWay(3); }, 2, 3});
  s.push_back({"typed helpers", [] { typed(2); }});
  s.push_back({"typed helpers, longer", [] { typed(3); }, 0, -1, true});
  s.push_back({"pairing of channels", [] { pairing(2, 2); }, 4, 6});
  s.push_back({"pairing among three parties", [] { pairing(3, 1); }, 1, 2});
  s.push_back({"pairing among three parties, two channels each", [] { pairing(3, 2); }, 0, 1, true});
  s.push_back({"refusals", refusals});
  s.push_back({"opening exchanges, two parties", [] { exchange(2, 2); }, 4, 6});
  s.push_back({"opening exchanges, three parties", [] { exchange(3, 1); }, races ? 0 : 1, races ? 1 : 2});
  s.push_back({"opening exchanges, four parties", [] { exchange(4, 1); }});
  return harnessMain(argc, argv, "C15", s);
}
