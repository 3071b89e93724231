// C16: socket channels over a simulated operating system and TLS library: every answer the system may give is a choice.
#include "mc/os.h"
#include "fbpcf/engine/communication/SocketPartyCommunicationAgentFactory.h"
using namespace mc;
namespace cm = fbpcf::engine::communication;
using SA = cm::SocketPartyCommunicationAgent; using Bytes = std::vector<unsigned char>;

extern "C" {
// ---- the TLS library: contexts and certificates are the real objects, the connection is not
int SSL_CTX_use_certificate_file(SSL_CTX* c, const char* f, int t) { if (!sim()) return REALF(SSL_CTX_use_certificate_file)(c, f, t); return fault(S.setupFaults, 2, "certificate") ? (S.faulted = true, 0) : 1; }
int SSL_CTX_use_PrivateKey_file(SSL_CTX* c, const char* f, int t) { if (!sim()) return REALF(SSL_CTX_use_PrivateKey_file)(c, f, t); return fault(S.setupFaults, 2, "key") ? (S.faulted = true, 0) : 1; }
int SSL_CTX_use_certificate_chain_file(SSL_CTX* c, const char* f) { if (!sim()) return REALF(SSL_CTX_use_certificate_chain_file)(c, f); return fault(S.setupFaults, 2, "certificate") ? (S.faulted = true, 0) : 1; }
int SSL_CTX_load_verify_locations(SSL_CTX* c, const char* f, const char* d) { if (!sim()) return REALF(SSL_CTX_load_verify_locations)(c, f, d); return fault(S.setupFaults, 2, "root certificate") ? (S.faulted = true, 0) : 1; }
int SSL_set_fd(SSL* s, int fd) { if (!sfd(fd)) return REALF(SSL_set_fd)(s, fd); S.sslFd[s] = fd; return 1; }
int SSL_get_fd(const SSL* s) { auto i = S.sslFd.find((SSL*)s); if (!S.on || i == S.sslFd.end()) return REALF(SSL_get_fd)(s); return i->second; }
static int handshake(SSL* s, int side) {
  auto c = S.fds.at(S.sslFd.at(s)).c;
  if (int k = fault(S.setupFaults, 3, "handshake")) { S.faulted = true; c->tlsFailed = true; S.sslErr[s] = SSL_ERROR_SYSCALL; return k == 1 ? 0 : -1; }
  c->tls[side] = true;
  blockUntil([c, side] { return c->tls[1 - side] || c->tlsFailed || c->refs[1 - side] == 0 || S.done.size(); }, "handshake");
  if (!c->tls[1 - side]) { S.sslErr[s] = SSL_ERROR_SYSCALL; return -1; }
  return 1;
}
int SSL_accept(SSL* s) { if (!S.sslFd.count(s)) return REALF(SSL_accept)(s); return handshake(s, 1); }
int SSL_connect(SSL* s) { if (!S.sslFd.count(s)) return REALF(SSL_connect)(s); return handshake(s, 0); }
X509* SSL_get1_peer_certificate(const SSL* s) { if (!S.sslFd.count((SSL*)s)) return REALF(SSL_get1_peer_certificate)(s); return X509_new(); }
long SSL_get_verify_result(const SSL* s) { if (!S.sslFd.count((SSL*)s)) return REALF(SSL_get_verify_result)(s); return X509_V_OK; }
int SSL_read(SSL* s, void* b, int n) {
  if (!S.sslFd.count(s)) return REALF(SSL_read)(s, b, n);
  if (n <= 0) { S.sslErr[s] = n ? SSL_ERROR_SSL : SSL_ERROR_SYSCALL; return n ? -1 : 0; }
  ssize_t r = simRead(S.sslFd[s], b, n);
  S.sslErr[s] = r > 0 ? SSL_ERROR_NONE : r == 0 ? SSL_ERROR_ZERO_RETURN : SSL_ERROR_SYSCALL; return r;
}
int SSL_write(SSL* s, const void* b, int n) {
  if (!S.sslFd.count(s)) return REALF(SSL_write)(s, b, n);
  if (n <= 0) { S.sslErr[s] = SSL_ERROR_SSL; return -1; }
  ssize_t r = simWrite(S.sslFd[s], b, n, true);
  if (r != n) { S.faulted = true; r = -1; }  // without partial writes, all or an error
  S.sslErr[s] = r > 0 ? SSL_ERROR_NONE : SSL_ERROR_SYSCALL; return r;
}
int SSL_read_ex(SSL* s, void* b, size_t n, size_t* m) { if (!S.sslFd.count(s)) return REALF(SSL_read_ex)(s, b, n, m); int r = SSL_read(s, b, n); *m = r > 0 ? r : 0; return r > 0; }
int SSL_write_ex(SSL* s, const void* b, size_t n, size_t* m) { if (!S.sslFd.count(s)) return REALF(SSL_write_ex)(s, b, n, m); int r = SSL_write(s, b, n); *m = r > 0 ? r : 0; return r > 0; }
int SSL_get_error(const SSL* s, int r) { if (!S.sslFd.count((SSL*)s)) return REALF(SSL_get_error)(s, r); return r > 0 ? SSL_ERROR_NONE : S.sslErr[(SSL*)s]; }
int SSL_pending(const SSL* s) { if (!S.sslFd.count((SSL*)s)) return REALF(SSL_pending)(s); return 0; }
int SSL_shutdown(SSL* s) {
  auto i = S.sslFd.find(s); if (i == S.sslFd.end()) return REALF(SSL_shutdown)(s);
  auto* f = sfd(i->second); if (f && f->c) f->c->refs[f->side] = 0;  // the peer is told that nothing more comes
  return 0;
}
void SSL_free(SSL* s) { S.sslFd.erase(s); S.sslErr.erase(s); REALF(SSL_free)(s); }
}

// ---- one channel ---------------------------------------------------------------------------------------------
static unsigned char byteAt(int side, size_t i) { return (unsigned char)((i * 37 + i / 251 + side * 101 + 11) % 255 + 1); }
// sends and receives in order: positive sends that many bytes, -1 - n receives n bytes
using Script = std::vector<long>;
struct Side { Bytes attempted; size_t received = 0, sent = 0; bool finished = false, threw = false; };
static void playSide(cm::IPartyCommunicationAgent& a, int side, const Script& s, Side* st, const std::function<size_t()>& delivered, const std::string& nm) {
  auto& my = st[side]; auto& other = st[1 - side];
  for (long op : s) {
    bool sending = op >= 0; size_t n = sending ? op : -1 - op;
    try {
      if (sending) {
        Bytes b(n); for (size_t i = 0; i < n; i++) b[i] = byteAt(side, my.attempted.size() + i);
        my.attempted.insert(my.attempted.end(), b.begin(), b.end());
        a.send(b); my.sent += n;
        evals(); check(delivered() == my.attempted.size(), "a send that reported success did not hand over all bytes", [&] { return nm + ": " + str(delivered()) + " of " + str(my.attempted.size()); });
      } else {
        auto got = a.receive(n); evals();
        check(got.size() == n, "length of received data", [&] { return nm; });
        check(my.received + n <= other.attempted.size() && std::equal(got.begin(), got.end(), other.attempted.begin() + my.received), "received data the peer did not send", [&] { return nm + ": " + str(n) + " bytes at " + str(my.received) + ", the peer sent " + str(other.attempted.size()); });
        my.received += n;
      }
    } catch (const Skip&) { throw; } catch (const std::exception& e) {
      bool starved = !sending && other.finished && other.attempted.size() < my.received + n;
      check(S.faulted || starved || other.threw, "failure without a cause", [&] { return nm + ": " + e.what(); });
      my.threw = true; break;
    }
    auto t = a.getTrafficStatistics();
    check(t.first == my.sent && t.second == my.received, "traffic counters", [&] { return nm + ": " + str(t.first) + "/" + str(t.second) + " instead of " + str(my.sent) + "/" + str(my.received); });
  }
  my.finished = true;
  state(mix(hashStr(nm), mix(mix(side, my.threw), mix(my.received, my.sent * 2 + S.faulted))));
}
static cm::SocketPartyCommunicationAgent::TlsInfo tlsInfo(bool tls) { return {tls, "cert", "key", "/dev/null", tls ? "ca" : ""}; }
static std::shared_ptr<cm::PartyCommunicationAgentTrafficRecorder> recorder() { return std::make_shared<cm::PartyCommunicationAgentTrafficRecorder>(); }
// client: side 0, server: side 1
static void channel(bool tls, const Script& client, const Script& server, bool dataFaults, bool setupFaults, const std::string& nm, bool deprecated = false) {
  note(nm); World2 w; Side st[2]; bool up[2] = {false, false}, failedUp[2] = {false, false};
  S.noFault.insert({0, 5000});
  run([&] {
    auto body = [&](int side) {
      int host = side == 1 ? 0 : 1; S.hostOf[self()] = host;
      try {
        std::unique_ptr<SA> a;
        if (side == 1) {
          bool f = S.setupFaults; S.setupFaults = false; int fd = listening(5000); S.setupFaults = f;
          a = deprecated ? std::make_unique<SA>(fd, 5000, tls, "dir", recorder()) : std::make_unique<SA>(fd, 5000, tlsInfo(tls), recorder(), 1);
        } else a = deprecated ? std::make_unique<SA>("host0", 5000, tls, "dir", recorder()) : std::make_unique<SA>("host0", 5000, tlsInfo(tls), recorder(), 1);
        up[side] = true;
        std::shared_ptr<Conn> c; for (auto& f : S.fds) if (f.second.c && f.second.host == host) c = f.second.c;
        S.dataFaults = dataFaults; S.setupFaults = false;
        playSide(*a, side, side ? server : client, st, [c, side] { return c->p[side].total; }, nm);
      } catch (const Skip&) { throw; } catch (const std::exception& e) {
        failedUp[side] = true; st[side].threw = st[side].finished = true;
        check(S.faulted || st[1 - side].threw, "connection refused without a cause", [&] { return nm + ": " + e.what(); });
      }
      if (!up[side]) {  // the process ends
        for (auto& f : S.fds) if (f.second.c && f.second.host == host) f.second.c->refs[f.second.side] = 0;
        for (auto& l : S.listeners) if (l->host == host) { l->open = false; for (auto& c : l->pending) c->refs[1] = 0; }
      }
      S.done.insert(self());
    };
    S.setupFaults = setupFaults;
    int a = spawn([&] { body(1); }, "server"), b = spawn([&] { body(0); }, "client"); S.hostOf[a] = 0; S.hostOf[b] = 1;
    join(a); join(b);
  }, [] { RunOpts o; o.horizon = 200000; return o; }());
  evals();
}
static const long sizes[] = {1, 0, 3, 8191, 8192, 8193, 20000};
// one direction, every way the receiver cuts the stream
static void oneWay() {
  bool tls = choose(2, "tls"), up = choose(2, "direction"); int n = choose(thorough ? 3 : 2, "messages") + 1; Script s, r; long total = 0;
  for (int i = 0; i < n; i++) { s.push_back(sizes[choose(7, "size")]); total += s.back(); }
  int cut = choose(6, "cut");
  if (cut == 0) for (auto x : s) r.push_back(-1 - x);
  if (cut == 1) r = {-1 - total}; if (cut == 2) { if (!total) throw Skip(); r = {-1 - 1, -1 - (total - 1)}; } if (cut == 3) r = {-1 - (total + 1)};
  if (cut == 4) r = {-1 - total / 2, -1 - 0, -1 - (total - total / 2)}; if (cut == 5) r = {-1 - total, -1 - 1};
  channel(tls, up ? s : r, up ? r : s, true, false, std::string(tls ? "encrypted" : "plain") + (up ? " to server" : " to client") + " sizes " + vec(s) + " received as " + vec(r));
}
// both directions in turn
static void pingPong() {
  bool tls = choose(2, "tls"), dep = choose(2, "constructor"); int rounds = choose(2, "rounds") + 1; Script a, b; static const long sz[] = {1, 9000, 100};
  for (int i = 0; i < rounds; i++) { long x = sz[choose(3, "size")], y = sz[choose(2, "size")]; a.push_back(x); b.push_back(-1 - x); b.push_back(y); a.push_back(-1 - y); }
  channel(tls, a, b, true, false, std::string(tls ? "encrypted" : "plain") + " rounds " + vec(a), dep);
}
// establishing the connection
static void setup() {
  bool tls = choose(2, "tls"), dep = choose(2, "constructor");
  channel(tls, {5, -1 - 7}, {-1 - 5, 7}, false, true, std::string("establishing") + (tls ? " encrypted" : " plain") + (dep ? " old" : ""), dep);
}
// ---- typed transfers
template <class T> static void typed(cm::IPartyCommunicationAgent& a, bool sending, const std::vector<T>& v, const char* what) {
  if (sending) a.template sendT<T>(v); else { auto g = a.template receiveT<T>(v.size()); evals(); check(g == v, std::string("typed transfer of ") + what, [&] { return str(v.size()) + " values"; }); state(mix(hashStr(what), v.size())); }
}
static void types() {
  bool tls = choose(2, "tls"); int n = choose(thorough ? 40 : 20, "count"), pat = choose(4, "pattern"); World2 w; S.noFault.insert({0, 5000}); note("types " + str(n) + " pattern " + str(pat));
  auto bit = [&](int i) { return pat == 0 ? i % 3 == 0 : pat == 1 ? true : pat == 2 ? i == n - 1 : (i * 7 % 5) < 2; };
  std::vector<bool> bits; std::vector<uint64_t> u64; std::vector<uint32_t> u32; std::vector<uint16_t> u16; std::vector<double> d; Bytes by;
  for (int i = 0; i < n; i++) { bits.push_back(bit(i)); u64.push_back(bit(i) ? 0x8000000000000001ull * (i + 1) : ~0ull - i); u32.push_back(u64.back() >> 16); u16.push_back(u64.back() >> 8); d.push_back(bit(i) ? -1.5 * i : 1e300); by.push_back(u64.back()); }
  run([&] {
    auto body = [&](int side) {
      S.hostOf[self()] = 1 - side; std::unique_ptr<SA> a = side ? std::make_unique<SA>(listening(5000), 5000, tlsInfo(tls), recorder(), 1) : std::make_unique<SA>("host0", 5000, tlsInfo(tls), recorder(), 1);
      for (int dir = 0; dir < 2; dir++) {
        bool s = side == dir;
        typed<bool>(*a, s, bits, "bits"); typed<uint64_t>(*a, s, u64, "64-bit numbers"); typed<uint32_t>(*a, s, u32, "32-bit numbers"); typed<uint16_t>(*a, s, u16, "16-bit numbers"); typed<double>(*a, s, d, "doubles"); typed<unsigned char>(*a, s, by, "bytes");
        if (s) { a->sendBool(bits); a->sendInt64(u64); a->sendSingleT<uint64_t>(77 + n); a->sendSingleT<int>(-5); }
        else { check(a->receiveBool(n) == bits, "bits"); check(a->receiveInt64(n) == u64, "numbers"); check(a->receiveSingleT<uint64_t>() == (uint64_t)77 + n, "single number"); check(a->receiveSingleT<int>() == -5, "single int"); evals(4); }
      }
    };
    int x = spawn([&] { body(1); }, "server"), y = spawn([&] { body(0); }, "client"); S.hostOf[x] = 0; S.hostOf[y] = 1; join(x); join(y);
  });
}
// ---- factories: who talks to whom
static void factories() {
  int n = choose(2, "parties") + 2, gap = choose(3, "gap"), per = choose(thorough ? 3 : 2, "agents") + 1, order = choose(n == 2 ? 2 : 6, "start order"); bool tls = choose(2, "tls"), same = choose(2, "one host");
  note(str(n) + " parties gap " + str(gap) + " agents " + str(per) + (tls ? " encrypted" : "") + (same ? " one host" : "")); World2 w;
  // port of the pair (server s, client c)
  auto portOf = [&](int s, int c) { return 6000 + (same ? s * 100 : 0) + c * (gap == 0 ? 1 : gap == 1 ? 2 : 10); };
  auto host = [&](int p) { return same ? 0 : p; };
  for (int s = 0; s < n; s++) for (int c = s + 1; c < n; c++) S.noFault.insert({host(s), portOf(s, c)});
  std::vector<int> perm; for (int i = 0; i < n; i++) perm.push_back(i); for (int i = 0; i < order; i++) std::next_permutation(perm.begin(), perm.end());
  std::vector<std::map<std::string, uint64_t>> traffic(n);
  run([&] {
    auto body = [&](int p) {
      S.hostOf[self()] = host(p);
      std::map<int, cm::SocketPartyCommunicationAgentFactory::PartyInfo> infos;
      for (int q = 0; q < n; q++) if (q != p) infos[q] = {q < p ? "host" + str(host(q)) : "", q < p ? portOf(q, p) : portOf(p, q)};
      auto col = std::make_shared<fbpcf::util::MetricCollector>("m" + str(p));
      cm::SocketPartyCommunicationAgentFactory f(p, infos, tlsInfo(tls), col, 1);
      int threw = 0; try { f.create(p, "self"); } catch (const std::runtime_error&) { threw++; } try { f.create(n + 3, "unknown"); } catch (const std::runtime_error&) { threw++; }
      check(threw == 2, "agent for oneself or an unknown party");
      std::vector<std::vector<std::unique_ptr<cm::IPartyCommunicationAgent>>> ag(n);
      for (int i = 0; i < per; i++) for (int q = 0; q < n; q++) if (q != p) ag[q].push_back(f.create(q, "agent" + str(i) + "-" + str(q)));
      for (int i = 0; i < per; i++) for (int q = 0; q < n; q++) if (q != p) { ag[q][i]->sendSingleT<uint64_t>(p * 100 + q * 10 + i); if (i == 1) ag[q][i]->sendBool({true, false, true}); }
      for (int i = per - 1; i >= 0; i--) for (int q = 0; q < n; q++) if (q != p) {
        auto g = ag[q][i]->receiveSingleT<uint64_t>(); if (i == 1) check(ag[q][i]->receiveBool(3) == std::vector<bool>({true, false, true}), "bits");
        evals(); state(mix(mix(g, n * 10 + gap), mix(per * 6 + order, tls * 2 + same)));
        check(g == (uint64_t)q * 100 + p * 10 + i, "agents of a pair are not connected to each other", [&] { return "party " + str(p) + " from " + str(q) + " agent " + str(i) + " got " + str(g); });
        auto t = ag[q][i]->getTrafficStatistics(); uint64_t want = 8 + (i == 1); check(t.first == want && t.second == want, "traffic counters");
      }
      auto m = col->collectMetrics(); auto all = m; (void)all;
      for (int i = 0; i < per; i++) for (int q = 0; q < n; q++) if (q != p) {
        auto k = "agent" + str(i) + "-" + str(q); bool seen = false;
        for (const auto& [key, v] : m.items()) if (key.asString().find(k) != std::string::npos) { seen = true; check(v.at("sent_data").asInt() == 8 + (i == 1) && v.at("received_data").asInt() == 8 + (i == 1), "metrics of an agent", [&] { return k; }); }
        check(seen, "agent without metrics", [&] { return k; });
      }
      ag.clear(); S.done.insert(self());
    };
    std::vector<int> ids(n); for (int p : perm) { ids[p] = spawn([&, p] { body(p); }, ("party" + str(p)).c_str()); S.hostOf[ids[p]] = host(p); }
    for (int p = 0; p < n; p++) join(ids[p]);
  });
}
static void args() {
  bool use = choose(2, "use"); int home = choose(3, "home"); const char* old = getenv("HOME"); std::string keep = old ? old : "";
  if (home == 0) unsetenv("HOME"); else setenv("HOME", home == 1 ? "/h" : "", 1);
  auto t = cm::getTlsInfoFromArgs(use, "ca", "b/cert", "key", "pass"); std::string h = home == 1 ? "/h" : "";
  auto want = [&](const char* x) { return use ? h + "/" + x : std::string(); };
  evals(); state(use * 3 + home); check(t.useTls == use && t.rootCaCertPath == want("ca") && t.certPath == want("b/cert") && t.keyPath == want("key") && t.passphrasePath == want("pass"), "paths of the certificates");
  if (old) setenv("HOME", keep.c_str(), 1); else unsetenv("HOME");
}
// ---- how long a party waits for its peer (virtual time: sleeps and bounded waits add up)
static void patience() {
  static const int T[] = {1, 2, 7, 60, 1800}; static const double A[] = {0, 0.5, 0.9, 2.5, 1e6};
  bool server = choose(2, "side"); int form = choose(4, "form"), t = T[choose(5, "timeout")]; double late = A[choose(5, "arrival")] * t;
  if (form >= 2) assume(t == 1800);
  std::string nm = std::string(server ? "server" : "client") + " form " + str(form) + " timeout " + str(t) + " s, peer after " + str(late) + " s"; note(nm);
  World2 w; S.noFault.insert({0, 5000}); S.arrival = late; bool up = false, failed = false; double took = 0;
  run([&] {
    using F = cm::SocketPartyCommunicationAgentFactory;
    auto make = [&](int p, int limit, std::function<void()> then) {
      auto col = std::make_shared<fbpcf::util::MetricCollector>("m"); std::map<int, F::PartyInfo> info{{1 - p, {p ? "host0" : "", 5000}}};
      if (form == 1 || form == 3) { auto f = form == 1 ? std::make_unique<F>(p, info, tlsInfo(false), col, limit) : std::make_unique<F>(p, info, tlsInfo(false), col); then(); }
      else { auto a = p ? (form ? std::make_unique<SA>("host0", 5000, false, "dir", recorder()) : std::make_unique<SA>("host0", 5000, tlsInfo(false), recorder(), limit))
                        : (form ? std::make_unique<SA>(listening(5000), 5000, false, "dir", recorder()) : std::make_unique<SA>(listening(5000), 5000, tlsInfo(false), recorder(), limit)); then(); }
    };
    auto body = [&](bool waiter) {
      int p = waiter == server ? 0 : 1; S.hostOf[self()] = p; if (waiter) { S.waiter = self(); mc::sleptNs = 0; }
      auto arrived = [&] { if (waiter) { up = true; took = elapsed(); } };
      try { make(p, waiter ? t : 100000, arrived); } catch (const Skip&) { throw; } catch (const std::exception&) { if (waiter && !up) { failed = true; took = elapsed(); } }
      for (auto& f : S.fds) if (f.second.c && f.second.host == p) f.second.c->refs[f.second.side] = 0;
      for (auto& l : S.listeners) if (l->host == p) l->open = false;
      S.done.insert(self());
    };
    int a = spawn([&] { body(true); }, "waiting"), b = spawn([&] { body(false); }, "peer"); S.hostOf[a] = server ? 0 : 1; S.hostOf[b] = server ? 1 : 0; join(a); join(b);
  }, [] { RunOpts o; o.horizon = 2000000; return o; }());
  evals(); state(mix(hashStr(nm), up * 2 + failed));
  if (late < t) check(up && took <= t, "a peer that turned up in time was not waited for", [&] { return nm + ": gave up after " + str(took) + " s"; });
  else check(failed && took >= t && took <= 1.5 * t + 2, "the time waited for an absent peer is not the configured one", [&] { return nm + (up ? ": connected after " : ": gave up after ") + str(took) + " s"; });
}
int main(int c, char** v) {
  signal(SIGPIPE, SIG_IGN);
  return harnessMain(c, v, "C16", {
    {"one direction", oneWay, 2, 3}, {"both directions", pingPong, 2, 3}, {"establishing a connection", setup, 3, 5},
    {"typed transfers", types}, {"factories", factories, 2, 3}, {"certificate paths", args}, {"patience", patience, 0, 0},
  });
}
