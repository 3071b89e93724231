// C35: encrypted channels with the real TLS library over simulated sockets: who is accepted, and what tampering can do.
#include "mc/os.h"
#include <openssl/evp.h>
#include <openssl/pem.h>
#include <openssl/x509v3.h>
#include <sys/mman.h>
#include "fbpcf/engine/communication/SocketPartyCommunicationAgentFactory.h"
using namespace mc;
namespace cm = fbpcf::engine::communication;
using SA = cm::SocketPartyCommunicationAgent; using Bytes = std::vector<unsigned char>;

// ---- the TLS library runs over the simulated sockets
static int bioWrite(BIO* b, const char* d, int n) { return simWrite((int)(intptr_t)BIO_get_data(b), d, n, true); }
static int bioRead(BIO* b, char* d, int n) { return simRead((int)(intptr_t)BIO_get_data(b), d, n); }
static long bioCtrl(BIO*, int cmd, long, void*) { return cmd == BIO_CTRL_FLUSH; }
extern "C" {
int SSL_set_fd(SSL* s, int fd) {
  if (!sfd(fd)) return REALF(SSL_set_fd)(s, fd);
  static BIO_METHOD* m = nullptr;
  if (!m) { m = BIO_meth_new(BIO_get_new_index() | BIO_TYPE_SOURCE_SINK, "simulated"); BIO_meth_set_write(m, bioWrite); BIO_meth_set_read(m, bioRead); BIO_meth_set_ctrl(m, bioCtrl); }
  BIO* b = BIO_new(m); BIO_set_data(b, (void*)(intptr_t)fd); BIO_set_init(b, 1); SSL_set_bio(s, b, b); S.sslFd[s] = fd; return 1;
}
int SSL_get_fd(const SSL* s) { auto i = S.sslFd.find((SSL*)s); if (!S.on || i == S.sslFd.end()) return REALF(SSL_get_fd)(s); return i->second; }
void SSL_free(SSL* s) { S.sslFd.erase(s); REALF(SSL_free)(s); }
}

// ---- certificates
static EVP_PKEY* newKey() { static auto* c = EVP_PKEY_CTX_new_id(EVP_PKEY_ED25519, nullptr); static bool i = EVP_PKEY_keygen_init(c) > 0; (void)i; EVP_PKEY* k = nullptr; EVP_PKEY_keygen(c, &k); return k; }
struct Cert { X509* x; EVP_PKEY* k; };
static void ext(X509* x, X509* issuer, int nid, const std::string& v) {
  X509V3_CTX c; X509V3_set_ctx_nodb(&c); X509V3_set_ctx(&c, issuer, x, nullptr, nullptr, 0);
  auto* e = X509V3_EXT_conf_nid(nullptr, &c, nid, (char*)v.c_str()); if (!e) abort(); X509_add_ext(x, e, -1); X509_EXTENSION_free(e);
}
static Cert make(const std::string& cn, const Cert* issuer, bool ca, const std::string& san, int validity, const char* usage) {
  static long serial = 1; Cert c{X509_new(), newKey()}; X509_set_version(c.x, 2); ASN1_INTEGER_set(X509_get_serialNumber(c.x), 1000 + serial++);
  const long y = 365L * 86400; long from = validity == 1 ? -20 : validity == 2 ? 10 : -10, to = validity == 1 ? -5 : 30;
  X509_time_adj_ex(X509_getm_notBefore(c.x), from * 365, 0, nullptr); X509_time_adj_ex(X509_getm_notAfter(c.x), to * 365, 0, nullptr); (void)y;
  X509_set_pubkey(c.x, c.k); auto* n = X509_get_subject_name(c.x); X509_NAME_add_entry_by_txt(n, "CN", MBSTRING_ASC, (const unsigned char*)cn.c_str(), -1, -1, 0);
  X509* is = issuer ? issuer->x : c.x; X509_set_issuer_name(c.x, X509_get_subject_name(is));
  ext(c.x, is, NID_basic_constraints, ca ? "critical,CA:TRUE" : "CA:FALSE");
  if (!san.empty()) ext(c.x, is, NID_subject_alt_name, san);
  if (usage) ext(c.x, is, NID_ext_key_usage, usage);
  X509_sign(c.x, issuer ? issuer->k : c.k, nullptr); return c;
}
static std::string memFile(const std::function<void(BIO*)>& f) {
  BIO* b = BIO_new(BIO_s_mem()); f(b); char* p; long n = BIO_get_mem_data(b, &p); int fd = memfd_create("pem", 0); if (::write(fd, p, n) != n) abort(); BIO_free(b); return "/proc/self/fd/" + std::to_string(fd);
}
static std::string pem(std::vector<X509*> v) { return memFile([&](BIO* b) { for (auto* x : v) PEM_write_bio_X509(b, x); }); }
static std::string pemKey(EVP_PKEY* k, const std::string& pass) { return memFile([&](BIO* b) { PEM_write_bio_PKCS8PrivateKey(b, k, pass.empty() ? nullptr : EVP_aes_128_cbc(), pass.empty() ? nullptr : pass.c_str(), pass.size(), nullptr, nullptr); }); }
static std::string text(const std::string& s) { return memFile([&](BIO* b) { BIO_write(b, s.data(), s.size()); }); }

static const std::string host = "host0.example.org";
struct NameKind { const char* what; const char* cn; const char* san; bool ok; };
static const NameKind nameKinds[] = {
  {"exact", "x", "DNS:host0.example.org", true}, {"other", "x", "DNS:host1.example.org", false}, {"wildcard", "x", "DNS:*.example.org", true},
  {"too wide a wildcard", "x", "DNS:*.org", false}, {"upper case", "x", "DNS:HOST0.EXAMPLE.ORG", true}, {"common name contradicted", "host0.example.org", "DNS:host1.example.org", false},
  {"common name", "host0.example.org", "", true}, {"other common name", "host1.example.org", "", false}, {"second name", "x", "DNS:host1.example.org,DNS:host0.example.org", true},
  {"longer", "x", "DNS:host0.example.org.evil.com", false}, {"prefixed", "x", "DNS:xhost0.example.org", false}, {"parent", "x", "DNS:example.org", false}};
static const int kNames = 12;
enum Issuer { TRUSTED, OTHER, IMPOSTOR, SELF, VIA_INTERMEDIATE, LEAF_SIGNED, kIssuers };
static const char* issuerNames[] = {"trusted issuer", "other issuer", "other issuer of the same name", "self-signed", "intermediate not sent", "signed by an ordinary certificate"};
struct World35 {
  Cert ca, other, impostor, inter, plainLeaf; std::string caFile, otherFile, bothFile, wrongKey, pass1, pass2, passLong;
  struct Leaf { Cert c; std::string file, key, lockedKey; };
  std::map<int, Leaf> leaves;
  World35() {
    ca = make("ca", nullptr, true, "", 0, nullptr); impostor = make("ca", nullptr, true, "", 0, nullptr); other = make("other ca", nullptr, true, "", 0, nullptr); inter = make("inter", &ca, true, "", 0, nullptr); plainLeaf = make("plain", &ca, false, "DNS:" + host, 0, nullptr);
    caFile = pem({ca.x}); otherFile = pem({other.x}); bothFile = pem({other.x, ca.x}); wrongKey = pemKey(newKey(), ""); pass1 = text("correct-horse\nsecond line\n"); pass2 = text("wrong"); passLong = text("");
  }
  Leaf& leaf(int name, int issuer, int validity, int usage) {
    auto& l = leaves[((name * 8 + issuer) * 4 + validity) * 4 + usage];
    if (l.file.empty()) {
      const Cert* is = issuer == TRUSTED ? &ca : issuer == OTHER ? &other : issuer == IMPOSTOR ? &impostor : issuer == SELF ? nullptr : issuer == VIA_INTERMEDIATE ? &inter : &plainLeaf;
      static const char* u[] = {nullptr, "serverAuth", "clientAuth"};
      l.c = make(nameKinds[name].cn, is, false, nameKinds[name].san, validity, u[usage]); l.file = pem({l.c.x}); l.key = pemKey(l.c.k, ""); l.lockedKey = pemKey(l.c.k, "correct-horse");
    }
    return l;
  }
};
static World35& certs() { static World35 w; return w; }

// ---- one connection
struct Outcome { bool up[2] = {false, false}, threw[2] = {false, false}, finished[2] = {false, false}; std::string why[2]; Bytes got[2]; std::vector<unsigned char> wire[2]; const char* version = ""; };
static const std::string kSecret = "a secret of exactly 32 bytes....";
static Bytes payload(int side, size_t n) { Bytes b(n); for (size_t i = 0; i < n; i++) b[i] = side * 128 + kSecret[i % 32]; return b; }
using MakeAgent = std::function<std::unique_ptr<SA>(int side, int fd)>;
static void connectAndTalk(Outcome& o, const MakeAgent& mk, const std::vector<int>& sizes, bool mayStall, const std::function<void(int)>& impostor = nullptr, int impostorSide = -1) {
  run([&] {
    auto body = [&](int side) {
      int h = 1 - side; S.hostOf[self()] = h;
      int fd = side ? listening(5000) : -1;
      if (side == impostorSide) { impostor(fd); }
      else try {
        std::unique_ptr<SA> a; { a = mk(side, fd); } o.up[side] = true;
        for (size_t i = 0; i < sizes.size(); i++) {
          if ((int)(i % 2) == side) a->send(payload(side, sizes[i])); else { auto g = a->receive(sizes[i]); o.got[side].insert(o.got[side].end(), g.begin(), g.end()); }
        }
      } catch (const Skip&) { throw; } catch (const std::exception& e) { o.threw[side] = true; o.why[side] = e.what(); }
      o.finished[side] = true;
      for (auto& f : S.fds) if (f.second.c && f.second.host == h) f.second.c->refs[f.second.side] = 0;
      for (auto& l : S.listeners) if (l->host == h) { l->open = false; for (auto& c : l->pending) c->refs[1] = 0; }
      S.done.insert(self());
    };
    int a = spawn([&] { body(1); }, "server"), b = spawn([&] { body(0); }, "client"); S.hostOf[a] = 0; S.hostOf[b] = 1; join(a); join(b);
  }, [&] { RunOpts r; r.horizon = 500000; r.failOnDeadlock = !mayStall; return r; }());
}
static std::shared_ptr<cm::PartyCommunicationAgentTrafficRecorder> recorder() { return std::make_shared<cm::PartyCommunicationAgentTrafficRecorder>(); }
static Bytes sent(int side, const std::vector<int>& sizes) { Bytes b; for (size_t i = side; i < sizes.size(); i += 2) { auto p = payload(side, sizes[i]); b.insert(b.end(), p.begin(), p.end()); } return b; }
static void noSecrets(const Outcome& o, const std::string& nm) {
  for (int s = 0; s < 2; s++) for (int t = 0; t < 2; t++) { auto p = payload(t, 16); evals(); check(std::search(o.wire[s].begin(), o.wire[s].end(), p.begin(), p.end()) == o.wire[s].end(), "plain data on an encrypted channel", [&] { return nm; }); }
}
// which servers a client accepts
static void authentication() {
  int issuer = choose(kIssuers, "issuer"), name = choose(kNames, "name"), validity = choose(3, "validity"), usage = choose(3, "usage"), roots = choose(6, "roots"); auto& w = certs();
  auto& l = w.leaf(name, issuer, validity, usage);
  std::string root = roots == 0 ? w.caFile : roots == 1 ? w.otherFile : roots == 2 ? w.bothFile : roots == 3 ? "/proc/self/no-such-file" : roots == 4 ? "" : l.file;
  bool trusted = issuer == TRUSTED ? roots == 0 || roots == 2 : issuer == OTHER ? roots == 1 || roots == 2 : false;
  if (issuer == SELF && roots == 5) trusted = true;
  bool want = trusted && nameKinds[name].ok && validity == 0 && usage != 2;
  std::string nm = std::string(issuerNames[issuer]) + ", name " + nameKinds[name].what + ", validity " + str(validity) + ", usage " + str(usage) + ", roots " + str(roots); note(nm);
  World2 world; S.names[host] = 0; S.noFault.insert({0, 5000}); Outcome o;
  S.onWire = [&](int side, size_t, std::vector<unsigned char>& b, Pipe&) { o.wire[side].insert(o.wire[side].end(), b.begin(), b.end()); };
  std::vector<int> sizes{40, 33};
  connectAndTalk(o, [&](int side, int fd) { return side ? std::make_unique<SA>(fd, 5000, SA::TlsInfo{true, l.file, l.key, "", ""}, recorder(), 1) : std::make_unique<SA>(host, 5000, SA::TlsInfo{true, "", "", "", root}, recorder(), 1); }, sizes, false);
  evals(2); state(mix(hashStr(nm), mix(o.up[0] * 2 + o.up[1], o.threw[0] * 2 + o.threw[1])));
  if (want) { check(o.up[0] && o.up[1] && o.got[0] == sent(1, sizes) && o.got[1] == sent(0, sizes), "a proper server is refused", [&] { return nm + ": " + o.why[0] + " / " + o.why[1]; }); }
  else { check(!o.up[0], "a client accepted a server it cannot trust", [&] { return nm; }); check(o.got[1].empty(), "data sent to a server that cannot be trusted", [&] { return nm; }); }
  noSecrets(o, nm);
}
// what a server needs
static void serverKeys() {
  int key = choose(5, "key"), pass = choose(4, "passphrase"), cert = choose(3, "certificate"); bool dir = choose(2, "constructor"); auto& w = certs(); auto& l = w.leaf(0, TRUSTED, 0, 0);
  std::string k = key == 0 ? l.key : key == 1 ? l.lockedKey : key == 2 ? w.wrongKey : key == 3 ? "/proc/self/no-such-file" : l.file, c = cert == 0 ? l.file : cert == 1 ? "/proc/self/no-such-file" : l.key, p = pass == 0 ? w.pass1 : pass == 1 ? w.pass2 : pass == 2 ? "" : w.passLong;
  bool want = cert == 0 && (key == 0 || (key == 1 && pass == 0)); std::string nm = "key " + str(key) + " passphrase " + str(pass) + " certificate " + str(cert) + (dir ? " directory" : ""); note(nm);
  std::string d;
  if (dir) {
    char t[] = "/tmp/c35-XXXXXX"; d = mkdtemp(t);
    auto link = [&](const char* n, const std::string& f) { if (!f.empty() && symlink(f.c_str(), (d + "/" + n).c_str())) abort(); };
    link("cert.pem", c); link("key.pem", k); link("passphrase.pem", p);
  }
  World2 world; S.names[host] = 0; S.noFault.insert({0, 5000}); Outcome o; std::vector<int> sizes{40, 33};
  connectAndTalk(o, [&](int side, int fd) {
    if (!side) return std::make_unique<SA>(host, 5000, SA::TlsInfo{true, "", "", "", w.caFile}, recorder(), 1);
    return dir ? std::make_unique<SA>(fd, 5000, true, d, recorder()) : std::make_unique<SA>(fd, 5000, SA::TlsInfo{true, c, k, p, ""}, recorder(), 1);
  }, sizes, false);
  if (dir) { for (auto n : {"cert.pem", "key.pem", "passphrase.pem"}) unlink((d + "/" + n).c_str()); rmdir(d.c_str()); }
  evals(); state(mix(hashStr(nm), o.up[0] * 2 + o.up[1]));
  if (want) check(o.up[0] && o.up[1] && o.got[0] == sent(1, sizes) && o.got[1] == sent(0, sizes), "a proper server does not work", [&] { return nm + ": " + o.why[0] + " / " + o.why[1]; });
  else check(!o.up[0] && !o.up[1], "a connection without the server's key", [&] { return nm; });
}
// a peer that offers other versions of the protocol only
static void versions() {
  int side = choose(2, "impostor"), lo = choose(4, "from"), hi = choose(4, "to"); bool dir = choose(2, "constructor"); if (lo > hi) throw Skip(); static const int v[] = {TLS1_VERSION, TLS1_1_VERSION, TLS1_2_VERSION, TLS1_3_VERSION}; auto& w = certs(); auto& l = w.leaf(0, TRUSTED, 0, 0);
  std::string nm = std::string(side ? "server" : "client") + " speaking versions " + str(lo) + " to " + str(hi) + (dir ? " directory" : ""); note(nm); World2 world; S.names[host] = 0; S.noFault.insert({0, 5000}); Outcome o; std::vector<int> sizes{16, 16}; bool impostorUp = false;
  std::string d;
  if (dir) { char t[] = "/tmp/c35-XXXXXX"; d = mkdtemp(t); if (symlink(l.file.c_str(), (d + "/cert.pem").c_str()) || symlink(l.key.c_str(), (d + "/key.pem").c_str())) abort(); }
  connectAndTalk(o, [&](int s, int fd) {
    if (!s) return dir ? std::make_unique<SA>(host, 5000, true, d, recorder()) : std::make_unique<SA>(host, 5000, SA::TlsInfo{true, "", "", "", w.caFile}, recorder(), 1);
    return dir ? std::make_unique<SA>(fd, 5000, true, d, recorder()) : std::make_unique<SA>(fd, 5000, SA::TlsInfo{true, l.file, l.key, "", ""}, recorder(), 1);
  }, sizes, false, [&](int fd) {
    auto* ctx = SSL_CTX_new(side ? TLS_server_method() : TLS_client_method()); SSL_CTX_set_min_proto_version(ctx, v[lo]); SSL_CTX_set_max_proto_version(ctx, v[hi]); SSL_CTX_set_cipher_list(ctx, "ALL:@SECLEVEL=0");
    if (side) { SSL_CTX_use_certificate(ctx, l.c.x); SSL_CTX_use_PrivateKey(ctx, l.c.k); }
    auto* s = SSL_new(ctx); SSL_CTX_free(ctx); int k;
    if (side) { fd_set r; FD_ZERO(&r); FD_SET(fd, &r); if (select(fd + 1, &r, nullptr, nullptr, nullptr) <= 0) { SSL_free(s); return; } k = ::accept(fd, nullptr, nullptr); }
    else { k = ::socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = htons(5000); if (::connect(k, (sockaddr*)&a, sizeof a)) { SSL_free(s); return; } }
    SSL_set_fd(s, k); impostorUp = (side ? SSL_accept(s) : SSL_connect(s)) == 1;
    if (impostorUp) { char b[16]; auto p = payload(side, 16); if (side) { if (SSL_read(s, b, 16) == 16) SSL_write(s, p.data(), 16); } else { SSL_write(s, p.data(), 16); SSL_read(s, b, 16); } }
    SSL_free(s);
  }, side);
  if (dir) { unlink((d + "/cert.pem").c_str()); unlink((d + "/key.pem").c_str()); rmdir(d.c_str()); }
  evals(); state(mix(hashStr(nm), o.up[1 - side]));
  check(o.up[1 - side] == (hi == 3), hi == 3 ? "a peer with the current protocol is refused" : "an outdated version of the protocol is accepted", [&] { return nm + ": " + o.why[1 - side]; });
  if (hi == 3) check(!o.threw[1 - side] && o.got[1 - side] == payload(side, 16), "data of a peer", [&] { return nm + ": " + o.why[1 - side]; });
}
// somebody changes, drops, repeats or inserts a byte, or cuts the stream
static void tampering() {
  int side = choose(2, "direction"), kind = choose(thorough ? 12 : 5, "kind"); bool dir = choose(2, "constructor"); int pos = choose(1200, "position"); auto& w = certs(); auto& l = w.leaf(0, TRUSTED, 0, 0);
  static std::string d; if (d.empty()) d = "/proc/self/no-such-directory";
  std::string nm = "byte " + str(pos) + (side ? " from the server" : " from the client") + ", kind " + str(kind) + (dir ? ", old client" : ""); note(nm);
  World2 world; S.names[host] = 0; S.noFault.insert({0, 5000}); Outcome o; std::vector<int> sizes{40, 33, 17, 50}; bool hit = false;
  S.onWire = [&](int s, size_t off, std::vector<unsigned char>& b, Pipe& pipe) {
    o.wire[s].insert(o.wire[s].end(), b.begin(), b.end());
    if (s != side || (size_t)pos < off || (size_t)pos >= off + b.size()) return;
    hit = true; auto i = b.begin() + (pos - off);
    switch (kind) {
      case 0: *i ^= 1; break; case 1: b.erase(i, b.end()); pipe.lost = true; pipe.q.insert(pipe.q.end(), b.begin(), b.end()); break; case 2: b.erase(i); break; case 3: b.insert(i, *i); break; case 4: b.insert(i, 0); break;
      default: *i ^= 1 << (kind - 4); break;
    }
  };
  connectAndTalk(o, [&](int s, int fd) {
    if (s) return std::make_unique<SA>(fd, 5000, SA::TlsInfo{true, l.file, l.key, "", ""}, recorder(), 1);
    return dir ? std::make_unique<SA>(host, 5000, true, "", recorder()) : std::make_unique<SA>(host, 5000, SA::TlsInfo{true, "", "", "", w.caFile}, recorder(), 1);
  }, sizes, true);  // whoever changes lengths can make a reader wait for more
  if (!hit) { evals(); check(o.finished[0] && o.finished[1] && !o.threw[0] && !o.threw[1], "an untouched connection fails", [&] { return nm + ": " + o.why[0] + " / " + o.why[1]; }); throw Skip(); }
  for (int s = 0; s < 2; s++) {
    auto want = sent(1 - s, sizes); evals(); check(o.got[s].size() <= want.size() && std::equal(o.got[s].begin(), o.got[s].end(), want.begin()), "altered data was delivered", [&] { return nm; });
    if (!o.threw[s] && o.finished[s]) check(o.got[s] == want, "incomplete data without a failure", [&] { return nm; });
  }
  noSecrets(o, nm); state(mix(mix(side * 16 + kind, dir), mix(mix(o.got[0].size(), o.got[1].size()), o.threw[0] * 2 + o.threw[1])));
}
// somebody drops, repeats, reorders or reflects whole pieces of the stream
static void pieces() {
  int side = choose(2, "direction"), kind = choose(4, "kind"), at = choose(14, "piece"); bool dir = choose(2, "constructor"); int at2 = choose(thorough ? 15 : 1, "second piece") - 1; if (at2 >= 0 && at2 <= at) throw Skip(); auto& w = certs(); auto& l = w.leaf(0, TRUSTED, 0, 0);
  std::string nm = "piece " + str(at) + (at2 < 0 ? "" : " and " + str(at2)) + (side ? " from the server" : " from the client") + ", kind " + str(kind) + (dir ? ", old client" : ""); note(nm);
  World2 world; S.names[host] = 0; S.noFault.insert({0, 5000}); Outcome o; std::vector<int> sizes{40, 40, 40, 40, 40, 40}; int count[2] = {0, 0}; bool hit = false, hold = false; std::vector<unsigned char> held;
  S.onWire = [&](int s, size_t, std::vector<unsigned char>& b, Pipe&) {
    o.wire[s].insert(o.wire[s].end(), b.begin(), b.end()); int i = count[s]++; if (s != side) return;
    if (hold) { b.insert(b.end(), held.begin(), held.end()); hold = false; return; }
    if (i != at && i != at2) return;
    hit = true;
    switch (kind) {
      case 0: b.clear(); break; case 1: { auto c = b; b.insert(b.end(), c.begin(), c.end()); break; } case 2: hold = true; held = b; b.clear(); break;
      default: for (auto& f : S.fds) if (f.second.c && f.second.side == s) { f.second.c->p[1 - s].q.insert(f.second.c->p[1 - s].q.end(), b.begin(), b.end()); break; }
    }
  };
  connectAndTalk(o, [&](int s, int fd) {
    if (s) return std::make_unique<SA>(fd, 5000, SA::TlsInfo{true, l.file, l.key, "", ""}, recorder(), 1);
    return dir ? std::make_unique<SA>(host, 5000, true, "", recorder()) : std::make_unique<SA>(host, 5000, SA::TlsInfo{true, "", "", "", w.caFile}, recorder(), 1);
  }, sizes, true);
  if (!hit) throw Skip();
  for (int s = 0; s < 2; s++) {
    auto want = sent(1 - s, sizes); evals(); check(o.got[s].size() <= want.size() && std::equal(o.got[s].begin(), o.got[s].end(), want.begin()), "altered data was delivered", [&] { return nm; });
    if (!o.threw[s] && o.finished[s]) check(o.got[s] == want, "incomplete data without a failure", [&] { return nm; });
  }
  noSecrets(o, nm); state(mix(hashStr(nm), mix(mix(o.got[0].size(), o.got[1].size()), o.threw[0] * 2 + o.threw[1])));
}
// messages of any size arrive, and nothing of them is readable on the way
static void secrecy() {
  static const int sz[] = {0, 1, 32, 16383, 16384, 16385, 40000}; int a = choose(7, "size"), b = choose(7, "size"), c = choose(thorough ? 7 : 2, "size"); bool dir = choose(2, "constructor"); auto& w = certs(); auto& l = w.leaf(0, TRUSTED, 0, 1);
  std::vector<int> sizes{sz[a], sz[b], sz[c], 5}; std::string nm = "sizes " + vec(sizes) + (dir ? " old" : ""); note(nm); World2 world; S.names[host] = 0; S.noFault.insert({0, 5000}); Outcome o;
  S.onWire = [&](int side, size_t, std::vector<unsigned char>& bb, Pipe&) { o.wire[side].insert(o.wire[side].end(), bb.begin(), bb.end()); };
  connectAndTalk(o, [&](int s, int fd) {
    if (s) return std::make_unique<SA>(fd, 5000, SA::TlsInfo{true, l.file, l.key, "", ""}, recorder(), 1);
    return dir ? std::make_unique<SA>(host, 5000, true, "", recorder()) : std::make_unique<SA>(host, 5000, SA::TlsInfo{true, "", "", "", w.caFile}, recorder(), 1);
  }, sizes, false);
  evals(); check(!o.threw[0] && !o.threw[1] && o.got[0] == sent(1, sizes) && o.got[1] == sent(0, sizes), "data over an encrypted channel", [&] { return nm + ": " + o.why[0] + " / " + o.why[1]; });
  noSecrets(o, nm); state(mix(hashStr(nm), o.wire[0].size()));
}
int main(int c, char** v) {
  signal(SIGPIPE, SIG_IGN);
  return harnessMain(c, v, "C35", {{"authentication", authentication}, {"server keys", serverKeys}, {"versions", versions}, {"tampering", tampering}, {"dropped, repeated, reordered and reflected pieces", pieces}, {"secrecy", secrecy}});
}
