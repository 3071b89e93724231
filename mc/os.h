// A simulated operating system for sockets: every answer it may give is a choice. Included by one harness file only.
#pragma once
#include <arpa/inet.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <netdb.h>
#include <openssl/err.h>
#include <openssl/ssl.h>
#include <poll.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <unistd.h>
#include <csignal>
#include <set>
#include "mc/mc.h"
#include "mc/net.h"
using namespace mc;
struct Pipe { std::deque<unsigned char> q; size_t total = 0; int writers = 1, readers = 1; bool lost = false; };
struct Conn { Pipe p[2]; int refs[2] = {1, 1}; bool accepted = false, tls[2] = {false, false}, tlsFailed = false; };
struct Listener { int host, port; std::deque<std::shared_ptr<Conn>> pending; bool open = true; };
struct Fd { std::shared_ptr<Conn> c; int side = 0; std::shared_ptr<Listener> l; int host = 0; bool bound = false; int port = 0; };
struct Sys {
  std::map<int, Fd> fds;
  std::vector<std::shared_ptr<Listener>> listeners;
  std::map<int, int> hostOf;                // fiber -> party
  std::set<int> done;                       // fibers that will do nothing more
  std::set<std::pair<int, int>> noFault;    // ports whose binding does not fail
  bool on = false, faulted = false, dataFaults = false, setupFaults = false;
  int nextPort = 40000, refused = 0, sockets = 0;
  std::map<std::string, int> names;         // further host names
  int waiter = -1; double arrival = 0, waited = 0;  // this fiber's peer turns up so many seconds after it started to wait
  std::function<void(int side, size_t offset, std::vector<unsigned char>& bytes, Pipe&)> onWire;
  std::map<SSL*, int> sslFd; std::map<SSL*, int> sslErr;
};
static Sys S;
static bool sim() { return S.on && inFiber(); }
static int me() { return S.hostOf.at(self()); }
static bool othersDone(int mine, int host = -1) { for (auto& h : S.hostOf) if (h.first != mine && (host < 0 || h.second == host) && !S.done.count(h.first)) return false; return true; }
static int fault(bool enabled, int n, const char* tag) { if (!enabled) return 0; int k = choose(n, tag, 1); return k; }
static int newFd() { return open("/dev/null", O_RDWR | O_CLOEXEC); }
static Fd* sfd(int fd) { if (!S.on) return nullptr; auto i = S.fds.find(fd); return i == S.fds.end() ? nullptr : &i->second; }
#define REALF(name) ((decltype(&name))dlsym(RTLD_NEXT, #name))
static ssize_t simRead(int fd, void* buf, size_t n) {
  auto* f = sfd(fd); auto c = f->c; int side = f->side; if (!c) { errno = ENOTCONN; return -1; }
  auto& in = c->p[1 - side];
  if (n == 0) return 0;
  switch (int k = fault(S.dataFaults, 6, "read")) {
    case 3: S.faulted = true; errno = EINTR; return -1;
    case 4: S.faulted = true; errno = ECONNRESET; in.lost = true; in.q.clear(); return -1;
    case 5: S.faulted = true; in.lost = true; in.q.clear(); return 0;
    default: {
      blockUntil([c, side] { auto& in = c->p[1 - side]; return in.lost || !in.q.empty() || c->refs[1 - side] == 0; }, "socket read");
      size_t m = std::min(n, in.q.size()); if (k == 1) m = std::min<size_t>(m, 1); if (k == 2) m = (m + 1) / 2;
      std::copy(in.q.begin(), in.q.begin() + m, (unsigned char*)buf); in.q.erase(in.q.begin(), in.q.begin() + m); return m;
    }
  }
}
static ssize_t simWrite(int fd, const void* buf, size_t n, bool loops) {
  auto* f = sfd(fd); auto c = f->c; if (!c) { errno = ENOTCONN; return -1; }
  auto& out = c->p[f->side]; auto p = (const unsigned char*)buf; size_t m = n; int err = 0;
  switch (fault(S.dataFaults && n, loops ? 4 : 5, "write")) {
    case 1: S.faulted = true; errno = EPIPE; return -1;
    case 2: S.faulted = true; m = n / 2; err = ECONNRESET; break;
    case 3: S.faulted = true; errno = EINTR; return -1;
    case 4: m = (n + 1) / 2; break;  // a short write; only visible to callers of write itself
  }
  std::vector<unsigned char> moved(p, p + m); if (S.onWire) S.onWire(f->side, out.total, moved, out);
  out.total += m; if (!out.lost) out.q.insert(out.q.end(), moved.begin(), moved.end());  // what was lost had been handed over
  if (err && m == 0) { errno = err; return -1; }
  return m;
}
static int simClose(int fd) {
  auto i = S.fds.find(fd); auto f = i->second; S.fds.erase(i);
  if (f.c) f.c->refs[f.side]--;
  if (f.l) f.l->open = false;
  return REALF(close)(fd);
}
static std::shared_ptr<Listener> listenerAt(int host, int port) { for (auto& l : S.listeners) if (l->open && l->host == host && l->port == port) return l; return nullptr; }
struct Cookie { int fd; };
extern "C" {
int socket(int d, int t, int p) noexcept {
  if (!sim()) return REALF(socket)(d, t, p);
  if (fault(S.setupFaults && S.sockets++ < 4, 2, "socket")) { S.faulted = true; errno = EMFILE; return -1; }
  int fd = newFd(); S.fds[fd].host = me(); return fd;
}
int setsockopt(int fd, int l, int o, const void* v, socklen_t n) noexcept { if (!sfd(fd)) return REALF(setsockopt)(fd, l, o, v, n); return 0; }
int bind(int fd, const struct sockaddr* a, socklen_t n) noexcept {
  auto* f = sfd(fd); if (!f) return REALF(bind)(fd, a, n);
  int port = ntohs(((const sockaddr_in*)a)->sin_port), host = f->host;
  if (port == 0) port = S.nextPort++;
  else if (listenerAt(host, port) || (!S.noFault.count({host, port}) && choose(2, "port taken", 1))) { errno = EADDRINUSE; return -1; }
  f->bound = true; f->port = port; return 0;
}
int listen(int fd, int) noexcept { auto* f = sfd(fd); if (!f) return 0; f->l = std::make_shared<Listener>(); f->l->host = f->host; f->l->port = f->port; S.listeners.push_back(f->l); return 0; }
int getsockname(int fd, struct sockaddr* a, socklen_t* n) noexcept { auto* f = sfd(fd); if (!f) return REALF(getsockname)(fd, a, n); sockaddr_in s{}; s.sin_family = AF_INET; s.sin_port = htons(f->port); memcpy(a, &s, sizeof s); return 0; }
int getaddrinfo(const char* node, const char* service, const struct addrinfo* h, struct addrinfo** out) {
  if (!sim()) return REALF(getaddrinfo)(node, service, h, out);
  if (fault(S.setupFaults, 2, "getaddrinfo")) { *out = nullptr; return EAI_AGAIN; }
  auto known = S.names.find(node); if (known == S.names.end() && strncmp(node, "host", 4)) { *out = nullptr; return EAI_NONAME; }
  auto* a = (addrinfo*)calloc(1, sizeof(addrinfo) + sizeof(sockaddr_in)); auto* s = (sockaddr_in*)(a + 1);
  s->sin_family = AF_INET; s->sin_port = htons(atoi(service)); s->sin_addr.s_addr = htonl(known == S.names.end() ? atoi(node + 4) : known->second); a->ai_family = AF_INET; a->ai_socktype = SOCK_STREAM; a->ai_addr = (sockaddr*)s; a->ai_addrlen = sizeof *s; *out = a; return 0;
}
void freeaddrinfo(struct addrinfo* a) noexcept { if (!sim()) { REALF(freeaddrinfo)(a); return; } free(a); }
static double elapsed() { return S.waited + mc::sleptNs / 1e9; }
// a wait of at most limit seconds (< 0: without limit); whether the peer is there at its end
static bool patient(double limit) {
  if (S.waiter != self() || elapsed() >= S.arrival) return true;
  double left = S.arrival - elapsed();
  if (limit >= 0 && left > limit) { S.waited += limit; return false; }
  S.waited += left; return true;
}
int connect(int fd, const struct sockaddr* a, socklen_t n) {
  auto* f = sfd(fd); if (!f) return REALF(connect)(fd, a, n);
  auto* s = (const sockaddr_in*)a; int host = ntohl(s->sin_addr.s_addr), port = ntohs(s->sin_port);
  if (fault(S.setupFaults && S.refused++ < 3, 2, "connect")) { errno = ECONNREFUSED; return -1; }
  if (!patient(0)) { errno = ECONNREFUSED; return -1; }
  int mine = self(); blockUntil([=] { return listenerAt(host, port) || othersDone(mine, host); }, "connect");
  auto l = listenerAt(host, port); if (!l) { errno = ECONNREFUSED; return -1; }
  f = sfd(fd); f->c = std::make_shared<Conn>(); f->side = 0; l->pending.push_back(f->c); return 0;
}
int select(int n, fd_set* r, fd_set* w, fd_set* e, struct timeval* t) {
  int fd = -1; if (sim() && r) for (int i = 0; i < n; i++) if (FD_ISSET(i, r) && sfd(i)) fd = i;
  if (fd < 0) return REALF(select)(n, r, w, e, t);
  if (int k = fault(S.setupFaults, 3, "select")) { S.faulted = true; FD_ZERO(r); if (k == 1) return 0; errno = EINTR; return -1; }
  auto l = S.fds[fd].l;
  if (!patient(t ? t->tv_sec + t->tv_usec / 1e6 : -1)) { FD_ZERO(r); return 0; }
  int mine = self(); blockUntil([l, mine] { return !l->pending.empty() || othersDone(mine); }, "select");
  if (l->pending.empty()) { FD_ZERO(r); return 0; }
  return 1;
}
int poll(struct pollfd* p, nfds_t n, int t) {
  int fd = -1; if (sim()) for (nfds_t i = 0; i < n; i++) if (sfd(p[i].fd)) fd = p[i].fd;
  if (fd < 0) return REALF(poll)(p, n, t);
  for (nfds_t i = 0; i < n; i++) p[i].revents = p[i].events & POLLOUT;
  if (auto l = sfd(fd)->l) {
    if (int k = fault(S.setupFaults, 3, "poll")) { S.faulted = true; if (k == 1) return 0; errno = EINTR; return -1; }
    if (!patient(t < 0 ? -1 : t / 1e3)) return 0;
    int mine = self(); blockUntil([l, mine] { return !l->pending.empty() || othersDone(mine); }, "poll");
    if (l->pending.empty()) return 0;
  }
  p[0].revents = p[0].events; return 1;
}
int accept(int fd, struct sockaddr* a, socklen_t* n) {
  auto* f = sfd(fd); if (!f) return REALF(accept)(fd, a, n);
  if (fault(S.setupFaults, 2, "accept")) { S.faulted = true; errno = ECONNABORTED; return -1; }
  auto l = f->l; patient(-1); blockUntil([l] { return !l->pending.empty(); }, "accept");
  auto c = l->pending.front(); l->pending.pop_front(); c->accepted = true;
  if (a) { sockaddr_in s{}; s.sin_family = AF_INET; memcpy(a, &s, sizeof s); *n = sizeof s; }
  int k = newFd(); S.fds[k].c = c; S.fds[k].side = 1; S.fds[k].host = me(); return k;
}
int accept4(int fd, struct sockaddr* a, socklen_t* n, int) { return accept(fd, a, n); }
int dup(int fd) noexcept {
  auto* f = sfd(fd); if (!f) return REALF(dup)(fd);
  if (fault(S.setupFaults, 2, "dup")) { S.faulted = true; errno = EMFILE; return -1; }
  int k = newFd(); S.fds[k] = *sfd(fd); if (S.fds[k].c) S.fds[k].c->refs[S.fds[k].side]++; return k;
}
int close(int fd) { if (!sfd(fd)) return REALF(close)(fd); return simClose(fd); }
ssize_t read(int fd, void* b, size_t n) { if (!sfd(fd)) return REALF(read)(fd, b, n); return simRead(fd, b, n); }
ssize_t write(int fd, const void* b, size_t n) { if (!sfd(fd)) return REALF(write)(fd, b, n); return simWrite(fd, b, n, false); }
ssize_t recv(int fd, void* b, size_t n, int flags) {
  if (!sfd(fd)) return REALF(recv)(fd, b, n, flags);
  ssize_t done = 0; do { ssize_t r = simRead(fd, (char*)b + done, n - done); if (r <= 0) return done ? done : r; done += r; } while ((flags & MSG_WAITALL) && (size_t)done < n);
  return done;
}
ssize_t send(int fd, const void* b, size_t n, int flags) { if (!sfd(fd)) return REALF(send)(fd, b, n, flags); return simWrite(fd, b, n, false); }
int shutdown(int fd, int how) noexcept { auto* f = sfd(fd); if (!f) return REALF(shutdown)(fd, how); return 0; }
static ssize_t cRead(void* c, char* b, size_t n) { return simRead(((Cookie*)c)->fd, b, n); }
static ssize_t cWrite(void* c, const char* b, size_t n) { ssize_t r = simWrite(((Cookie*)c)->fd, b, n, true); return r < 0 ? 0 : r; }  // streams of this kind report errors as zero
static int cClose(void* c) { int r = simClose(((Cookie*)c)->fd); delete (Cookie*)c; return r; }
FILE* fdopen(int fd, const char* mode) noexcept {
  if (!sfd(fd)) return REALF(fdopen)(fd, mode);
  return fopencookie(new Cookie{fd}, mode, {cRead, cWrite, nullptr, cClose});
}
}
struct World2 {
  World2() { S = Sys(); S.on = true; }
  ~World2() { std::vector<int> l; for (auto& f : S.fds) l.push_back(f.first); S.on = false; for (int fd : l) ::close(fd); S.sslFd.clear(); }
};
static int listening(int port) { int fd = socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = htons(port); bind(fd, (sockaddr*)&a, sizeof a); listen(fd, 1); return fd; }
