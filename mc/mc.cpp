#include "mc.h"

#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <chrono>
#include <deque>
#include <exception>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <unordered_map>
#include <unordered_set>

#include <bits/atomic_futex.h>

#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
#include <sanitizer/lsan_interface.h>
#define MC_ASAN 1
#else
#define MC_ASAN 0
#endif
// Happens-before race detection during exploration: fibers are announced to ThreadSanitizer and switched without
// synchronisation; only the code's own synchronisation operations (intercepted below) order them. This file itself
// is compiled without instrumentation.
#ifdef MC_TSAN
#include <sanitizer/tsan_interface.h>
#include <sys/single_threaded.h>
extern "C" {
void __tsan_ignore_thread_begin();
void __tsan_ignore_thread_end();
int __tsan_get_report_data(void*, const char**, int*, int*, int*, int*, int*, int*, int*, void**, unsigned long);
int __tsan_get_report_mop(void*, unsigned long, int*, void**, int*, int*, int*, void**, unsigned long);
void __sanitizer_symbolize_pc(void*, const char*, char*, unsigned long);
}
#endif

namespace mc {

bool thorough = false;
uint64_t seed = 1;
std::function<void(unsigned char*, int)> randHook;
uint64_t sleptNs;

// ---------------------------------------------------------------------------------------------------------------
// crash-safe description of the running case
// ---------------------------------------------------------------------------------------------------------------
struct CaseFile {
  char suite[128];
  uint32_t n;
  uint32_t status;  // 1: running, 2: hang
  char note[2048];
  int32_t choices[1 << 16];
};
static CaseFile localCase;
static CaseFile* cf = &localCase;

// ---------------------------------------------------------------------------------------------------------------
// explorer state
// ---------------------------------------------------------------------------------------------------------------
struct Point { int n, chosen, cost; const char* tag; };
struct Explorer {
  std::vector<Point> pts;        // current path
  size_t pos = 0;                // next point
  std::vector<int> prefix;       // forced choices
  int used = 0;
  bool replaying = false;        // explicit replay: beyond the prefix take 0
  std::string divergence;
  int shard = 0, nshards = 1, shardDepth = 4;
  bool foreign = false;          // execution belongs to another shard
};
static Explorer ex;
static std::string failKey, failDetail, curNote;
static bool didFail = false;
static std::unordered_set<uint64_t> stateSet;
static uint64_t nSteps, nEvals, nPoints;
static std::vector<std::string> samples;
static std::set<std::string> knownKeys;
static std::map<std::string, std::string> knownHit;

void quietBegin() {
#ifdef MC_TSAN
  __tsan_ignore_thread_begin();
#endif
}
void quietEnd() {
#ifdef MC_TSAN
  __tsan_ignore_thread_end();
#endif
}
void hbRelease(void* p) {
#ifdef MC_TSAN
  __tsan_release(p);
#endif
}
void hbAcquire(void* p) {
#ifdef MC_TSAN
  __tsan_acquire(p);
#endif
}
bool failed() { return didFail; }
void fail(const std::string& key, const std::string& detail) {
  Quiet quiet;
  if (ex.foreign) return;
  if (knownKeys.count(key)) { knownHit.emplace(key, detail); return; }
  if (!didFail) { didFail = true; failKey = key; failDetail = detail; }
}
void state(uint64_t h) { Quiet quiet; if (stateSet.size() < 20000000) stateSet.insert(h); }
void step(uint64_t n) { nSteps += n; }
void evals(uint64_t n) { nEvals += n; }
void note(const std::string& s) {
  Quiet quiet;
  curNote = s;
  strncpy(cf->note, s.c_str(), sizeof(cf->note) - 1);
}
void assume(bool ok) { if (!ok) throw Skip{}; }

static int shardOf() {
  uint64_t h = 0x12345;
  for (size_t i = 0; i < ex.pts.size() && (int)i < ex.shardDepth; i++) h = mix(h, ex.pts[i].chosen + 1);
  return (int)((h >> 7) % ex.nshards);
}

int choose(int n, const char* tag, int cost) {
  Quiet quiet;
  if (n <= 0) { fprintf(stderr, "choose(%d) at %s\n", n, tag); abort(); }
  int c = 0;
  if (ex.pos < ex.prefix.size()) {
    c = ex.prefix[ex.pos];
    if (ex.pos < ex.pts.size()) {  // prefix carries expectations
      if (ex.pts[ex.pos].n != n || strcmp(ex.pts[ex.pos].tag, tag) != 0) {
        if (ex.divergence.empty())
          ex.divergence = "point " + std::to_string(ex.pos) + ": expected " + ex.pts[ex.pos].tag + "/" +
              std::to_string(ex.pts[ex.pos].n) + " got " + tag + "/" + std::to_string(n);
        if (c >= n) c = 0;
        ex.pts[ex.pos] = {n, c, cost, tag};
      }
    } else {
      if (c >= n) { if (ex.divergence.empty()) ex.divergence = std::string("choice out of range at ") + tag; c = 0; }
      ex.pts.push_back({n, c, cost, tag});
    }
    ex.pts[ex.pos].cost = cost;
  } else {
    ex.pts.push_back({n, 0, cost, tag});
  }
  if (ex.pos < (1 << 16)) cf->choices[ex.pos] = c;
  ex.pos++;
  cf->n = ex.pos;
  nPoints++;
  if (!ex.replaying && ex.nshards > 1 && (int)ex.pos == ex.shardDepth && shardOf() != ex.shard) {
    ex.foreign = true;
    if (!inFiber()) throw Skip{};
  }
  return c;
}

// ---------------------------------------------------------------------------------------------------------------
// fibers
// ---------------------------------------------------------------------------------------------------------------
extern "C" void mc_switch(void** saveSp, void* newSp);
asm(R"(
.text
.globl mc_switch
.type mc_switch,@function
mc_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size mc_switch,.-mc_switch
.section .note.GNU-stack,"",@progbits
.text
)");

static const size_t kStack = 1 << 20;
struct Fiber {
  int id;
  void* sp = nullptr;
  char* stack = nullptr;
  std::function<void()> fn;
  std::string name;
  bool started = false, done = false, detached = false;
  std::function<bool()> pred;  // empty: enabled
  const char* what = "";
  uint64_t path = 0;
  int children = 0;
  uint64_t randCtr = 0;
  void* retval = nullptr;
  // C++ exception globals
  void* caught = nullptr;
  unsigned uncaught = 0;
  void* asanFake = nullptr;
  void* tsan = nullptr;
  void* onceCallable = nullptr;
  void (*onceCall)() = nullptr;
};
static std::vector<std::unique_ptr<Fiber>> fibers;
static std::vector<Fiber*> live;   // those not done, by id
static std::vector<Fiber*> spent;  // those done whose stacks may be used again
static Fiber* cur = nullptr;
static void* hostSp = nullptr;
static void* hostFake = nullptr;
static void* hostTsan = nullptr;
static char endOfRun;
static const void* hostBottom = nullptr;
static size_t hostSize = 0;
static std::vector<char*> freeStacks;
static RunOpts opts;
static RunResult result;
static uint64_t schedPoints;
static bool running = false;
static std::exception_ptr mainEx;
struct MutexState { int owner = -1; int depth = 0; };
struct CondState { std::deque<std::pair<int, bool*>> waiters; };
static std::unordered_map<void*, MutexState> mutexes;
static std::unordered_map<void*, CondState> conds;

struct EhGlobals { void* caught; unsigned int uncaught; };
static EhGlobals* eh() { return (EhGlobals*)abi::__cxa_get_globals(); }
static void* hostCaught; static unsigned hostUncaught;

bool inFiber() { return running && cur != nullptr; }
int self() { return cur ? cur->id : -1; }
uint64_t selfPath() { return cur ? cur->path : 0; }

static char* newStack() {
  if (!freeStacks.empty()) { char* s = freeStacks.back(); freeStacks.pop_back(); return s; }
  char* s = (char*)mmap(nullptr, kStack + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (s == MAP_FAILED) { perror("mmap"); abort(); }
  mprotect(s, 4096, PROT_NONE);
  return s;
}
static void releaseStack(Fiber& f) {
  if (!f.stack) return;
#if MC_ASAN
  __asan_unpoison_memory_region(f.stack + 4096, kStack);
#endif
  freeStacks.push_back(f.stack);
  f.stack = nullptr;
}

static void switchTo(Fiber* to) {  // to == nullptr: host
  Fiber* from = cur;
  EhGlobals* g = eh();
  if (from) { from->caught = g->caught; from->uncaught = g->uncaught; } else { hostCaught = g->caught; hostUncaught = g->uncaught; }
  if (to) { g->caught = to->caught; g->uncaught = to->uncaught; } else { g->caught = hostCaught; g->uncaught = hostUncaught; }
  cur = to;
  void** save = from ? &from->sp : &hostSp;
#if MC_ASAN
  void** fakeSave = from ? (from->done ? nullptr : &from->asanFake) : &hostFake;
  if (to) __sanitizer_start_switch_fiber(fakeSave, to->stack + 4096, kStack);
  else __sanitizer_start_switch_fiber(fakeSave, hostBottom, hostSize);
#endif
#ifdef MC_TSAN
  if (!hostTsan) hostTsan = __tsan_get_current_fiber();
  if (from && from->done) quietEnd();  // a finished fiber leaves schedule() for good
  __tsan_switch_to_fiber(to ? to->tsan : hostTsan, __tsan_switch_to_fiber_no_sync);
#endif
  mc_switch(save, to ? to->sp : hostSp);
#if MC_ASAN
  if (cur == nullptr) __sanitizer_finish_switch_fiber(hostFake, nullptr, nullptr);
  else {
    const void* b; size_t s;
    __sanitizer_finish_switch_fiber(cur->asanFake, &b, &s);
  }
#endif
}

static bool enabled(Fiber* f) { return !f->done && (!f->pred || f->pred()); }

// pick the next fiber; the current one is first in the canonical order when still enabled
static Fiber* pickNext(bool curMayRun) {
  std::vector<Fiber*> en;
  if (curMayRun && cur && enabled(cur)) en.push_back(cur);
  bool curEnabled = !en.empty();
  if (curEnabled && !opts.explore) return cur;
  size_t start = cur ? std::upper_bound(live.begin(), live.end(), cur->id, [](int id, Fiber* f) { return id < f->id; }) - live.begin() : 0;
  for (size_t k = 0; k < live.size(); k++) {
    Fiber* f = live[(start + k) % live.size()];
    if (f == cur && (curEnabled || !curMayRun)) continue;
    if (f != cur && enabled(f)) en.push_back(f);
    else if (f == cur && !curEnabled && curMayRun && enabled(f)) en.push_back(f);
    if (!en.empty() && !opts.explore) return en[0];
  }
  if (en.empty()) return nullptr;
  if (!opts.explore) return en[0];
  if (en.size() == 1) return en[0];
  // ascending ids after the running one
  std::sort(en.begin() + (curEnabled ? 1 : 0), en.end(), [](Fiber* a, Fiber* b) { return a->id < b->id; });
  int c = choose((int)en.size(), "sched", curEnabled || opts.delay ? 1 : 0);
  return en[c];
}

static void abortRun(bool deadlock, const std::string& d) {
  (deadlock ? result.deadlock : result.horizon) = true;
  result.detail = d;
  switchTo(nullptr);  // never resumed
  abort();
}

static std::string describeBlocked() {
  std::string s;
  for (auto& f : fibers) if (!f->done) s += (s.empty() ? "" : "; ") + f->name + "#" + std::to_string(f->id) + " waits for " + f->what;
  return s;
}

static void schedule(bool curMayRun) {
  Quiet quiet;
  if (++schedPoints > opts.horizon) abortRun(false, "no progress within the horizon: " + describeBlocked());
  nSteps++;
  Fiber* n = pickNext(curMayRun);
  if (!n) {
    if (live.empty()) { switchTo(nullptr); return; }
    abortRun(true, describeBlocked());
  }
  if (n == cur) { cur->pred = nullptr; return; }
  n->pred = nullptr;
  switchTo(n);
}

static void fiberMain() {
#if MC_ASAN
  const void* b; size_t s;
  __sanitizer_finish_switch_fiber(cur->asanFake, &b, &s);
  if (!hostBottom) { hostBottom = b; hostSize = s; }
#endif
  Fiber* me = cur;
  try {
    me->fn();
  } catch (const Skip&) {
    mainEx = std::current_exception();
  } catch (...) {
    if (!mainEx) mainEx = std::current_exception();
  }
  { Quiet quiet; me->fn = nullptr; }
  hbRelease(me);
  hbRelease(&endOfRun);
  me->done = true;
  { Quiet quiet; live.erase(std::lower_bound(live.begin(), live.end(), me->id, [](Fiber* f, int id) { return f->id < id; })); spent.push_back(me); }
  schedule(false);
  abort();
}

int spawn(std::function<void()> fn, const char* name) {
#ifdef MC_TSAN
  void* announced = __tsan_create_fiber(0);
#endif
  Quiet quiet;
  auto f = std::make_unique<Fiber>();
  f->id = fibers.size();
  f->fn = std::move(fn);
  f->name = name;
  f->path = cur ? mix(cur->path, ++cur->children) : 0x77;
#ifndef MC_TSAN  // a race detector would take the new fiber's use of an old stack for a race
  { auto old = std::move(spent); spent.clear(); for (Fiber* d : old) if (d != cur) releaseStack(*d); else spent.push_back(d); }
#endif
  f->stack = newStack();
  char* top = f->stack + 4096 + kStack;
  void** sp = (void**)top;
  *--sp = nullptr;                 // alignment / fake return address
  *--sp = (void*)fiberMain;        // ret target
  for (int i = 0; i < 6; i++) *--sp = nullptr;
  f->sp = sp;
#ifdef MC_TSAN
  f->tsan = announced;
#endif
  int id = f->id;
  live.push_back(f.get());
  fibers.push_back(std::move(f));
  return id;
}
void yieldPoint(const char* what) {
  if (!inFiber()) return;
  cur->what = what;
  if (opts.explore) schedule(true);
}
void blockUntil(const std::function<bool()>& pred, const char* what) {
  if (!inFiber()) { if (!pred()) { fprintf(stderr, "blocking outside a fiber: %s\n", what); abort(); } return; }
  { Quiet quiet; if (!opts.explore && pred()) return; }
  cur->what = what;
  { Quiet quiet; cur->pred = pred; }
  schedule(true);
}
void join(int id) {
  blockUntil([id] { return fibers[id]->done; }, "join");
  hbAcquire(fibers[id].get());
}

RunResult run(const std::function<void()>& mainFn, const RunOpts& o) {
  if (running) { fprintf(stderr, "nested mc::run\n"); abort(); }
  opts = o;
  result = RunResult{};
  fibers.clear();
  live.clear();
  spent.clear();
  mutexes.clear();
  conds.clear();
  schedPoints = 0;
  mainEx = nullptr;
  cur = nullptr;
  running = true;
  spawn(mainFn, "main");
  Fiber* f = fibers[0].get();
  switchTo(f);
  running = false;
  cur = nullptr;
  hbAcquire(&endOfRun);
#ifdef MC_TSAN
  for (auto& x : fibers) if (x->done) __tsan_destroy_fiber(x->tsan);
#endif
  for (auto& x : fibers) releaseStack(*x);
  if (!result.deadlock && !result.horizon) fibers.clear();
  else for (auto& x : fibers) { auto* leak = x.release(); (void)leak; }
  fibers.clear();
  if (mainEx) { auto e = mainEx; mainEx = nullptr; std::rethrow_exception(e); }
  if (o.failOnDeadlock && result.deadlock) fail("deadlock", result.detail);
  if (o.failOnDeadlock && result.horizon) fail("livelock", result.detail);
  return result;
}

// ---------------------------------------------------------------------------------------------------------------
// explorer
// ---------------------------------------------------------------------------------------------------------------
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static std::string jesc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o;
}
static double execStart; static double execLimit = 120;
static void onAlarm(int) {
  Quiet quiet;
  if (execStart > 0 && now() - execStart > execLimit) { cf->status = 2; _exit(77); }
}

struct ExecOutcome { bool failed; std::string key, detail; bool foreign; std::vector<Point> pts; std::string note; bool skipped; };
static ExecOutcome execute(const Suite& s, const std::vector<int>& prefix, const std::vector<Point>& expect) {
  ex.prefix = prefix;
  ex.pts.assign(expect.begin(), expect.begin() + std::min(prefix.size(), expect.size()));
  ex.pos = 0;
  ex.divergence.clear();
  ex.foreign = false;
  didFail = false;
  failKey.clear(); failDetail.clear(); curNote.clear();
  cf->n = 0; cf->note[0] = 0;
  randHook = nullptr;
  bool skipped = false;
  execStart = now();
  try {
    s.body();
  } catch (const Skip&) {
    skipped = true;
  } catch (const std::exception& e) {
    fail(std::string("unexpected exception"), std::string(e.what()) + " [" + curNote + "]");
  } catch (...) {
    fail("unexpected exception of unknown type", curNote);
  }
  execStart = 0;
  randHook = nullptr;
  if (ex.nshards > 1 && !ex.replaying && (int)ex.pos < ex.shardDepth && shardOf() != ex.shard) ex.foreign = true;
  ex.pts.resize(ex.pos);
  if (!ex.divergence.empty()) {
    fprintf(stderr, "REPLAY DIVERGENCE in %s: %s\n", s.name.c_str(), ex.divergence.c_str());
  }
  return {didFail, failKey, failDetail, ex.foreign, ex.pts, curNote, skipped};
}

struct SuiteStats {
  uint64_t execs = 0, skips = 0, points = 0, maxDepth = 0;
  bool complete = true, determinismOk = true;
  std::string cap;
};

static std::string choicesStr(const std::vector<Point>& p) {
  std::string s = "[";
  for (size_t i = 0; i < p.size(); i++) s += (i ? "," : "") + std::to_string(p[i].chosen);
  return s + "]";
}

int harnessMain(int argc, char** argv, const std::string& property, std::vector<Suite> suites) {
  std::string only, out, casefile, knownFile, replay;
  double deadline = 0;
  int shard = 0, nshards = 1;
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto next = [&]() -> std::string { if (i + 1 >= argc) { fprintf(stderr, "missing arg\n"); exit(3); } return argv[++i]; };
    if (a == "--suite") only = next();
    else if (a == "--shard") { std::string v = next(); sscanf(v.c_str(), "%d/%d", &shard, &nshards); }
    else if (a == "--tier") thorough = next() == "thorough";
    else if (a == "--out") out = next();
    else if (a == "--case") casefile = next();
    else if (a == "--known") knownFile = next();
    else if (a == "--deadline") deadline = now() + atof(next().c_str());
    else if (a == "--limit") execLimit = atof(next().c_str());
    else if (a == "--replay") replay = next();
    else if (a == "--seed") seed = strtoull(next().c_str(), nullptr, 10);
    else if (a == "--list") { for (auto& s : suites) printf("%s\n", s.name.c_str()); return 0; }
    else { fprintf(stderr, "unknown arg %s\n", a.c_str()); return 3; }
  }
  if (!knownFile.empty()) { std::ifstream k(knownFile); std::string l; while (std::getline(k, l)) if (!l.empty()) knownKeys.insert(l); }
  if (!casefile.empty()) {
    int fd = open(casefile.c_str(), O_RDWR | O_CREAT, 0644);
    if (fd < 0 || ftruncate(fd, sizeof(CaseFile)) != 0) { perror("casefile"); return 3; }
    cf = (CaseFile*)mmap(nullptr, sizeof(CaseFile), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (cf == MAP_FAILED) { perror("mmap casefile"); return 3; }
  }
  FILE* o = out.empty() ? stdout : fopen(out.c_str(), "w");
  if (!o) { perror("out"); return 3; }
#ifdef MC_TSAN
  __libc_single_threaded = 0;  // reference counts are atomic, as with real threads
#endif
  struct sigaction sa{}; sa.sa_handler = onAlarm; sa.sa_flags = SA_RESTART; sigaction(SIGALRM, &sa, nullptr);
  struct itimerval it{{1, 0}, {1, 0}}; setitimer(ITIMER_REAL, &it, nullptr);

  if (!replay.empty()) {  // file: suite name on the first line, choices on the second
    std::ifstream r(replay); std::string sname, line; std::getline(r, sname); std::getline(r, line);
    std::vector<int> pre; std::istringstream ls(line); int v; while (ls >> v) pre.push_back(v);
    for (auto& s : suites) if (s.name == sname) {
      ex.replaying = true; ex.shardDepth = s.shardDepth;
      strncpy(cf->suite, s.name.c_str(), 127);
      auto x = execute(s, pre, {});
      if (x.failed) { fprintf(o, "{\"replay\":\"fail\",\"suite\":\"%s\",\"key\":\"%s\",\"detail\":\"%s\",\"note\":\"%s\"}\n", jesc(sname).c_str(), jesc(x.key).c_str(), jesc(x.detail).c_str(), jesc(x.note).c_str()); fflush(o); return 1; }
      fprintf(o, "{\"replay\":\"ok\",\"suite\":\"%s\",\"note\":\"%s\"}\n", jesc(sname).c_str(), jesc(x.note).c_str()); fflush(o);
      return 0;
    }
    fprintf(stderr, "no suite %s\n", sname.c_str());
    return 3;
  }

  int rc = 0;
  for (auto& s : suites) {
    if (!only.empty() && s.name != only) continue;
    if (s.thoroughOnly && !thorough) continue;
    int bound = thorough && s.boundThorough >= 0 ? s.boundThorough : s.bound;
    ex.shard = shard; ex.nshards = nshards; ex.shardDepth = s.shardDepth;
    strncpy(cf->suite, s.name.c_str(), 127); cf->status = 1;
    stateSet.clear(); nSteps = nEvals = nPoints = 0; samples.clear(); knownHit.clear();
    SuiteStats st;
    double t0 = now();
    std::vector<int> prefix; std::vector<Point> expect;
    bool first = true;
    std::string vio;
    while (true) {
      auto x = execute(s, prefix, expect);
      if (!ex.divergence.empty()) { st.determinismOk = false; rc = 4; break; }
      if (!x.foreign) {
        if (x.skipped) st.skips++; else st.execs++;
        st.maxDepth = std::max<uint64_t>(st.maxDepth, x.pts.size());
        if (!x.note.empty() && samples.size() < 3 && (st.execs % 7) == 1) samples.push_back(x.note + " choices=" + choicesStr(x.pts).substr(0, 200));
        if (x.failed) {
          // replay before reporting
          std::vector<int> ch; for (auto& p : x.pts) ch.push_back(p.chosen);
          auto y = execute(s, ch, x.pts);
          bool same = y.failed && y.key == x.key && ex.divergence.empty();
          std::string cs; for (int c : ch) cs += std::to_string(c) + " ";
          fprintf(o, "{\"violation\":true,\"suite\":\"%s\",\"key\":\"%s\",\"detail\":\"%s\",\"note\":\"%s\",\"choices\":\"%s\",\"reproduced\":%s}\n",
                  jesc(s.name).c_str(), jesc(x.key).c_str(), jesc(x.detail).c_str(), jesc(x.note).c_str(), cs.c_str(), same ? "true" : "false");
          fflush(o);
          rc = 1;
          break;
        }
        if (first && !x.skipped) {  // determinism: the same choices give the same points and outcome
          first = false;
          std::vector<int> ch; for (auto& p : x.pts) ch.push_back(p.chosen);
          uint64_t sz = stateSet.size();
          auto y = execute(s, ch, x.pts);
          if (!ex.divergence.empty() || y.pts.size() != x.pts.size() || y.failed || stateSet.size() != sz) {
            st.determinismOk = false; rc = 4;
            fprintf(stderr, "suite %s is not deterministic\n", s.name.c_str());
            break;
          }
        }
      }
      // next path
      auto pts = x.pts;
      if (x.foreign && (int)pts.size() > s.shardDepth) pts.resize(s.shardDepth);
      std::vector<int> before(pts.size() + 1, 0);
      for (size_t i = 0; i < pts.size(); i++) before[i + 1] = before[i] + (pts[i].chosen ? pts[i].cost : 0);
      int i = (int)pts.size() - 1;
      for (; i >= 0; i--) {
        if (pts[i].chosen + 1 < pts[i].n && before[i] + pts[i].cost <= bound) break;
      }
      if (i < 0) break;
      pts[i].chosen++;
      pts.resize(i + 1);
      prefix.clear(); for (auto& p : pts) prefix.push_back(p.chosen);
      expect = pts;
      if (s.maxExecs && st.execs >= s.maxExecs) { st.complete = false; st.cap = "execution cap"; break; }
      if (deadline > 0 && now() > deadline) { st.complete = false; st.cap = "time cap"; break; }
    }
    std::string sj;
    for (auto& x : samples) sj += (sj.empty() ? "\"" : ",\"") + jesc(x) + "\"";
    std::string kj;
    for (auto& k : knownHit) kj += (kj.empty() ? "{" : ",{") + std::string("\"key\":\"") + jesc(k.first) + "\",\"detail\":\"" + jesc(k.second) + "\"}";
    fprintf(o, "{\"stats\":true,\"suite\":\"%s\",\"execs\":%lu,\"skips\":%lu,\"states\":%zu,\"transitions\":%lu,\"evals\":%lu,\"maxdepth\":%lu,\"bound\":%d,\"complete\":%s,\"cap\":\"%s\",\"deterministic\":%s,\"wall\":%.2f,\"samples\":[%s],\"known\":[%s]}\n",
            jesc(s.name).c_str(), st.execs, st.skips, stateSet.size(), nSteps + nPoints, nEvals, st.maxDepth, bound, st.complete ? "true" : "false",
            st.cap.c_str(), st.determinismOk ? "true" : "false", now() - t0, sj.c_str(), kj.c_str());
    // distinct states, for merging across shards (only when few)
    if (stateSet.size() <= 200000) {
      fprintf(o, "{\"hashes\":true,\"suite\":\"%s\",\"h\":[", jesc(s.name).c_str());
      bool c = false; for (auto h : stateSet) { fprintf(o, c ? ",%lu" : "%lu", (unsigned long)(h & 0xfffffffffffffull)); c = true; }
      fprintf(o, "]}\n");
    }
    fflush(o);
    cf->status = 0;
    if (rc) break;
  }
  if (o != stdout) fclose(o);
  fflush(stdout);
  _exit(rc);
}

}  // namespace mc

// ---------------------------------------------------------------------------------------------------------------
// interposition: threads, mutexes, condition variables, futures, randomness
// ---------------------------------------------------------------------------------------------------------------
using namespace mc;
#define REAL(name) ((decltype(&name))dlsym(RTLD_NEXT, #name))

#ifdef MC_TSAN
static void* hostOnce; static void (*hostOnceCall)();
namespace std {
void** mc_once_callable() { return cur ? &cur->onceCallable : &hostOnce; }
void (**mc_once_call())() { return cur ? &cur->onceCall : &hostOnceCall; }
}  // namespace std
extern "C" void mc_once_proxy() { (*std::mc_once_call())(); }
extern "C" void __tsan_on_report(void* rep) {
  Quiet quiet;
  std::string d;
  for (unsigned long i = 0; i < 2; i++) {
    int tid = 0, size = 0, write = 0, atomic = 0; void* addr = nullptr; void* trace[6] = {};
    if (!__tsan_get_report_mop(rep, i, &tid, &addr, &size, &write, &atomic, trace, 6)) break;
    d += (i ? " | against " : "") + std::string(write ? "write" : "read") + " of " + std::to_string(size);
    for (int k = 0; k < 5 && trace[k]; k++) {
      char b[300] = "";
      __sanitizer_symbolize_pc(trace[k], "%f %S", b, sizeof b);
      d += std::string(k ? " < " : " at ") + b;
    }
  }
  fail("data race", d);
}
#endif
struct ThreadArg { void* (*fn)(void*); void* arg; };

extern "C" {
int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
  if (!inFiber()) { static auto real = REAL(pthread_create); return real(t, a, fn, arg); }
  Quiet quiet;
  int id = spawn([fn, arg] { fn(arg); }, "thread");
  *t = (pthread_t)(id + 1);
  yieldPoint("thread start");
  return 0;
}
int pthread_join(pthread_t t, void** r) {
  if (!inFiber()) { static auto real = REAL(pthread_join); return real(t, r); }
  Quiet quiet;
  join((int)t - 1);
  if (r) *r = nullptr;
  return 0;
}
int pthread_detach(pthread_t t) {
  if (!inFiber()) { static auto real = REAL(pthread_detach); return real(t); }
  return 0;
}
pthread_t pthread_self(void) noexcept {
  if (!inFiber()) { static auto real = REAL(pthread_self); return real(); }
  return (pthread_t)(self() + 1);
}
int pthread_mutex_lock(pthread_mutex_t* m) noexcept {
  if (!inFiber()) { static auto real = REAL(pthread_mutex_lock); return real(m); }
  Quiet quiet;
  auto& s = mutexes[m];
  if ((m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE && s.owner == self()) { s.depth++; return 0; }
  if (s.owner == self() && (m->__data.__kind & 3) == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
  blockUntil([m] { return mutexes[m].owner == -1; }, "mutex");
  mutexes[m].owner = self();
  mutexes[m].depth = 1;
  hbAcquire(m);
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept {
  if (!inFiber()) { static auto real = REAL(pthread_mutex_trylock); return real(m); }
  Quiet quiet;
  yieldPoint("trylock");
  auto& s = mutexes[m];
  if (s.owner == self() && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) { s.depth++; return 0; }
  if (s.owner != -1) return EBUSY;
  s.owner = self(); s.depth = 1;
  hbAcquire(m);
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept {
  if (!inFiber()) { static auto real = REAL(pthread_mutex_unlock); return real(m); }
  Quiet quiet;
  auto& s = mutexes[m];
  if (s.owner == -1) return 0;
  if (--s.depth > 0) return 0;
  hbRelease(m);
  mutexes.erase(m);
  return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (!inFiber()) { static auto real = REAL(pthread_cond_wait); return real(c, m); }
  Quiet quiet;
  bool woken = false;
  if (opts.explore && opts.spurious && choose(2, "spurious wake", 1)) {
    // the mutex is released and taken again without a signal
    hbRelease(m);
    mutexes.erase(m);
    yieldPoint("spurious wake");
    pthread_mutex_lock(m);
    return 0;
  }
  conds[c].waiters.push_back({self(), &woken});
  hbRelease(m);
  mutexes.erase(m);
  blockUntil([&woken] { return woken; }, "condition variable");
  pthread_mutex_lock(m);
  return 0;
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec*) { return pthread_cond_wait(c, m); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec*) { return pthread_cond_wait(c, m); }
int pthread_cond_signal(pthread_cond_t* c) noexcept {
  if (!inFiber()) { static auto real = REAL(pthread_cond_signal); return real(c); }
  Quiet quiet;
  yieldPoint("cond signal");
  auto it = conds.find(c);
  if (it == conds.end() || it->second.waiters.empty()) return 0;
  auto& w = it->second.waiters;
  int k = 0;
  if (opts.explore && w.size() > 1) k = choose((int)w.size(), "which waiter", 0);
  *w[k].second = true;
  w.erase(w.begin() + k);
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) noexcept {
  if (!inFiber()) { static auto real = REAL(pthread_cond_broadcast); return real(c); }
  Quiet quiet;
  yieldPoint("cond broadcast");
  auto it = conds.find(c);
  if (it == conds.end()) return 0;
  for (auto& w : it->second.waiters) *w.second = true;
  conds.erase(it);
  return 0;
}
int pthread_cond_destroy(pthread_cond_t* c) noexcept {
  if (!inFiber()) { static auto real = REAL(pthread_cond_destroy); return real(c); }
  Quiet quiet;
  conds.erase(c);
  return 0;
}
int sched_yield(void) noexcept {
  if (!inFiber()) { static auto real = REAL(sched_yield); return real(); }
  yieldPoint("sched_yield");
  return 0;
}
int nanosleep(const struct timespec* a, struct timespec* b) {
  if (!inFiber()) { static auto real = REAL(nanosleep); return real(a, b); }
  if (a) mc::sleptNs += a->tv_sec * 1000000000ull + a->tv_nsec;
  yieldPoint("nanosleep");
  return 0;
}
int clock_nanosleep(clockid_t c, int f, const struct timespec* a, struct timespec* b) {
  if (!inFiber()) { static auto real = REAL(clock_nanosleep); return real(c, f, a, b); }
  if (a && !(f & TIMER_ABSTIME)) mc::sleptNs += a->tv_sec * 1000000000ull + a->tv_nsec;
  yieldPoint("clock_nanosleep");
  return 0;
}

// OpenSSL randomness: a stream determined by the identity of the calling fiber, or the harness's hook
static uint64_t hostCtr = 0;
int RAND_bytes(unsigned char* buf, int n) {
  if (randHook) { randHook(buf, n); return 1; }
  uint64_t key = cur ? cur->path : 0x99;
  uint64_t& ctr = cur ? cur->randCtr : hostCtr;
  for (int i = 0; i < n; i++) {
    uint64_t z = mix(mix(key, ctr / 8 + 1), 0xabcdef);
    buf[i] = (unsigned char)(z >> (8 * (ctr % 8)));
    ctr++;
  }
  return 1;
}
int RAND_priv_bytes(unsigned char* buf, int n) { return RAND_bytes(buf, n); }
struct engine_st;
engine_st* ENGINE_by_id(const char*) { return (engine_st*)&hostCtr; }
int ENGINE_init(engine_st*) { return 1; }
int ENGINE_set_default(engine_st*, unsigned) { return 1; }
int ENGINE_finish(engine_st*) { return 1; }
int ENGINE_free(engine_st*) { return 1; }
}  // extern C

namespace std {
bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned* addr, unsigned val, bool, chrono::seconds, chrono::nanoseconds) {
  if (!inFiber()) { while (__atomic_load_n(addr, __ATOMIC_ACQUIRE) == val) ::sched_yield(); return true; }
  blockUntil([addr, val] { return __atomic_load_n(addr, __ATOMIC_ACQUIRE) != val; }, "future");
  return true;
}
bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned* addr, unsigned val, bool b, chrono::seconds s, chrono::nanoseconds n) {
  return _M_futex_wait_until(addr, val, b, s, n);
}
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned*) { yieldPoint("future ready"); }
}  // namespace std
