// Small stateless model checker: every source of nondeterminism of an execution (data choice, thread schedule,
// environment answer) is a numbered choice point; the explorer enumerates all choice sequences depth first,
// up to a bound on the total cost of deviations from the default answer.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>
#include <sstream>

namespace mc {

// ---- choices -------------------------------------------------------------------------------------------------
// cost: what choosing a non-zero alternative costs against the suite's deviation bound (0 = free, data choice).
int choose(int n, const char* tag = "", int cost = 0);
inline bool chooseBool(const char* tag = "", int cost = 0) { return choose(2, tag, cost) != 0; }
struct Skip {};                       // thrown by assume(false)
void assume(bool ok);
// ---- verdicts ------------------------------------------------------------------------------------------------
// key: stable identification of what failed (matched against known findings); detail: free text.
void fail(const std::string& key, const std::string& detail = "");
bool failed();
inline void check(bool ok, const std::string& key, const std::function<std::string()>& detail = nullptr) {
  if (!ok) fail(key, detail ? detail() : "");
}
// ---- measurement ---------------------------------------------------------------------------------------------
void state(uint64_t h);               // a state / outcome observed (deduplicated)
void step(uint64_t n = 1);            // transitions executed
void evals(uint64_t n = 1);           // oracle comparisons made against the implementation
void note(const std::string& s);      // describes the current case (kept for samples and crash reports)
inline uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull; h ^= h >> 32; return h;
}
inline uint64_t hashStr(const std::string& s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }

// ---- fibers --------------------------------------------------------------------------------------------------
// All threads of the code under test become fibers of one OS thread; a switch happens only at a
// synchronisation operation, and which fiber runs next is a choice point when exploration is on.
int spawn(std::function<void()> fn, const char* name = "");
void join(int id);
void blockUntil(const std::function<bool()>& pred, const char* what);
void yieldPoint(const char* what);
int self();
uint64_t selfPath();                  // schedule-independent identity of the current fiber
bool inFiber();
// for a harness's own stand-ins in units that detect data races: happens-before edges, and accesses that are no race
void hbRelease(void* p);
void hbAcquire(void* p);
void quietBegin();
void quietEnd();
struct Quiet { Quiet() { quietBegin(); } ~Quiet() { quietEnd(); } };
struct RunResult { bool deadlock = false; bool horizon = false; std::string detail; };
struct RunOpts {
  bool explore = false;               // thread choices are choice points
  bool delay = false;                 // every departure from the default order counts against the bound, not only preemptions
  bool spurious = false;              // condition waits may wake spuriously (cost 1)
  uint64_t horizon = 2000000;         // scheduling points before the execution is called a livelock
  bool failOnDeadlock = true;
};
RunResult run(const std::function<void()>& main, const RunOpts& o = {});

// ---- randomness of the code under test -----------------------------------------------------------------------
// RAND_bytes of the code under test; default: a stream determined by fiber identity.
extern std::function<void(unsigned char*, int)> randHook;
// Time the code under test has slept (virtual: nothing really sleeps).
extern uint64_t sleptNs;

// ---- suites --------------------------------------------------------------------------------------------------
struct Suite {
  std::string name;
  std::function<void()> body;         // one execution; all nondeterminism through choose()
  int bound = 0;                      // deviation bound (quick)
  int boundThorough = -1;             // -1: same
  bool thoroughOnly = false;
  uint64_t maxExecs = 0;              // 0: no cap
  int shardDepth = 4;                 // choice points whose values decide which shard runs an execution
};
extern bool thorough;
extern uint64_t seed;
int harnessMain(int argc, char** argv, const std::string& property, std::vector<Suite> suites);

template <class T> std::string str(const T& v) { std::ostringstream o; o << v; return o.str(); }
template <class T> std::string vec(const std::vector<T>& v) {
  std::ostringstream o; o << "["; for (size_t i = 0; i < v.size(); i++) o << (i ? "," : "") << +static_cast<T>(v[i]); o << "]"; return o.str();
}
inline std::string vec(const std::vector<bool>& v) { std::string s = "["; for (bool b : v) s += b ? '1' : '0'; return s + "]"; }
}  // namespace mc
