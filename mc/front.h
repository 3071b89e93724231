// Frontend programs: party P's scheduler lives in SchedulerKeeper<P>.
#pragma once
#include "fbpcf/scheduler/IScheduler.h"
#include "mc/backend.h"
namespace mc {
struct BackendChoice { Backend b; bool plain; };
// real backends run two parties, the plaintext one a single party
inline BackendChoice chooseBackend() { int k = choose(3, "backend"); return k == 0 ? BackendChoice{PLAIN, true} : BackendChoice{k == 1 ? LAZY : EAGER, false}; }
template <int P> void withScheduler(Backend b, std::shared_ptr<World> w, const std::function<void()>& f, bool composite = true) {
  struct Free { ~Free() { fbpcf::scheduler::SchedulerKeeper<P>::freeScheduler(); } } fr;
  Factory fac(w, P);
  fbpcf::scheduler::SchedulerKeeper<P>::setScheduler(makeScheduler(b, ARENA_CHECKED, P, 2, fac, hashBits(77), composite));
  f();
}
inline void runBoth(BackendChoice b, const std::function<void()>& p0, const std::function<void()>& p1, bool composite = true) {
  auto w = std::make_shared<World>();
  if (b.plain) { withScheduler<0>(b.b, w, p0, composite); return; }
  parties(2, [&](int p) { if (p == 0) withScheduler<0>(b.b, w, p0, composite); else withScheduler<1>(b.b, w, p1, composite); });
  check(w->drained(), "bytes left unread between the parties");
}
}  // namespace mc
