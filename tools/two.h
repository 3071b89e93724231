// Two parties in one process, on the repository's in-memory channels and insecure (always-zero-tuple) engine.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <thread>
#include <unistd.h>
#include "fbpcf/engine/communication/InMemoryPartyCommunicationAgentFactory.h"
#include "fbpcf/scheduler/IScheduler.h"
#include "fbpcf/scheduler/EagerSchedulerFactory.h"
#include "fbpcf/scheduler/LazySchedulerFactory.h"
// the hardware random engine may be missing where this runs; the library's own generator does as well
struct engine_st;
extern "C" {
engine_st* ENGINE_by_id(const char*) { static int x; return (engine_st*)&x; }
int ENGINE_init(engine_st*) { return 1; }
int ENGINE_set_default(engine_st*, unsigned) { return 1; }
int ENGINE_finish(engine_st*) { return 1; }
int ENGINE_free(engine_st*) { return 1; }
}
namespace cm = fbpcf::engine::communication;
inline std::vector<std::unique_ptr<cm::InMemoryPartyCommunicationAgentFactory>> twoFactories() {
  auto h = std::make_shared<cm::InMemoryPartyCommunicationAgentFactory::HostInfo>(); h->mutex = std::make_unique<std::mutex>();
  std::vector<std::unique_ptr<cm::InMemoryPartyCommunicationAgentFactory>> r;
  for (int i = 0; i < 2; i++) r.push_back(std::make_unique<cm::InMemoryPartyCommunicationAgentFactory>(i, std::map<int, std::shared_ptr<cm::InMemoryPartyCommunicationAgentFactory::HostInfo>>{{1 - i, h}}));
  return r;
}
// runs f<0> and f<1> (called as f(std::integral_constant<int, party>, factory)) with scheduler P in SchedulerKeeper<P>
template <class F> void twoParties(bool lazy, F f) {
  auto fac = twoFactories();
  auto set = [&](auto P, auto& a) {
    constexpr int p = decltype(P)::value;
    if (lazy) fbpcf::scheduler::SchedulerKeeper<p>::setScheduler(fbpcf::scheduler::getLazySchedulerFactoryWithInsecureEngine<false>(p, a)->create());
    else fbpcf::scheduler::SchedulerKeeper<p>::setScheduler(fbpcf::scheduler::getEagerSchedulerFactoryWithInsecureEngine<false>(p, a)->create());
    f(P, a);
    fbpcf::scheduler::SchedulerKeeper<p>::freeScheduler();
  };
  std::thread t([&] { set(std::integral_constant<int, 1>{}, *fac[1]); });
  set(std::integral_constant<int, 0>{}, *fac[0]);
  t.join();
}
inline void expect(bool ok, const char* what) { if (!ok) { printf("WRONG: %s\n", what); fflush(stdout); _exit(1); } }
