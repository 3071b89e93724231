// Schedulers of every backend over ideal channels and tuples.
#pragma once
#include <memory>
#include <string>
#include <vector>
#include "fbpcf/scheduler/EagerScheduler.h"
#include "fbpcf/scheduler/IArithmeticScheduler.h"
#include "fbpcf/scheduler/LazyScheduler.h"
#include "fbpcf/scheduler/NetworkPlaintextScheduler.h"
#include "fbpcf/scheduler/PlaintextScheduler.h"
#include "fbpcf/scheduler/WireKeeper.h"
#include "fbpcf/scheduler/gate_keeper/GateKeeper.h"
#include "fbpcf/engine/communication/AgentMapHelper.h"
#include "mc/ideal.h"

namespace mc {
using fbpcf::scheduler::IArithmeticScheduler;
using fbpcf::scheduler::IScheduler;
using BW = IScheduler::WireId<IScheduler::Boolean>;
using AW = IScheduler::WireId<IScheduler::Arithmetic>;

enum Backend { LAZY, EAGER, PLAIN, NETPLAIN };
enum Keeper { ARENA_CHECKED, ARENA_UNCHECKED, MAP };

inline std::unique_ptr<fbpcf::scheduler::IWireKeeper> makeKeeper(Keeper k) {
  using fbpcf::scheduler::WireKeeper;
  if (k == ARENA_CHECKED) return WireKeeper::createWithVectorArena<false>();
  if (k == ARENA_UNCHECKED) return WireKeeper::createWithVectorArena<true>();
  return WireKeeper::createWithUnorderedMap();
}

inline std::unique_ptr<IArithmeticScheduler> makeScheduler(Backend b, Keeper k, int me, int n, IPartyCommunicationAgentFactory& f, TupleBits bits, bool composite) {
  using namespace fbpcf::scheduler;
  switch (b) {
    case LAZY: {
      std::shared_ptr<IWireKeeper> w = makeKeeper(k);
      return std::make_unique<LazyScheduler>(idealEngine(me, n, f, bits, composite), w, std::make_unique<GateKeeper>(w));
    }
    case EAGER: return std::make_unique<EagerScheduler>(idealEngine(me, n, f, bits, composite), makeKeeper(k));
    case PLAIN: return std::make_unique<PlaintextScheduler>(makeKeeper(k));
    default: return std::make_unique<NetworkPlaintextScheduler>(me, fbpcf::engine::communication::getAgentMap(n, me, f), makeKeeper(k));
  }
}
}  // namespace mc
