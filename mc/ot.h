// Ideal random correlated oblivious transfer: the sender gets k (lowest bit 0), the receiver k or k ^ delta.
#pragma once
#include <emmintrin.h>
#include <map>
#include <memory>
#include <vector>
#include "fbpcf/engine/tuple_generator/oblivious_transfer/IFlexibleRandomCorrelatedObliviousTransferFactory.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/IRandomCorrelatedObliviousTransferFactory.h"
#include "mc/mc.h"
#include "mc/net.h"
namespace mc {
namespace otns = fbpcf::engine::tuple_generator::oblivious_transfer;
inline bool eq128(__m128i a, __m128i b) { return _mm_movemask_epi8(_mm_cmpeq_epi8(a, b)) == 0xffff; }
inline uint64_t lo64(__m128i a) { return (uint64_t)_mm_cvtsi128_si64(a); }
inline uint64_t hi64(__m128i a) { return (uint64_t)_mm_cvtsi128_si64(_mm_unpackhi_epi64(a, a)); }
inline __m128i m128(uint64_t hi, uint64_t lo) { return _mm_set_epi64x((long long)hi, (long long)lo); }
inline std::string hex(__m128i a) { char b[40]; snprintf(b, sizeof b, "%016llx%016llx", (unsigned long long)hi64(a), (unsigned long long)lo64(a)); return b; }
// what both ends of one transfer share
struct RcotHub {
  uint64_t salt = 0;
  std::vector<__m128i> delta;  // one per pair, in creation order
  int made[2] = {0, 0};
};
class IdealRcot final : public otns::IRandomCorrelatedObliviousTransfer {
 public:
  IdealRcot(std::shared_ptr<RcotHub> h, int id, bool sender, std::unique_ptr<IPartyCommunicationAgent> a) : h_(h), id_(id), sender_(sender), agent_(std::move(a)) {}
  std::vector<__m128i> rcot(int64_t n) override {
    check(n >= 0, "negative number of transfers");
    uint64_t j = next_;  // watched: transfers of one end must be ordered
    if (!sender_) { RcotHub* h = h_.get(); int id = id_; blockUntil([h, id] { return (int)h->delta.size() > id; }, "ideal transfer"); }
    std::vector<__m128i> r;
    next_ = j + n;
    Quiet quiet;  // the parties share no memory
    for (int64_t i = 0; i < n; i++, j++) {
      uint64_t t = mix(mix(h_->salt + 5, id_ + 1), j + 1);
      auto k = m128(mix(t, 1), mix(t, 2) & ~1ull);
      if (!sender_ && (mix(t, 3) & 1)) k = _mm_xor_si128(k, h_->delta[id_]);
      r.push_back(k);
    }
    traffic_.first += 3 * n; traffic_.second += 5 * n;
    return r;
  }
  std::pair<uint64_t, uint64_t> getTrafficStatistics() const override { return traffic_; }
 private:
  std::shared_ptr<RcotHub> h_; int id_; bool sender_; uint64_t next_ = 0;
  std::pair<uint64_t, uint64_t> traffic_{0, 0};
  std::unique_ptr<IPartyCommunicationAgent> agent_;
};
class IdealRcotFactory final : public otns::IRandomCorrelatedObliviousTransferFactory {
 public:
  explicit IdealRcotFactory(std::shared_ptr<RcotHub> h) : h_(h) {}
  std::unique_ptr<otns::IRandomCorrelatedObliviousTransfer> create(__m128i delta, std::unique_ptr<IPartyCommunicationAgent> a) override {
    Quiet quiet;
    h_->delta.push_back(delta);
    return std::make_unique<IdealRcot>(h_, h_->made[0]++, true, std::move(a));
  }
  std::unique_ptr<otns::IRandomCorrelatedObliviousTransfer> create(std::unique_ptr<IPartyCommunicationAgent> a) override {
    Quiet quiet;
    return std::make_unique<IdealRcot>(h_, h_->made[1]++, false, std::move(a));
  }
 private:
  std::shared_ptr<RcotHub> h_;
};
// the two ends of a channel are the two ends of one ideal transfer, in whichever order anything is created
struct RcotNet {
  uint64_t salt = 0;
  std::map<Channel*, std::shared_ptr<RcotHub>> hubs;
  std::shared_ptr<RcotHub> hub(Channel* c) { Quiet quiet; auto& h = hubs[c]; if (!h) { h = std::make_shared<RcotHub>(); h->salt = mix(salt, hubs.size()); } return h; }
};
class ChannelRcotFactory final : public otns::IRandomCorrelatedObliviousTransferFactory {
 public:
  explicit ChannelRcotFactory(std::shared_ptr<RcotNet> n) : n_(n) {}
  std::unique_ptr<otns::IRandomCorrelatedObliviousTransfer> create(__m128i delta, std::unique_ptr<IPartyCommunicationAgent> a) override {
    Quiet quiet;
    auto h = hubOf(a.get());
    check(h->made[0] == 0, "both ends of a channel are senders of correlated transfers");
    h->delta.push_back(delta);
    return std::make_unique<IdealRcot>(h, h->made[0]++, true, std::move(a));
  }
  std::unique_ptr<otns::IRandomCorrelatedObliviousTransfer> create(std::unique_ptr<IPartyCommunicationAgent> a) override {
    Quiet quiet;
    auto h = hubOf(a.get());
    check(h->made[1] == 0, "both ends of a channel are receivers of correlated transfers");
    return std::make_unique<IdealRcot>(h, h->made[1]++, false, std::move(a));
  }
 private:
  std::shared_ptr<RcotHub> hubOf(IPartyCommunicationAgent* a) {
    auto g = dynamic_cast<Agent*>(a);
    return n_->hub(g->channel());
  }
  std::shared_ptr<RcotNet> n_;
};
}  // namespace mc
