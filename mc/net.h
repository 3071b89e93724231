// Byte channels between parties, with the blocking, in-order, lossless semantics every engine relies on.
#pragma once
#include <cstring>
#include <deque>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>
#include "fbpcf/engine/communication/IPartyCommunicationAgentFactory.h"
#include "mc.h"

namespace mc {
using fbpcf::engine::communication::IPartyCommunicationAgent;
using fbpcf::engine::communication::IPartyCommunicationAgentFactory;

struct Channel {
  std::deque<unsigned char> q[2];  // q[side]: bytes sent by that side
  std::vector<unsigned char> log[2];
  uint64_t total[2] = {0, 0};  // bytes sent by that side
  bool closed[2] = {false, false};
};

class Agent final : public IPartyCommunicationAgent {
 public:
  Agent(std::shared_ptr<Channel> c, int side, bool log = false) : c_(c), side_(side), log_(log) {}
  std::pair<uint64_t, uint64_t> getTrafficStatistics() const override { return {sent_, recv_}; }
  uint64_t sent_ = 0, recv_ = 0;
  Channel* channel() const { return c_.get(); }

 private:
  void recvImpl(void* data, int n) override {
    auto& q = c_->q[1 - side_];
    if (n < 0) throw std::runtime_error("negative receive size");
    if (n > 0) mc::blockUntil([&q, n] { return q.size() >= (size_t)n; }, "network receive");
    Quiet quiet;  // parties share no memory: a channel is no synchronisation and no race
    std::copy(q.begin(), q.begin() + n, (unsigned char*)data);
    q.erase(q.begin(), q.begin() + n);
    recv_ += n;
  }
  void sendImpl(const void* data, int n) override {
    if (n < 0) throw std::runtime_error("negative send size");
    auto p = (const unsigned char*)data;
    {
      Quiet quiet;
      c_->q[side_].insert(c_->q[side_].end(), p, p + n);
      if (log_) c_->log[side_].insert(c_->log[side_].end(), p, p + n);
      sent_ += n; c_->total[side_] += n;
    }
    mc::yieldPoint("network send");
  }
  std::shared_ptr<Channel> c_;
  int side_;
  bool log_;
};

// one host per pair of parties: the i-th agent party a creates for party b talks to the i-th agent b creates for a
struct World {
  bool log = false;
  std::map<std::pair<int, int>, std::vector<std::shared_ptr<Channel>>> ch;
  std::map<std::pair<int, int>, int> used;  // (me, other) -> count
  std::shared_ptr<Channel> get(int me, int other) {
    Quiet quiet;
    int i = used[{me, other}]++;
    auto& v = ch[{std::min(me, other), std::max(me, other)}];
    while ((int)v.size() <= i) v.push_back(std::make_shared<Channel>());
    return v[i];
  }
  std::unique_ptr<Agent> agent(int me, int other) {
    return std::make_unique<Agent>(get(me, other), me < other ? 0 : 1, log);
  }
  // every byte party `me` received, over all channels
  std::vector<unsigned char> view(int me) const {
    std::vector<unsigned char> r;
    for (auto& kv : ch) {
      if (kv.first.first != me && kv.first.second != me) continue;
      int other = kv.first.first == me ? 1 : 0;
      for (auto& c : kv.second) r.insert(r.end(), c->log[other].begin(), c->log[other].end());
    }
    return r;
  }
  bool drained() const {
    for (auto& kv : ch) for (auto& c : kv.second) if (!c->q[0].empty() || !c->q[1].empty()) return false;
    return true;
  }
};

class Factory final : public IPartyCommunicationAgentFactory {
 public:
  Factory(std::shared_ptr<World> w, int me)
      : IPartyCommunicationAgentFactory("mc"), w_(w), me_(me) {}
  std::unique_ptr<IPartyCommunicationAgent> create(int id, std::string) override { return w_->agent(me_, id); }

 private:
  std::shared_ptr<World> w_;
  int me_;
};

// run one body per party to completion
inline RunResult parties(int n, const std::function<void(int)>& body, RunOpts o = {}) {
  return run([&] {
    std::vector<int> ids;
    std::vector<std::exception_ptr> ex(n);
    for (int p = 0; p < n; p++)
      ids.push_back(spawn([&, p] { try { body(p); } catch (const Skip&) { throw; } catch (...) { ex[p] = std::current_exception(); throw; } }, ("party" + std::to_string(p)).c_str()));
    for (int id : ids) join(id);
    for (auto& e : ex) if (e) std::rethrow_exception(e);
  }, o);
}
}  // namespace mc
