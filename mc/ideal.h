// Correlated multiplication tuples that depend only on (salt, kind, index): no protocol is needed to create them, both
// parties agree on the n-th tuple, and they are not the all-zero tuples of the repository's dummies.
#pragma once
#include <functional>
#include <map>
#include <memory>
#include <vector>
#include "fbpcf/engine/SecretShareEngineFactory.h"
#include "fbpcf/engine/tuple_generator/IArithmeticTupleGeneratorFactory.h"
#include "fbpcf/engine/tuple_generator/ITupleGeneratorFactory.h"
#include "mc/mc.h"
#include "mc/net.h"

namespace mc {
namespace tg = fbpcf::engine::tuple_generator;

// 64 bits for coordinate (kind, index, part); default: a hash. A harness may install a tape instead.
using TupleBits = std::function<uint64_t(uint64_t kind, uint64_t index, uint64_t part)>;
inline TupleBits hashBits(uint64_t salt) {
  return [salt](uint64_t k, uint64_t i, uint64_t p) { return mix(mix(mix(salt + 11, k + 1), i + 1), p + 1); };
}

class IdealTuples final : public tg::ITupleGenerator {
 public:
  IdealTuples(int me, int n, TupleBits bits, bool composite, uint64_t* used = nullptr) : me_(me), n_(n), bits_(bits), composite_(composite), used_(used) {}
  std::vector<BooleanTuple> getBooleanTuple(uint32_t size) override {
    std::vector<BooleanTuple> r;
    for (uint32_t i = 0; i < size; i++) {
      bool a, b, c;
      bool A = 0, B = 0, C = 0;
      uint64_t idx = next_++;
      for (int p = n_ - 1; p >= 0; p--) {
        uint64_t h = bits_(1, idx, p);
        bool pa = h & 1, pb = h & 2, pc = h & 4;
        A ^= pa; B ^= pb;
        if (p == 0) pc = C ^ (A && B);
        else C ^= pc;
        if (p == me_) { a = pa; b = pb; c = pc; }
      }
      r.emplace_back(a, b, c);
    }
    if (used_) *used_ += size;
    return r;
  }
  std::map<size_t, std::vector<CompositeBooleanTuple>> getCompositeTuple(const std::map<size_t, uint32_t>& sizes) override {
    if (!composite_) throw std::runtime_error("composite tuples not supported");
    std::map<size_t, std::vector<CompositeBooleanTuple>> r;
    for (auto& kv : sizes) {
      std::vector<CompositeBooleanTuple> v;
      for (uint32_t i = 0; i < kv.second; i++) {
        uint64_t idx = cnext_[kv.first]++;
        bool a = 0, A = 0;
        std::vector<bool> B(kv.first), C(kv.first), b(kv.first), c(kv.first);
        for (int p = n_ - 1; p >= 0; p--) { bool pa = bits_(100 + kv.first, idx, p) & 1; A ^= pa; if (p == me_) a = pa; }
        for (size_t j = 0; j < kv.first; j++)
          for (int p = n_ - 1; p >= 0; p--) {
            uint64_t h = bits_(100 + kv.first, idx, (j + 1) * 16 + p);
            bool pb = h & 1, pc = h & 2;
            B[j] = B[j] ^ pb;
            if (p == 0) pc = C[j] ^ (A && B[j]);
            else C[j] = C[j] ^ pc;
            if (p == me_) { b[j] = pb; c[j] = pc; }
          }
        v.emplace_back(a, b, c);
      }
      r.emplace(kv.first, v);
    }
    return r;
  }
  std::pair<std::vector<BooleanTuple>, std::map<size_t, std::vector<CompositeBooleanTuple>>> getNormalAndCompositeBooleanTuples(
      uint32_t n, const std::map<size_t, uint32_t>& c) override {
    auto a = getBooleanTuple(n);
    return {a, c.empty() ? std::map<size_t, std::vector<CompositeBooleanTuple>>{} : getCompositeTuple(c)};
  }
  bool supportsCompositeTupleGeneration() override { return composite_; }
  std::pair<uint64_t, uint64_t> getTrafficStatistics() const override { return {0, 0}; }

 private:
  int me_, n_;
  TupleBits bits_;
  bool composite_;
  uint64_t* used_;
  uint64_t next_ = 0;
  std::map<size_t, uint64_t> cnext_;
};

class IdealIntTuples final : public tg::IArithmeticTupleGenerator {
 public:
  IdealIntTuples(int me, int n, TupleBits bits) : me_(me), n_(n), bits_(bits) {}
  std::vector<IntegerTuple> getIntegerTuple(uint32_t size) override {
    std::vector<IntegerTuple> r;
    for (uint32_t i = 0; i < size; i++) {
      uint64_t idx = next_++, A = 0, B = 0, C = 0, a = 0, b = 0, c = 0;
      for (int p = n_ - 1; p >= 0; p--) {
        uint64_t pa = bits_(2, idx, p), pb = bits_(3, idx, p), pc = bits_(4, idx, p);
        A += pa; B += pb;
        if (p == 0) pc = A * B - C;
        else C += pc;
        if (p == me_) { a = pa; b = pb; c = pc; }
      }
      r.emplace_back(a, b, c);
    }
    return r;
  }
  std::pair<uint64_t, uint64_t> getTrafficStatistics() const override { return {0, 0}; }

 private:
  int me_, n_;
  TupleBits bits_;
  uint64_t next_ = 0;
};

class IdealTuplesFactory final : public tg::ITupleGeneratorFactory {
 public:
  IdealTuplesFactory(int me, int n, TupleBits b, bool composite)
      : ITupleGeneratorFactory(std::make_shared<fbpcf::util::MetricCollector>("ideal")), me_(me), n_(n), b_(b), c_(composite) {}
  std::unique_ptr<tg::ITupleGenerator> create() override { return std::make_unique<IdealTuples>(me_, n_, b_, c_); }
 private:
  int me_, n_; TupleBits b_; bool c_;
};
class IdealIntTuplesFactory final : public tg::IArithmeticTupleGeneratorFactory {
 public:
  IdealIntTuplesFactory(int me, int n, TupleBits b) : me_(me), n_(n), b_(b) {}
  std::unique_ptr<tg::IArithmeticTupleGenerator> create() override { return std::make_unique<IdealIntTuples>(me_, n_, b_); }
 private:
  int me_, n_; TupleBits b_;
};

inline std::unique_ptr<fbpcf::engine::ISecretShareEngine> idealEngine(int me, int n, IPartyCommunicationAgentFactory& f, TupleBits bits, bool composite = true) {
  return fbpcf::engine::getEngineFactoryWithTupleGeneratorFactories(
             me, n, f, std::make_unique<IdealTuplesFactory>(me, n, bits, composite), std::make_unique<IdealIntTuplesFactory>(me, n, bits))
      ->create();
}
}  // namespace mc
