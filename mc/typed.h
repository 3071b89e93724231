// The standard library's value types behind one interface: a value is a number below 2^bits.
#pragma once
#include <exception>
#include <stdexcept>
#include <string>
#include "fbpcf/mpc_std_lib/util/util.h"
#include "mc/front.h"
namespace mc {
namespace ut = fbpcf::mpc_std_lib::util;
template <class T> struct Val;
template <> struct Val<uint32_t> {
  static constexpr int bits = 32; static constexpr const char* name = "uint32"; using Batch = std::vector<uint32_t>;
  static Batch batch(const std::vector<uint64_t>& v) { return Batch(v.begin(), v.end()); }
  static std::vector<uint64_t> codes(const Batch& b) { return std::vector<uint64_t>(b.begin(), b.end()); }
};
template <bool S, int8_t W> struct Val<ut::Intp<S, W>> {
  static constexpr int bits = W; static constexpr const char* name = S ? "signed Intp" : "unsigned Intp"; using I = ut::Intp<S, W>; using Batch = std::vector<I>;
  static constexpr uint64_t M = W == 64 ? ~0ull : (1ull << W) - 1;
  static I one(uint64_t v) { v &= M; return I((typename I::NativeType)(S && (v >> (W - 1)) ? (int64_t)(v | ~M) : (int64_t)v)); }
  static Batch batch(const std::vector<uint64_t>& v) { Batch b; for (auto x : v) b.push_back(one(x)); return b; }
  static std::vector<uint64_t> codes(const Batch& b) { std::vector<uint64_t> r; for (const auto& x : b) r.push_back((uint64_t)(typename I::NativeType)x & M); return r; }
};
template <> struct Val<bool> {
  static constexpr int bits = 1; static constexpr const char* name = "bool"; using Batch = std::vector<bool>;
  static Batch batch(const std::vector<uint64_t>& v) { Batch b; for (auto x : v) b.push_back(x & 1); return b; }
  static std::vector<uint64_t> codes(const Batch& b) { std::vector<uint64_t> r; for (bool x : b) r.push_back(x); return r; }
};
template <> struct Val<std::vector<bool>> {  // three-bit strings; batch[position][element]
  static constexpr int bits = 3; static constexpr const char* name = "bit string"; using Batch = std::vector<std::vector<bool>>;
  static Batch batch(const std::vector<uint64_t>& v) { Batch b(bits); for (auto x : v) for (int i = 0; i < bits; i++) b[i].push_back(x >> i & 1); return b; }
  static std::vector<uint64_t> codes(const Batch& b) { std::vector<uint64_t> r(b.empty() ? 0 : b[0].size()); for (size_t i = 0; i < b.size(); i++) for (size_t j = 0; j < r.size() && j < b[i].size(); j++) r[j] |= (uint64_t)b[i][j] << i; return r; }
};
template <> struct Val<ut::AggregationValue> {
  static constexpr int bits = 64; static constexpr const char* name = "aggregation value"; using Batch = std::vector<ut::AggregationValue>;
  static Batch batch(const std::vector<uint64_t>& v) { Batch b; for (auto x : v) b.emplace_back((uint32_t)x, (uint32_t)(x >> 32)); return b; }
  static std::vector<uint64_t> codes(const Batch& b) { std::vector<uint64_t> r; for (auto& x : b) r.push_back(x.conversionCount | (uint64_t)x.conversionValue << 32); return r; }
};
template <class T, class U> struct Val<std::pair<T, U>> {
  static constexpr int bits = Val<T>::bits + Val<U>::bits; static constexpr const char* name = "pair"; using Batch = std::vector<std::pair<T, U>>;
  static Batch batch(const std::vector<uint64_t>& v) {
    std::vector<uint64_t> lo, hi; for (auto x : v) { lo.push_back(x & ((1ull << Val<T>::bits) - 1)); hi.push_back(x >> Val<T>::bits & ((1ull << Val<U>::bits) - 1)); }
    auto a = Val<T>::batch(lo); auto b = Val<U>::batch(hi);
    Batch r; for (size_t i = 0; i < v.size(); i++) r.emplace_back(a[i], b[i]); return r;
  }
  static std::vector<uint64_t> codes(const Batch& p) {
    typename Val<T>::Batch a; typename Val<U>::Batch b; for (auto& x : p) { a.push_back(x.first); b.push_back(x.second); }
    auto lo = Val<T>::codes(a), hi = Val<U>::codes(b);
    std::vector<uint64_t> r; for (size_t i = 0; i < p.size(); i++) r.push_back(lo[i] | hi[i] << Val<T>::bits); return r;
  }
};
template <class T> uint64_t maskOf() { return Val<T>::bits == 64 ? ~0ull : (1ull << Val<T>::bits) - 1; }
// values in the clear -> secret batch of one owner (the other party contributes junk of the same size)
template <class T, int P> auto secret(bool plain, int owner, const std::vector<uint64_t>& v) {
  std::vector<uint64_t> w = v; if (!plain && owner != P) for (auto& x : w) x = ~x & maskOf<T>();
  return ut::MpcAdapters<T, P>::processSecretInputs(Val<T>::batch(w), owner);
}
}  // namespace mc
