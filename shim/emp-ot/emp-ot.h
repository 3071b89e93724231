// Stand-in for emp-ot's IKNP: the correlated-OT functionality with the receiver's choices sent in the clear
// (an ideal functionality realised over the same channel; it has the same interface and the same outputs).
#pragma once
#include "emp-tool/emp-tool.h"
namespace emp {
template <class IO> class IKNP {
 public:
  explicit IKNP(IO* io) : io_(io) {}
  void setup_send(const bool* d) { delta_ = bool_to_block(d); }
  void setup_recv() {}
  void send_cot(block* out, int64_t n) {
    std::vector<unsigned char> c(n); io_->recv_data(c.data(), n);
    std::vector<block> m(n);
    for (int64_t i = 0; i < n; i++) { out[i] = _mm_set_epi64x(0x5bd1e9955bd1e995ull * (++ctr_), 0x9e3779b97f4a7c15ull * (ctr_ + 77)); m[i] = c[i] ? _mm_xor_si128(out[i], delta_) : out[i]; }
    io_->send_data(m.data(), n * 16);
  }
  void recv_cot(block* out, const bool* b, int64_t n) {
    std::vector<unsigned char> c(n); for (int64_t i = 0; i < n; i++) c[i] = b[i]; io_->send_data(c.data(), n); io_->recv_data(out, n * 16);
  }
 private:
  IO* io_; block delta_; uint64_t ctr_ = 0;
};
}
using emp::block_to_bool;
