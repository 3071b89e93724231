// Stand-in for emp-tool: only what the network adapter names.
#pragma once
#include <emmintrin.h>
#include <cstdint>
#include <cstring>
#include <vector>
namespace emp {
using block = __m128i;
class Group { public: unsigned char* scratch = nullptr; std::vector<unsigned char> buf; void resize_scratch(size_t n) { if (buf.size() < n) buf.resize(n); scratch = buf.data(); } };
class Point { public: Group* group = nullptr; std::vector<unsigned char> v; size_t size() { return v.size(); } void to_bin(unsigned char* b, size_t n) { memcpy(b, v.data(), n); } void from_bin(Group* g, const unsigned char* b, size_t n) { group = g; v.assign(b, b + n); } };
inline void block_to_bool(bool* d, block b) { uint64_t w[2]; memcpy(w, &b, 16); for (int i = 0; i < 128; i++) d[i] = (w[i / 64] >> (i % 64)) & 1; }
inline block bool_to_block(const bool* d) { uint64_t w[2] = {0, 0}; for (int i = 0; i < 128; i++) if (d[i]) w[i / 64] |= 1ull << (i % 64); block b; memcpy(&b, w, 16); return b; }
}
