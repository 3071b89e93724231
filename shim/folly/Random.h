#pragma once
#include <cstdint>
extern "C" int RAND_bytes(unsigned char*, int);
namespace folly { struct Random {
  static uint32_t rand32() { uint32_t v; RAND_bytes((unsigned char*)&v, 4); return v; }
  static uint32_t rand32(uint32_t m) { return m ? rand32() % m : 0; }
  static uint32_t rand32(uint32_t a, uint32_t b) { return a == b ? 0 : a + rand32() % (b - a); }
  static uint32_t secureRand32() { return rand32(); }
  static uint32_t secureRand32(uint32_t m) { return rand32(m); }
  static uint64_t secureRand64() { return ((uint64_t)rand32() << 32) | rand32(); }
  static bool secureOneIn(uint32_t n) { return n && rand32(n) == 0; }
}; }
