#pragma once
#include "sim.hpp"
#include <cstring>
namespace sim {
// fast deterministic filler (defined in the uninstrumented core would be faster; kept simple)
__attribute__((no_sanitize("thread"))) inline void fill_bytes(std::vector<uint8_t>& v, size_t n, uint32_t kind, uint32_t seed) {
  v.resize(n);
  uint32_t x = seed * 2654435761u + 12345;
  uint8_t* p = v.data();
  for (size_t i = 0; i < n; i++) {
    x = x * 1664525u + 1013904223u;
    switch (kind) {
      case 0: p[i] = (uint8_t)seed; break;
      case 1: p[i] = (uint8_t)((x >> 24) & 3); break;
      case 2: p[i] = (uint8_t)(x >> 24); break;
      default: p[i] = (uint8_t)(i * 7 + seed); break;
    }
  }
}
inline std::vector<uint8_t> gen_bytes(const char* label, bool allow_big = true) {
  uint32_t c = choose(allow_big ? 24 : 20, label);
  size_t n;
  if (c < 2) n = choose(3);
  else if (c < 14) n = choose(300);
  else if (c < 18) n = choose(20000);
  else if (c < 20) n = 8191 - 3 + choose(8);
  else if (c < 22) n = 60000 + choose(200000);
  else {
    // around the 1 MiB internal buffer
    static const size_t b[] = {1048576, 1048576 - 400, 2097152, 1100000};
    n = b[choose(4)] - 64 + choose(129);
  }
  std::vector<uint8_t> v;
  uint32_t kind = choose(4), sd = choose(1000);
  fill_bytes(v, n, kind, sd);
  return v;
}
}  // namespace sim
