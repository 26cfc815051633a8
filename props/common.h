// Helpers shared by the scenarios.
#pragma once
#include "sim.h"
#include <cerrno>
#include <cstdio>
#include <cstring>
#include <memory>
#include <string>
#include <vector>
using namespace sim;

// draw a fault specification: off, a rate, or the n-th visit
inline void draw_fault(Rng& r, Plan& p, FaultKind k, int64_t max_nth, int off = 1, int on = 2) {
  if (r.below((uint64_t)(off + on)) < (uint64_t)off) return;
  if (r.chance(1, 2)) { p.f[k].nth = r.range(0, max_nth); p.f[k].len = r.pick({1, 1, 1, 2, 5, 1000}); }
  else p.f[k].rate = (uint32_t)r.pick({300, 1500, 6000, 20000});
}
inline int64_t P(const Plan& p, size_t i, int64_t dflt = 0) { return i < p.p.size() ? p.p[i] : dflt; }
// deterministic payload byte
inline uint8_t pat(uint64_t stream, uint64_t i) { uint64_t x = (stream + 1) * 0x9E3779B97F4A7C15ull + i * 0xD1B54A32D192ED03ull; x ^= x >> 31; x *= 0xBF58476D1CE4E5B9ull; return (uint8_t)(x >> 56); }
inline std::string hex(const std::string& s) { std::string o; char b[4]; for (unsigned char c : s) { snprintf(b, sizeof b, "%02x", c); o += b; if (o.size() > 80) { o += ".."; break; } } return o; }

// frees a string the library handed to its caller
#ifdef _LCU_MEM_CHECK_FEATURE_ENABLE
extern "C" void lcu_free(void*);
inline void lib_free(void* p) { if (p) lcu_free(p); }
#else
extern "C" void sim_free(void*);
inline void lib_free(void* p) { sim_free(p); }
#endif
