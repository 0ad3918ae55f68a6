// Helpers shared by all workloads: index boxes, planning shorthands.
#pragma once
#include "sim.h"
#include <vector>
#include <string>
#include <memory>
#include <cstring>
#include <cmath>
#include <algorithm>

namespace wl {
struct Box {
  int r = 0; int lo[4] = {0,0,0,0}, hi[4] = {-1,-1,-1,-1};
  long n(int d) const { return (long)hi[d] - lo[d] + 1; }
  long volume() const { long v = 1; for (int d = 0; d < r; ++d) { long k = n(d); if (k <= 0) return 0; v *= k; } return v; }
  bool empty() const { return volume() == 0; }
  bool has(const int *x) const { for (int d = 0; d < r; ++d) if (x[d] < lo[d] || x[d] > hi[d]) return false; return true; }
  size_t index(const int *x) const { size_t k = 0; for (int d = 0; d < r; ++d) k = k * n(d) + (x[d] - lo[d]); return k; }
  bool first(int *x) const { if (empty()) return false; for (int d = 0; d < r; ++d) x[d] = lo[d]; return true; }
  bool next(int *x) const { for (int d = r - 1; d >= 0; --d) { if (++x[d] <= hi[d]) return true; x[d] = lo[d]; } return false; }
  bool operator==(const Box &b) const { if (r != b.r) return false; for (int d = 0; d < r; ++d) if (lo[d] != b.lo[d] || hi[d] != b.hi[d]) return false; return true; }
  bool inside(const Box &b) const { for (int d = 0; d < r; ++d) if (lo[d] < b.lo[d] || hi[d] > b.hi[d]) return false; return true; }
  bool overlaps(const Box &b) const { if (empty() || b.empty()) return false; for (int d = 0; d < r; ++d) if (hi[d] < b.lo[d] || b.hi[d] < lo[d]) return false; return true; }
  Box shrunk(int k) const { Box b = *this; for (int d = 0; d < r; ++d) { b.lo[d] += k; b.hi[d] -= k; } return b; }
  std::string str() const { std::string s; char t[64]; for (int d = 0; d < r; ++d) { snprintf(t, sizeof t, "%s[%d,%d]", d ? "x" : "", lo[d], hi[d]); s += t; } return s; }
};
inline std::string pt(const int *x, int r) { std::string s = "("; for (int d = 0; d < r; ++d) s += (d ? "," : "") + std::to_string(x[d]); return s + ")"; }
inline int wrap(int x, int lo, int hi) { int n = hi - lo + 1; int k = (x - lo) % n; if (k < 0) k += n; return lo + k; }
inline uint64_t mix64(uint64_t z) { z += 0x9E3779B97F4A7C15ull; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
inline uint64_t h2(uint64_t a, uint64_t b) { return mix64(mix64(a) ^ (b * 0xD6E8FEB86659FD93ull + 0x1234567)); }
// planning shorthands (director only)
inline int P(int n) { return (int)sim_choose(SIM_PLAN, n); }
inline int PR(int lo, int hi) { return lo + (int)sim_choose(SIM_PLAN, hi - lo + 1); }
inline bool PP(double p) { return sim_choose_p(SIM_PLAN, 2, p) != 0; }
inline int F(int n) { return (int)sim_choose(SIM_FAULT, n); }
inline bool FP(double p) { return sim_choose_p(SIM_FAULT, 2, p) != 0; }
template<class Range> Box toBox(const Range &r, int rank) { Box b; b.r = rank; for (int d = 0; d < rank; ++d) { b.lo[d] = r.getLo()[d]; b.hi[d] = r.getHi()[d]; } return b; }
} // namespace wl
