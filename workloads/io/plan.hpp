// Plans and records shared between the director and the simulated processes (file output workloads).
#pragma once
#include "common.hpp"
#include <map>
namespace wl {
enum { W_OPEN, W_NAME, W_ATTR, W_WRITE, W_CLOSE, W_ACTIVE, W_NEW, R_OPEN, R_NAME, R_READ, R_CLOSE, R_ACTIVE, R_NEW };
struct AttrPlan { std::string name; int type; int dims; uint64_t seed; }; // type 0 int, 1 float, 2 double
struct IOp { int kind = 0, stream = 0; std::string name; uint64_t seed = 0; std::vector<int> active; std::vector<AttrPlan> attrs; Box region; };
struct IRec { std::vector<double> cells; Box box, inner; bool done = false; };
struct IoPlan {
  int nranks = 1, kind = 0, rank = 1, delta = 1; Box global; bool serial = false; std::vector<IOp> ops;
  std::vector<std::vector<IRec>> rec; // [op][rank]
  std::vector<Box> inner;             // [rank]
};
struct IoKind { const char *name; int rank; bool ghosts; };
struct IoProg { virtual ~IoProg() {} virtual void init(const IoPlan &) = 0; virtual Box inner() = 0; virtual void op(const IOp &, IRec &) = 0; };
struct IoFactory { IoKind info; IoProg *(*make)(); };
std::vector<IoFactory> &ioFactories();
struct IoRegister { IoRegister(const char *n, int r, bool g, IoProg *(*m)()) { ioFactories().push_back({{n, r, g}, m}); } };
inline double cellVal(uint64_t seed, const int *x, int r) { uint64_t h = seed; for (int d = 0; d < r; ++d) h = h2(h, (uint64_t)(x[d] + 100000)); return (double)((long)(h % 16000000) - 8000000); }
inline double attrVal(uint64_t seed, int i) { return (double)((long)(h2(seed, i) % 2000000) - 1000000); }
const double SENTINEL = -123456.0;
} // namespace wl
