// One subdivision with its fields inside a simulated process, driven by a list of operations.
#pragma once
#include "common.hpp"
namespace wl {
enum OpKind { OP_FILL, OP_EXCH, OP_EXCHALL, OP_ACC, OP_ACCALL, OP_DATA, OP_REDUCE, OP_DESTROY };
struct Op {
  int prog = 0; int kind = 0; int field = 0; int dim = 0; int arg = 0; // arg: orientation / fill mode / reduction kind
  uint64_t seed = 0; int small = 0;
};
struct ProgPlan {
  int kind = 0, rank = 1; Box global; int delta = 1; int overload = 0; int nfields = 1; bool viewOnly = false; double elo[4], ehi[4]; int stagger = 0;
};
struct View { // what a process sees of its subdivision
  int procnum = -1, procCount = 0, uid = -1, delta = -1; bool master = false; Box global, dom, inner; bool blo[4], bhi[4]; double elo[4], ehi[4]; bool done = false;
  Box ghostLo[4], ghostHi[4];
};
struct OpRec { std::vector<long double> cells; std::vector<unsigned char> in, out; double rd = 0; long ri = 0; double vd = 0; long vi = 0; bool done = false; };
struct Plan {
  int nranks = 1; std::vector<ProgPlan> progs; std::vector<Op> ops; int noise = 0; int keep = 0;
  std::vector<std::vector<View>> view;   // [prog][rank]
  std::vector<std::vector<OpRec>> rec;   // [op][rank]
  std::vector<int> noise_ok;
};
struct KindInfo { const char *name; int rank; bool serial; int small_cap; };
struct ProgBase { virtual ~ProgBase() {} virtual void init(const ProgPlan&) = 0; virtual void view(View &) = 0; virtual void op(const Op &, OpRec &) = 0; };
struct Factory { KindInfo info; ProgBase *(*make)(); };
std::vector<Factory> &factories();
struct Register { Register(const char *n, int rank, bool serial, int cap, ProgBase *(*m)()) { factories().push_back({{n, rank, serial, cap}, m}); } };

// reduction input of one process
inline long redInt(uint64_t seed, int p) { uint64_t h = h2(seed, p); switch ((seed >> 8) & 3) { case 0: return (long)(h % 7) - 3; case 1: return (long)(h % 2000001) - 1000000; case 2: return (long)(h % 100) + 1; default: return -(long)(h % 100) - 1; } }
inline double redDbl(uint64_t seed, int p) { uint64_t h = h2(seed ^ 0xabc, p); double u = (double)(h >> 11) / 9007199254740992.0; switch ((seed >> 8) & 7) { case 0: return (u - .5) * 4; case 1: return (u - .5) * 1e12; case 2: return u + 1e-3; case 3: return -u - 1e-3; case 4: return u * 1e-300 + 1e-305; case 5: return -(u + .1) * 1e200; case 6: return (h & 3) ? 1e-9 * u : 1e9 * (u - .5); default: return (double)(long)(h % 5) - 2; } }
// values for minima and maxima, which cannot overflow
inline long redIntAny(uint64_t seed, int p) { uint64_t h = h2(seed ^ 0x51, p); if ((seed >> 16) % 3) return redInt(seed, p); switch ((seed >> 20) & 3) { case 0: return (int)h; case 1: return (h & 3) ? (long)(int)(h >> 32) : -2147483647L - 1; case 2: return 2147483647L - (long)((h >> 8) % 3); default: return -2147483647L - 1 + (long)((h >> 8) % 3); } }
inline double redDblAny(uint64_t seed, int p) { uint64_t h = h2(seed ^ 0x52, p); double u = (double)(h >> 11) / 9007199254740992.0; if ((seed >> 16) % 3) return redDbl(seed, p); switch ((seed >> 20) & 3) { case 0: return (1 + u) * 8e307; case 1: return -(1 + u) * 8e307; case 2: return (h & 3) ? (u - .5) * 1e300 : ((h & 4) ? 1 : -1) * __builtin_inf(); default: return (1 + u) * 1e40; } }
inline size_t dataSize(uint64_t seed, int p) { uint64_t h = h2(seed ^ 0x77, p); switch (h % 6) { case 0: return 0; case 1: return 1; case 2: return 1 + (h >> 8) % 8; case 3: return (h >> 8) % 300; case 4: return 250 + (h >> 8) % 20; default: return (h >> 20) % 64 == 0 ? 60000 + (h >> 28) % 150000 : (h >> 8) % 3000; } }
inline unsigned char dataByte(uint64_t seed, int p, size_t i) { return (unsigned char)(h2(seed ^ 0x99 ^ ((uint64_t)p << 32), i) >> 17); }
} // namespace wl
