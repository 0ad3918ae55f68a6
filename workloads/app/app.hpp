// A complete small simulation code built on the library: setup file, fields filled from expressions, stencil
// with halo exchange, particles with migration and deposition, reductions, grid dumps and text output.
#pragma once
#include "common.hpp"
#include <map>
#include <array>
namespace wl {
const double MODV = 1048576.0; // all field values are integers below this, arithmetic on them is exact
struct PartP { int id; int pos[3], vel[3]; int val; };
struct Expr { // fully parenthesised arithmetic on coordinates, constants and earlier variables; values lie on a lattice of 2^-m
  int op = 0; int leaf = 0; double c = 0; int a = -1, b = -1; // op: 0 coordinate(leaf), 1 constant(c), 2 variable(leaf), 3 +, 4 -, 5 *
};
struct ExprTree { std::vector<Expr> n; int root = -1; int m = 0; double mag = 0; };
struct AppPlan {
  int R = 2, nranks = 1, delta = 1, nsteps = 3, start = 0; bool serial = false, checked = false, filler = false, useChild = false; Box global; double org[3], dx[3]; int stag[2][3];
  std::vector<ExprTree> vars; ExprTree init[2]; std::vector<std::array<int, 4>> stencil; // offsets and weight
  std::vector<PartP> parts; bool deposit = false; int dumpInterval = 1, textInterval = 1; std::string dumpBase, textBase, restart; bool feedback = false; uint64_t noise = 0;
  bool dumps = true, text = true, log = false; int logInterval = 1; std::string logName; int onlyStart = 0;
  // records
  std::vector<int> bad, reached, finished; std::vector<Box> inner; std::vector<std::vector<double>> A; std::vector<std::vector<PartP>> outParts; std::vector<std::vector<std::array<double, 5>>> hist; // [rank][step]
  std::vector<std::vector<double>> A0, B0; std::vector<int> master;
  void prepare() { bad.assign(nranks, 0); reached.assign(nranks, -1); finished.assign(nranks, 0); master.assign(nranks, 0); inner.assign(nranks, Box()); A.assign(nranks, {}); outParts.assign(nranks, {}); hist.assign(nranks, {}); A0.assign(nranks, {}); B0.assign(nranks, {}); }
};
std::string setupText(const AppPlan &p);
inline double fold(double v) { v = std::fmod(v, MODV); return v < 0 ? v + MODV : v; }
inline double quant(double v, int m) { return fold((double)llround(std::ldexp(v, m))); }
inline double addend(uint64_t noise, int step) { return (double)(h2(noise, step) % 1000); }
inline std::string textLine(int step, double sum, double mx) { char b[100]; snprintf(b, sizeof b, "step %d sum %.0f max %.0f\n", step, sum, mx); return b; }
void appMain(AppPlan &p);
} // namespace wl
