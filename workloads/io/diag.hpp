// Diagnostics driven by the DiagnosticManager: plans and records.
#pragma once
#include "plan.hpp"
namespace wl {
enum { D_REC = 0, D_TEXT = 1, D_HDF = 2 };
struct DSpec {
  int cls = 0; bool delta = false, single = false, append = false, own = false; int interval = 1; double deltaTime = 1, delay = 0; std::string file; int from = 0, to = 1 << 30; // alive for steps [from,to)
  bool attrs = false; std::string ds = "data"; // HDF: attributes and name of the dataset
  bool useDefault = false; // leave interval / deltaTime / delay to their defaults
};
struct DStep { int tc = 0; double t = 0; };
struct DEvent { int step, diag, what; std::string name; }; // what: 0 open, 1 write, 2 close
struct DiagPlan {
  int nranks = 1; bool setTC = true, setPT = true, tcLast = false; bool adjust = false; double dt = 1; double t0 = 0; bool serial = false;
  Box global; int delta = 0; bool expectThrow = false; int masterRank = -1; // the application names another process as master
  std::vector<DSpec> diags; std::vector<DStep> steps; // without adjust the times are planned, with adjust only the counters are
  std::vector<std::vector<DEvent>> ev;       // [rank]
  std::vector<std::vector<double>> adj, time; // [rank][step]
  std::vector<int> threw, master, procnum, finished;
};
inline std::string probeText(int diag, int rank, int step) { std::string s = "diag " + std::to_string(diag) + " rank " + std::to_string(rank) + " step " + std::to_string(step) + " "; s.append(h2(diag * 1000 + step, rank) % (step % 5 == 3 ? 9000 : 60), (char)('a' + (step + diag) % 26)); return s + "\n"; }
inline uint64_t fieldSeed(int step) { return mix64(step + 4242); }
} // namespace wl
