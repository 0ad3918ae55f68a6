// Setup files: block classes, parameters, variables, expressions, data sharing and dependency updates.
#pragma once
#include "common.hpp"
#include <map>
#include <set>
namespace wl {
enum { TI = 0, TF = 1, TS = 2 };
struct Val { int t = TI; int i = 0; double d = 0; std::string s; };
inline Val VI(int i) { Val v; v.t = TI; v.i = i; return v; }
inline Val VF(double d) { Val v; v.t = TF; v.d = d; return v; }
inline Val VS(std::string s) { Val v; v.t = TS; v.s = s; return v; }
inline std::string show(const Val &v) { char b[64]; if (v.t == TI) snprintf(b, sizeof b, "%d", v.i); else if (v.t == TF) snprintf(b, sizeof b, "%.17g", v.d); else return "\"" + v.s + "\""; return b; }
inline bool same(const Val &a, const Val &b) { if (a.t != b.t) return false; if (a.t == TI) return a.i == b.i; if (a.t == TS) return a.s == b.s; return a.d == b.d || (a.d != a.d && b.d != b.d) || std::fabs(a.d - b.d) <= 1e-12 * (std::fabs(a.d) + std::fabs(b.d)); }
enum { K_RW = 0, K_RO = 1, K_CONST = 2 };
// arr: 0 scalar, 1 and 2: first and second element of a two-element array parameter; arrForm: how its defaults are given
struct ParamDef { std::string name, base, ext; int type = TI, kind = K_RW; bool hasDef = false; Val def; int arr = 0, arrForm = 0; };
struct DataDef { std::string key; int kind = 0; }; // 0 int, 1 double, 2 pointer to a double, 3 struct
struct ClassDef { std::string name; int role = 0; bool factory = true; std::vector<ParamDef> par; std::vector<DataDef> data; std::set<int> kids; };
enum { Q_PTR = 0, Q_VAL = 1 };
struct Query { int block = 0; std::string key; int kind = 0, how = 0, phase = 1; };
enum { OP_NEW = 0, OP_IND, OP_DEP, OP_CLEAR, OP_SET, OP_STATE, OP_UPDATE, OP_ALL, OP_RECREATE, OP_NUM };
struct ParRef { int block = 0, par = 0; };
struct Op { int op = 0; int u = 0; ParRef p; Val v; };
enum { M_C16 = 0, M_C18 = 1, M_C19 = 2 };
enum { PH_REGISTER = 0, PH_PREINIT, PH_INIT, PH_POSTINIT };
struct VarOut { std::string path; int type; bool constant, readonly; Val v; };
struct RankOut {
  std::vector<std::string> attempts; // "" success, else the kind of exception
  std::vector<std::string> created; std::vector<std::pair<int, std::string>> events; std::vector<std::vector<Val>> values; std::vector<std::pair<int, int>> qres; // owner or -1 missing, -2 ambiguous, -3 other; second: value right
  std::vector<std::pair<std::string, std::vector<std::string>>> homes; std::vector<std::vector<Val>> updates; std::vector<VarOut> vars; long exists = 0; bool finished = false; int thrown = -1;
};
struct SetupPlan {
  int mode = 0, nranks = 1, maxTries = 1, startBlock = 0; std::vector<ClassDef> classes; std::string text; std::vector<Query> queries; std::vector<Op> ops; std::vector<std::pair<std::string, int>> probes; // lookups by name from a block
  int throwPhase = -1, throwBlock = -1; bool viaSettings = false, unrestricted = false; std::vector<RankOut> out; std::vector<int> allocFail; // per process: which allocation fails in the first attempt (-1 none)
  double state = 0;
};
void setupMain(SetupPlan &p);
} // namespace wl
