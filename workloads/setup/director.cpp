// C16: reading setup files. C18: variables follow what they depend on. C19: life cycle and data of blocks.
#include "setup.hpp"
#include <mpi.h>
#include <boost/lexical_cast.hpp>
#include <boost/math/special_functions/gamma.hpp>
#include <boost/math/special_functions/digamma.hpp>
#include <boost/math/special_functions/bessel.hpp>
using namespace wl;
extern "C" void sim_rank_main(int entry, void *shared) { MPI_Init(nullptr, nullptr); setupMain(*(SetupPlan*)shared); sim_heap_check(); MPI_Finalize(); }
namespace {
double mGamma(double x) { return boost::math::tgamma(x); } double mLgamma(double x) { return boost::math::lgamma(x); } double mDigamma(double x) { return boost::math::digamma(x); } double mBesselJ(int n, double x) { return boost::math::cyl_bessel_j(n, x); } double mBesselY(int n, double x) { return boost::math::cyl_neumann(n, x); }
enum { E_LIT, E_VAR, E_SUM, E_PROD, E_POW, E_FN };
struct Ex { int k = E_LIT, type = TI; Val lit; std::string text; int var = -1; std::vector<int> kids; std::string ops; std::string fn; bool neg = false; };
struct Var { std::string name; int type = TI; bool constant = true, ro = false, init = true, ext = false; Val v; int ex = -1; double mag = 0; };
struct Blk { std::string name; int cls = 0, parent = -1, obj = -1, objParent = -1; std::vector<int> kids; std::map<std::string, int> vars; std::vector<int> par; };
struct Model {
  SetupPlan &p; std::vector<Ex> ex; std::vector<Var> var; std::vector<Blk> blk; std::vector<int> obj; std::string t; int stmts = 0, errAt = -1, errKind = 0, maxStmts, depth = 0; bool errDone = false; std::string errWhat; double state = 0; bool fancy = true, needAny = false;
  explicit Model(SetupPlan &q) : p(q) {}
  // ---------------------------------------------------------------- values
  Val num(const Val &v, int t) { if (v.t == t) return v; if (t == TF) return VF(v.t == TI ? v.i : boost::lexical_cast<double>(v.s)); if (t == TI) return VI(v.t == TF ? (int)v.d : boost::lexical_cast<int>(v.s)); return VS(v.t == TI ? boost::lexical_cast<std::string>(v.i) : boost::lexical_cast<std::string>(v.d)); }
  Val vval(int i) { Var &v = var[i]; return v.constant || v.ext ? v.v : num(eval(v.ex), v.type); }
  Val bin(char o, const Val &a, const Val &b) {
    if (a.t == TS) return VS(a.s + b.s); if (a.t == TI) return VI(o == '+' ? a.i + b.i : o == '-' ? a.i - b.i : o == '*' ? a.i * b.i : a.i / b.i); return VF(o == '+' ? a.d + b.d : o == '-' ? a.d - b.d : o == '*' ? a.d * b.d : a.d / b.d);
  }
  Val eval(int e) {
    const Ex x = ex[e];
    switch (x.k) {
      case E_LIT: return x.lit; case E_VAR: return vval(x.var);
      case E_SUM: case E_PROD: { Val r = eval(x.kids[0]); if (x.neg) { if (r.t == TI) r.i = -r.i; else r.d = -r.d; } for (size_t k = 1; k < x.kids.size(); ++k) { Val b = eval(x.kids[k]); int ty = std::max(r.t, b.t); r = bin(x.ops[k], num(r, ty), num(b, ty)); } return r; }
      case E_POW: return VF(pow(num(eval(x.kids[0]), TF).d, num(eval(x.kids[1]), TF).d));
      default: {
        auto a = [&](int k, int t) { return num(eval(x.kids[k]), t); };
        if (x.fn == "state") return VF(state); if (x.fn == "pick") return VF(4 * a(0, TF).d - 2 * a(1, TF).d + a(2, TF).d); if (x.fn == "twice") return VF(2 * a(0, TF).d); if (x.fn == "fabs") return VF(std::fabs(a(0, TF).d)); if (x.fn == "floor") return VF(std::floor(a(0, TF).d)); if (x.fn == "sin") return VF(std::sin(a(0, TF).d));
        if (x.fn == "min") return VF(std::min(a(0, TF).d, a(1, TF).d)); if (x.fn == "max") return VF(std::max(a(0, TF).d, a(1, TF).d)); if (x.fn == "fmod") return VF(std::fmod(a(0, TF).d, a(1, TF).d)); if (x.fn == "minI") return VF(std::min(a(0, TI).i, a(1, TI).i)); if (x.fn == "maxI") return VF(std::max(a(0, TI).i, a(1, TI).i));
        static const std::map<std::string, double (*)(double)> f1 = {{"cos", std::cos}, {"tan", std::tan}, {"acos", std::acos}, {"asin", std::asin}, {"atan", std::atan}, {"cosh", std::cosh}, {"sinh", std::sinh}, {"tanh", std::tanh}, {"exp", std::exp}, {"log", std::log}, {"log10", std::log10}, {"sqrt", std::sqrt}, {"ceil", std::ceil}, {"gamma", mGamma}, {"lgamma", mLgamma}, {"digamma", mDigamma}}; auto fi = f1.find(x.fn); if (fi != f1.end()) return VF(fi->second(a(0, TF).d));
        if (x.fn == "atan2") return VF(std::atan2(a(0, TF).d, a(1, TF).d)); if (x.fn == "ldexp") return VF(std::ldexp(a(0, TF).d, a(1, TI).i)); if (x.fn == "pow") return VF(std::pow(a(0, TF).d, a(1, TF).d)); if (x.fn == "besselj") return VF(mBesselJ(a(0, TI).i, a(1, TF).d)); if (x.fn == "bessely") return VF(mBesselY(a(0, TI).i, a(1, TF).d)); if (x.fn == "normal") { double y = (a(0, TF).d - a(2, TF).d) / a(1, TF).d; return VF(std::exp(-y * y / 2.0)); }
        if (x.fn == "addI") return VI(a(0, TI).i + a(1, TI).i); std::string s = a(0, TS).s, r; int n = a(1, TI).i; for (int i = 0; i < n && i < 4; ++i) r += s; return VS(r);
      }
    }
  }
  bool constant(int e) { Ex &x = ex[e]; if (x.k == E_VAR) return var[x.var].constant; if (x.k == E_FN && x.fn == "state") return false; for (int k : x.kids) if (!constant(k)) return false; return true; }
  bool reaches(int e, int target) { Ex &x = ex[e]; if (x.k == E_VAR) { if (x.var == target) return true; Var &v = var[x.var]; return v.ex >= 0 && reaches(v.ex, target); } for (int k : x.kids) if (reaches(k, target)) return true; return false; }
  void roots(int e, std::set<int> &r) { Ex &x = ex[e]; if (x.k == E_VAR) { Var &v = var[x.var]; if (v.ext) r.insert(x.var); else if (!v.constant) roots(v.ex, r); } if (x.k == E_FN && x.fn == "state") r.insert(-1); for (int k : x.kids) roots(k, r); }
  // ---------------------------------------------------------------- names
  int find(int b, const std::string &path) {
    std::vector<std::string> q(1); for (char c : path) if (c == ':') q.emplace_back(); else q.back() += c;
    for (; b >= 0; b = blk[b].parent) {
      if (q.size() == 1) { auto i = blk[b].vars.find(q[0]); if (i != blk[b].vars.end()) return i->second; continue; }
      int c = child(b, q[0]); if (c < 0) continue;
      for (size_t k = 1; k + 1 < q.size(); ++k) if ((c = child(c, q[k])) < 0) return -1;
      auto i = blk[c].vars.find(q.back()); return i == blk[c].vars.end() ? -1 : i->second;
    }
    return -1;
  }
  int child(int b, const std::string &n) { for (int k : blk[b].kids) if (blk[k].name == n) return k; return -1; }
  std::vector<std::pair<std::string, int>> visible(int b) {
    std::set<std::string> names; for (int a = b; a >= 0; a = blk[a].parent) { for (auto &v : blk[a].vars) names.insert(v.first); for (int k : blk[a].kids) { for (auto &v : blk[k].vars) names.insert(blk[k].name + ":" + v.first); for (int g : blk[k].kids) for (auto &v : blk[g].vars) names.insert(blk[k].name + ":" + blk[g].name + ":" + v.first); } }
    std::vector<std::pair<std::string, int>> r; for (auto &n : names) { int v = find(b, n); if (v >= 0) r.push_back({n, v}); } return r;
  }
  // ---------------------------------------------------------------- text
  std::string junk() { static const char *w[] = {"a comment", "x = 3;", "}", "{", "\"quote", "don't", "****", "//", "int y;", "\xc3\xa4\xc3\xb6", "Foo bar {", "0.5e", "@#$%"}; std::string s; int n = PP(0.1) ? PR(5, 40) : PR(0, 3); for (int i = 0; i < n; ++i) { s += w[P(13)]; s += PP(0.2) ? "\t" : " "; } return s; }
  void ws(bool need) {
    if (!fancy || PP(0.6)) { if (need || PP(0.7)) t += ' '; return; }
    switch (P(8)) { case 0: t += '\n'; break; case 1: t += "\t "; break; case 2: t += "\r\n"; break; case 3: t += " // " + junk() + "\n"; break; case 4: t += " /* " + junk() + (PP(0.3) ? "\n" : "") + "*/ "; break; case 5: t += " /**/"; break; case 6: t += std::string(PP(0.1) ? PR(100, 300) : PR(1, 20), ' '); break; default: t += need ? " " : ""; }
  }
  void tok(const std::string &s) { static const std::string w = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_:."; bool a = !t.empty() && (w.find(t.back()) != std::string::npos), b = w.find(s[0]) != std::string::npos, slash = !t.empty() && (t.back() == '/' || t.back() == '*'); if (!t.empty()) ws((a && b) || slash); t += s; }
  std::string quoted(const std::string &s) { return s.find('"') == std::string::npos && (s.find('\'') != std::string::npos || PP(0.7)) ? "\"" + s + "\"" : "'" + s + "'"; }
  void atom(int e) { const Ex x = ex[e]; bool par = x.k == E_SUM || x.k == E_PROD || x.k == E_POW || PP(0.05); if (par) { tok("("); put(e); tok(")"); } else put(e); }
  void put(int e) {
    const Ex x = ex[e];
    switch (x.k) {
      case E_LIT: tok(x.text); break; case E_VAR: tok(x.text); break;
      case E_SUM: if (x.neg) tok("-"); else if (PP(0.03) && x.type != TS) tok("+"); for (size_t k = 0; k < x.kids.size(); ++k) { if (k) tok(std::string(1, x.ops[k])); int c = ex[x.kids[k]].k; if ((c == E_PROD || c == E_POW) && PP(0.7)) put(x.kids[k]); else atom(x.kids[k]); } break;
      case E_PROD: for (size_t k = 0; k < x.kids.size(); ++k) { if (k) tok(std::string(1, x.ops[k])); atom(x.kids[k]); } break;
      case E_POW: atom(x.kids[0]); tok("^"); atom(x.kids[1]); break;
      default: tok(x.fn); tok("("); for (size_t k = 0; k < x.kids.size(); ++k) { if (k) tok(","); put(x.kids[k]); } tok(")");
    }
  }
  // ---------------------------------------------------------------- generating expressions
  int cyc = -1, forbid = -1; bool constOnly = false; int cur = 0; std::vector<std::pair<std::string, int>> vis;
  struct G { int e; double mag; };
  int push(const Ex &x) { ex.push_back(x); return ex.size() - 1; }
  G litI(int v) { Ex x; x.lit = VI(v); x.text = std::string(PP(0.05) ? "00" : "") + std::to_string(v); return {push(x), (double)v}; }
  G lit(int type) {
    if (type == TI) return litI(PP(0.1) ? PR(100, 99999) : P(20));
    Ex x; x.type = type;
    if (type == TF) { int q = P(200); double v = q / 4.0; char b[60]; switch (P(5)) { case 0: snprintf(b, sizeof b, "%.2f", v); break; case 1: snprintf(b, sizeof b, "%de-2", q * 25); break; case 2: snprintf(b, sizeof b, "%.2fE0", v); break; case 3: v = q; snprintf(b, sizeof b, "%d.", q); break; default: v = q % 4 / 4.0; snprintf(b, sizeof b, ".%02d", q % 4 * 25); } x.lit = VF(v); x.text = b; return {push(x), v}; }
    static const char *w[] = {"", "abc", "file_#t.h5", "it's", "say \"x\"", "a b  c", "// no comment", "/* none */", "x;y}{", "\\n", "tail\\\\", "line\nbreak", "\xc3\xbc", "17", "a=b"}; std::string s = w[P(15)]; if (PP(0.05)) s += std::string(PR(100, 300), 'k'); if (s.find('"') != std::string::npos && s.find('\'') != std::string::npos) s = "z"; x.lit = VS(s); x.text = quoted(s); return {push(x), (double)s.size() + 1};
  }
  bool usable(int v, int type) { Var &w = var[v]; if (w.type != type || !w.init || !(w.mag < (type == TI ? 1e6 : type == TF ? 1e9 : 600))) return false; if (constOnly && !w.constant) return false; if (forbid >= 0 && !constOnly && (v == forbid || (w.ex >= 0 && reaches(w.ex, forbid)))) return false; return true; }
  G leaf(int type) { if (PP(0.7)) { std::vector<int> c; for (size_t k = 0; k < vis.size(); ++k) if (usable(vis[k].second, type)) c.push_back(k); if (!c.empty()) { auto &q = vis[c[P(c.size())]]; Ex x; x.k = E_VAR; x.type = type; x.var = q.second; x.text = q.first; return {push(x), var[q.second].mag}; } } return lit(type); }
  G numText(const std::string &n) { Ex x; x.type = TS; x.lit = VS(n); x.text = quoted(n); return {push(x), 1000.0}; } // a string that is a number
  G fn(const char *f, std::vector<int> kids, double mag) { Ex x; x.k = E_FN; x.type = TF; x.fn = f; x.kids = kids; return {push(x), mag}; }
  G math(int d) { // functions of the standard and special functions, with arguments from their domain
    G a = gen(PP(0.2) ? TI : TF, d - 1); auto small = [&] { return fn("sin", {a.e}, 1); }; auto positive = [&](double add) { Ex l; l.type = TF; l.lit = VF(add); l.text = add == 0.5 ? "0.5" : "1.0"; int le = push(l); Ex x; x.k = E_SUM; x.type = TF; x.ops = "++"; x.kids = {fn("fabs", {add == 0.5 ? small().e : a.e}, 0).e, le}; return push(x); };
    switch (P(16)) {
      case 0: { static const char *f[] = {"cos", "atan", "tanh"}; return fn(f[P(3)], {a.e}, 2); } case 1: return fn(P(2) ? "acos" : "asin", {small().e}, 4); case 2: { static const char *f[] = {"exp", "cosh", "sinh", "tan"}; return fn(f[P(4)], {small().e}, 4); } case 3: return fn(P(2) ? "log" : "log10", {positive(1)}, 30);
      case 4: return fn("sqrt", {positive(1)}, std::sqrt(a.mag + 1)); case 5: return fn("ceil", {a.e}, a.mag + 1); case 6: { G b = gen(TF, 0); return fn("atan2", {a.e, b.e}, 4); } case 7: { int k = P(6); G b = litI(k); if (a.mag * 64 > 1e9) return small(); return fn("ldexp", {a.e, b.e}, a.mag * 64); }
      case 8: case 9: { int k = P(4); G b = litI(k); double m = std::pow(a.mag + 1, k); if (m > 1e9) return small(); return fn("pow", {positive(1), b.e}, m); } case 10: { static const char *f[] = {"gamma", "lgamma", "digamma"}; return fn(f[P(3)], {positive(0.5)}, 3); } case 11: { G b = litI(P(4)); return fn("besselj", {b.e, small().e}, 1); } case 12: { G b = litI(P(3)); return fn("bessely", {b.e, positive(0.5)}, 20); }
      default: { G b = small(); G c = gen(TF, 0); Ex l; l.type = TF; double v = PR(1, 12) / 4.0; char t[20]; snprintf(t, sizeof t, "%.2f", v); l.lit = VF(v); l.text = t; int le = push(l); if (c.mag > 20) c = fn("sin", {c.e}, 1); return fn("normal", {b.e, le, c.e}, 1); }
    }
  }
  G gen(int type, int d) {
    if (d == 0 || PP(0.3)) return leaf(type);
    Ex x; x.type = type; double mag = 0; double lim = type == TI ? 1e6 : 1e9;
    if (type == TS) {
      if (PP(0.2)) { G a = PP(0.25) ? gen(P(2), 0) : gen(TS, d - 1), n = PP(0.1) ? numText(std::to_string(P(4))) : litI(P(4)); if (ex[a.e].type != TS) a.mag = 25; if (a.mag * 4 < 600) { x.k = E_FN; x.fn = "rep"; x.kids = {a.e, n.e}; return {push(x), a.mag * 4}; } return a; }
      x.k = E_SUM; int n = PR(2, 4), must = P(n); for (int i = 0; i < n; ++i) { int ty = i != must && PP(0.3) ? P(2) : TS; G a = gen(ty, ty == TS ? d - 1 : 0); x.kids.push_back(a.e); x.ops += '+'; mag += ty == TS ? a.mag : 25; } if (mag > 600) return lit(TS); return {push(x), mag};
    }
    int c = P(10);
    if (c < 4) { // sum
      bool longer = PP(0.01); int n = longer ? PR(30, 130) : PR(2, 5), must = P(n); x.k = E_SUM; x.neg = PP(0.15); for (int i = 0; i < n; ++i) { int ty = type == TF && i != must && PP(0.3) ? TI : type; G a = longer ? lit(ty) : gen(ty, d - 1); x.kids.push_back(a.e); x.ops += P(2) ? '+' : '-'; mag += a.mag; } if (mag > lim) return lit(type); return {push(x), mag};
    }
    if (c < 7) { int n = PR(2, 4), must = P(n); x.k = E_PROD; mag = 1; for (int i = 0; i < n; ++i) { bool dv = i > 0 && PP(0.3); int ty = type == TF && i != must && PP(0.3) ? TI : type; G a; if (!dv) a = gen(ty, d - 1); else { a = litI(PR(1, 9)); if (ty == TF) { Ex l; l.type = TF; l.lit = VF(ex[a.e].lit.i); l.text = ex[a.e].text + ".0"; a = {push(l), 1}; } } x.kids.push_back(a.e); x.ops += dv ? '/' : '*'; if (!dv) mag *= std::max(1.0, a.mag); } if (mag > lim) return lit(type); return {push(x), mag}; }
    if (c == 7 && type == TF) { G a = gen(TF, d - 1); int k = P(4); G b; if (P(2)) b = litI(k); else { Ex l; l.type = TF; l.lit = VF(k); l.text = std::to_string(k) + ".0"; b = {push(l), 0}; } mag = std::pow(std::max(1.0, a.mag), k); if (mag > lim) return a; x.k = E_POW; x.kids = {a.e, b.e}; return {push(x), mag}; }
    x.k = E_FN;
    if (type == TI) { G a = PP(0.05) ? numText(std::to_string(P(300))) : gen(PP(0.2) ? TF : TI, d - 1), b = gen(TI, d - 1); if (a.mag + b.mag > lim) return b; x.fn = "addI"; x.kids = {a.e, b.e}; return {push(x), a.mag + b.mag}; }
    if (PP(0.3)) return math(d);
    switch (P(constOnly ? 9 : 11)) {
      case 0: { G a = PP(0.1) ? numText(std::to_string(P(40)) + (P(2) ? ".25" : "")) : gen(PP(0.3) ? TI : TF, d - 1); x.fn = "twice"; x.kids = {a.e}; mag = 2 * a.mag; break; } case 1: { G a = gen(TF, d - 1); x.fn = P(2) ? "fabs" : "floor"; x.kids = {a.e}; mag = a.mag + 1; break; } case 2: { G a = gen(TF, d - 1); x.fn = "sin"; x.kids = {a.e}; mag = 1; break; }
      case 3: case 4: { G a = gen(PP(0.3) ? TI : TF, d - 1), b = gen(TF, d - 1); x.fn = P(2) ? "min" : "max"; x.kids = {a.e, b.e}; mag = std::max(a.mag, b.mag); break; } case 5: { G a = gen(TF, d - 1), b = litI(PR(1, 9)); x.fn = "fmod"; x.kids = {a.e, b.e}; mag = a.mag; break; }
      case 6: case 7: { G a = gen(TI, d - 1), b = gen(TI, d - 1); x.fn = P(2) ? "minI" : "maxI"; x.kids = {a.e, b.e}; mag = std::max(a.mag, b.mag); break; } case 8: { G a = gen(TF, d - 1), b = gen(PP(0.3) ? TI : TF, d - 1), c = gen(TF, d - 1); x.fn = "pick"; x.kids = {a.e, b.e, c.e}; mag = 4 * a.mag + 2 * b.mag + c.mag; break; } default: x.fn = "state"; mag = 50;
    }
    if (mag > lim) return lit(TF); return {push(x), mag};
  }
  void store(int v, G g) { Var &w = var[v]; if (v == cyc) cyc = -1; if (constant(g.e)) { w.constant = true; w.v = num(eval(g.e), w.type); w.ex = -1; w.mag = w.type == TI ? std::abs((double)w.v.i) : w.type == TF ? std::fabs(w.v.d) : w.v.s.size(); } else { w.constant = false; w.ex = g.e; w.mag = w.type == TS ? std::max(25.0, g.mag) : g.mag + 1; } w.init = true; }
  std::string ident() { static const char *w[] = {"a", "b", "x1", "intx", "integer1", "floaty", "realm", "str", "stringy", "do", "doubled", "e1", "E_2", "_u", "Var", "p0", "p1", "p2", "dt", "t0", "in", "inte", "re", "e", "E"}; std::string s = w[P(25)]; if (PP(0.3)) s += std::to_string(P(30)); if (fancy && PP(0.02)) s += std::string(PR(110, 280), 'q'); return s; }
  std::string freshVar(int b) { for (;;) { std::string s = ident(); if (!blk[b].vars.count(s)) return s; } }
  static const char *tname(int t, int k) { static const char *n[3][3] = {{"int", "integer", "int"}, {"float", "double", "real"}, {"string", "string", "string"}}; return n[t][k]; }
  void begin(int b) { cur = b; vis = visible(b); forbid = -1; constOnly = false; }
  void declare(int b) {
    begin(b); int ty = P(3), n = PP(0.2) ? PR(2, 3) : 1; std::vector<std::pair<int, G>> add; tok(tname(ty, P(3)));
    std::set<std::string> used; for (int i = 0; i < n; ++i) { std::string nm; do nm = freshVar(b); while (used.count(nm)); used.insert(nm); G g = gen(ty, PR(0, 3)); Var v; v.name = nm; v.type = ty; var.push_back(v); add.push_back({(int)var.size() - 1, g}); if (i) tok(","); tok(nm); tok("="); put(g.e); }
    tok(";"); for (auto &a : add) { store(a.first, a.second); blk[b].vars[var[a.first].name] = a.first; }
  }
  void assign(int b, int target, const std::string &nm) {
    begin(b); forbid = target; constOnly = PP(0.3); int ty = var[target].type; if (PP(0.2) && ty != TS) ty = 1 - ty; else if (ty == TS && PP(0.15)) ty = P(2); G g = var[target].type != TS && PP(0.04) ? numText(std::to_string(P(90)) + (var[target].type == TF && P(2) ? ".75" : "")) : gen(ty, PR(0, 3)); ty = ex[g.e].type;
    bool used = false; for (auto &w : var) if (w.ex >= 0 && reaches(w.ex, target)) { used = true; break; } // what follows this variable must not overflow now
    if (used && g.mag + 1 > var[target].mag) { if (ty == TS) ty = var[target].type; Ex z; z.type = ty; z.lit = ty == TI ? VI(0) : ty == TF ? VF(0) : VS(""); z.text = ty == TI ? "0" : ty == TF ? "0.0" : "\"\""; g = {push(z), 0}; }
    tok(nm); tok("="); put(g.e); tok(";"); store(target, g); forbid = -1; constOnly = false;
  }
  bool assignSome(int b) { std::vector<std::pair<std::string, int>> c; for (auto &v : visible(b)) if (v.first.find(':') == std::string::npos && !var[v.second].ro && !var[v.second].ext) c.push_back(v); if (c.empty()) return false; auto q = c[P(c.size())]; assign(b, q.second, q.first); return true; }
  void newBlock(int parent, const std::string &nm, int cls) {
    Blk k; k.name = nm; k.cls = cls; k.parent = parent; const ClassDef &c = p.classes[cls]; if (parent >= 0) { int a = parent; while (blk[a].obj < 0) a = blk[a].parent; k.objParent = a; }
    int id = blk.size(); if (c.factory) { k.obj = obj.size(); obj.push_back(id); }
    blk.push_back(k); if (parent >= 0) blk[parent].kids.push_back(id);
    if (c.factory) for (auto &d : c.par) { Var v; v.name = d.name; v.type = d.type; v.v = d.def; v.ro = d.kind != K_RW; v.ext = d.kind == K_RO; v.constant = d.kind != K_RO; v.init = d.hasDef || d.kind != K_RW; v.mag = d.kind == K_RO ? (d.type == TS ? 30 : 60) : d.type == TI ? std::abs((double)d.def.i) : d.type == TF ? std::fabs(d.def.d) : d.def.s.size(); var.push_back(v); blk[id].vars[d.name] = var.size() - 1; blk[id].par.push_back(var.size() - 1); }
  }
  // ---------------------------------------------------------------- malformed statements
  bool bad(int b) {
    begin(b); errDone = true;
    switch (errKind) {
      case 0: errWhat = "use of an undeclared variable"; tok("float"); tok(freshVar(b) + "_n"); tok("="); tok("1.0"); tok("+"); tok("undeclared_v"); tok(";"); return true;
      case 1: errWhat = "assignment to an undeclared variable"; tok("undeclared_w"); tok("="); tok("1"); tok(";"); return true;
      case 2: { std::vector<std::string> c; for (auto &v : blk[b].vars) c.push_back(v.first); if (c.empty()) break; errWhat = "second declaration of a variable"; tok("int"); tok(c[P(c.size())]); tok("="); tok("1"); tok(";"); return true; }
      case 3: { if (blk[b].kids.empty()) break; int k = blk[b].kids[P(blk[b].kids.size())]; errWhat = "second block of the same name"; tok(p.classes[blk[k].cls].name); tok(blk[k].name); tok("{"); tok("}"); return true; }
      case 4: if (p.unrestricted) break; errWhat = "block class that is not allowed here"; tok("UnknownClass"); tok("nn"); tok("{"); tok("int"); tok("q"); tok("="); tok("1"); tok(";"); tok("}"); return true;
      case 5: errWhat = "missing semicolon"; tok("int"); tok(freshVar(b) + "_n"); tok("="); tok("1"); return true;
      case 6: errWhat = "closing brace too many"; for (int i = 0; i <= depth; ++i) tok("}"); return true;
      case 7: errWhat = "type mismatch in a declaration"; switch (P(3)) { case 0: tok("int"); tok(freshVar(b) + "_n"); tok("="); tok("1.5"); break; case 1: tok("float"); tok(freshVar(b) + "_n"); tok("="); tok("1"); break; default: tok("string"); tok(freshVar(b) + "_n"); tok("="); tok("3"); } tok(";"); return true;
      case 8: { static const char *w[] = {"@", "%", "#", "$", "&", "?", "!", "<", ">", "|", "[", "]", "~", "`", "\\"}; errWhat = "unexpected character"; tok(w[P(15)]); if (P(2)) { tok("int"); tok(freshVar(b) + "_n"); tok("="); tok("1"); tok(";"); } return true; }
      case 9: { int v = -1; std::string n; for (auto &c : vis) if (c.first.find(':') == std::string::npos && var[c.second].ro) { v = c.second; n = c.first; } if (v < 0) break; errWhat = "assignment to a read-only parameter"; tok(n); tok("="); tok(var[v].type == TI ? "1" : var[v].type == TF ? "1.0" : "\"q\""); tok(";"); return true; }
      case 10: errWhat = "unknown function"; tok("float"); tok(freshVar(b) + "_n"); tok("="); tok("nofunc"); tok("("); tok("1.0"); tok(")"); tok(";"); return true;
      case 11: errWhat = "wrong number of arguments"; tok("float"); tok(freshVar(b) + "_n"); tok("="); tok(P(2) ? "twice" : "min"); tok("("); if (t.size() > 5 && t[t.size() - 2] == 'x') {} tok("1.0"); tok(","); tok("2.0"); tok(","); tok("3.0"); tok(")"); tok(";"); return true;
      case 12: errWhat = "declaration without a value"; tok("int"); tok(freshVar(b) + "_n"); tok(";"); return true;
      case 13: errWhat = "empty statement"; tok(";"); return true;
      case 14: errWhat = "unbalanced parentheses"; tok("float"); tok(freshVar(b) + "_n"); tok("="); if (P(2)) { tok("("); tok("1.0"); tok(";"); } else { tok("1.0"); tok(")"); tok(";"); } return true;
      case 15: errWhat = "missing operand"; tok("float"); tok(freshVar(b) + "_n"); tok("="); tok("1.0"); tok("+"); tok(";"); return true;
      case 16: errWhat = "integer out of range"; tok("int"); tok(freshVar(b) + "_n"); tok("="); tok("99999999999"); tok(";"); return true;
      case 17: errWhat = "variable of a block that does not exist"; tok("int"); tok(freshVar(b) + "_n"); tok("="); tok("noblock:a"); tok(";"); return true;
      case 21: { std::vector<std::pair<std::string, int>> c; for (auto &v : vis) if (v.first.find(':') == std::string::npos && !var[v.second].constant && !var[v.second].ext && !var[v.second].ro) c.push_back(v); if (c.empty()) break; auto q = c[P(c.size())]; errWhat = "circular definition"; cyc = q.second; int ty = var[q.second].type; tok(q.first); tok("="); if (P(2)) { tok(ty == TI ? "2" : ty == TF ? "1.5" : "'k'"); tok("+"); tok(q.first); } else { tok(q.first); tok("+"); tok(ty == TI ? "1" : ty == TF ? "0.5" : "\"q\""); } tok(";"); return true; }
      default: break;
    }
    errWhat = "unexpected character"; errKind = 8; tok("@"); return true;
  }
  void body(int b) {
    const ClassDef &c = p.classes[blk[b].cls]; int n = depth == 0 ? PR(3, 9) : PR(0, 5); std::vector<int> req; if (c.factory) for (size_t i = 0; i < c.par.size(); ++i) if (c.par[i].kind == K_RW && !c.par[i].hasDef) req.push_back(i); bool skipReq = false;
    for (int i = 0; i < n && stmts < maxStmts; ++i) {
      if (errAt == stmts && !errDone && (errKind < 18 || errKind == 21)) { ++stmts; bad(b); continue; } ++stmts;
      int w = P(10);
      if (w < 3) declare(b);
      else if (w < 6) { if (!assignSome(b)) declare(b); }
      else if (depth < 4 && blk.size() < 14) {
        std::vector<int> k; if (p.unrestricted) for (size_t q = 1; q < p.classes.size(); ++q) k.push_back(q); else k.assign(c.kids.begin(), c.kids.end()); if (k.empty()) { declare(b); continue; }
        int cls = k[P(k.size())]; std::string nm = p.classes[cls].name; bool anon = PP(0.2) && child(b, nm) < 0; if (!anon) { nm = "n" + std::to_string(P(6)); if (fancy && PP(0.03)) nm += std::string(PR(110, 200), 'n'); if (child(b, nm) >= 0) { declare(b); continue; } }
        tok(p.classes[cls].name); if (!anon) tok(nm); tok("{"); newBlock(b, nm, cls); ++depth; body(blk.size() - 1 == 0 ? 0 : lastOf(b)); --depth; tok("}");
      } else declare(b);
    }
    for (int r : req) if (!var[blk[b].par[r]].init) { if (errAt >= 0 && !errDone && errKind == 18 && !skipReq) { errDone = skipReq = true; errWhat = "required parameter without a value"; continue; } assign(b, blk[b].par[r], c.par[r].name); }
  }
  int lastOf(int b) { return blk[b].kids.back(); }
  std::string path(int b) { std::string s; for (int k = b; k >= 0; k = blk[k].objParent) s = "/" + blk[k].name + s; return s; }
  int rank0(int o) { return o; }
};
// which prefixes of a setup file are complete?
bool completePrefix(const std::string &t, size_t n) {
  int depth = 0; bool pending = false, any = false; 
  for (size_t i = 0; i < n; ++i) {
    char c = t[i];
    if (c == '/' && i + 1 < n && t[i + 1] == '/') { while (i < n && t[i] != '\n') ++i; continue; }
    if (c == '/' && i + 1 < n && t[i + 1] == '*') { size_t e = t.find("*/", i + 2); if (e == std::string::npos || e + 2 > n) return false; i = e + 1; continue; }
    if (c == '"' || c == '\'') { pending = true; size_t k = i + 1; while (k < n && t[k] != c) { if (t[k] == '\\') ++k; ++k; } if (k >= n) return false; i = k; continue; }
    if (c == ';') { pending = false; any = true; } else if (c == '{') { ++depth; pending = false; any = true; } else if (c == '}') { --depth; pending = false; } else if (c > ' ' && c < 127) pending = true;
  }
  return depth == 0 && !pending && any;
}
void planClasses(SetupPlan &p) {
  int n = PR(1, 6); Model dummy(p);
  for (int c = 0; c <= n; ++c) {
    ClassDef k; k.name = c == 0 ? "Root" : std::string(1, "ABCDEFG"[c]) + (PP(0.3) ? "lass" : ""); k.factory = c == 0 || PP(0.85); k.role = PP(0.5) ? PR(1, 3) : 0; int np = PR(0, 6); std::set<std::string> used; static const char *nm[] = {"p0", "p1", "p2", "p3", "a", "b", "size", "Lx", "integerish", "x1"};
    for (int i = 0; i < np; ++i) { ParamDef d; d.name = nm[P(10)]; if (used.count(d.name)) continue; d.type = P(3); d.kind = PP(0.6) ? K_RW : PP(0.75) ? K_RO : K_CONST; d.hasDef = PP(0.6); d.def = d.type == TI ? VI(PR(-20, 20)) : d.type == TF ? VF(PR(-80, 80) / 4.0) : VS("d" + std::to_string(P(9))); if (d.kind == K_CONST) d.hasDef = true;
      if (d.kind != K_CONST && PP(0.25) && k.par.size() < 12) { ParamDef e = d; d.base = e.base = d.name; d.ext = e.ext = P(2) ? "xyzuvw" : "01"; d.name = d.base + d.ext[0]; e.name = d.base + d.ext[1]; if (used.count(d.name) || used.count(e.name)) continue; d.arr = 1; e.arr = 2; d.arrForm = e.arrForm = P(2); if (!d.arrForm || !d.hasDef) e.def = e.type == TI ? VI(PR(-20, 20)) : e.type == TF ? VF(PR(-80, 80) / 4.0) : VS("e"); used.insert(d.name); used.insert(e.name); k.par.push_back(d); k.par.push_back(e); continue; }
      used.insert(d.name); k.par.push_back(d); }
    if (k.par.size() > 14) k.par.resize(12);
    int nd = P(4); std::set<std::string> du; static const char *key[] = {"field", "data", "k1", "k2", "rho"}; for (int i = 0; i < nd; ++i) { DataDef d; d.key = key[P(5)]; d.kind = P(4); if (du.insert(d.key).second) k.data.push_back(d); }
    p.classes.push_back(k);
  }
  for (auto &k : p.classes) for (size_t c = 1; c < p.classes.size(); ++c) if (PP(0.6)) k.kids.insert(c);
  p.viaSettings = PP(0.4); p.unrestricted = !p.viaSettings && PP(0.15);
}
// the data a block finds under a key: its own, below a named child, its ancestors', else the only one elsewhere
struct Finder {
  Model &m; int kind; std::vector<std::vector<int>> kids; std::vector<int> par; // over objects
  Finder(Model &q, int k) : m(q), kind(k), kids(q.obj.size()), par(q.obj.size(), -1) { for (size_t o = 0; o < q.obj.size(); ++o) { int a = q.blk[q.obj[o]].objParent; if (a >= 0) { par[o] = q.blk[a].obj; kids[par[o]].push_back(o); } } }
  const ClassDef &cls(int o) { return m.p.classes[m.blk[m.obj[o]].cls]; }
  bool own(int o, const std::string &k) { for (auto &d : cls(o).data) if (d.key == k && d.kind == kind) return true; return false; }
  int get(int o, const std::string &k, bool up) { // -1 none, -2 ambiguous
    if (own(o, k)) return o;
    size_t dot = k.find('.');
    if (dot != std::string::npos) { int c = 0, r = -1; for (int q : kids[o]) if (m.blk[m.obj[q]].name == k.substr(0, dot)) { int f = get(q, k.substr(dot + 1), false); if (f == -2) return -2; if (f >= 0) { ++c; r = f; } } if (c > 1) return -2; if (c == 1) return r; }
    if (up && par[o] >= 0) return get(par[o], k, true);
    int c = 0, r = -1; for (int q : kids[o]) { int f = get(q, k, false); if (f == -2) return -2; if (f >= 0) { ++c; r = f; } } return c > 1 ? -2 : r;
  }
};
void planQueries(SetupPlan &p, Model &m) {
  int n = PR(2, 14); static const char *key[] = {"field", "data", "k1", "k2", "rho", "none"};
  for (int i = 0; i < n; ++i) { Query q; q.block = P(m.obj.size()); q.key = key[P(6)]; if (PP(0.4)) { int b = m.obj[P(m.obj.size())]; q.key = m.blk[b].name + "." + q.key; if (PP(0.2)) q.key = m.blk[m.obj[P(m.obj.size())]].name + "." + q.key; } q.kind = P(4); q.how = P(2); if (q.kind == 2) q.how = Q_PTR; q.phase = PR(PH_PREINIT, PH_POSTINIT); p.queries.push_back(q); }
}
void planOps(SetupPlan &p, Model &m) {
  std::vector<ParRef> ext, rw; for (size_t o = 0; o < m.obj.size(); ++o) { auto &c = p.classes[m.blk[m.obj[o]].cls]; for (size_t i = 0; i < c.par.size(); ++i) { ParRef r; r.block = o; r.par = i; if (c.par[i].kind == K_RO) ext.push_back(r); else if (c.par[i].kind == K_RW) rw.push_back(r); } }
  int nu = PR(1, 3); for (int u = 0; u < nu; ++u) { Op o; o.op = OP_NEW; p.ops.push_back(o); int ni = ext.empty() ? 0 : PR(0, 4), nd = rw.empty() ? 0 : PR(0, 5); std::vector<Op> l; for (int i = 0; i < ni; ++i) { Op q; q.op = OP_IND; q.u = u; q.p = ext[P(ext.size())]; l.push_back(q); } for (int i = 0; i < nd; ++i) { Op q; q.op = OP_DEP; q.u = u; q.p = rw[P(rw.size())]; l.push_back(q); } while (!l.empty()) { int k = P(l.size()); p.ops.push_back(l[k]); l.erase(l.begin() + k); } }
  int n = PR(3, 30); for (int i = 0; i < n; ++i) { Op o; o.u = P(nu); int w = P(20); if (w < 8 && !ext.empty()) { o.op = OP_SET; o.p = ext[P(ext.size())]; int ty = p.classes[m.blk[m.obj[o.p.block]].cls].par[o.p.par].type; o.v = ty == TI ? VI(PR(-50, 50)) : ty == TF ? VF(PR(-200, 200) / 4.0) : VS("s" + std::to_string(P(50))); } else if (w < 14) o.op = OP_UPDATE; else if (w == 14) { o.op = OP_STATE; o.v = VF(PR(-100, 100) / 4.0); } else if (w == 15 && !rw.empty()) { o.op = OP_DEP; o.p = rw[P(rw.size())]; } else if (w == 16 && !ext.empty()) { o.op = OP_IND; o.p = ext[P(ext.size())]; } else if (w == 17) o.op = OP_CLEAR; else if (w == 18) o.op = OP_ALL; else if (w == 19) o.op = OP_RECREATE; else o.op = OP_UPDATE; p.ops.push_back(o); }
  Op o; o.op = OP_UPDATE; for (o.u = 0; o.u < nu; ++o.u) p.ops.push_back(o);
}
void checkTree(const SetupPlan &p, Model &m, const RankOut &r, int rank) {
  if (r.created.size() != m.obj.size()) sim_fail("blocks", "process %d created %zu blocks, the setup file has %zu", rank, r.created.size(), m.obj.size());
  for (size_t o = 0; o < m.obj.size(); ++o) if (r.created[o] != m.blk[m.obj[o]].name) sim_fail("blocks", "block %zu is called %s instead of %s", o, r.created[o].c_str(), m.blk[m.obj[o]].name.c_str());
}
void checkEvents(const SetupPlan &p, Model &m, const RankOut &r) {
  static const char *ph[] = {"registerData", "preInit", "init", "postInit"}; size_t k = 0;
  for (int f = PH_REGISTER; f <= PH_POSTINIT; ++f) for (size_t o = 0; o < m.obj.size(); ++o) {
    std::string w = m.path(m.obj[o]); if (k >= r.events.size()) sim_fail("life-cycle", "%s of block %s was never called", ph[f], w.c_str());
    if (r.events[k].first != f || r.events[k].second != w) sim_fail("life-cycle", "call %zu is %s of %s instead of %s of %s", k, ph[r.events[k].first], r.events[k].second.c_str(), ph[f], w.c_str()); ++k;
    if (p.throwPhase == f && p.throwBlock == (int)o) { if (r.events.size() != k) sim_fail("life-cycle", "%s of %s was called after a block reported an error", ph[r.events[k].first], r.events[k].second.c_str()); return; }
  }
  if (r.events.size() != k) sim_fail("life-cycle", "%s of %s was called once too often", ph[r.events[k].first], r.events[k].second.c_str());
}
void checkValues(const SetupPlan &p, Model &m, const RankOut &r) {
  if (r.values.size() != m.obj.size()) return;
  for (size_t o = 0; o < m.obj.size(); ++o) { Blk &b = m.blk[m.obj[o]]; const ClassDef &c = p.classes[b.cls]; for (size_t i = 0; i < c.par.size(); ++i) { Val w = m.vval(b.par[i]); if (!same(r.values[o][i], w)) sim_fail("parameter", "parameter %s of block %s is %s instead of %s", c.par[i].name.c_str(), m.path(m.obj[o]).c_str(), show(r.values[o][i]).c_str(), show(w).c_str()); } }
}
void walk(Model &m, int b, const std::string &path, std::map<std::string, int> &w) { for (auto &v : m.blk[b].vars) w[path + v.first] = v.second; for (int k : m.blk[b].kids) walk(m, k, path + m.blk[k].name + ":", w); }
void checkVars(Model &m, const RankOut &r) {
  std::map<std::string, int> w; walk(m, 0, "", w); if (w.size() != r.vars.size()) sim_fail("variables", "%zu variables instead of %zu", r.vars.size(), w.size());
  for (auto &v : r.vars) { auto i = w.find(v.path); if (i == w.end()) sim_fail("variables", "unexpected variable %s", v.path.c_str()); Var &x = m.var[i->second]; if (v.type != x.type) sim_fail("variables", "variable %s has the wrong type", v.path.c_str()); if (v.constant != x.constant) sim_fail("variables", "variable %s is %sconstant", v.path.c_str(), v.constant ? "" : "not "); Val e = m.vval(i->second); if (!same(e, v.v)) sim_fail("variables", "variable %s is %s instead of %s", v.path.c_str(), show(v.v).c_str(), show(e).c_str()); }
}
void checkData(const SetupPlan &p, Model &m, const RankOut &r) {
  size_t k = 0;
  for (int ph = PH_PREINIT; ph <= PH_POSTINIT; ++ph) for (size_t o = 0; o < m.obj.size(); ++o) for (auto &q : p.queries) if (q.block == (int)o && q.phase == ph) {
    if (k >= r.qres.size()) sim_harness_error("query results missing"); int want;
    if (q.kind == 1 || q.kind == 2) { Finder fp(m, 2), fd(m, 1); if (q.how == Q_PTR) { want = fp.get(o, q.key, true); if (want == -1) want = fd.get(o, q.key, true); } else want = fd.get(o, q.key, true); } else { Finder f(m, q.kind); want = f.get(o, q.key, true); }
    if (r.qres[k].first != want) { auto nm = [&](int x) { return x == -1 ? std::string("nothing") : x == -2 ? std::string("an ambiguity") : x < 0 ? std::string("an unknown object") : "the data of " + m.path(m.obj[x]); }; sim_fail("data", "block %s asks for '%s' and gets %s instead of %s", m.path(m.obj[o]).c_str(), q.key.c_str(), nm(r.qres[k].first).c_str(), nm(want).c_str()); } ++k;
  }
  if (k != r.qres.size()) sim_harness_error("too many query results");
  std::vector<std::pair<std::string, std::vector<std::string>>> homes; for (size_t o = 0; o < m.obj.size(); ++o) if (p.classes[m.blk[m.obj[o]].cls].role >= 2) { std::vector<std::string> n; for (size_t q = 0; q < m.obj.size(); ++q) { Blk &b = m.blk[m.obj[q]]; int ro = p.classes[b.cls].role; if (b.objParent == m.obj[o] && (ro == 1 || ro == 3)) n.push_back(b.name); } homes.push_back({m.path(m.obj[o]), n}); }
  if (homes != r.homes) { std::string a, b; for (auto &h : homes) { a += h.first + ":"; for (auto &s : h.second) a += " " + s; a += "; "; } for (auto &h : r.homes) { b += h.first + ":"; for (auto &s : h.second) b += " " + s; b += "; "; } sim_fail("container", "containers hold %s instead of %s", b.c_str(), a.c_str()); }
}
long probesOf(const SetupPlan &p, Model &m) { long h = 0; for (auto &q : p.probes) { bool e = m.find(m.obj[q.second], q.first) >= 0; h = h * 4 % 1000000007L + (e ? 3 : 0); } return h; }
int checkUpdates(const SetupPlan &p, Model &m, const RankOut &r, int rank) {
  struct U { std::set<int> ind; std::vector<ParRef> dep; }; std::vector<U> us; size_t k = 0; int judged = 0; std::set<int> dirty; auto vid = [&](ParRef q) { return m.blk[m.obj[q.block]].par[q.par]; };
  std::map<int, Val> save; double st = m.state; std::map<std::pair<int, int>, Val> mem; // memory of the dependents as last judged
  for (auto &o : p.ops) switch (o.op) {
    case OP_NEW: us.emplace_back(); break; case OP_IND: us[o.u].ind.insert(vid(o.p)); break; case OP_DEP: us[o.u].dep.push_back(o.p); break; case OP_CLEAR: us[o.u].dep.clear(); break;
    case OP_SET: if (!save.count(vid(o.p))) save[vid(o.p)] = m.var[vid(o.p)].v; m.var[vid(o.p)].v = o.v; dirty.insert(vid(o.p)); break;
    case OP_STATE: m.state = o.v.d; dirty.insert(-1); break;
    case OP_UPDATE: {
      if (k >= r.updates.size()) sim_harness_error("update results missing"); auto &got = r.updates[k++]; if (got.size() != us[o.u].dep.size()) sim_harness_error("update size");
      for (size_t i = 0; i < got.size(); ++i) {
        int v = vid(us[o.u].dep[i]); std::set<int> ro; if (m.var[v].ex >= 0 && !m.var[v].constant) m.roots(m.var[v].ex, ro); bool ok = true; for (int d : ro) if (d != -1 && dirty.count(d) && !us[o.u].ind.count(d)) ok = false; if (!ok) { sim_probe("depends-on-undeclared-change"); continue; }
        Val w = m.vval(v); ++judged; if (!same(got[i], w)) sim_fail("update", "after update %zu parameter %s of block %s is %s instead of %s (process %d)", k - 1, m.var[v].name.c_str(), m.path(m.obj[us[o.u].dep[i].block]).c_str(), show(got[i]).c_str(), show(w).c_str(), rank);
      } break; }
    case OP_ALL: dirty.clear(); break; default: break;
  }
  for (auto &s : save) m.var[s.first].v = s.second; m.state = st; return judged;
}
void run(int mode, int tier) {
  sim_disk_clear(); SetupPlan p; p.mode = mode; planClasses(p); Model m(p); m.maxStmts = tier ? 60 : 30; m.fancy = mode == M_C16 || PP(0.2); p.state = m.state = PR(-8, 8);
  int errCase = mode == M_C16 && PP(0.35) ? 1 : 0; if (errCase) { m.errKind = P(22); m.errAt = P(8); }
  m.newBlock(-1, "setup", 0); m.body(0); bool malformed = false; if (m.stmts == 0 || m.t.find(';') == std::string::npos) m.declare(0);
  if (errCase) { if (m.errKind == 19) { // cut anywhere
      size_t n = P(m.t.size()); if (!completePrefix(m.t, n)) { m.t.resize(n); malformed = true; m.errWhat = "file cut short"; } } else if (m.errKind == 20) { m.t += P(2) ? " /* never ends" : " string q_n = \"never ends;"; malformed = true; m.errWhat = "unterminated comment or string"; } else malformed = m.errDone && (m.errKind != 21 || m.cyc >= 0); }
  if (PP(0.7)) m.t += "\n"; p.text = m.t; p.nranks = PP(0.5) ? 1 : PR(2, 4); p.allocFail.assign(p.nranks, -1); p.out.resize(p.nranks); p.startBlock = PP(0.5) ? 0 : P(m.obj.size());
  bool hard = false, alloc = false; if (mode == M_C16 && !malformed) { p.maxTries = 4; if (FP(0.35)) { int n = 1 + F(2); hard = true; for (int i = 0; i < n; ++i) sim_disk_fault(FP(0.3) ? DF_OPEN : DF_READ, F(p.nranks * 2)); } if (FP(0.3)) { alloc = true; for (int i = 0; i < p.nranks; ++i) if (FP(0.7)) p.allocFail[i] = F(50 + 40 * (int)m.t.size() / 10); } }
  if (FP(0.4)) { int n = 1 + F(4); for (int i = 0; i < n; ++i) sim_disk_fault(FP(0.5) ? DF_SHORTREAD : DF_EINTR, F(3 * p.nranks)); }
  if (mode == M_C19) { planQueries(p, m); if (PP(0.25)) { p.throwPhase = P(4); p.throwBlock = P(m.obj.size()); } int n = P(8); auto all = m.visible(m.obj.back()); for (int i = 0; i < n; ++i) { std::string s = !all.empty() && PP(0.6) ? all[P(all.size())].first : PP(0.5) ? m.ident() : "n" + std::to_string(P(6)) + ":" + m.ident(); p.probes.push_back({s, P(m.obj.size())}); } }
  if (mode == M_C18) planOps(p, m);
  sim_disk_put("/sim/deck", p.text.data(), p.text.size()); sim_note("%s", p.text.c_str()); sim_sample("%d processes, %zu blocks, %zu variables, %zu bytes%s%s", p.nranks, m.obj.size(), m.var.size(), p.text.size(), malformed ? ", malformed: " : "", malformed ? m.errWhat.c_str() : "");
  int rc = sim_launch(p.nranks, 0, &p); int hardFired = 0;
  if (rc != JOB_OK) sim_fail("abnormal-end", "process %d ended abnormally: %s", sim_job_reason_rank(), sim_job_reason());
  if (sim_disk_open_handles()) sim_fail("open-file", "%d files are still open", sim_disk_open_handles());
  int failed = 0;
  for (int i = 0; i < p.nranks; ++i) {
    RankOut &r = p.out[i]; if (!r.finished) sim_harness_error("process %d did not finish", i);
    std::string last = r.attempts.back();
    if (malformed) { if (last.empty()) sim_fail("accepted-malformed", "a setup file with an error (%s) was accepted on process %d", m.errWhat.c_str(), i); int k = m.errKind; if (k != 18 && k != 10 && k != 11 && k != 16 && k != 19 && k != 21 && last.compare(0, 11, "ParserError")) sim_fail("wrong-report", "a setup file with an error (%s) is reported as %s", m.errWhat.c_str(), last.c_str()); if (k == 18 && last != "VariableNotInitialisedException") sim_fail("wrong-report", "a missing parameter is reported as %s", last.c_str()); continue; }
    for (auto &a : r.attempts) if (!a.empty()) ++failed;
    if (mode == M_C19 && p.throwPhase >= 0) { if (last != "thrown by the block") sim_fail("lost-error", "the error of a block was turned into '%s'", last.c_str()); checkTree(p, m, r, i); checkEvents(p, m, r); continue; }
    if (mode != M_C16 && !last.empty()) sim_fail("rejected", "process %d rejects a correct setup file: %s", i, last.c_str());
    if (!hard && p.allocFail[i] < 0 && r.attempts[0] != "") sim_fail("rejected", "process %d rejects a correct setup file: %s", i, r.attempts[0].c_str());
    if (!hard && !last.empty()) sim_fail("rejected", "process %d still rejects a correct setup file after a failed attempt: %s", i, last.c_str());
    if (!last.empty()) continue;
    checkTree(p, m, r, i); checkEvents(p, m, r); checkValues(p, m, r); checkVars(m, r); if (mode == M_C19) { checkData(p, m, r); if (r.exists != probesOf(p, m)) sim_fail("lookup", "looking up variables by name gives wrong answers"); } if (mode == M_C18 && checkUpdates(p, m, r, i) > 0) sim_nontrivial();
  }
  if (mode == M_C16) { if (malformed) { sim_probe(m.errWhat.c_str()); sim_nontrivial(); } else { if (hard && !alloc) { int f = sim_disk_hard_fired(); if (failed != f) sim_fail("unnoticed-failure", "%d attempts to read the setup file were hit by a disk error, %d reported a failure", f, failed); if (f) sim_probe("disk-error-reported"); } if (m.obj.size() > 1 || failed) sim_nontrivial(); } }
  if (mode == M_C19 && m.obj.size() > 2) sim_nontrivial();
}
}
extern "C" void sim_director(const char *prop, int tier) { std::string s = prop; run(s == "C16" ? M_C16 : s == "C18" ? M_C18 : M_C19, tier); }
