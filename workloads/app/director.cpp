// C07: a parallel run equals the serial run. C11: crash and restart.
#include "app.hpp"
#include <mpi.h>
using namespace wl;
extern "C" void sim_rank_main(int entry, void *shared) {
  MPI_Init(nullptr, nullptr); appMain(*(AppPlan*)shared); sim_heap_check(); MPI_Finalize();
}
// ------------------------------------------------------------------ expressions
static double eval(const AppPlan &p, const ExprTree &t, int n, const double *x) {
  const Expr &e = t.n[n]; switch (e.op) { case 0: return x[e.leaf]; case 1: return e.c; case 2: return eval(p, p.vars[e.leaf], p.vars[e.leaf].root, x); case 3: return eval(p, t, e.a, x) + eval(p, t, e.b, x); case 4: return eval(p, t, e.a, x) - eval(p, t, e.b, x); default: return eval(p, t, e.a, x) * eval(p, t, e.b, x); }
}
static std::string num(double v) { char b[60]; snprintf(b, sizeof b, "%.10g", std::fabs(v)); std::string s = b; if (s.find('.') == std::string::npos) s += ".0"; return v < 0 ? "(0.0-" + s + ")" : s; }
static std::string text(const ExprTree &t, int n) {
  const Expr &e = t.n[n]; switch (e.op) { case 0: return std::string(1, "xyz"[e.leaf]); case 1: return num(e.c); case 2: return "u" + std::to_string(e.leaf); case 3: return "(" + text(t, e.a) + " + " + text(t, e.b) + ")"; case 4: return "(" + text(t, e.a) + " - " + text(t, e.b) + ")"; default: return "(" + text(t, e.a) + "*" + text(t, e.b) + ")"; }
}
struct Part { int id; int m; double mag; };
static Part grow(const AppPlan &p, ExprTree &t, int depth, double xmag) {
  if (depth == 0 || PP(0.25)) {
    Expr e; Part r; e.op = p.vars.empty() ? P(2) : P(3);
    if (e.op == 0) { e.leaf = P(p.R); r = {0, 5, xmag}; } else if (e.op == 1) { e.c = PR(-12, 12) / 4.0; r = {0, 2, 3}; } else { e.leaf = P(p.vars.size()); r = {0, p.vars[e.leaf].m, p.vars[e.leaf].mag}; }
    t.n.push_back(e); r.id = t.n.size() - 1; return r;
  }
  Part a = grow(p, t, depth - 1, xmag), b = grow(p, t, depth - 1, xmag); Expr e; e.a = a.id; e.b = b.id; bool mul = a.m + b.m <= 16 && a.mag * b.mag * std::ldexp(1.0, a.m + b.m) < 1e12; e.op = mul ? 3 + P(3) : 3 + P(2); t.n.push_back(e); Part r{(int)t.n.size() - 1, e.op == 5 ? a.m + b.m : std::max(a.m, b.m), e.op == 5 ? a.mag * b.mag : a.mag + b.mag}; return r;
}
static ExprTree planExpr(const AppPlan &p, int depth, double xmag) { ExprTree t; do { t = ExprTree(); Part r = grow(p, t, depth, xmag); t.root = r.id; t.m = r.m; t.mag = r.mag; } while (t.mag * std::ldexp(1.0, t.m) > 1e12); return t; }
std::string wl::setupText(const AppPlan &p) {
  std::string s = "// generated setup\n"; for (int d = 0; d < p.R; ++d) s += std::string("N") + "xyz"[d] + " = " + std::to_string(p.global.n(d)) + ";\n";
  for (size_t i = 0; i < p.vars.size(); ++i) s += "float u" + std::to_string(i) + " = " + text(p.vars[i], p.vars[i].root) + ";\n";
  s += "A = " + text(p.init[0], p.init[0].root) + ";\nB = " + text(p.init[1], p.init[1].root) + ";\n";
  if (p.dumps) s += "Dump d {\n file = \"" + p.dumpBase + "#t.h5\";\n field = \"a\";\n interval = " + std::to_string(p.dumpInterval) + ";\n}\n";
  if (p.text) s += "Text t {\n file = \"" + p.textBase + "#t.txt\"; field = \"status\"; interval = " + std::to_string(p.textInterval) + ";\n}\n";
  if (p.log) s += "Text l { append = 1; interval = " + std::to_string(p.logInterval) + "; file = \"" + p.logName + "\"; field = \"status\"; }\n";
  if (!p.restart.empty()) s += "Restart r { file = \"" + p.restart + "\"; field = \"a\"; }\n";
  return s;
}
// ------------------------------------------------------------------ serial reference
struct Ref {
  std::vector<std::vector<double>> dump; // field a when the diagnostics run at time step t
  std::vector<double> fin, A0, B0; std::vector<std::array<double, 5>> hist; std::vector<PartP> parts; std::vector<std::pair<double, double>> status;
};
static Ref reference(const AppPlan &p) {
  Ref r; const Box &g = p.global; int x[4]; size_t V = g.volume(); std::vector<double> a(V), b(V), n(V), c(V);
  for (int f = 0; f < 2; ++f) if (g.first(x)) do { double pos[3]; for (int d = 0; d < p.R; ++d) pos[d] = p.org[d] + (x[d] - g.lo[d] + 0.5 * p.stag[f][d]) * p.dx[d]; double v = eval(p, p.init[f], p.init[f].root, pos); (f ? r.B0 : r.A0).push_back(v); (f ? b : a)[g.index(x)] = quant(v, p.init[f].m); } while (g.next(x));
  auto sums = [&] { double s = 0, m = 0; for (double v : a) { s += v; m = std::max(m, v); } r.status.push_back({s, m}); r.dump.push_back(a); return s; };
  sums(); auto ps = p.parts;
  auto at = [&](int *y) { for (int d = 0; d < p.R; ++d) y[d] = wrap(y[d], g.lo[d], g.hi[d]); return g.index(y); };
  for (int step = 0; step < p.nsteps; ++step) {
    if (g.first(x)) do { double v = addend(p.noise, step) + b[g.index(x)]; for (auto &o : p.stencil) { int y[4]; for (int d = 0; d < p.R; ++d) y[d] = x[d] + o[d]; v += o[3] * a[at(y)]; } n[g.index(x)] = fold(v); } while (g.next(x));
    a = n; for (auto &q : ps) for (int d = 0; d < p.R; ++d) q.pos[d] = wrap(q.pos[d] + q.vel[d], g.lo[d], g.hi[d]);
    if (p.deposit) { std::fill(c.begin(), c.end(), 0); for (auto &q : ps) for (int k = 0; k < (1 << p.R); ++k) { int y[4]; for (int d = 0; d < p.R; ++d) y[d] = q.pos[d] + ((k >> d) & 1 ? (q.id & 1 ? 1 : -1) : 0); c[at(y)] += q.val + k; } for (size_t i = 0; i < V; ++i) a[i] = fold(a[i] + c[i]); }
    double s = sums(), mn = MODV; for (double v : a) mn = std::min(mn, v); r.hist.push_back({s, r.status.back().second, mn, (double)ps.size(), 0});
    if (p.feedback) for (double &v : a) v = fold(v + std::fmod(s, 5.0));
  }
  r.fin = a; r.parts = ps; std::sort(r.parts.begin(), r.parts.end(), [](const PartP &u, const PartP &v) { return u.id < v.id; }); return r;
}
// ------------------------------------------------------------------ plan
static void planApp(AppPlan &p, int tier, bool particles) {
  p.R = PP(0.5) ? 2 : PP(0.6) ? 1 : 3; p.nranks = PP(0.9) ? PR(2, p.R == 3 ? 6 : tier ? 12 : 8) : 1; p.serial = p.nranks == 1 && PP(0.5); p.delta = PR(1, 2); p.checked = PP(0.4); p.filler = P(2); p.nsteps = PR(1, tier ? 10 : 5); p.noise = sim_data64(); p.feedback = P(2);
  p.global.r = p.R; double xmag = 0; for (int d = 0; d < p.R; ++d) { int n = p.R == 1 ? PR(2 * p.nranks, 50) : p.R == 2 ? PR(4, 20) : PR(3, 9); int lo = PP(0.4) ? PR(-9, 9) : 0; p.global.lo[d] = lo; p.global.hi[d] = lo + n - 1; p.dx[d] = 1.0 / (1 << P(4)); p.org[d] = PP(0.5) ? PR(-16, 16) / 4.0 : 0; p.stag[0][d] = P(2); p.stag[1][d] = P(2); xmag = std::max(xmag, std::fabs(p.org[d]) + (n + 3) * p.dx[d]); }
  int nv = P(5); for (int i = 0; i < nv; ++i) p.vars.push_back(planExpr(p, 2, xmag)); p.init[0] = planExpr(p, 3, xmag); p.init[1] = planExpr(p, PR(0, 2), xmag);
  int ns = PR(1, 5); for (int i = 0; i < ns; ++i) { std::array<int, 4> o = {0, 0, 0, PR(1, 9)}; for (int d = 0; d < p.R; ++d) o[d] = PR(-p.delta, p.delta); p.stencil.push_back(o); }
  if (particles && PP(0.7)) { int np = PP(0.2) ? P(3) : PR(3, 60); p.deposit = P(2); for (int i = 0; i < np; ++i) { PartP q; memset(&q, 0, sizeof q); q.id = i; for (int d = 0; d < p.R; ++d) { q.pos[d] = PR(p.global.lo[d], p.global.hi[d]); q.vel[d] = PR(-2, 2); } q.val = P(50); p.parts.push_back(q); } }
  p.dumpInterval = PR(1, 3); p.textInterval = PR(1, 3); p.dumpBase = "/sim/a_"; p.textBase = "/sim/s_"; p.dumps = PP(0.8); p.text = PP(0.7); p.log = PP(0.5); p.logInterval = PR(1, 4); p.logName = "/sim/log0.txt";
}
static std::string describe(const AppPlan &p) { char b[400]; snprintf(b, sizeof b, "%d processes%s, %s ghosts %d, %d steps, %zu variables, %zu particles%s%s%s", p.nranks, p.serial ? " (serial subdivision)" : "", p.global.str().c_str(), p.delta, p.nsteps, p.vars.size(), p.parts.size(), p.deposit ? " deposited" : "", p.dumps ? ", dumps" : "", p.text ? ", text output" : ""); return b; }
static int launch(AppPlan &p) { p.prepare(); std::string s = setupText(p); sim_disk_put("/sim/app.setup", s.data(), s.size()); sim_note("%s", s.c_str()); return sim_launch(p.nranks, 0, &p); }
static void clean() { sim_h5_clear(); sim_disk_clear(); }
static void requireOk(int r, const AppPlan &p) {
  if (r != JOB_OK) sim_fail("abnormal-end", "process %d ended abnormally: %s", sim_job_reason_rank(), sim_job_reason());
  if (sim_leftover_messages()) sim_fail("leftover-message", "%d messages were sent but never received", sim_leftover_messages());
  if (sim_open_collectives()) sim_fail("open-collective", "%d collective operations were not entered by every process", sim_open_collectives());
}
static std::string checkDump(const AppPlan &p, const std::string &f, const std::vector<double> &want) {
  char b[300]; int st = sim_h5_file_state(f.c_str()); if (st != 1) { snprintf(b, sizeof b, "dump %s is %s", f.c_str(), st < 0 ? "missing" : "not complete"); return b; }
  if (sim_h5_dataset_count(f.c_str()) != 1) return "dump " + f + " does not hold one dataset"; const char *n = sim_h5_dataset_name(f.c_str(), 0); if (sim_h5_dataset_rank(f.c_str(), n) != p.R) return "dump has the wrong number of axes"; for (int d = 0; d < p.R; ++d) if (sim_h5_dataset_dim(f.c_str(), n, d) != p.global.n(d)) return "dump has the wrong shape";
  for (size_t k = 0; k < want.size(); ++k) { double v; int w = sim_h5_dataset_get(f.c_str(), n, k, &v); if (w != 1 || v != want[k]) { snprintf(b, sizeof b, "cell %zu of dump %s is %.17g%s instead of %.17g", k, f.c_str(), w == 1 ? v : 0.0, w == 1 ? "" : " (never written)", want[k]); return b; } }
  return "";
}
static std::string fileText(const std::string &f) { long n = sim_disk_size(f.c_str()); if (n < 0) return ""; std::string s(n, 0); if (n) sim_disk_get(f.c_str(), 0, &s[0], n); return s; }
// outputs due at time steps in [from,to] of a job that started at step `start`
static void checkOutputs(const AppPlan &p, const Ref &r, int from, int to, const char *when) {
  for (int t = from; t <= to; ++t) {
    if (p.dumps && t % p.dumpInterval == 0) { std::string e = checkDump(p, p.dumpBase + std::to_string(t) + ".h5", r.dump[t]); if (!e.empty()) sim_fail("dump", "%s: %s", when, e.c_str()); }
    if (p.text && t % p.textInterval == 0) { std::string f = p.textBase + std::to_string(t) + ".txt", got = fileText(f), want = textLine(t, r.status[t].first, r.status[t].second); if (got != want) sim_fail("text-output", "%s: %s holds '%s' instead of '%s'", when, f.c_str(), got.c_str(), want.c_str()); }
  }
}
// the append mode log of the current job: exactly the lines due in [from,to], or more of them if the job was killed later
static void checkLog(const AppPlan &p, const Ref &r, int from, int to, bool exact, const char *when) {
  if (!p.log) return; std::string want, all, got = fileText(p.logName); for (int t = from; t <= p.nsteps; ++t) if (t % p.logInterval == 0) { std::string l = textLine(t, r.status[t].first, r.status[t].second); all += l; if (t <= to) want += l; }
  if (exact ? got != want : got.size() < want.size() || got != all.substr(0, got.size())) sim_fail("log-output", "%s: %s holds '%s' instead of '%s'", when, p.logName.c_str(), got.c_str(), want.c_str());
}
static void checkFinal(const AppPlan &p, const Ref &r) {
  int x[4];
  for (int i = 0; i < p.nranks; ++i) {
    if (!p.finished[i]) sim_fail("unfinished", "process %d did not finish", i);
    size_t k = 0; const Box &in = p.inner[i];
    if (p.restart.empty() && in.first(x)) do { size_t q = p.global.index(x); for (int f = 0; f < 2; ++f) { double got = (f ? p.B0 : p.A0)[i][k], want = (f ? r.B0 : r.A0)[q]; if (!(std::fabs(got - want) <= 1e-9 * (1 + std::fabs(want)))) sim_fail("initial-field", "field %s is filled with %.17g instead of %.17g at cell %s (process %d of %d owns %s)", f ? "b" : "a", got, want, pt(x, p.R).c_str(), i, p.nranks, in.str().c_str()); } ++k; } while (in.next(x));
    for (size_t s = 0; s < p.hist[i].size(); ++s) { auto w = r.hist[p.start + s]; w[4] = p.parts.size(); static const char *nm[] = {"sum", "maximum", "minimum", "particle count", "average count"}; for (int c = 0; c < 5; ++c) if (p.hist[i][s][c] != w[c]) sim_fail("history", "the %s after step %zu is %.17g on process %d of %d and %.17g in a serial run", nm[c], p.start + s, p.hist[i][s][c], i, p.nranks, w[c]); }
    k = 0; if (in.first(x)) do { double w = r.fin[p.global.index(x)]; if (p.A[i][k] != w) sim_fail("final-field", "cell %s is %.17g on process %d of %d and %.17g in a serial run", pt(x, p.R).c_str(), p.A[i][k], i, p.nranks, w); ++k; } while (in.next(x));
  }
  std::vector<PartP> all; for (auto &v : p.outParts) for (auto &q : v) all.push_back(q); std::sort(all.begin(), all.end(), [](const PartP &u, const PartP &v) { return u.id < v.id; });
  if (all.size() != r.parts.size()) sim_fail("particles", "%zu particles at the end instead of %zu", all.size(), r.parts.size()); for (size_t k = 0; k < all.size(); ++k) if (memcmp(&all[k], &r.parts[k], sizeof(PartP))) sim_fail("particles", "particle %d ends at %s with value %d instead of %s with value %d", r.parts[k].id, pt(all[k].pos, p.R).c_str(), all[k].val, pt(r.parts[k].pos, p.R).c_str(), r.parts[k].val);
}
static bool tooSmall(const AppPlan &p) { for (int b : p.bad) if (b) return true; return false; }
static void runC07(int tier) {
  clean(); AppPlan p; planApp(p, tier, true); sim_sample("%s", describe(p).c_str());
  if (FP(0.3)) { int n = 1 + F(4); for (int i = 0; i < n; ++i) sim_disk_fault(FP(0.5) ? DF_SHORTREAD : DF_EINTR, F(2 * p.nranks)); }
  int r = launch(p); requireOk(r, p); if (tooSmall(p)) { sim_probe("subdomains-too-small"); return; }
  Ref ref = reference(p); checkFinal(p, ref); checkOutputs(p, ref, 0, p.nsteps, "at the end"); checkLog(p, ref, 0, p.nsteps, true, "at the end"); if (p.nranks > 1) sim_nontrivial();
}
static void runC11(int tier) {
  clean(); AppPlan p; planApp(p, tier, false); p.dumps = true; p.nsteps = PR(2, tier ? 14 : 8); p.dumpInterval = PR(1, 3); Ref ref = reference(p); int crashes = 1 + F(3); bool restarted = false; std::string first = describe(p);
  sim_sample("%s", first.c_str());
  for (int c = 0; c <= crashes; ++c) {
    if (c < crashes) { long guess = 20 + p.nranks * (10L + 25L * (p.nsteps - p.start + 1)); sim_crash_after(F((int)guess)); }
    int r = launch(p);
    if (r != JOB_KILLED) { requireOk(r, p); if (tooSmall(p)) { sim_probe("subdomains-too-small"); return; } checkFinal(p, ref); checkOutputs(p, ref, p.start ? p.start + 1 : 0, p.nsteps, "after the run that finished"); checkLog(p, ref, p.start ? p.start + 1 : 0, p.nsteps, true, "after the run that finished"); if (restarted) { sim_nontrivial(); sim_probe("finished-after-restart"); } return; }
    sim_h5_crash(); if (tooSmall(p)) return; sim_probe(c ? "crashed-again" : "crashed");
    int done = 1 << 20; for (int i = 0; i < p.nranks; ++i) done = std::min(done, p.reached[i]);
    if (done >= 0) { checkOutputs(p, ref, p.start ? p.start + 1 : 0, done, "after the crash"); checkLog(p, ref, p.start ? p.start + 1 : 0, done, false, "after the crash"); }
    // every complete dump is right, the newest one is the restart point
    int newest = -1; for (int t = 0; t <= p.nsteps; t += p.dumpInterval) { std::string f = p.dumpBase + std::to_string(t) + ".h5"; if (sim_h5_file_state(f.c_str()) != 1) continue; std::string e = checkDump(p, f, ref.dump[t]); if (!e.empty()) sim_fail("dump-after-crash", "%s", e.c_str()); newest = t; }
    if (newest >= 0 && newest > p.start && newest < p.nsteps) sim_probe("restart-later");
    p.logName = "/sim/log" + std::to_string(c + 1) + ".txt"; p.nranks = PP(0.8) ? PR(1, p.R == 3 ? 6 : 8) : p.nranks; p.serial = p.nranks == 1 && PP(0.5); p.delta = std::max(p.delta, PR(1, 2)); p.checked = P(2);
    if (newest > 0) { p.start = newest; p.restart = p.dumpBase + std::to_string(newest) + ".h5"; restarted = true; // what the feedback adds after the dump is repeated by the program on restart
    } else { p.start = 0; p.restart = ""; }
  }
}
extern "C" void sim_director(const char *prop, int tier) {
  std::string s = prop; if (s == "C07") runC07(tier); else if (s == "C11") runC11(tier); else sim_harness_error("unknown property %s", prop);
}
