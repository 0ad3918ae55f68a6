// C12..C14 and the text part of C10.
#include "diag.hpp"
#include "jobs.hpp"
using namespace wl;
void diagMain(DiagPlan &p);
static int launchDiag(DiagPlan &p) {
  int n = p.nranks; p.ev.assign(n, {}); p.adj.assign(n, {}); p.time.assign(n, {}); p.threw.assign(n, 0); p.master.assign(n, 0); p.procnum.assign(n, 0); p.finished.assign(n, 0);
  return sim_launch(n, J_DIAG, &p);
}
static void requireOk(int r, const DiagPlan &p) {
  if (r != JOB_OK) sim_fail("abnormal-end", "process %d ended abnormally: %s", sim_job_reason_rank(), sim_job_reason());
  if (sim_h5_incomplete_collectives()) sim_fail("h5-incomplete-collective", "%s", sim_h5_incomplete_what());
  for (int i = 0; i < p.nranks; ++i) if (p.threw[i] != (p.expectThrow ? 1 : 0)) sim_fail("time-source", p.expectThrow ? "a diagnostic ran although its time source was never set" : "the manager refused to run although every needed time source was set");
}
struct H5Want { std::vector<int> steps; int di; };
struct Out { int step; int count; int tc; double t; }; // one expected output
static std::vector<Out> expected(const DiagPlan &p, int di, int rank) {
  const DSpec &d = p.diags[di]; std::vector<Out> v; if (d.single && !p.master[rank]) return v;
  double next = d.useDefault ? 0.0 : d.delay, dT = d.useDefault ? 1.0 : d.deltaTime; int iv = d.useDefault ? 100 : d.interval, cnt = 0;
  for (int k = std::max(0, d.own ? d.from : 0); k < (int)p.steps.size() && (!d.own || k < d.to); ++k) {
    double t = p.time[rank][k]; int tc = p.steps[k].tc;
    if (d.delta ? t >= next : (tc < 0 || tc % iv == 0)) { v.push_back({k, cnt++, tc, t}); next += dT; }
  }
  return v;
}
static std::string subst(std::string f, const std::string &tok, const std::string &by) { size_t q = f.find(tok); if (q != std::string::npos) f.replace(q, 2, by); return f; }
static std::string fileFor(const DiagPlan &p, int di, int rank, const Out &o) {
  const DSpec &d = p.diags[di]; if (d.append) return d.file;
  std::string tok = d.delta ? std::to_string(o.count) : o.tc < 0 ? "final" : std::to_string(o.tc);
  return subst(subst(d.file, "#p", std::to_string(p.procnum[rank])), "#t", tok);
}
static std::string describe(const DiagPlan &p) {
  std::string s = std::to_string(p.nranks) + " processes, " + std::to_string(p.steps.size()) + " steps:"; char b[120];
  for (auto &d : p.diags) { snprintf(b, sizeof b, " %s/%s%g%s%s%s", d.cls == D_REC ? "rec" : d.cls == D_TEXT ? "text" : "hdf", d.delta ? "dt" : "every", d.delta ? d.deltaTime : (double)d.interval, d.append ? "+append" : "", d.single ? "+single" : "", d.own ? "+own" : ""); s += b; } return s;
}
static std::string getText(const std::string &f) { long n = sim_disk_size(f.c_str()); if (n < 0) return ""; std::string s(n, 0); sim_disk_get(f.c_str(), 0, &s[0], n); return s; }
static bool usable(const DSpec &d) { return d.cls != D_REC; }
// an append mode diagnostic may have created its file although no output was due
static bool idleAppend(const DiagPlan &p, const std::string &f) { for (auto &d : p.diags) if (d.append && d.file == f) return true; return false; }
// compare what reached the disk with the model; "" if equal
static std::string checkOutputs(const DiagPlan &p) {
  char b[300]; std::map<std::string, std::string> text; std::map<std::string, H5Want> hdf; std::map<std::string, bool> hdfOpen;
  for (size_t di = 0; di < p.diags.size(); ++di) { const DSpec &d = p.diags[di]; if (d.cls == D_REC) continue;
    for (int r = 0; r < p.nranks; ++r) for (auto &o : expected(p, di, r)) { std::string f = fileFor(p, di, r, o);
      if (d.cls == D_TEXT) { if (d.append) text[f] += probeText(di, r, o.step); else text[f] = probeText(di, r, o.step); }
      else if (r == 0) { H5Want &hw = hdf[f]; hw.di = di; if (!d.append) hw.steps.clear(); hw.steps.push_back(o.step); if (d.append && !d.own) hdfOpen[f] = true; } } }
  for (auto &t : text) { std::string got = getText(t.first); if (sim_disk_size(t.first.c_str()) < 0) { snprintf(b, sizeof b, "output file %s is missing", t.first.c_str()); return b; } if (got != t.second) { size_t k = 0; while (k < got.size() && k < t.second.size() && got[k] == t.second[k]) ++k; snprintf(b, sizeof b, "output file %s has %zu bytes instead of %zu, first difference at byte %zu", t.first.c_str(), got.size(), t.second.size(), k); return b; } }
  for (int i = 0; i < sim_disk_count(); ++i) if (!text.count(sim_disk_name(i)) && !(idleAppend(p, sim_disk_name(i)) && sim_disk_size(sim_disk_name(i)) == 0)) { snprintf(b, sizeof b, "unexpected output file %s", sim_disk_name(i)); return b; }
  for (auto &h : hdf) { const char *f = h.first.c_str(); int st = sim_h5_file_state(f);
    if (st != 1 && !(hdfOpen.count(h.first) && st == 0)) { snprintf(b, sizeof b, "output file %s is %s", f, st < 0 ? "missing" : "not complete"); return b; }
    if (sim_h5_dataset_count(f) != (int)h.second.steps.size()) { snprintf(b, sizeof b, "output file %s holds %d datasets instead of %zu", f, sim_h5_dataset_count(f), h.second.steps.size()); return b; }
    const DSpec &d = p.diags[h.second.di]; for (size_t k = 0; k < h.second.steps.size(); ++k) { const char *n = sim_h5_dataset_name(f, k); int x[4]; size_t q = 0; double v; if (k == 0 && d.ds != n) { snprintf(b, sizeof b, "the first dataset of %s is called %s", f, n); return b; } Box g = p.global; if (sim_h5_dataset_rank(f, n) != 1 || sim_h5_dataset_dim(f, n, 0) != g.n(0)) return "a dataset has the wrong shape"; if (g.first(x)) do { int w = sim_h5_dataset_get(f, n, q++, &v); if (w != 1 || v != cellVal(fieldSeed(h.second.steps[k]), x, 1)) { snprintf(b, sizeof b, "cell %d of dataset %s in %s is %s", x[0], n, f, w == 1 ? "wrong" : "missing"); return b; } } while (g.next(x));
      double at[3] = {-1, -1, -1}; int got = sim_h5_attr_count(f, n); if (got != (d.attrs ? 2 : 0) || (d.attrs && (sim_h5_attr_get(f, n, "step", 0, at) != 1 || sim_h5_attr_get(f, n, "pair", 0, at + 1) != 1 || sim_h5_attr_get(f, n, "pair", 1, at + 2) != 1 || at[0] != h.second.steps[k] || at[1] != h.second.steps[k] * 0.5 || at[2] != h.second.di))) { snprintf(b, sizeof b, "the attributes of dataset %s in %s are wrong (%d attributes, step %g, pair %g %g)", n, f, got, at[0], at[1], at[2]); return b; } } }
  for (int i = 0; i < sim_h5_file_count(); ++i) if (!hdf.count(sim_h5_file_name(i)) && !(idleAppend(p, sim_h5_file_name(i)) && sim_h5_dataset_count(sim_h5_file_name(i)) == 0)) { snprintf(b, sizeof b, "unexpected output file %s", sim_h5_file_name(i)); return b; }
  return "";
}
static std::string checkEvents(const DiagPlan &p) {
  char b[300];
  for (int r = 0; r < p.nranks; ++r) for (size_t di = 0; di < p.diags.size(); ++di) { const DSpec &d = p.diags[di]; if (d.cls != D_REC) continue;
    std::vector<DEvent> e; for (auto &x : p.ev[r]) if (x.diag == (int)di) e.push_back(x);
    auto want = expected(p, di, r); size_t k = 0; const char *what[] = {"open", "write", "close"};
    auto need = [&](int w, int step, const std::string &n) { if (k >= e.size()) { snprintf(b, sizeof b, "process %d: diagnostic %zu does not %s at step %d", r, di, what[w], step); return false; } if (e[k].what != w || e[k].step != step || (w == 0 && e[k].name != n)) { snprintf(b, sizeof b, "process %d: diagnostic %zu does %s '%s' at step %d instead of %s '%s' at step %d", r, di, what[e[k].what], e[k].name.c_str(), e[k].step, what[w], n.c_str(), step); return false; } ++k; return true; };
    if (d.append) {
      size_t opens = 0; for (size_t i = 0; i < e.size(); ++i) if (e[i].what == 0) { ++opens; if (opens > 1) { snprintf(b, sizeof b, "process %d: diagnostic %zu opens its file again at step %d", r, di, e[i].step); return b; } if (e[i].name != d.file) return "append mode opens a different file"; for (size_t j = 0; j < i; ++j) if (e[j].what == 1) { snprintf(b, sizeof b, "process %d: diagnostic %zu writes before its file is open", r, di); return b; } }
      if (!want.empty() && opens != 1) { snprintf(b, sizeof b, "process %d: diagnostic %zu never opens its file", r, di); return b; }
      std::vector<DEvent> ww; for (auto &x : e) if (x.what == 1) ww.push_back(x); for (auto &x : e) if (x.what == 2 && x.step < (int)p.steps.size() - 1 && !d.own) { snprintf(b, sizeof b, "process %d: diagnostic %zu closes its file at step %d", r, di, x.step); return b; }
      e = ww; for (auto &o : want) if (!need(1, o.step, "")) return b;
    } else for (auto &o : want) { if (!need(0, o.step, fileFor(p, di, r, o)) || !need(1, o.step, "") || !need(2, o.step, "")) return b; }
    if (k != e.size()) { snprintf(b, sizeof b, "process %d: diagnostic %zu does an unexpected %s at step %d", r, di, what[e[k].what], e[k].step); return b; }
  }
  return "";
}
static void checkTimes(const DiagPlan &p) {
  for (int r = 1; r < p.nranks; ++r) for (size_t k = 0; k < p.adj[r].size(); ++k) if (p.adj[r][k] != p.adj[0][k]) sim_fail("time-step-disagreement", "at step %zu process %d is told to advance by %.17g and process 0 by %.17g", k + 1, r, p.adj[r][k], p.adj[0][k]);
  if (!p.adjust) return; std::vector<double> next(p.diags.size()); for (size_t i = 0; i < p.diags.size(); ++i) next[i] = p.diags[i].useDefault ? 0.0 : p.diags[i].delay;
  for (size_t k = 0; k < p.steps.size(); ++k) {
    double t = p.time[0][k];
    if (k > 0) { double lim = p.dt, t1 = p.time[0][k - 1]; for (size_t i = 0; i < p.diags.size(); ++i) { const DSpec &d = p.diags[i]; bool alive = !d.own || (d.from <= (int)k && (int)k < d.to); if (d.delta && alive && next[i] > t1) lim = std::min(lim, next[i] - t1); } double a = p.adj[0][k - 1];
      if (!(a > 0)) sim_fail("time-step", "adjusted time step %.17g is not positive", a); if (a > p.dt) sim_fail("time-step", "adjusted time step %.17g exceeds %.17g", a, p.dt); if (a > lim) sim_fail("time-step", "adjusted time step %.17g steps past the next output %.17g away", a, lim); if (a != lim) sim_fail("time-step", "adjusted time step %.17g is shorter than needed (%.17g)", a, lim); }
    for (size_t i = 0; i < p.diags.size(); ++i) { const DSpec &d = p.diags[i]; bool alive = !d.own || (d.from <= (int)k && (int)k < d.to); if (d.delta && alive && t >= next[i]) next[i] += d.useDefault ? 1.0 : d.deltaTime; }
  }
}
static void planSteps(DiagPlan &p, int tier, bool mayStartLate) {
  int n = PR(1, tier ? 60 : 30); int tc = mayStartLate && PP(0.4) ? PR(1, 50) : 0; double t = 0; double grain = 1.0 / (1 << P(5)); p.t0 = mayStartLate && PP(0.4) ? grain * PR(1, 100) : 0; int mode = P(3);
  for (int i = 0; i < n; ++i) { p.steps.push_back({tc, t}); if (!PP(0.06)) tc += PP(0.9) ? 1 : PR(2, 5); else sim_probe("executed-twice-at-one-step"); t += mode == 0 ? grain : mode == 1 ? grain * PR(0, 5) : grain * PR(1, PP(0.2) ? 64 : 3); }
  if (PP(0.4)) { int k = P(2) + 1; for (int i = 0; i < k; ++i) p.steps.push_back({-1 - P(3), t}); sim_probe("final-output"); }
  p.dt = grain * PR(1, 12);
}
static DSpec planDiag(const DiagPlan &p, int i, int kinds /*0 interval,1 delta,2 both*/, int appendMode /*0 never,1 always,2 either*/) {
  DSpec d; d.cls = P(10) < 5 ? D_REC : PP(0.5) ? D_TEXT : D_HDF; d.delta = kinds == 2 ? P(2) : kinds; d.append = appendMode == 2 ? PP(0.4) : appendMode; d.single = d.cls != D_HDF && PP(0.3); d.own = PP(0.5); if (d.cls == D_HDF) { d.attrs = PP(0.4); if (PP(0.3)) d.ds = "rho"; }
  d.interval = PP(0.1) ? PR(1, 200) : PR(1, 7); d.deltaTime = (1.0 / (1 << P(5))) * PR(1, 40); d.delay = PP(0.4) ? (1.0 / 16) * PR(-20, 60) : 0; d.useDefault = PP(0.08); if (PP(0.15)) { double e = std::ldexp(1.0, -PR(8, 22)); if (PP(0.6)) d.delay += e * PR(-3, 3); else d.deltaTime += e * PR(-3, 3); } // output times very close to others and to the time steps
  std::string base = "/sim/d" + std::to_string(i); if (d.cls == D_TEXT && d.append) d.single = true; bool needP = d.cls == D_TEXT && !d.single && p.nranks > 1;
  if (d.append) d.file = base + ".out"; else { d.file = base; bool hasP = needP || (d.cls != D_HDF && PP(0.3)); bool hasT = PP(0.85); if (hasP && PP(0.5)) { d.file += "_#p"; hasP = false; } if (hasT) d.file += "_#t"; if (hasP) d.file += "_p#p"; d.file += ".out"; }
  if (d.own) { if (PP(0.4)) d.from = P(p.steps.size()); if (PP(0.4)) d.to = d.from + 1 + P(p.steps.size() + 1); else d.to = 1 << 30; }
  return d;
}
static void run(DiagPlan &p) { sim_h5_clear(); sim_disk_clear(); sim_sample("%s", describe(p).c_str()); requireOk(launchDiag(p), p); }
static void planCommon(DiagPlan &p, int tier) { p.nranks = PP(0.7) ? PR(2, tier ? 8 : 5) : 1; p.global.r = 1; p.global.lo[0] = PR(-3, 3); p.global.hi[0] = p.global.lo[0] + PR(0, 20); p.delta = P(3); if (PP(0.15)) { p.masterRank = P(p.nranks); sim_probe("another-master"); } }
static void judge(DiagPlan &p) {
  std::string e = checkEvents(p); if (!e.empty()) sim_fail("schedule", "%s", e.c_str());
  e = checkOutputs(p); if (!e.empty()) sim_fail("output", "%s", e.c_str());
}
static int outputs(const DiagPlan &p) { int n = 0; for (size_t i = 0; i < p.diags.size(); ++i) n += expected(p, i, 0).size(); return n; }
static void runC12(int tier) {
  DiagPlan p; planCommon(p, tier); planSteps(p, tier, true); int nd = PR(1, 4); bool both = PP(0.3); for (int i = 0; i < nd; ++i) p.diags.push_back(planDiag(p, i, both ? 2 : 0, 0));
  bool hasI = false, hasD = false; for (auto &d : p.diags) if (!d.own || (d.from < (int)p.steps.size())) (d.delta ? hasD : hasI) = true;
  p.setTC = true; p.setPT = both || PP(0.3); p.tcLast = P(2);
  if (PP(0.06) && p.diags.size()) { // the time source of a registered diagnostic is missing
    for (auto &d : p.diags) d.own = false; if (hasI && PP(0.5)) { p.setTC = false; p.setPT = PP(0.7); } else if (hasD) p.setPT = false; hasI = hasD = false; for (auto &d : p.diags) (d.delta ? hasD : hasI) = true; p.expectThrow = (hasI && !p.setTC) || (hasD && !p.setPT); if (!p.setTC && !p.setPT) p.expectThrow = true; }
  run(p); if (p.expectThrow) { sim_probe("missing-time-source"); return; }
  judge(p); if (outputs(p) > 1) sim_nontrivial();
}
static void runC13(int tier) {
  DiagPlan p; planCommon(p, tier); planSteps(p, tier, true); int nd = PR(1, 4); bool both = PP(0.3); for (int i = 0; i < nd; ++i) p.diags.push_back(planDiag(p, i, both ? 2 : 1, 0));
  p.setPT = true; p.setTC = both || PP(0.3); p.tcLast = P(2); p.adjust = PP(0.6); if (p.adjust) for (auto &d : p.diags) d.useDefault = false;
  run(p); judge(p); checkTimes(p); if (outputs(p) > 1) sim_nontrivial(); if (p.adjust) sim_probe("adjusted-time-step");
}
static void runC14(int tier) {
  DiagPlan p; planCommon(p, tier); planSteps(p, tier, true); int nd = PR(1, 4); for (int i = 0; i < nd; ++i) p.diags.push_back(planDiag(p, i, 2, i == 0 ? 1 : 2));
  p.setPT = p.setTC = true; p.tcLast = P(2); run(p); judge(p); if (expected(p, 0, 0).size() > 1) sim_nontrivial();
  // everything was written; a file that is still open when the program has ended is not readable
  for (size_t i = 0; i < p.diags.size(); ++i) { const DSpec &d = p.diags[i]; if (d.cls == D_HDF && d.append && !expected(p, i, 0).empty() && sim_h5_file_state(d.file.c_str()) != 1) sim_fail("append-hdf-never-closed", "the append mode HDF5 file %s of a diagnostic %s is never closed, the program ends with the file unreadable", d.file.c_str(), d.own ? "that was destroyed" : "inside the block hierarchy"); }
}
void runTextFailures(int tier) {
  DiagPlan p; planCommon(p, tier); planSteps(p, tier, false); int nd = PR(1, 3); for (int i = 0; i < nd; ++i) { DSpec d = planDiag(p, i, 2, 2); if (d.cls == D_HDF) d.append = false; p.diags.push_back(d); }
  p.setPT = p.setTC = true; sim_h5_clear(); sim_disk_clear(); sim_sample("failures: %s", describe(p).c_str());
  static const int dk[] = {DF_OPEN, DF_WRITE, DF_CLOSE, DF_SHORT}, hk[] = {HF_CREATE, HF_DCREATE, HF_DWRITE, HF_CLOSE, HF_DCLOSE}; bool h5 = FP(0.35); int nf = 1 + FP(0.3);
  if (h5) sim_h5_fault(hk[F(5)], F(5), FP(0.5) ? F(p.nranks) : -1); else for (int i = 0; i < nf; ++i) sim_disk_fault(dk[F(4)], F(12));
  int r = launchDiag(p); int fired = h5 ? sim_h5_faults_fired() : sim_disk_faults_fired();
  if (!fired) { requireOk(r, p); judge(p); return; }
  sim_nontrivial(); if (r != JOB_OK) return; for (int i = 0; i < p.nranks; ++i) if (p.threw[i]) return;
  std::string e = checkOutputs(p); if (!e.empty()) sim_fail("silent-output-failure", "a file operation failed, no process noticed, and %s", e.c_str());
}
bool crashDirector(const std::string &, int); void crashMain(int, void*);
void otherMain(int entry, void *shared) { if (entry == J_DIAG) diagMain(*(DiagPlan*)shared); else crashMain(entry, shared); }
bool otherDirector(const std::string &s, int tier) { if (s == "C12") runC12(tier); else if (s == "C13") runC13(tier); else if (s == "C14") runC14(tier); else return crashDirector(s, tier); return true; }
