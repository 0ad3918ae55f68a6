// C08..C10: grid files, active subsets, failures.
#include "plan.hpp"
#include "jobs.hpp"
#include <mpi.h>
using namespace wl;
std::vector<IoFactory> &wl::ioFactories() { static std::vector<IoFactory> *f = new std::vector<IoFactory>; return *f; }

static void streamMain(IoPlan &p) {
  std::unique_ptr<IoProg> g(ioFactories()[p.kind].make()); g->init(p); p.inner[sim_rank()] = g->inner();
  for (size_t i = 0; i < p.ops.size(); ++i) g->op(p.ops[i], p.rec[i][sim_rank()]);
}
extern "C" void sim_rank_main(int entry, void *shared) {
  MPI_Init(nullptr, nullptr);
  switch (entry) { case J_STREAM: streamMain(*(IoPlan*)shared); break; default: otherMain(entry, shared); }
  sim_heap_check();
  MPI_Finalize();
}

// ------------------------------------------------------------------ reference model of the files
struct DsModel { Box region; uint64_t seed; std::vector<AttrPlan> attrs; std::string must; };
struct FileModel { std::vector<DsModel> ds; bool open = false; };
struct Disk { std::map<std::string, FileModel> f; };
static int launchStream(IoPlan &p) {
  p.rec.assign(p.ops.size(), std::vector<IRec>(p.nranks)); p.inner.assign(p.nranks, Box());
  return sim_launch(p.nranks, J_STREAM, &p);
}
static void requireOk(int r) {
  if (r != JOB_OK) sim_fail("abnormal-end", "process %d ended abnormally: %s", sim_job_reason_rank(), sim_job_reason());
  if (sim_leftover_messages()) sim_fail("leftover-message", "%d messages were sent but never received", sim_leftover_messages());
  if (sim_open_collectives()) sim_fail("open-collective", "%d collective operations were not entered by every process", sim_open_collectives());
  if (sim_h5_incomplete_collectives()) sim_fail("h5-incomplete-collective", "a collective file operation was not made by every process of the file's communicator: %s", sim_h5_incomplete_what());
  if (sim_h5_open_handles()) sim_fail("h5-left-open", "%d files, datasets, attributes or dataspaces are still open after the end of the job", sim_h5_open_handles());
  if (sim_h5_open_access_lists()) sim_fail("h5-communicator-left", "%d file access lists still hold a communicator after MPI was finalised", sim_h5_open_access_lists());
}
// what the write operations of a job must leave on disk
static void modelWrites(const IoPlan &p, Disk &k) {
  std::string cur[2]; std::string must[2] = {"", ""}; std::vector<AttrPlan> at[2]; std::vector<int> act[2] = {std::vector<int>(p.nranks, 1), std::vector<int>(p.nranks, 1)};
  for (auto &o : p.ops) { int s = o.stream; bool any = false; if (o.kind < R_OPEN) for (int a : act[s]) any |= a;
    switch (o.kind) {
      case W_OPEN: must[s] = ""; if (any) { k.f[o.name] = FileModel(); cur[s] = o.name; } else cur[s] = ""; break;
      case W_NAME: must[s] = o.name; break;
      case W_ATTR: at[s] = o.attrs; break;
      case W_WRITE: if (!cur[s].empty()) { k.f[cur[s]].ds.push_back({o.region, o.seed, at[s], must[s]}); } must[s] = ""; break;
      case W_CLOSE: cur[s] = ""; break;
      case W_ACTIVE: act[s] = o.active; break;
      case W_NEW: cur[s] = ""; must[s] = ""; at[s].clear(); act[s].assign(p.nranks, 1); break;
    }
  }
}
static std::string checkFile(const std::string &name, const FileModel &m) {
  char b[400]; const char *f = name.c_str();
  int st = sim_h5_file_state(f);
  if (st != 1) { snprintf(b, sizeof b, "file %s is %s", f, st < 0 ? "missing" : "not complete"); return b; }
  if (sim_h5_dataset_count(f) != (int)m.ds.size()) { snprintf(b, sizeof b, "file %s holds %d datasets instead of %zu", f, sim_h5_dataset_count(f), m.ds.size()); return b; }
  for (size_t i = 0; i < m.ds.size(); ++i) {
    const DsModel &d = m.ds[i]; const char *n = sim_h5_dataset_name(f, i);
    if (!d.must.empty() && d.must != n) { snprintf(b, sizeof b, "dataset %zu of %s is called %s instead of %s", i, f, n, d.must.c_str()); return b; }
    if (sim_h5_dataset_rank(f, n) != d.region.r) return "dataset has the wrong number of axes";
    for (int k = 0; k < d.region.r; ++k) if (sim_h5_dataset_dim(f, n, k) != d.region.n(k)) { snprintf(b, sizeof b, "dataset %s of %s has extent %d along axis %d instead of %ld", n, f, sim_h5_dataset_dim(f, n, k), k, d.region.n(k)); return b; }
    int x[4]; size_t q = 0; double v;
    if (d.region.first(x)) do { int w = sim_h5_dataset_get(f, n, q++, &v); if (w != 1) { snprintf(b, sizeof b, "cell %s of dataset %s in %s was never written", pt(x, d.region.r).c_str(), n, f); return b; } double want = cellVal(d.seed, x, d.region.r); if (v != want) { snprintf(b, sizeof b, "cell %s of dataset %s in %s is %.17g instead of %.17g", pt(x, d.region.r).c_str(), n, f, v, want); return b; } } while (d.region.next(x));
    if (sim_h5_attr_count(f, n) != (int)d.attrs.size()) { snprintf(b, sizeof b, "dataset %s of %s has %d attributes instead of %zu", n, f, sim_h5_attr_count(f, n), d.attrs.size()); return b; }
    for (auto &a : d.attrs) for (int j = 0; j < a.dims; ++j) { double want = attrVal(a.seed, j) / (a.type == 2 ? 1024.0 : 1.0); int w = sim_h5_attr_get(f, n, a.name.c_str(), j, &v); if (w != 1) { snprintf(b, sizeof b, "attribute %s of dataset %s in %s is missing", a.name.c_str(), n, f); return b; } if (v != want) { snprintf(b, sizeof b, "attribute %s[%d] of dataset %s in %s is %.17g instead of %.17g", a.name.c_str(), j, n, f, v, want); return b; } }
  }
  return "";
}
static std::string checkDisk(const Disk &k) { for (auto &f : k.f) { std::string e = checkFile(f.first, f.second); if (!e.empty()) return e; } return ""; }
// what the read operations must have delivered; the block order per name follows the write order
struct ReadWant { uint64_t seed; Box region; bool valid; };
static std::string checkReads(const IoPlan &p, const std::vector<ReadWant> &want) {
  std::vector<int> act[2] = {std::vector<int>(p.nranks, 1), std::vector<int>(p.nranks, 1)}; char b[300];
  for (size_t i = 0; i < p.ops.size(); ++i) { const IOp &o = p.ops[i];
    if (o.kind == R_ACTIVE) act[o.stream] = o.active; if (o.kind == R_NEW) act[o.stream].assign(p.nranks, 1);
    if (o.kind != R_READ) continue;
    for (int r = 0; r < p.nranks; ++r) { const IRec &q = p.rec[i][r]; if (!q.done) return "a read did not finish"; int x[4]; size_t k = 0;
      if (q.box.first(x)) do { bool in = q.inner.has(x) && want[i].region.has(x) && act[o.stream][r]; double w = in ? cellVal(want[i].seed, x, p.rank) : SENTINEL; double v = q.cells[k++]; if (v != w) { snprintf(b, sizeof b, "process %d of %d: after reading, %s cell %s is %.17g instead of %.17g", r, p.nranks, in ? "inner" : "untouchable", pt(x, p.rank).c_str(), v, w); return b; } } while (q.box.next(x));
    }
  }
  return "";
}

// ------------------------------------------------------------------ plans
static void planDomain(IoPlan &p, int maxranks) {
  auto &F = ioFactories(); p.kind = P(F.size()); p.rank = F[p.kind].info.rank; p.nranks = PP(0.85) ? PR(2, maxranks) : 1; p.serial = p.nranks == 1 && PP(0.5); p.delta = PR(0, p.rank == 3 ? 1 : 2);
  p.global.r = p.rank; int mx = p.rank == 1 ? 40 : p.rank == 2 ? 14 : 7;
  for (int d = 0; d < p.rank; ++d) { int lo = PP(0.5) ? PR(-9, 9) : 0; p.global.lo[d] = lo; p.global.hi[d] = lo + PR(PP(0.2) ? 0 : 2, mx) ; }
}
static std::vector<AttrPlan> planAttrs(int mx) { std::vector<AttrPlan> v; int n = P(mx + 1); for (int i = 0; i < n; ++i) v.push_back({"attr" + std::to_string(P(3)) + "_" + std::to_string(i), P(3), PP(0.5) ? 1 : PR(1, 4), sim_data64()}); return v; }
static Box subRegion(const Box &g) { Box b = g; for (int d = 0; d < g.r; ++d) if (PP(0.7)) { int a = PR(g.lo[d], g.hi[d]), c = PR(g.lo[d], g.hi[d]); b.lo[d] = std::min(a, c); b.hi[d] = std::max(a, c); } return b; }
static IOp mk(int kind, int s, const std::string &n = "") { IOp o; o.kind = kind; o.stream = s; o.name = n; return o; }
// write phase; names[file] collects the datasets in the order in which they are written under each block name
struct Written { std::string file; std::vector<std::pair<std::string, IOp>> ds; };
static void planWrites(IoPlan &p, std::vector<Written> &w, int maxfiles, int attrs) {
  int nf = PR(1, maxfiles); int cur[2] = {-1, -1}; std::string name[2]; bool named[2] = {false, false};
  for (int i = 0; i < nf; ++i) {
    int s = PP(0.3); if (cur[s] >= 0) { if (PP(0.75)) p.ops.push_back(mk(W_CLOSE, s)); else if (PP(0.4)) { p.ops.push_back(mk(W_NEW, s)); name[s] = ""; } else sim_probe("open-while-open"); }
    if (PP(0.2)) { name[s] = "pre" + std::string(1, (char)('A' + i)); p.ops.push_back(mk(W_NAME, s, name[s])); sim_probe("named-before-opening"); }
    Written f; f.file = "/sim/f" + std::to_string(i) + ".h5"; p.ops.push_back(mk(W_OPEN, s, f.file)); named[s] = false; cur[s] = i; w.push_back(f);
    int nw = PR(0, 4); if (p.global.volume() < 200 && PP(0.06)) { nw = PR(8, 30); sim_probe("many-datasets"); }
    for (int j = 0; j < nw; ++j) {
      int t = cur[1 - s] >= 0 && PP(0.2) ? 1 - s : s; // interleave with the other stream
      if (PP(nw > 4 ? 0.05 : 0.4)) { std::string n = "block" + std::string(1, (char)('A' + i)) + std::string(1, (char)('A' + j)); p.ops.push_back(mk(W_NAME, t, n)); name[t] = n; named[t] = true; }
      if (attrs && PP(0.4)) { IOp o = mk(W_ATTR, t); o.attrs = planAttrs(3); p.ops.push_back(o); }
      IOp o = mk(W_WRITE, t); o.seed = sim_data64(); o.region = p.global; p.ops.push_back(o);
      w[cur[t]].ds.push_back({(named[t] ? "" : "=") + name[t], o}); // "=": the name was set before the file was opened (or never)
    }
  }
  for (int s = 0; s < 2; ++s) if (cur[s] >= 0 && PP(0.6)) p.ops.push_back(mk(W_CLOSE, s));
}
static void planReads(IoPlan &p, const std::vector<Written> &w, std::vector<ReadWant> &want) {
  auto push = [&](const IOp &o) { p.ops.push_back(o); want.push_back({0, Box(), false}); };
  want.assign(p.ops.size(), {0, Box(), false});
  int nf = PR(1, 3); std::string name[2];
  for (int i = 0; i < nf; ++i) {
    const Written &f = w[P(w.size())]; int s = PP(0.3); if (PP(0.15)) { push(mk(R_NEW, s)); name[s] = ""; }
    // a name that the writer had set before opening must be set before opening here
    if (!f.ds.empty() && f.ds[0].first[0] == '=') { std::string n = f.ds[0].first.substr(1); if (n.empty() && !name[s].empty()) { push(mk(R_NEW, s)); name[s] = ""; } else if (n != name[s]) { push(mk(R_NAME, s, n)); name[s] = n; } }
    push(mk(R_OPEN, s, f.file));
    // consecutive runs of datasets written under one name are read in the same way
    for (size_t a = 0; a < f.ds.size();) {
      size_t b = a; while (b < f.ds.size() && f.ds[b].first == f.ds[a].first) ++b;
      if (f.ds[a].first[0] != '=') { push(mk(R_NAME, s, f.ds[a].first)); name[s] = f.ds[a].first; }
      size_t upto = a + 1 + P(b - a); // a prefix of the run
      for (size_t k = a; k < upto; ++k) { IOp o = mk(R_READ, s); o.region = p.global; p.ops.push_back(o); want.push_back({f.ds[k].second.seed, p.global, true}); }
      a = b;
    }
    if (PP(0.6)) push(mk(R_CLOSE, s));
  }
}
// another kind of grid with the same value type and number of axes
static int otherKind(int k) { auto key = [](const char *n) { std::string s = n; size_t a = s.find('<'); return s.substr(a, s.find_first_of(",", s.find(',', a) + 1) == std::string::npos ? s.size() - a - 1 : s.find(',', s.find(',', a) + 1) - a); }; std::vector<int> c; auto &F = ioFactories(); for (size_t i = 0; i < F.size(); ++i) if (key(F[i].info.name) == key(F[k].info.name)) c.push_back(i); return c[P(c.size())]; }
static void runC08(int tier) {
  sim_h5_clear(); IoPlan a; planDomain(a, tier ? 12 : 8); std::vector<Written> w; planWrites(a, w, 3, 1);
  sim_sample("%d processes write %s %s ghosts %d, %zu operations", a.nranks, ioFactories()[a.kind].info.name, a.global.str().c_str(), a.delta, a.ops.size());
  requireOk(launchStream(a));
  Disk k; modelWrites(a, k); std::string e = checkDisk(k); if (!e.empty()) sim_fail("dump", "%s", e.c_str());
  for (auto &b : a.inner) if (b.empty()) sim_probe("writer-without-cells");
  IoPlan b = a; b.ops.clear(); b.nranks = PP(0.85) ? PR(1, tier ? 12 : 8) : 1; b.serial = b.nranks == 1 && PP(0.5); b.delta = PR(0, b.rank == 3 ? 1 : 2); b.kind = otherKind(a.kind); if (b.kind != a.kind) sim_probe("restored-into-another-grid-type"); std::vector<ReadWant> want; planReads(b, w, want);
  requireOk(launchStream(b));
  e = checkReads(b, want); if (!e.empty()) sim_fail("restore", "%s", e.c_str());
  e = checkDisk(k); if (!e.empty()) sim_fail("dump-changed-by-reading", "%s", e.c_str());
  bool reads = false; for (auto &o : b.ops) if (o.kind == R_READ) reads = true;
  if (reads && a.nranks != b.nranks) sim_nontrivial();
}
// --- C09: only some processes take part
static void planActive(const IoPlan &p, const Box &region, std::vector<int> &act) { act.clear(); for (int r = 0; r < p.nranks; ++r) act.push_back(p.inner[r].overlaps(region)); }
static void runC09(int tier) {
  sim_h5_clear(); IoPlan a; do planDomain(a, tier ? 12 : 8); while (a.nranks == 1 && PP(0.9)); 
  // a first job without operations tells which process owns what
  IoPlan probe = a; sim_net.reorder = 0; requireOk(launchStream(probe)); a.inner = probe.inner; bool reorder = false;
  std::vector<int> act[2] = {std::vector<int>(a.nranks, 1), std::vector<int>(a.nranks, 1)}; int nf = PR(1, 5); bool subset = false; int reopened = 0;
  std::vector<Written> w; std::vector<Box> regs; Box reg[2] = {a.global, a.global};
  for (int i = 0; i < nf; ++i) {
    int s = PP(0.3);
    if (PP(0.7)) { reg[s] = PP(0.7) ? subRegion(a.global) : a.global; IOp o = mk(W_ACTIVE, s); planActive(a, reg[s], act[s]); o.active = act[s]; for (int x : o.active) if (!x) subset = true; a.ops.push_back(o); } else ++reopened;
    Written f; f.file = "/sim/g" + std::to_string(i) + ".h5"; a.ops.push_back(mk(W_OPEN, s, f.file));
    int nw = PR(0, 3); for (int j = 0; j < nw; ++j) { std::string n = "block" + std::string(1, (char)('a' + j)); a.ops.push_back(mk(W_NAME, s, n)); if (PP(0.6)) { IOp o = mk(W_ATTR, s); o.attrs = planAttrs(3); a.ops.push_back(o); } IOp o = mk(W_WRITE, s); o.seed = sim_data64(); o.region = reg[s]; a.ops.push_back(o); f.ds.push_back({n, o}); }
    a.ops.push_back(mk(W_CLOSE, s)); w.push_back(f);
  }
  sim_sample("%d processes, %s %s, %d files, %s", a.nranks, ioFactories()[a.kind].info.name, a.global.str().c_str(), nf, subset ? "only some processes active" : "all active");
  auto owned = a.inner; requireOk(launchStream(a)); if (!(owned.size() == a.inner.size() && std::equal(owned.begin(), owned.end(), a.inner.begin()))) sim_harness_error("placement changed between jobs");
  Disk k; modelWrites(a, k); std::string e = checkDisk(k); if (!e.empty()) sim_fail("subset-dump", "%s", e.c_str());
  // read back with a subset of the processes
  IoPlan b = a; b.ops.clear(); std::vector<ReadWant> want; auto push = [&](const IOp &o, ReadWant q) { b.ops.push_back(o); want.push_back(q); };
  int nr = PR(1, 3); std::vector<int> ra[2] = {std::vector<int>(a.nranks, 1), std::vector<int>(a.nranks, 1)};
  for (int i = 0; i < nr; ++i) {
    const Written &f = w[P(w.size())]; int s = PP(0.3); if (f.ds.empty()) continue; Box r = f.ds[0].second.region; std::vector<int> need; planActive(a, r, need); bool any = false; for (int x : need) any |= x; if (!any) continue;
    bool same = ra[s] == need; // without a change the former active set stays in force
    if (!same || PP(0.5)) { IOp o = mk(R_ACTIVE, s); o.active = need; ra[s] = need; push(o, {0, Box(), false}); for (int x : need) if (!x) subset = true; }
    push(mk(R_OPEN, s, f.file), {0, Box(), false});
    for (auto &d : f.ds) { push(mk(R_NAME, s, d.first), {0, Box(), false}); IOp o = mk(R_READ, s); o.region = r; push(o, {d.second.seed, r, true}); }
    push(mk(R_CLOSE, s), {0, Box(), false});
  }
  requireOk(launchStream(b)); e = checkReads(b, want); if (!e.empty()) sim_fail("subset-restore", "%s", e.c_str());
  if (subset) sim_nontrivial();
  if (reopened) sim_probe("reopened-with-unchanged-active-set");
}
// --- C10: failing file operations
static void runC10(int tier) {
  if (PP(0.4)) { runTextFailures(tier); return; }
  sim_h5_clear(); IoPlan a; planDomain(a, 6); std::vector<Written> w; planWrites(a, w, 3, 1);
  bool inRead = FP(0.35); static const int wk[] = {HF_CREATE, HF_DCREATE, HF_DWRITE, HF_CLOSE, HF_ACREATE, HF_AWRITE, HF_DCLOSE}; static const int rk[] = {HF_OPEN, HF_DREAD, HF_DOPEN, HF_DCLOSE};
  if (!inRead) sim_h5_fault(wk[F(7)], F(5), FP(0.5) ? F(a.nranks) : -1);
  sim_sample("%d processes write %s, %zu operations, failure while %s", a.nranks, ioFactories()[a.kind].info.name, a.ops.size(), inRead ? "reading" : "writing");
  int r = launchStream(a); Disk k; modelWrites(a, k);
  if (!inRead) {
    if (!sim_h5_faults_fired()) { requireOk(r); std::string e = checkDisk(k); if (!e.empty()) sim_fail("dump", "%s", e.c_str()); return; }
    sim_nontrivial(); if (r != JOB_OK) return; // the failure was reported
    std::string e = checkDisk(k); if (!e.empty()) sim_fail("silent-write-failure", "a file operation failed, no process noticed, and %s", e.c_str());
    return;
  }
  requireOk(r); IoPlan b = a; b.ops.clear(); b.nranks = PR(1, 6); b.serial = false; std::vector<ReadWant> want; planReads(b, w, want);
  sim_h5_fault(rk[F(4)], F(4), FP(0.5) ? F(b.nranks) : -1); r = launchStream(b);
  if (!sim_h5_faults_fired()) { requireOk(r); } else { sim_nontrivial(); if (r != JOB_OK) return; }
  std::string e = checkReads(b, want); if (!e.empty()) sim_fail("silent-read-failure", "a file operation failed, no process noticed, and %s", e.c_str());
}
extern "C" void sim_director(const char *prop, int tier) {
  std::string s = prop;
  if (s == "C08") runC08(tier); else if (s == "C09") runC09(tier); else if (s == "C10") runC10(tier);
  else if (!otherDirector(s, tier)) sim_harness_error("unknown property %s", prop);
}
