// C01..C06: domain decomposition, halo exchange, accumulation, buffer exchange, reductions, progress.
#include "prog.hpp"
#include <mpi.h>
#include <map>
using namespace wl;
std::vector<Factory> &wl::factories() { static std::vector<Factory> *f = new std::vector<Factory>; return *f; }

// ------------------------------------------------------------------ inside a simulated process
// Unrelated traffic of the application itself on the world communicator.
struct Noise {
  int n, me; std::vector<MPI_Request> rq; std::vector<std::vector<int>> rbuf, sbuf; int sent = 0; uint64_t seed;
  void start(const Op &o, int me_, int n_, bool any) {
    n = n_; me = me_; int k = 1 + (int)(o.seed % (n > 1 ? n - 1 : 1)), to = (me + k) % n, from = (me + n - k) % n;
    rbuf.emplace_back(8, -1); sbuf.emplace_back(); for (int i = 0; i < 8; ++i) sbuf.back().push_back((int)(h2(777, me * 1000 + sent * 10 + i) >> 33)); sbuf.back()[0] = me; sbuf.back()[1] = sent; ++sent;
    MPI_Request r; MPI_Irecv(rbuf.back().data(), 8, MPI_INT, any ? MPI_ANY_SOURCE : from, any ? MPI_ANY_TAG : sent, MPI_COMM_WORLD, &r); rq.push_back(r);
    MPI_Isend(sbuf.back().data(), 8, MPI_INT, to, any ? (int)(o.seed % 2) : sent, MPI_COMM_WORLD, &r); rq.push_back(r);
  }
  bool finish() {
    MPI_Waitall((int)rq.size(), rq.data(), MPI_STATUSES_IGNORE); rq.clear();
    for (auto &b : rbuf) { int s = b[0], k = b[1]; if (s < 0 || s >= n) return false; for (int i = 2; i < 8; ++i) if (b[i] != (int)(h2(777, s * 1000 + k * 10 + i) >> 33)) return false; }
    return true;
  }
};
extern "C" void sim_rank_main(int entry, void *shared) {
  Plan &p = *(Plan*)shared; int me, n; MPI_Init(nullptr, nullptr); MPI_Comm_rank(MPI_COMM_WORLD, &me); MPI_Comm_size(MPI_COMM_WORLD, &n);
  {
    std::vector<std::unique_ptr<ProgBase>> progs; Noise noise; noise.n = n;
    for (size_t i = 0; i < p.progs.size(); ++i) { progs.emplace_back(factories()[p.progs[i].kind].make()); progs.back()->init(p.progs[i]); progs.back()->view(p.view[i][me]); }
    for (size_t i = 0; i < p.ops.size(); ++i) {
      const Op &o = p.ops[i]; if (p.noise && n > 1 && o.seed % 3 != 0) noise.start(o, me, n, p.noise == 1);
      progs[o.prog]->op(o, p.rec[i][me]);
      if (p.noise > 1 && o.seed % 5 == 0 && !noise.rq.empty()) { if (!noise.finish()) sim_fail("foreign-traffic", "an application message on the world communicator was altered or taken"); }
    }
    if (p.noise && n > 1) p.noise_ok[me] = noise.finish();
    for (size_t i = 0; i < p.progs.size(); ++i) { View v; bool destroyed = false; for (auto &o : p.ops) if (o.kind == OP_DESTROY && o.prog == (int)i) destroyed = true; if (!destroyed) { v = p.view[i][me]; View w; progs[i]->view(w); if (!(w.inner == v.inner) || w.procnum != v.procnum || w.uid != v.uid) sim_fail("unstable-view", "the subdivision of a process changed during the run"); } }
  }
  sim_heap_check();
  MPI_Finalize();
}

// ------------------------------------------------------------------ director
static void prepare(Plan &p) {
  p.view.assign(p.progs.size(), std::vector<View>(p.nranks)); p.rec.assign(p.ops.size(), std::vector<OpRec>(p.nranks)); p.noise_ok.assign(p.nranks, 1);
}
static ProgPlan planProg(int kind, int nranks, bool roomy, int mindelta) {
  ProgPlan g; g.kind = kind; KindInfo &k = factories()[kind].info; g.rank = k.rank; g.global.r = k.rank; g.delta = mindelta + (int)sim_choose_p(SIM_PLAN, 4, 0.5); g.overload = P(4); g.nfields = 1 + PP(0.2); g.stagger = P(1 << k.rank);
  int maxn = k.rank == 1 ? 60 : k.rank == 2 ? 26 : 12;
  if (k.rank == 3 && g.delta > 2) g.delta = 2;
  for (int d = 0; d < k.rank; ++d) {
    int mn = roomy ? std::max(1, g.delta) : 1, n = roomy ? mn + PR(0, maxn) : PP(0.3) ? PR(1, 6) : PR(1, maxn);
    int lo = PP(0.5) ? PR(-12, 12) : 0;
    g.global.lo[d] = lo; g.global.hi[d] = lo + n - 1;
    g.elo[d] = PP(0.5) ? (double)PR(-50, 50) / 4 : 0.0; g.ehi[d] = g.elo[d] + (1 + P(400)) / 8.0;
  }
  return g;
}
static std::string describe(const Plan &p) {
  std::string s = std::to_string(p.nranks) + " processes"; for (auto &g : p.progs) s += std::string(", ") + factories()[g.kind].info.name + " " + g.global.str() + " ghosts " + std::to_string(g.delta); s += ", " + std::to_string(p.ops.size()) + " operations"; if (p.noise) s += ", application traffic"; return s;
}
static void launch(Plan &p) {
  prepare(p); int r = sim_launch(p.nranks, 0, &p);
  if (r != JOB_OK) sim_fail("abnormal-end", "process %d ended abnormally: %s", sim_job_reason_rank(), sim_job_reason());
  if (sim_leftover_messages()) sim_fail("leftover-message", "%d messages were sent but never received", sim_leftover_messages());
  if (sim_leftover_requests()) sim_fail("leftover-request", "%d requests never completed", sim_leftover_requests());
  if (sim_open_collectives()) sim_fail("open-collective", "%d collective operations were not entered by every process", sim_open_collectives());
  for (int i = 0; i < p.nranks; ++i) if (!p.noise_ok[i]) sim_fail("foreign-traffic", "process %d: an application message on the world communicator was altered or taken", i);
}

// --- C01
static void judgeTiling(const Plan &p, int pi) {
  const ProgPlan &g = p.progs[pi]; const auto &V = p.view[pi]; int n = p.nranks; bool serial = factories()[g.kind].info.serial; if (serial) return;
  std::vector<int> seen(n, 0); std::map<int,int> ids; int masters = 0; long vol = 0;
  for (int i = 0; i < n; ++i) {
    const View &v = V[i]; if (!v.done) sim_fail("no-view", "process %d has no subdomain", i);
    if (v.procCount != n) sim_fail("process-count", "process %d reports %d processes instead of %d", i, v.procCount, n);
    if (v.procnum < 0 || v.procnum >= n || seen[v.procnum]++) sim_fail("process-number", "process number %d is out of range or used twice", v.procnum);
    if (ids.count(v.uid)) sim_fail("unique-id", "two processes have the unique id %d", v.uid); ids[v.uid] = i;
    masters += v.master; if (v.delta != g.delta) sim_fail("ghost-width", "ghost width %d reported instead of %d", v.delta, g.delta);
    if (!(v.global == g.global)) sim_fail("global-domain", "global domain %s reported instead of %s", v.global.str().c_str(), g.global.str().c_str());
    if (!(v.dom.shrunk(g.delta) == v.inner)) sim_fail("ghost-frame", "local domain %s is not the inner domain %s plus %d ghost cells", v.dom.str().c_str(), v.inner.str().c_str(), g.delta);
    if (!v.inner.empty() && !v.inner.inside(g.global)) sim_fail("outside", "process %d owns %s outside the global domain %s", i, v.inner.str().c_str(), g.global.str().c_str());
    vol += v.inner.volume();
  }
  if (masters != 1) sim_fail("master", "%d master processes", masters);
  for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) if (V[i].inner.overlaps(V[j].inner)) sim_fail("overlap", "processes %d and %d both own cells of %s and %s", j, i, V[j].inner.str().c_str(), V[i].inner.str().c_str());
  if (vol != g.global.volume()) sim_fail("gap", "the subdomains cover %ld of %ld cells", vol, g.global.volume());
  bool someEmpty = false; for (int i = 0; i < n; ++i) if (V[i].inner.empty()) someEmpty = true;
  if (someEmpty) sim_probe("empty-subdomain");
  for (int d = 0; d < g.rank; ++d) {
    long mn = 1 << 30, mx = 0; for (int i = 0; i < n; ++i) { mn = std::min(mn, V[i].inner.n(d)); mx = std::max(mx, V[i].inner.n(d)); }
    if (mx - mn > 2) sim_fail("unbalanced", "along axis %d the subdomains have between %ld and %ld cells", d, mn, mx);
    double dx = (g.ehi[d] - g.elo[d]) / g.global.n(d), tol = 1e-9 * (std::fabs(g.ehi[d]) + std::fabs(g.elo[d]));
    for (int i = 0; i < n; ++i) {
      const View &v = V[i];
      if (!someEmpty) {
        if (v.blo[d] != (v.inner.lo[d] == g.global.lo[d])) sim_fail("bound-flag", "process %d: lower bound flag is %d for %s of %s, axis %d", i, v.blo[d], v.inner.str().c_str(), g.global.str().c_str(), d);
        if (v.bhi[d] != (v.inner.hi[d] == g.global.hi[d])) sim_fail("bound-flag", "process %d: upper bound flag is %d for %s of %s, axis %d", i, v.bhi[d], v.inner.str().c_str(), g.global.str().c_str(), d);
      }
      double el = g.elo[d] + (v.inner.lo[d] - g.global.lo[d]) * dx, eh = g.elo[d] + (v.inner.hi[d] + 1 - g.global.lo[d]) * dx;
      if (!(std::fabs(el - v.elo[d]) <= tol) || !(std::fabs(eh - v.ehi[d]) <= tol)) sim_fail("physical-extent", "process %d: cells %s of %s have physical extent [%.12g,%.12g] instead of [%.12g,%.12g] along axis %d", i, v.inner.str().c_str(), g.global.str().c_str(), v.elo[d], v.ehi[d], el, eh, d);
    }
  }
  if (n > 1 && !someEmpty) sim_nontrivial();
}
static void runC01(int tier) {
  int nk = (int)factories().size(); Plan p; p.nranks = PP(0.06) ? PR(13, 36) : 1 + P(tier ? 16 : 12); p.noise = P(2); int np = 1 + PP(0.25);
  for (int i = 0; i < np; ++i) { int k; do k = P(nk); while (factories()[k].info.serial && (++k < nk ? false : true)); if (factories()[k].info.serial) k = 0; p.progs.push_back(planProg(k, p.nranks, false, PP(0.1) ? 0 : 1)); ProgPlan &g = p.progs.back();
    if (PP(0.2)) { g.viewOnly = true; if (g.overload == 2) g.overload = 1; int d = P(g.rank); long big = g.rank == 1 ? 3000000 : g.rank == 2 ? 30000 : 2000; g.global.lo[d] = PP(0.3) ? 0 : PR(-1000000, 1000000); g.global.hi[d] = g.global.lo[d] + PR(1, big); sim_probe("large-domain"); } // no fields, so the domain can be large
    if (p.nranks > 12) g.viewOnly = true; }
  sim_sample("%s", describe(p).c_str()); launch(p);
  for (int i = 0; i < np; ++i) judgeTiling(p, i);
  if (p.nranks <= 19 && PP(0.6)) { // a second run of the same program, placed differently
    Plan q; q.nranks = p.nranks; q.progs = p.progs; q.noise = P(2); sim_net.reorder = F(2); launch(q);
    for (int i = 0; i < np; ++i) { judgeTiling(q, i); if (factories()[p.progs[i].kind].info.serial) continue; std::map<int, Box> a; for (auto &v : p.view[i]) a[v.uid] = v.inner; for (auto &v : q.view[i]) if (!a.count(v.uid) || !(a[v.uid] == v.inner)) sim_fail("unstable-id", "unique id %d names %s in one run and %s in another", v.uid, a.count(v.uid) ? a[v.uid].str().c_str() : "nothing", v.inner.str().c_str()); }
    sim_probe("second-run");
  }
}

// --- reference model of fields under halo exchange and accumulation
struct Model {
  const Plan &p; int pi; const ProgPlan &g; const std::vector<View> &V; bool serial, ok = true, wide = true; std::vector<std::vector<std::vector<long double>>> st; // [field][rank]
  Model(const Plan &p_, int pi_) : p(p_), pi(pi_), g(p.progs[pi]), V(p.view[pi]), serial(factories()[g.kind].info.serial) {
    st.resize(g.nfields); for (auto &s : st) { s.resize(p.nranks); for (int i = 0; i < p.nranks; ++i) s[i].assign(std::max(0L, V[i].dom.volume()), NAN); }
    for (auto &v : V) for (int d = 0; d < g.rank; ++d) { if (v.inner.n(d) < g.delta || v.inner.n(d) < 1) ok = false; if (v.inner.n(d) < 2 * g.delta) wide = false; }
  }
  const Box &G(int i) const { return serial ? V[i].inner : g.global; }
  // owner, in the row of process i along axis d, of coordinate w
  int owner(int i, int d, int w) const {
    if (serial) return i;
    for (int j = 0; j < p.nranks; ++j) { bool same = w >= V[j].inner.lo[d] && w <= V[j].inner.hi[d]; for (int e = 0; e < g.rank && same; ++e) if (e != d && (V[j].inner.lo[e] != V[i].inner.lo[e] || V[j].inner.hi[e] != V[i].inner.hi[e])) same = false; if (same) return j; }
    sim_fail("no-owner", "no process in the row of %s along axis %d owns coordinate %d", V[i].inner.str().c_str(), d, w);
  }
  void exchange(int f, int d) {
    auto old = st[f];
    for (int i = 0; i < p.nranks; ++i) { int x[4]; if (V[i].dom.first(x)) do { if (x[d] >= V[i].inner.lo[d] && x[d] <= V[i].inner.hi[d]) continue; int y[4]; memcpy(y, x, sizeof y); y[d] = wrap(x[d], G(i).lo[d], G(i).hi[d]); int q = owner(i, d, y[d]); if (!V[q].dom.has(y)) sim_fail("no-owner", "row of unequal subdomains"); st[f][i][V[i].dom.index(x)] = old[q][V[q].dom.index(y)]; } while (V[i].dom.next(x)); }
  }
  void accumulate(int f, int d) {
    auto old = st[f]; std::vector<std::vector<long double>> sum(p.nranks); for (int i = 0; i < p.nranks; ++i) sum[i].assign(old[i].size(), 0);
    for (int i = 0; i < p.nranks; ++i) { int x[4]; if (V[i].dom.first(x)) do { int y[4]; memcpy(y, x, sizeof y); y[d] = wrap(x[d], G(i).lo[d], G(i).hi[d]); int q = owner(i, d, y[d]); sum[q][V[q].dom.index(y)] += old[i][V[i].dom.index(x)]; } while (V[i].dom.next(x)); }
    for (int i = 0; i < p.nranks; ++i) { int x[4]; if (V[i].dom.first(x)) do { bool in = x[d] >= V[i].inner.lo[d] && x[d] <= V[i].inner.hi[d]; int y[4]; memcpy(y, x, sizeof y); y[d] = wrap(x[d], G(i).lo[d], G(i).hi[d]); int q = owner(i, d, y[d]); st[f][i][V[i].dom.index(x)] = in || wide ? sum[q][V[q].dom.index(y)] : NAN; } while (V[i].dom.next(x)); }
  }
  void compare(size_t oi, const char *cls, const char *what) {
    const Op &o = p.ops[oi];
    for (int i = 0; i < p.nranks; ++i) {
      const auto &c = p.rec[oi][i].cells; int x[4]; if (c.size() != st[o.field][i].size()) sim_fail("no-record", "operation %zu left no record", oi);
      if (V[i].dom.first(x)) do { size_t k = V[i].dom.index(x); long double w = st[o.field][i][k]; if (std::isnan(w)) continue; if (c[k] != w) { bool in = V[i].inner.has(x); sim_fail(cls, "after %s (operation %zu, axis %d) process %d holds %.18Lg instead of %.18Lg in %s cell %s of %s (inner %s, global %s, %d ghost cells)", what, oi, o.dim, i, c[k], w, in ? "inner" : "ghost", pt(x, g.rank).c_str(), V[i].dom.str().c_str(), V[i].inner.str().c_str(), g.global.str().c_str(), g.delta); } } while (V[i].dom.next(x));
    }
  }
};
static int neighbour(const Plan &p, int pi, int i, int d, int dir) {
  const ProgPlan &g = p.progs[pi]; if (factories()[g.kind].info.serial) return i; Model m(p, pi); const Box &b = p.view[pi][i].inner;
  return m.owner(i, d, wrap(dir > 0 ? b.hi[d] + 1 : b.lo[d] - 1, g.global.lo[d], g.global.hi[d]));
}
// Judge every operation of a finished job. Returns the number of judged communication operations.
static int judgeOps(const Plan &p) {
  std::vector<std::unique_ptr<Model>> m; int judged = 0; for (size_t i = 0; i < p.progs.size(); ++i) m.emplace_back(new Model(p, i));
  for (auto &q : m) sim_probe(q->ok ? (q->wide ? "subdomains-wide" : "subdomains-narrow") : "subdomains-too-small");
  for (size_t oi = 0; oi < p.ops.size(); ++oi) {
    const Op &o = p.ops[oi]; Model &M = *m[o.prog]; const ProgPlan &g = p.progs[o.prog]; int n = p.nranks;
    for (int i = 0; i < n; ++i) if (!p.rec[oi][i].done) sim_fail("no-record", "process %d did not finish operation %zu", i, oi);
    switch (o.kind) {
      case OP_FILL: for (int i = 0; i < n; ++i) M.st[o.field][i] = p.rec[oi][i].cells; break;
      case OP_EXCH: if (M.ok) { M.exchange(o.field, o.dim); M.compare(oi, "halo", "the exchange"); ++judged; } break;
      case OP_EXCHALL: if (M.ok) { for (int d = 0; d < g.rank; ++d) M.exchange(o.field, d); M.compare(oi, "halo", "the exchange along all axes"); ++judged; } break;
      case OP_ACC: if (M.ok) { M.accumulate(o.field, o.dim); M.compare(oi, "accumulate", "the accumulation"); ++judged; } break;
      case OP_ACCALL: if (M.ok) { for (int d = 0; d < g.rank; ++d) M.accumulate(o.field, d); M.compare(oi, "accumulate", "the accumulation along all axes"); ++judged; } break;
      case OP_DATA: if (M.ok) { for (int i = 0; i < n; ++i) { int q = neighbour(p, o.prog, i, o.dim, o.arg > 0 ? -1 : 1); const auto &want = p.rec[oi][q].in, &got = p.rec[oi][i].out; if (got.size() != want.size()) sim_fail("buffer-size", "process %d received %zu bytes, its neighbour %d sent %zu (axis %d, direction %d)", i, got.size(), q, want.size(), o.dim, o.arg); if (got != want) { size_t k = 0; while (got[k] == want[k]) ++k; sim_fail("buffer-content", "process %d received byte %zu of %zu differently from what its neighbour %d sent", i, k, want.size(), q); } } ++judged; } break;
      case OP_REDUCE: {
        bool serial = factories()[g.kind].info.serial;
        for (int i = 0; i < n; ++i) {
          long double s = 0, a = 0; double mn = INFINITY, mx = -INFINITY; long si = 0, mni = 1L << 40, mxi = -(1L << 40); int cnt = 0;
          for (int j = 0; j < n; ++j) { if (serial && j != i) continue; ++cnt; const OpRec &r = p.rec[oi][j]; s += r.vd; a += std::fabs(r.vd); mn = std::min(mn, r.vd); mx = std::max(mx, r.vd); si += r.vi; mni = std::min(mni, r.vi); mxi = std::max(mxi, r.vi); }
          const OpRec &r = p.rec[oi][i]; double tol = (double)(a * 2.3e-16L * (cnt + 1)); static const char *nm[] = {"sum", "average", "minimum", "maximum", "integer sum", "integer average", "integer minimum", "integer maximum"};
          bool good = true; double want = 0, got = r.rd;
          switch (o.arg) { case 0: want = s; good = std::fabs(got - want) <= tol; break; case 1: want = s / cnt; good = std::fabs(got - want) <= tol / cnt + std::fabs(want) * 2.3e-16; break; case 2: want = mn; good = got == want; break; case 3: want = mx; good = got == want; break;
            case 4: want = si; got = r.ri; good = r.ri == si; break; case 5: want = (double)si / cnt; got = r.ri; good = std::fabs(got - want) < 1 && (si % cnt || r.ri == si / cnt); break; case 6: want = mni; got = r.ri; good = r.ri == mni; break; case 7: want = mxi; got = r.ri; good = r.ri == mxi; break; }
          if (!good) sim_fail("reduction", "process %d gets %.17g as %s instead of %.17g (%d processes)", i, got, nm[o.arg], want, cnt);
          if (!serial && (o.arg < 4 ? memcmp(&r.rd, &p.rec[oi][0].rd, 8) != 0 : r.ri != p.rec[oi][0].ri)) sim_fail("disagreement", "processes 0 and %d get different results for the same %s", i, nm[o.arg]);
        }
        ++judged; break; }
    }
  }
  return judged;
}
static void addFill(Plan &p, int pi, int field, int small) { Op o; o.prog = pi; o.kind = OP_FILL; o.field = field; o.arg = 1; o.seed = sim_data64(); o.small = small; p.ops.push_back(o); }
static void addOp(Plan &p, int pi, int cls) { // cls: 0 halo, 1 accumulate, 2 data, 3 reduce
  const ProgPlan &g = p.progs[pi]; Op o; o.prog = pi; o.field = P(g.nfields); o.seed = sim_data64();
  if (cls == 0) { if (PP(0.3)) addFill(p, pi, o.field, 0); if (P(2)) { o.kind = OP_EXCHALL; } else { o.kind = OP_EXCH; o.dim = P(g.rank); } p.ops.push_back(o); }
  else if (cls == 1) { addFill(p, pi, o.field, 1); if (P(2)) { o.kind = OP_ACCALL; p.ops.push_back(o); } else { int d0 = P(g.rank), k = PR(1, g.rank); for (int j = 0; j < k; ++j) { o.kind = OP_ACC; o.dim = (d0 + j) % g.rank; p.ops.push_back(o); } } }
  else if (cls == 2) { o.kind = OP_DATA; o.dim = P(g.rank); o.arg = P(2) ? 1 : -1; o.small = PP(0.3); p.ops.push_back(o); }
  else { o.kind = OP_REDUCE; o.arg = P(8); p.ops.push_back(o); }
}
static void runOps(int tier, int cls) {
  int nk = (int)factories().size(); Plan p; p.nranks = PP(0.9) ? 2 + P(tier ? 15 : 11) : 1; p.noise = PP(0.4) ? 1 + P(2) : 0; int np = 1 + PP(0.25) + (cls < 0 ? P(2) : 0);
  bool hasComm = p.nranks > 1;
  for (int i = 0; i < np; ++i) p.progs.push_back(planProg(P(nk), p.nranks, true, 1));
  for (int i = 0; i < np; ++i) for (int f = 0; f < p.progs[i].nfields; ++f) addFill(p, i, f, cls == 1);
  int nops = PR(1, tier ? 10 : 6); for (int i = 0; i < nops; ++i) addOp(p, P(np), cls >= 0 ? cls : P(4));
  if (cls < 0 && np > 1 && PP(0.3)) { Op o; o.prog = 0; o.kind = OP_DESTROY; o.seed = sim_data64(); p.ops.push_back(o); addOp(p, np - 1, P(4)); }
  sim_sample("%s", describe(p).c_str()); launch(p);
  int j = judgeOps(p); if (j && hasComm) sim_nontrivial();
  if (cls < 0) {
    if (sim_live_comms() > 0) sim_fail("communicator-leak", "%d communicators were created and never released", sim_live_comms());
    if (p.noise) sim_probe("foreign-traffic-present"); if (np > 1) sim_probe("several-subdivisions");
    if (hasComm) sim_nontrivial();
  }
}
extern "C" void sim_director(const char *prop, int tier) {
  std::string s = prop;
  if (s == "C01") runC01(tier); else if (s == "C02") runOps(tier, 0); else if (s == "C03") runOps(tier, 1); else if (s == "C04") runOps(tier, 2); else if (s == "C05") runOps(tier, 3); else if (s == "C06") runOps(tier, -1);
  else sim_harness_error("unknown property %s", prop);
}
