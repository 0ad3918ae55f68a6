// The simulated process: everything below is the library's real code.
#include "app.hpp"
#include <grid/grid.hpp>
#include <grid/field.hpp>
#include <grid/mpisubdivision.hpp>
#include <grid/domainsubdivision.hpp>
#include <diagnostic/diagnostic.hpp>
#include <diagnostic/hdfdiagnostic.hpp>
#include <tools/fieldtools.hpp>
#include <util/databuffer.hpp>
#include <parser.hpp>
#include <fstream>
#include <list>
using namespace wl; using namespace schnek;
namespace {
struct Status { int step = 0; double sum = 0, mx = 0; };
std::ostream &operator<<(std::ostream &o, const Status &s) { return o << textLine(s.step, s.sum, s.mx); }

template<class F> struct App {
  static constexpr int R = F::Rank; typedef typename F::IndexType Index; typedef Array<double, R> Coord;
  static AppPlan *plan; static DomainSubdivision<F> *sub; static App *cur;
  static Index ix(const int *x) { Index i; for (int d = 0; d < R; ++d) i[d] = x[d]; return i; }
  static F mkField(const int *stag) {
    Coord lo, hi; Array<bool, R> st; for (int d = 0; d < R; ++d) { lo[d] = plan->org[d]; hi[d] = plan->org[d] + plan->global.n(d) * plan->dx[d]; st[d] = stag[d]; }
    Range<double, R> ext = sub->getInnerExtent(Range<double, R>(lo, hi)); return F(sub->getInnerLo(), sub->getInnerHi(), ext, st, plan->delta);
  }
  struct Sim : public Block {
    F a, b, c; Coord x; double va, vb; Array<int, R> N; double k; Array<pParameter, R> xp; pParameter pa, pb; Status status;
    void initParameters(BlockParameters &par) override {
      par.addArrayParameter("N", N); xp = par.addArrayParameter("", x, BlockParameters::readonly);
      pa = par.addParameter("A", &va, 0.0); pb = par.addParameter("B", &vb, 0.0); par.addParameter("k", &k, 1.0);
    }
    void registerData() override { addData("a", a); addData("b", b); addData("status", status); }
    void preInit() override { a = mkField(plan->stag[0]); b = mkField(plan->stag[1]); c = mkField(plan->stag[1]); a = 0.0; b = 0.0; c = 0.0; }
    void init() override {
      for (int d = 0; d < R; ++d) if (N[d] != plan->global.n(d)) sim_fail("setup", "parameter N%c is %d instead of %ld", "xyz"[d], N[d], plan->global.n(d));
      pDependencyMap dep(new DependencyMap(getVariables())); DependencyUpdater up(dep); up.addIndependentArray(xp);
      if (plan->filler) { FieldFiller fl; up.addDependent(pa); up.addDependent(pb); fl.set(x, up)(a, va)(b, vb); fl.fillFields(); }
      else { fill_field(a, x, va, up, pa); fill_field(b, x, vb, up, pb); }
      AppPlan &p = *plan; int me = sim_rank(); Box in = toBox(sub->getInnerDomain(), R); int y[4]; if (in.first(y)) do { p.A0[me].push_back(a[ix(y)]); p.B0[me].push_back(b[ix(y)]); a[ix(y)] = quant(a[ix(y)], p.init[0].m); b[ix(y)] = quant(b[ix(y)], p.init[1].m); } while (in.next(y));
    }
  };
  template<class Base> struct Dump : public HDFGridDiagnostic<F, Base> {
    Index getGlobalMin() override { return ix(plan->global.lo); } Index getGlobalMax() override { return ix(plan->global.hi); }
  };
  struct Text : public SimpleFileDiagnostic<Status, Status*, IntervalDiagnostic> { Text() { this->setSingleOut(true); } };
  struct Reader : public HDFGridReader<F> {
    Index getGlobalMin() override { return ix(plan->global.lo); } Index getGlobalMax() override { return ix(plan->global.hi); }
    void postInit() override { this->execute(); }
  };
  static std::string key(const char *s) { return s; }
  static void migrate(std::list<PartP> &ps) {
    AppPlan &p = *plan; Box in = toBox(sub->getInnerDomain(), R);
    for (int d = 0; d < R; ++d) for (int o = -1; o <= 1; o += 2) {
      std::vector<std::list<PartP>::iterator> out; for (auto it = ps.begin(); it != ps.end(); ++it) if (o > 0 ? it->pos[d] > in.hi[d] : it->pos[d] < in.lo[d]) out.push_back(it);
      DataBuffer<PartP> sb, rb; sb.makeBuffer(out); for (auto it : out) ps.erase(it);
      sub->exchangeData(d, o, sb.getBuffer(), rb.getBuffer());
      for (typename DataBuffer<PartP>::iterator it = rb.begin(); it != rb.end(); ++it) { PartP q = *it; q.pos[d] = wrap(q.pos[d], p.global.lo[d], p.global.hi[d]); ps.push_back(q); }
    }
  }
  static void run(AppPlan &p) {
    plan = &p; int me = sim_rank(); std::unique_ptr<DomainSubdivision<F>> s; Index lo = ix(p.global.lo), hi = ix(p.global.hi);
    if (p.serial) { s.reset(new SerialSubdivision<F>); for (int d = 0; d < R; ++d) { lo[d] -= p.delta; hi[d] += p.delta; } } else s.reset(new MPICartSubdivision<F>);
    s->init(lo, hi, p.delta); sub = s.get(); Box in = toBox(s->getInnerDomain(), R); p.inner[me] = in; p.master[me] = s->master();
    int w = 1 << 20; for (int d = 0; d < R; ++d) w = std::min(w, (int)in.n(d)); if (s->minReduce(w) < std::max(2, p.delta)) { p.bad[me] = 1; return; }
    int tc = p.start; auto &M = DiagnosticManager::instance(); M.setTimeCounter(&tc); M.setMaster(s->master()); M.setRank(s->procnum());
    BlockClasses bc; bc.registerBlock("Sim").setClass<Sim>(); bc.registerBlock("Dump").template setClass<Dump<IntervalDiagnostic>>(); bc.registerBlock("Text").template setClass<Text>(); bc.registerBlock("Restart").template setClass<Reader>(); bc("Sim").addChildren("Dump")("Text")("Restart");
    Parser P("app", "Sim", bc); std::ifstream f("/sim/app.setup"); if (!f) sim_job_abort("cannot open the setup file");
    pBlock root = P.parse(f); f.close(); root->initAll(); Sim &S = dynamic_cast<Sim&>(*root); int x[4];
    std::list<PartP> ps; for (auto &q : p.parts) if (in.has(q.pos)) ps.push_back(q);
    auto status = [&] { double sum = 0, mx = 0; if (in.first(x)) do { double v = S.a[ix(x)]; sum += v; mx = std::max(mx, v); } while (in.next(x)); S.status.step = tc; S.status.sum = s->sumReduce(sum); S.status.mx = s->maxReduce(mx); };
    auto feedback = [&](double sum) { double g = std::fmod(sum, 5.0); if (in.first(x)) do S.a[ix(x)] = fold(S.a[ix(x)] + g); while (in.next(x)); };
    if (p.start == 0) { status(); M.execute(); } else if (p.feedback) { status(); feedback(S.status.sum); }
    std::vector<double> nw; p.reached[me] = p.start;
    for (int step = p.start; step < p.nsteps; ++step) {
      s->exchange(S.a); nw.clear();
      if (in.first(x)) do { double v = addend(p.noise, step) + S.b[ix(x)]; for (auto &o : p.stencil) { int y[4]; for (int d = 0; d < R; ++d) y[d] = x[d] + o[d]; v += o[3] * S.a[ix(y)]; } nw.push_back(fold(v)); } while (in.next(x));
      size_t k = 0; if (in.first(x)) do S.a[ix(x)] = nw[k++]; while (in.next(x));
      for (auto &q : ps) for (int d = 0; d < R; ++d) q.pos[d] += q.vel[d];
      if (!p.parts.empty()) migrate(ps);
      for (auto &q : ps) if (!in.has(q.pos)) sim_fail("particle", "after the exchange of step %d particle %d is at %s on the process that owns %s", step, q.id, pt(q.pos, R).c_str(), in.str().c_str());
      if (p.deposit) {
        S.c = 0.0; for (auto &q : ps) for (int c = 0; c < (1 << R); ++c) { int y[4]; for (int d = 0; d < R; ++d) y[d] = q.pos[d] + ((c >> d) & 1 ? (q.id & 1 ? 1 : -1) : 0); S.c[ix(y)] += q.val + c; }
        s->accumulate(S.c); if (in.first(x)) do S.a[ix(x)] = fold(S.a[ix(x)] + S.c[ix(x)]); while (in.next(x));
      }
      tc = step + 1; status(); double sum = S.status.sum; int cnt = s->sumReduce((int)ps.size()); double mn = MODV; if (in.first(x)) do mn = std::min(mn, (double)S.a[ix(x)]); while (in.next(x)); mn = s->minReduce(mn); double avg = s->avgReduce((double)cnt);
      p.hist[me].push_back({sum, S.status.mx, mn, (double)cnt, avg});
      M.execute();
      if (p.feedback) feedback(sum);
      p.reached[me] = step + 1;
    }
    if (in.first(x)) do p.A[me].push_back(S.a[ix(x)]); while (in.next(x));
    for (auto &q : ps) p.outParts[me].push_back(q); p.finished[me] = 1;
  }
};
template<class F> AppPlan *App<F>::plan; template<class F> DomainSubdivision<F> *App<F>::sub; template<class F> App<F> *App<F>::cur;
}
void wl::appMain(AppPlan &p) {
  switch (p.R * 2 + p.checked) {
    case 2: App<Field<double, 1>>::run(p); break; case 3: App<Field<double, 1, GridAssertCheck>>::run(p); break;
    case 4: App<Field<double, 2>>::run(p); break; case 5: App<Field<double, 2, GridAssertCheck>>::run(p); break;
    case 6: App<Field<double, 3>>::run(p); break; default: App<Field<double, 3, GridAssertCheck>>::run(p); break;
  }
}
