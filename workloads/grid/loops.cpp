// Iteration policies and range iterators: every index exactly once.
#include "grid.hpp"
#include <map>
using namespace wl;
namespace {
enum { P_C, P_F, P_K, P_IT, P_NUM };
const char *pname[] = {"C order", "Fortran order", "parallel", "iterator"};
struct Log { std::vector<std::vector<int>> seq; long throwAt = -1; bool alive = true; int running = 0; };
template<int R, class G> struct Visit {
  mutable G grid; Log *log; int mul; unsigned tag = 0x7a57u; ~Visit() { tag = 0; }
  Visit(const G &g, Log *l, int m) : grid(g), log(l), mul(m) {}
  Visit(const Visit &o) : grid(o.grid), log(o.log), mul(o.mul) {}
  template<class I> void operator()(const I &p) const {
    if (tag != 0x7a57u) sim_fail("functor-life-time", "the loop body is called after it was destroyed");
    if (!log->alive) sim_fail("late-iteration", "an iteration runs after the fence");
    int x[4]; for (int d = 0; d < R; ++d) x[d] = p[d]; { sim_point("loop body"); log->seq.emplace_back(x, x + R); } int s = mul; for (int d = 0; d < R; ++d) s = s * 31 + x[d]; grid[arr<R>(x)] = s; if ((long)log->seq.size() == log->throwAt) throw Boom();
  }
};
template<int R, class G> struct LoopT {
  int policy; Box box, full; G grid; Log log; int mul; bool whole = false, threw = false;
  void start() {
    Array<int, R> lo = arr<R>(box.lo), hi = arr<R>(box.hi); Range<int, R> *rg = whole && PP(0.5) ? new Range<int, R>(grid.getRange()) : new Range<int, R>(lo, hi); Visit<R, G> *v = new Visit<R, G>(grid, &log, mul);
    try { switch (policy) {
        case P_C: RangeCIterationPolicy<R>::forEach(*rg, *v); break; case P_F: RangeFortranIterationPolicy<R>::forEach(*rg, *v); break; case P_K: RangeKokkosIterationPolicy<R>::forEach(*rg, *v); break;
        default: { bool post = P(2); auto it = rg->begin(), end = rg->end(); while (it != end) {
          auto was = it; Array<int, R> here = *it; (*v)(*it); if (!(was == it) || was != it) sim_fail("iterator", "a copy of an iterator differs from it");
          if (post) { auto old = it++; if (!(old == was)) sim_fail("iterator", "the post-increment does not return the previous iterator"); } else { auto &now = ++it; if (&now != &it) sim_fail("iterator", "the pre-increment does not return the iterator"); }
          if (it == was) sim_fail("iterator", "an iterator compares equal to its predecessor at %s", pt(&here[0], R).c_str()); for (int d = 0; d < R; ++d) if ((*was)[d] != here[d] || was.getPos()[d] != here[d]) sim_fail("iterator", "incrementing an iterator moves a copy of it"); } } } } catch (Boom &) { threw = true; }
    delete v; delete rg; // gone before the iterations need to have run
  }
  void judge() {
    log.alive = false; const char *n = pname[policy]; long want = box.volume(); if (log.throwAt > 0 && log.throwAt <= want) { if (!threw) sim_fail("lost-error", "the exception of a loop body (%s) did not reach the caller", n); want = log.throwAt; } else if (threw) sim_fail("exception", "a loop (%s) throws", n);
    std::map<std::vector<int>, int> c; for (auto &s : log.seq) { if (!box.has(s.data())) sim_fail("outside", "a loop over %s (%s) visits %s", box.str().c_str(), n, pt(s.data(), R).c_str()); if (++c[s] > 1) sim_fail("twice", "a loop over %s (%s) visits %s twice", box.str().c_str(), n, pt(s.data(), R).c_str()); }
    if ((long)log.seq.size() != want) sim_fail("missed", "a loop over %s (%s) visits %zu of %ld indices", box.str().c_str(), n, log.seq.size(), want);
    if (policy != P_K) for (size_t i = 1; i < log.seq.size(); ++i) { auto a = log.seq[i - 1], b = log.seq[i]; if (policy == P_F) { std::reverse(a.begin(), a.end()); std::reverse(b.begin(), b.end()); } if (!(a < b)) sim_fail("order", "a loop over %s (%s) visits %s before %s", box.str().c_str(), n, pt(log.seq[i - 1].data(), R).c_str(), pt(log.seq[i].data(), R).c_str()); }
    int x[4]; if (full.first(x)) do { int s = -77; if (c.count(std::vector<int>(x, x + R))) { s = mul; for (int d = 0; d < R; ++d) s = s * 31 + x[d]; } const G &g = grid; if (g[arr<R>(x)] != s) sim_fail("effect", "after a loop over %s (%s) cell %s is %d instead of %d", box.str().c_str(), n, pt(x, R).c_str(), g[arr<R>(x)], s); } while (full.next(x));
  }
};
template<int R, template<typename, size_t> class St> void go(const GridPlan &p) {
  typedef Grid<int, R, GridNoArgCheck, St> G; int rounds = PR(1, 3); bool async = false;
  for (int k = 0; k < rounds; ++k) {
    int n = PR(1, 3); std::vector<std::unique_ptr<LoopT<R, G>>> ls;
    for (int i = 0; i < n; ++i) {
      std::unique_ptr<LoopT<R, G>> l(new LoopT<R, G>()); l->policy = PP(0.5) ? P_K : P(P_NUM); l->mul = PR(1, 97); Box b; b.r = R; int m = R == 1 ? 40 : R == 2 ? 8 : R == 3 ? 5 : 3; for (int d = 0; d < R; ++d) { b.lo[d] = PR(-6, 6); b.hi[d] = b.lo[d] + (PP(0.04) ? 0 : PR(1, m)) - 1; } l->box = b; Box f = b; for (int d = 0; d < R; ++d) { f.lo[d] -= P(2); f.hi[d] += P(2); } l->whole = f == b; if (f.volume() == 0) for (int d = 0; d < R; ++d) if (f.n(d) <= 0) f.hi[d] = f.lo[d]; if (!(f == b)) l->whole = false; l->full = f;
      l->grid.resize(arr<R>(f.lo), arr<R>(f.hi)); int x[4]; if (f.first(x)) do l->grid.get(arr<R>(x)) = -77; while (f.next(x)); if (l->policy != P_K && PP(0.15)) l->log.throwAt = PR(1, (int)b.volume() + 1);
      sim_note("loop %d over %s, %s", i, b.str().c_str(), pname[l->policy]); ls.push_back(std::move(l));
    }
    for (auto &l : ls) { l->start(); if (PP(0.2)) { Kokkos::fence(); } } Kokkos::fence(); for (auto &l : ls) { l->judge(); if (l->box.volume() > 1) sim_nontrivial(); }
  }
  (void)async;
}
}
void wl::loops(const GridPlan &p) {
  int s = p.storage % 3; 
  switch (p.rank * 3 + s) {
    case 3: go<1, StC>(p); break; case 4: go<1, StF>(p); break; case 5: go<1, StK>(p); break; case 6: go<2, StC>(p); break; case 7: go<2, StF>(p); break; case 8: go<2, StK>(p); break;
    case 9: go<3, StC>(p); break; case 10: go<3, StF>(p); break; case 11: go<3, StK>(p); break; case 12: go<4, StC>(p); break; case 13: go<4, StF>(p); break; default: go<4, StK>(p); break;
  }
}
