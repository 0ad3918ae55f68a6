// Grids of high rank: the accessors with five to ten arguments and both memory orders.
#include "grid.hpp"
#include <map>
using namespace wl;
namespace {
template<class G> int &acc(G &g, const int *x, std::integral_constant<int, 5>) { return g(x[0], x[1], x[2], x[3], x[4]); }
template<class G> int &acc(G &g, const int *x, std::integral_constant<int, 6>) { return g(x[0], x[1], x[2], x[3], x[4], x[5]); }
template<class G> int &acc(G &g, const int *x, std::integral_constant<int, 7>) { return g(x[0], x[1], x[2], x[3], x[4], x[5], x[6]); }
template<class G> int &acc(G &g, const int *x, std::integral_constant<int, 8>) { return g(x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7]); }
template<class G> int &acc(G &g, const int *x, std::integral_constant<int, 9>) { return g(x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7], x[8]); }
template<class G> int &acc(G &g, const int *x, std::integral_constant<int, 10>) { return g(x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7], x[8], x[9]); }
template<class G> int accc(const G &g, const int *x, std::integral_constant<int, 5>) { return g(x[0], x[1], x[2], x[3], x[4]); }
template<class G> int accc(const G &g, const int *x, std::integral_constant<int, 6>) { return g(x[0], x[1], x[2], x[3], x[4], x[5]); }
template<class G> int accc(const G &g, const int *x, std::integral_constant<int, 7>) { return g(x[0], x[1], x[2], x[3], x[4], x[5], x[6]); }
template<class G> int accc(const G &g, const int *x, std::integral_constant<int, 8>) { return g(x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7]); }
template<class G> int accc(const G &g, const int *x, std::integral_constant<int, 9>) { return g(x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7], x[8]); }
template<class G> int accc(const G &g, const int *x, std::integral_constant<int, 10>) { return g(x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7], x[8], x[9]); }
template<int R, template<typename, size_t> class St> void go() {
  typedef Grid<int, R, GridNoArgCheck, St> G; typedef std::integral_constant<int, R> RC; int lo[R], hi[R], x[R]; std::vector<std::unique_ptr<G>> hs; hs.emplace_back(new G); std::map<std::vector<int>, int> model; int rounds = PR(1, 4), val = 1; bool shared = false;
  struct Track { Track() { sim_heap_track(1); } ~Track() { sim_heap_track(0); } };
  for (int k = 0; k < rounds; ++k) {
    for (int d = 0; d < R; ++d) lo[d] = PR(-4, 4), hi[d] = lo[d]; long v = 1; for (int i = 0; i < 12; ++i) { int d = P(R); long n = v / (hi[d] - lo[d] + 1) * (hi[d] - lo[d] + 2); if (n <= 600) { v = n; ++hi[d]; } }
    if (hs.size() < 4 && P(2)) { G &o = *hs[P(hs.size())]; Track t; G *n = new G(o); t.~Track(); hs.emplace_back(n); shared = true; }
    G &r = *hs[P(hs.size())]; sim_note("resize to %ld cells", v); { bool lohi = P(2); Track t; if (lohi) r.resize(arr<R>(lo), arr<R>(hi)); else r.resize(Range<int, R>(arr<R>(lo), arr<R>(hi))); } model.clear(); if (hs.size() < 4 && P(2)) { hs.emplace_back(new G); Track t; *hs.back() = r; shared = true; }
    auto each = [&](auto f) { for (int d = 0; d < R; ++d) x[d] = lo[d]; for (;;) { f(); int d = R - 1; while (d >= 0 && ++x[d] > hi[d]) x[d] = lo[d], --d; if (d < 0) return; } };
    each([&] { G &g = *hs[P(hs.size())]; int n = val++, how = P(3); if (how == 0) acc(g, x, RC()) = n; else if (how == 1) g[arr<R>(x)] = n; else g.get(arr<R>(x)) = n; model[std::vector<int>(x, x + R)] = n; });
    for (auto &h : hs) {
      const G &g = *h; if ((long)g.getSize() != v) sim_fail("shape", "a grid of rank %d reports size %ld instead of %ld", R, (long)g.getSize(), v);
      for (int d = 0; d < R; ++d) if (g.getLo(d) != lo[d] || g.getHi(d) != hi[d] || g.getDims(d) != hi[d] - lo[d] + 1) sim_fail("shape", "a grid of rank %d reports other bounds for dimension %d", R, d);
      each([&] { int w = model[std::vector<int>(x, x + R)], a = accc(g, x, RC()), b = g[arr<R>(x)], c = g.get(arr<R>(x)); if (a != w || b != w || c != w) sim_fail("content", "cell %s of a grid of rank %d is %d, %d and %d through its accessors, the last value written was %d", pt(x, R).c_str(), R, a, b, c, w); });
    }
  }
  hs.clear(); model.clear(); if (sim_heap_live()) sim_fail("leak", "%zu bytes are still allocated after the last handle ended", sim_heap_live()); if (shared) sim_nontrivial();
}
}
void wl::highRank(const GridPlan &p) {
  switch ((p.rank - 5) * 2 + (p.storage & 1)) {
    case 0: go<5, StC>(); break; case 1: go<5, StF>(); break; case 2: go<6, StC>(); break; case 3: go<6, StF>(); break; case 4: go<7, StC>(); break; case 5: go<7, StF>(); break;
    case 6: go<8, StC>(); break; case 7: go<8, StF>(); break; case 8: go<9, StC>(); break; case 9: go<9, StF>(); break; case 10: go<10, StC>(); break; default: go<10, StF>();
  }
}
