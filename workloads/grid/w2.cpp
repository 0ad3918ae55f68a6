#include "grid.hpp"
using namespace wl;
void wl::worlds2(const GridPlan &p) {
  switch (p.storage * 3 + p.type) {
    case 0: World<int, 2, StC, true>().run(p.tier); break; case 1: World<double, 2, StC, true>().run(p.tier); break; case 2: World<Cell, 2, StC, true>().run(p.tier); break;
    case 3: World<int, 2, StF, true>().run(p.tier); break; case 4: World<double, 2, StF, true>().run(p.tier); break; case 5: World<Cell, 2, StF, true>().run(p.tier); break;
    case 6: World<int, 2, StL, true>().run(p.tier); break; case 7: World<double, 2, StL, true>().run(p.tier); break; case 8: World<Cell, 2, StL, true>().run(p.tier); break;
    case 9: case 10: World<double, 2, StLF, true>().run(p.tier); break; case 11: World<Cell, 2, StLF, true>().run(p.tier); break;
    case 12: World<int, 2, StK, false>().run(p.tier); break; case 13: World<double, 2, StK, false>().run(p.tier); break; default: World<double, 2, StKL, false>().run(p.tier);
  }
}
