#include "grid.hpp"
using namespace wl;
void wl::worlds4(const GridPlan &p) {
  switch (p.storage * 3 + p.type) {
    case 0: World<int, 4, StC, true>().run(p.tier); break; case 1: World<double, 4, StC, true>().run(p.tier); break; case 2: World<Cell, 4, StC, true>().run(p.tier); break;
    case 3: World<int, 4, StF, true>().run(p.tier); break; case 4: World<double, 4, StF, true>().run(p.tier); break; case 5: World<Cell, 4, StF, true>().run(p.tier); break;
    case 6: World<int, 4, StL, true>().run(p.tier); break; case 7: World<double, 4, StL, true>().run(p.tier); break; case 8: World<Cell, 4, StL, true>().run(p.tier); break;
    case 9: case 10: World<double, 4, StLF, true>().run(p.tier); break; case 11: World<Cell, 4, StLF, true>().run(p.tier); break;
    case 12: World<int, 4, StK, false>().run(p.tier); break; case 13: World<double, 4, StK, false>().run(p.tier); break; default: World<double, 4, StKL, false>().run(p.tier);
  }
}
