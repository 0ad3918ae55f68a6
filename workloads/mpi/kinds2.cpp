#include "kinds.hpp"
using namespace schnek;
#define KIND(name, G, rank, serial, cap) static wl::Register name##_(#name, rank, serial, cap, [] () -> wl::ProgBase* { return new wl::Prog<G, serial, cap>; });
#define C ,
KIND(g2_double, Grid<double C 2>, 2, false, 1 << 30)
KIND(g2_int, Grid<int C 2>, 2, false, 1 << 24)
KIND(f2_double, Field<double C 2>, 2, false, 1 << 30)
KIND(fo2_float, Grid<float C 2 C GridNoArgCheck C SingleArrayGridStorageFortran>, 2, false, 1 << 18)
KIND(s2_int, Grid<int C 2>, 2, true, 1 << 24)
