#include "kinds.hpp"
using namespace schnek;
#define KIND(name, G, rank, serial, cap) static wl::Register name##_(#name, rank, serial, cap, [] () -> wl::ProgBase* { return new wl::Prog<G, serial, cap>; });
#define C ,
KIND(g3_double, Grid<double C 3>, 3, false, 1 << 30)
KIND(f3_float, Field<float C 3>, 3, false, 1 << 18)
KIND(fo3_long, Grid<long C 3 C GridNoArgCheck C SingleArrayGridStorageFortran>, 3, false, 1 << 30)
KIND(s3_double, Field<double C 3>, 3, true, 1 << 30)
