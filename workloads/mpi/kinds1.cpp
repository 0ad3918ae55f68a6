#include "kinds.hpp"
using namespace schnek;
#define KIND(name, G, rank, serial, cap) static wl::Register name##_(#name, rank, serial, cap, [] () -> wl::ProgBase* { return new wl::Prog<G, serial, cap>; });
#define C ,
KIND(g1_schar, Grid<signed char C 1>, 1, false, 8)
KIND(g1_short, Grid<short C 1>, 1, false, 512)
KIND(g1_int, Grid<int C 1>, 1, false, 1 << 24)
KIND(g1_long, Grid<long C 1>, 1, false, 1 << 30)
KIND(g1_uchar, Grid<unsigned char C 1>, 1, false, 8)
KIND(g1_ushort, Grid<unsigned short C 1>, 1, false, 512)
KIND(g1_uint, Grid<unsigned int C 1>, 1, false, 1 << 24)
KIND(g1_ulong, Grid<unsigned long C 1>, 1, false, 1 << 30)
KIND(g1_float, Grid<float C 1>, 1, false, 1 << 18)
KIND(g1_double, Grid<double C 1>, 1, false, 1 << 30)
KIND(g1_ldouble, Grid<long double C 1>, 1, false, 1 << 30)
KIND(s1_double, Grid<double C 1>, 1, true, 1 << 30)
