#include "stream.hpp"
using namespace schnek; using namespace wl;
IO_KIND(b1, "Grid<int,1>", Grid<int, 1>);
IO_KIND(b2, "Grid<float,2,checked>", Grid<float, 2, GridAssertCheck>);
IO_KIND(b3, "Grid<double,3>", Grid<double, 3>);
IO_KIND(b4, "Grid<double,2>", Grid<double, 2>);
IO_KIND(b5, "Grid<float,3,checked>", Grid<float, 3, GridAssertCheck>);
