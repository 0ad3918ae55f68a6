#include "stream.hpp"
using namespace schnek; using namespace wl;
IO_KIND(a1, "Field<double,1>", Field<double, 1>);
IO_KIND(a2, "Field<double,2>", Field<double, 2>);
IO_KIND(a3, "Field<float,3>", Field<float, 3>);
IO_KIND(a4, "Field<int,2>", Field<int, 2>);
