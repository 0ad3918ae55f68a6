// C15: histories of grid handles. C17: iteration over ranges.
#include "grid.hpp"
#include <mpi.h>
using namespace wl;
long Cell::live = 0, Cell::failAt = -1;
extern "C" void sim_rank_main(int entry, void *shared) {
  MPI_Init(nullptr, nullptr); const GridPlan &p = *(GridPlan*)shared;
  if (entry == 1) loops(p); else switch (p.rank) { case 1: worlds1(p); break; case 2: worlds2(p); break; case 3: worlds3(p); break; case 4: worlds4(p); break; default: highRank(p); }
  sim_heap_check(); MPI_Finalize();
}
extern "C" void sim_director(const char *prop, int tier) {
  GridPlan p; p.tier = tier; bool it = std::string(prop) == "C17"; p.storage = P(5); p.rank = PR(1, 4); if (!it && PP(0.05)) p.rank = PR(5, 10); p.type = P(3);
  static const char *st[] = {"C order", "Fortran order", "lazy", "lazy Fortran", "Kokkos"}; sim_sample("rank %d, storage %s, type %d", p.rank, st[p.storage], p.type);
  int rc = sim_launch(1, it ? 1 : 0, &p); if (rc != JOB_OK) sim_fail("abnormal-end", "the program ended abnormally: %s", sim_job_reason());
}
