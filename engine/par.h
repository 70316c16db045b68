#pragma once
#include <functional>
// OpenMP model: team size = the num_threads clause; contiguous partitions and thread
// order are nondeterministic (mode "free") or the default static one (mode "static").
extern "C" void par_omp_mode(int free_partition, int free_order, int max_regions);
// stop_at_race etc. see omp.cpp
extern "C" long par_race_count(void);
extern "C" const char* par_race_text(void);
extern "C" void par_race_enable(int on);
// MPI model: runs fn(rank) for each rank as a coroutine; returns 0 ok, 1 deadlock
int par_mpi_run(int nranks, const std::function<void(int)>& fn);
extern "C" void par_mpi_mode(int free_arrival, int rendezvous);
