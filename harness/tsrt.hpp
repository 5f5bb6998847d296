// Controlled execution of OpenMP parallel regions and recording of memory accesses.
//
// The library is compiled with -fopenmp -fsanitize=thread but linked against neither libgomp nor
// libtsan: tsrt.cpp provides the OpenMP entry points (workers are real threads of which exactly one
// runs at a time, in an order the harness chooses, switching at chosen accesses) and the callbacks
// that the compiler places at every memory access.
#pragma once
#include <vector>
#include <string>

namespace rt
{
struct Preempt { long step; int to; };      // at shared access number `step` of the parallel region, continue with worker `to`
struct Conf
{
    int team = 0;                           // number of workers granted, 0: as requested
    std::vector<int> order;                 // who runs first, who continues when one ends; missing: ascending
    std::vector<Preempt> preempts;
    long region = -1;                       // apply order and preempts to this region only (-1: every region)
};
struct Report
{
    std::string conflict;                   // first conflicting pair of accesses
    long regions = 0, parallel_regions = 0; // with more than one worker
    long accesses = 0, switches = 0;
    int max_team = 0;
    std::vector<long> steps;                // shared accesses per parallel region
    bool stuck = false;
};
void begin(Conf const & c);
Report end();

// record everything the calling thread does as actor `id`, for conflicts between whole operations
void record_begin(int id, bool fresh);
Report record_end();
}
