// Controlled threads: the library is compiled with -fopenmp -fsanitize=thread but linked against this runtime instead of
// libgomp and libtsan.  Threads are coroutines; every switch is a choice of the explorer (bounded number of preemptions,
// free choice whenever the running thread blocks or ends).  Every memory access of the library is checked against vector
// clocks: two accesses of different threads, one of them a write, not ordered by fork/join, locks or atomics are a race.
#pragma once
#include <functional>
#include <string>
#include <vector>
namespace sched {
extern int nthreads;                 // size of an OpenMP team
extern std::vector<std::string> races;
extern long regions, switches, points, accesses;
void reset();                        // at the start of an execution
void point();                        // possible preemption
bool in_thread();                    // running on a controlled thread?
bool in_team();                      // inside a parallel region?
void run(std::vector<std::function<void()>> threads);   // run these concurrently (from the main context)
void track(void *p, size_t n);       // heap memory of the harness that the library shares between threads
void check();                        // mc::fail on a race
}
