// A controlled OpenMP runtime and race detector (ompsim.cpp); link it with objects compiled with -fsanitize=thread.
#pragma once
namespace sim {
struct Ctl {
	int threads = 2;        // team size of a parallel region
	int order = 0;          // in which order the threads run within a phase: 0 up, 1 down, k>=2 rotated by k-1
	long preemptAt = -1;    // the thread that makes this synchronisation event of the run stops there until all others have run
	long events = 0;        // synchronisation events (atomics, critical sections) so far
	long regions = 0, phases = 0, accesses = 0, races = 0, preempted = 0;
};
extern Ctl ctl;
void drain(const char *where); // reports the races found so far through vh::fail("race:<function>")
}
