// Controlled threads: every pthread of the process is a coroutine, a scheduler decides who goes on at each synchronisation
// call (also sleeps and timed waits, in virtual time), and all accesses of the instrumented code are checked for data
// races with vector clocks. explore() runs the body under every schedule with at most `bound` departures from the default one,
// each in a process of its own.
#pragma once
#include <functional>
#include <string>
namespace thr {
struct Stats { long runs = 0, points = 0, accesses = 0, truncated = 0; };
// fails are given to report(key, text, schedule)
Stats explore(std::function<void()> body, int bound, long maxRuns, std::function<void(const std::string &, const std::string &, const std::string &)> report);
void fail(const char *key, const char *fmt, ...); // inside the body
void ompId(int id);                               // OpenMP number of the calling thread
void pass(long us);                               // time passes
int self();
}
