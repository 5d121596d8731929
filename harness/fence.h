// Memory blocks of the program ending at a page that may not be touched; released blocks may not be touched either.
// An access to either is recorded and then allowed, so the run goes on. Use with the -Wl,--wrap options of FENCE_WRAP below.
#pragma once
#include <cstddef>
namespace fence {
struct Stats { long blocks, live, liveBytes; };
void on(bool);                    // new blocks are fenced from now on
void label(const char *what);     // what is being done, for the reports
Stats stats();
// calls back once for each kind of error found since the last call: text, times
void errors(void (*f)(const char *key, const char *text));
void check();                     // verifies the slack around the live blocks
bool inside(void *p); size_t size(void *p); bool alive(void *p);
long tracked(int kind);           // bytes of live blocks handed out by alignAlloc (0), trackAlloc (1)
long trackedBlocks(int kind);
}
