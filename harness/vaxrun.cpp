// P15: the real program test/vaxions.cpp (its main renamed) with one stop request: the VH_STOP-th look for the file
// "stop" finds it on the process VH_STOPRANK. Reports that the program ended by itself, with what it printed elsewhere.
#include "vh.h"
#include "fixedrnd.h"
int vaxMain(int, char **);
static long looks = 0; static long stopAt = 0; static int stopRank = -1; static int rank = 0;
static void atEnd() { vh::open(rank); vh::counter("steps", rank ? 0 : looks - 1); vh::close(); }
extern "C" FILE *__real_fopen(const char *, const char *);
extern "C" FILE *__wrap_fopen(const char *n, const char *m)
{
	if (!strcmp(n, "./stop")) { looks++; if (stopAt && looks == stopAt + 1 /* the first look is at the start */ && rank == stopRank) return __real_fopen("/dev/null", "r"); return nullptr; }
	if (!strcmp(n, "./abort") || !strcmp(n, "./savejaxconf")) return nullptr;
	return __real_fopen(n, m);
}
int main(int argc, char **argv)
{
	if (getenv("OMPI_COMM_WORLD_RANK")) rank = atoi(getenv("OMPI_COMM_WORLD_RANK"));
	if (getenv("VH_STOP")) stopAt = atol(getenv("VH_STOP")); if (getenv("VH_STOPRANK")) stopRank = atoi(getenv("VH_STOPRANK"));
	std::atexit(atEnd);
	return vaxMain(argc, argv);
}
