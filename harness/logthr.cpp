// P17 (threads): the real logger, started and ended by the real initComms and endComms with MPI calls that do nothing, under every schedule.
#include "thrsim.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <set>
#include <thread>
#include <fstream>
#include <unistd.h>
#include "utils/logger.h"
#include "comms/comms.h"
extern "C" {
int MPI_Init_thread(int *, char ***, int r, int *p) { *p = r; return 0; }
static bool fin = false;
int MPI_Finalize() { fin = true; return 0; }
int MPI_Finalized(int *f) { *f = fin; return 0; }
int MPI_Initialized(int *f) { *f = 1; return 0; }
int MPI_Comm_size(MPI_Comm, int *n) { *n = 1; return 0; }
int MPI_Comm_rank(MPI_Comm, int *n) { *n = 0; return 0; }
int MPI_Barrier(MPI_Comm) { return 0; }
int MPI_Allgather(const void *s, int n, MPI_Datatype, void *r, int, MPI_Datatype, MPI_Comm) { memcpy(r, s, n); return 0; }
int MPI_Iprobe(int, int, MPI_Comm, int *f, MPI_Status *) { if (thr::self()) thr::fail("mpi-thread", "MPI is called by another thread than the main one"); *f = 0; return 0; }
}
void endAxions() { endComms(); }
static FILE *out; static std::string cfg; static bool all;
static std::string text(int t, int i, bool lng) { return "m" + std::to_string(t) + "." + std::to_string(i) + "<" + (lng ? std::string(2990, 'a' + i) : "") + ">"; }
static void ops(const std::string &s, int t)
{
	for (size_t i = 0; i < s.size(); i++) switch (s[i]) {
		case 'M': LogMsg(VERB_NORMAL, "%s", text(t, i, false).c_str()); break;
		case 'L': LogMsg(VERB_NORMAL, "%s", text(t, i, true).c_str()); break;
		case 'E': LogError("%s", text(t, i, false).c_str()); break;
		case 'D': LogDebug("%s", text(t, i, false).c_str()); break;
		case 'F': LogFlush(); break;
		case 'T': thr::pass(60000); break;
	}
}
static void body(const std::vector<std::string> &scr)
{
	unlink("axion.log.0");
	char a0[] = "x"; char *av[] = {a0, nullptr};
	initComms(1, av, 1, DEV_CPU, all ? ALL_RANKS : ZERO_RANK, VERB_NORMAL);
	{
		std::vector<std::thread> w;
		for (size_t k = 1; k < scr.size(); k++) w.emplace_back([&scr, k]() { thr::ompId(k); ops(scr[k], k); });
		ops(scr[0], 0);
		for (auto &t : w) t.join();
	}
	endComms();
	AxionsLog::myLog.reset();
	std::ifstream f("axion.log.0"); std::string l; std::vector<std::string> lines; while (std::getline(f, l)) lines.push_back(l);
	long total = 0; for (auto &x : lines) if (x.find("m0.") != std::string::npos || x.find("m1.") != std::string::npos || x.find("m2.") != std::string::npos) total++;
	long want = 0;
	for (size_t t = 0; t < scr.size(); t++) for (size_t i = 0; i < scr[t].size(); i++) if (strchr("MLED", scr[t][i])) {
		want++; std::string e = " " + text(t, i, scr[t][i] == 'L'); long n = 0; for (auto &x : lines) if (x.size() > e.size() && !x.compare(x.size() - e.size(), e.size(), e)) n++;
		if (n != 1) thr::fail(n ? "repeated" : "lost", "message %zu (%c) of thread %zu is %ld times in the log", i, scr[t][i], t, n);
	}
	if (total != want) thr::fail("garbled", "%ld lines for %ld messages", total, want);
}
int main(int argc, char **argv)
{
	// all bound maxMain maxWorker workers part parts
	all = atoi(argv[1]); int bound = atoi(argv[2]), lm = atoi(argv[3]), lw = atoi(argv[4]), nw = atoi(argv[5]), part = atoi(argv[6]), parts = atoi(argv[7]);
	out = fopen((std::string(getenv("VH_OUT")) + ".0").c_str(), "a");
	auto gen = [](const char *al, int n) { std::vector<std::string> r = {""}; size_t b = 0; for (int k = 0; k < n; k++) { size_t e = r.size(); for (size_t i = b; i < e; i++) for (const char *c = al; *c; c++) r.push_back(r[i] + *c); b = e; } return r; };
	auto M = gen("MEFTDL", lm), W = gen("MEFD", lw); std::vector<std::vector<std::string>> sc;
	for (auto &m : M) for (auto &w : W) { if (m.find_first_not_of("FT") == std::string::npos && w.find_first_not_of("FT") == std::string::npos) continue; if (nw == 0) { if (w.empty()) sc.push_back({m}); } else if (nw == 1) { if (!w.empty()) sc.push_back({m, w}); } else for (auto &v : W) if (!w.empty() && !v.empty()) sc.push_back({m, w, v}); }
	long runs = 0, pts = 0, acc = 0, n = 0, trunc = 0, failing = 0; std::multiset<std::string> seen; std::set<std::string> per;
	for (size_t k = part; k < sc.size(); k += parts) {
		std::string name; for (auto &s : sc[k]) name += (name.empty() ? "" : "|") + (s.empty() ? std::string("-") : s);
		auto st = thr::explore([&]() { body(sc[k]); }, bound, 2000000, [&](const std::string &key, const std::string &t, const std::string &sched) { if (seen.count(key) < 2 && per.insert(key + name).second) { seen.insert(key); std::string s = t; for (char &c : s) if (c == '\n' || c == '\t') c = ' '; fprintf(out, "F %s:%s\t[rank 0] operations %s, schedule [%s]: %s\n", all ? "all" : "zero", key.c_str(), name.c_str(), sched.c_str(), s.c_str()); fflush(out); } });
		runs += st.runs; pts += st.points; acc += st.accesses; trunc += st.truncated; n++;
		if (seen.size() > 12 || (seen.size() && ++failing >= 4)) break;
	}
	fprintf(out, "S %ld scripts, %ld schedules, %ld scheduling points, %ld accesses\nK schedules %ld\nK scheduling_points %ld\nC %ld %ld\n", n, runs, pts, acc, runs, pts, runs, runs);
	if (trunc) fprintf(out, "F truncated\t[rank 0] %ld schedules not run\n", trunc);
	fprintf(out, "E\n"); fclose(out); _exit(0);
}
