// P17 (processes): the real logger with the real MPI. Every sequence of logging operations over the ranks, lock step or free running,
// then shutdown; every message must be exactly once and complete in the log. "prog": a whole program, from initAxions to endAxions.
#include "vh.h"
#include "utils/logger.h"
#include <fstream>
using namespace vh;
static std::string text(long s, int r, int i, size_t len) { return "<" + std::to_string(s) + "/" + std::to_string(r) + "/" + std::to_string(i) + ":" + std::string(len, 'a' + i % 26) + ">"; }
static void op(char o, const std::string &t)
{
	switch (o) {
		case 'M': case 'L': case 'B': LogMsg(VERB_NORMAL, "%s", t.c_str()); break;
		case 'E': LogError("%s", t.c_str()); break;
		case 'D': LogDebug("%s", t.c_str()); break;
		case 'F': LogFlush(); break;
	}
}
struct Want { std::string t; int rank; char o; };
static void check(const char *file, const std::vector<Want> &w, const std::string &name, const char *kind)
{
	std::ifstream f(file); if (!f) { fail(std::string(kind) + ":nofile", "%s: no log", name.c_str()); return; }
	std::map<std::string, int> got; std::string l; while (std::getline(f, l)) { size_t p = l.find(" <"); if (p == std::string::npos) continue; got[l.substr(p + 1)]++; }
	for (auto &x : w) {
		int n = 0; auto it = got.find(x.t); if (it != got.end()) { n = it->second; got.erase(it); }
		if (n != 1) fail(std::string(kind) + (n ? ":repeated" : ":lost"), "%s: message %.30s of rank %d (%c, %zu characters) is %d times in the log", name.c_str(), x.t.c_str(), x.rank, x.o, x.t.size(), n);
	}
	for (auto &g : got) fail(std::string(kind) + ":garbled", "%s: line '%.60s' (%zu characters) was not logged so", name.c_str(), g.first.c_str(), g.first.size());
}
int main(int argc, char **argv)
{
	std::string what = argv[1];
	if (what == "prog") { // kind of shutdown and messages per rank: one number per rank
		std::vector<std::string> a = {"harness", "--qcd", "4", "--lsize", "6", "--llcf", "30", "--size", "16", "--zgrid", argv[3]}; std::vector<char *> av; for (auto &s : a) av.push_back(strdup(s.c_str())); av.push_back(nullptr);
		bool err = argv[4][0] == 'e';
		Cosmos c = initAxions(a.size(), av.data()); open(commRank()); int R = commSize(), r = commRank();
		std::vector<Want> w; std::string ns = argv[2];
		for (int q = 0; q < R; q++) for (int i = 0; i < ns[q] - '0'; i++) { std::string t = text(0, q, i, i * 700); if (q == r) op(err ? 'E' : 'M', t); w.push_back({t, q, err ? 'E' : 'M'}); }
		endAxions();
		if (r == 0) { std::string n = fmt("program on %d ranks, messages per rank %s", R, ns.c_str()); eval(n + argv[4]); check("axion.log.0", w, n, "program"); }
		close(); _exit(0);
	}
	char a0[] = "x"; char *av[] = {a0, nullptr}; const char *sz = getenv("OMPI_COMM_WORLD_SIZE");
	initComms(1, av, sz ? atoi(sz) : 1, DEV_CPU, ALL_RANKS, VERB_NORMAL); int rank = commRank(); open(rank);
	AxionsLog::myLog->stop(); AxionsLog::myLog->flushLog(); AxionsLog::myLog.reset(); if (!rank) unlink("axion.log.0");
	int R = commSize();
	if (what == "len") {
		std::vector<size_t> ls; for (size_t l = 0; l < 4; l++) ls.push_back(l); for (size_t b : {1024, 2048, 4096, 8192, 65536}) for (size_t l = b - 60; l <= b + 10; l++) ls.push_back(l); ls.push_back(300000);
		std::vector<Want> w; AxionsLog::myLog.reset(new AxionsLog::Logger(0, ALL_RANKS, VERB_NORMAL)); int i = 0;
		for (size_t l : ls) for (int q = 0; q < R; q++) for (char o : {'M', 'E', 'D'}) { std::string t = text(0, q, i++, l); if (q == rank) op(o, t); w.push_back({t, q, o}); if (!rank) eval(fmt("length %zu rank %d %c", l, q, o)); if (rank == q && i % 40 == 0) LogFlush(); }
		AxionsLog::myLog->stop(); AxionsLog::myLog->flushLog(); AxionsLog::myLog.reset();
		if (!rank) { check("axion.log.0", w, "lengths", "length"); } quit();
	}
	int depth = atoi(argv[2]), lock = atoi(argv[3]), part = atoi(argv[4]), parts = atoi(argv[5]);
	const char *al = "MEFDL"; int A = 5 * R; long s = 0;
	for (int d = 1; d <= depth; d++) {
		long n = 1; for (int k = 0; k < d; k++) n *= A;
		for (long c = 0; c < n; c++, s++) {
			if (s % parts != part) continue;
			std::string name = lock ? "in step:" : "free:"; std::vector<Want> w;
			AxionsLog::myLog.reset(new AxionsLog::Logger(0, ALL_RANKS, VERB_NORMAL));
			long q = c; for (int k = 0; k < d; k++, q /= A) {
				int r = q % A / 5; char o = al[q % A % 5]; std::string t = text(s, r, k, o == 'L' ? 2990 : 3);
				name += fmt(" %d%c", r, o); if (r == rank) op(o, t); if (o != 'F') w.push_back({t, r, o});
				if (lock) MPI_Barrier(MPI_COMM_WORLD);
			}
			AxionsLog::myLog->stop(); AxionsLog::myLog->flushLog(); AxionsLog::myLog.reset();
			if (!rank) { eval(name); check("axion.log.0", w, name, lock ? "step" : "free"); unlink("axion.log.0"); }
		}
	}
	quit();
}
