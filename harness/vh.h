// Common part of the harnesses: start the library like a program of test/ does, report cases and failures.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cmath>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <complex>
#include <functional>
#include <algorithm>
#include <unistd.h>
#include <mpi.h>
#include <omp.h>

#include "enum-field.h"
#include "cosmos/cosmos.h"
#include "scalar/scalarField.h"
#include "scalar/folder.h"
#include "utils/utils.h"
#include "comms/comms.h"

Cosmos	initAxions(int argc, char *argv[]);
void	endAxions();

namespace vh {

inline int &rk() { static int r = 0; return r; }
inline FILE *&out() { static FILE *f = nullptr; return f; }
struct State { long evals = 0, fails = 0; std::set<size_t> seen; int samples = 0; std::map<std::string, int> perKey; };
inline State &st() { static State s; return s; }

inline void open(int rank)
{
	rk() = rank;
	const char *p = getenv("VH_OUT");
	std::string n = std::string(p ? p : "/tmp/vh_out") + "." + std::to_string(rank);
	out() = fopen(n.c_str(), "a");
	setvbuf(out(), nullptr, _IOLBF, 1 << 16);
}

inline void tally(const std::string &s, bool nontrivial) { st().evals++; if (nontrivial) st().seen.insert(std::hash<std::string>()(s)); }
inline void sample(const std::string &s) { if (st().samples++ < 3 && rk() == 0) fprintf(out(), "S %s\n", s.c_str()); }

// one case: `name` identifies it (same name = same case)
inline void eval(const std::string &name, bool nontrivial = true)
{
	tally(name, nontrivial);
	if (st().evals == 1 || st().evals == 17 || st().evals == 1001) sample(name);
}

inline void fail(const std::string &key, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
inline void fail(const std::string &key, const char *fmt, ...)
{
	st().fails++;
	if (st().perKey[key]++ >= 3) return;
	char buf[1200];
	va_list a; va_start(a, fmt); vsnprintf(buf, sizeof buf, fmt, a); va_end(a);
	for (char *c = buf; *c; c++) if (*c == '\n' || *c == '\t') *c = ' ';
	fprintf(out(), "F %s\t[rank %d] %s\n", key.c_str(), rk(), buf);
}

inline void counter(const char *k, long v) { fprintf(out(), "K %s %ld\n", k, v); }

inline void close()
{
	if (rk() == 0) fprintf(out(), "C %ld %ld\n", st().evals, (long) st().seen.size());
	fprintf(out(), "E\n");
	fclose(out());
	out() = nullptr;
}

// Starts the library with this command line (the program name is added).
inline Cosmos *start(std::vector<std::string> a)
{
	a.insert(a.begin(), "harness");
	a.push_back("--nologmpi"); // otherwise the background thread of the logger calls MPI, also during MPI_Finalize
	static std::vector<char *> av;
	for (auto &s : a) av.push_back(strdup(s.c_str()));
	av.push_back(nullptr);
	static Cosmos c;
	c = initAxions((int) a.size(), av.data());
	open(commRank());
	return &c;
}

inline std::vector<std::string> split(const std::string &s, char sep = ' ')
{
	std::vector<std::string> r; std::string t;
	for (char c : s) { if (c == sep) { if (!t.empty()) r.push_back(t); t.clear(); } else t += c; }
	if (!t.empty()) r.push_back(t);
	return r;
}

inline std::string fmt(const char *f, ...)
{
	char b[2000]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b;
}

// leave without the library's teardown: the cases have all been evaluated
inline void quit(int rc = 0)
{
	close();
	int fin = 0, ini = 0;
	MPI_Initialized(&ini); MPI_Finalized(&fin);
	if (ini && !fin) { MPI_Barrier(MPI_COMM_WORLD); MPI_Finalize(); }
	_exit(rc);
}

// Replaces a Scalar's cosmology so that construction generates no initial conditions.
inline Scalar *field(Cosmos *c, size_t N, size_t Lz, FieldPrecision p, FieldType t, int nSplit, size_t Ng, LambdaType l = LAMBDA_FIXED, bool low = false)
{
	c->ICData().cType = CONF_NONE;
	fIndex = 0;
	return new Scalar(c, N, Lz, p, DEV_CPU, 1.0, low, nSplit, t, l, Ng);
}

inline const char *fname(FieldType t) { return t == FIELD_SAXION ? "saxion" : t == FIELD_AXION ? "axion" : t == FIELD_AXION_MOD ? "axionmod" : t == FIELD_NAXION ? "naxion" : t == FIELD_PAXION ? "paxion" : t == FIELD_WKB ? "wkb" : "other"; }
inline const char *pname(FieldPrecision p) { return p == FIELD_SINGLE ? "single" : "double"; }

}
