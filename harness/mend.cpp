// P06: mendTheta on the real code. Fields that are smooth up to multiples of the period must come back smooth; any field may only
// change by multiples of the period, with the velocity changed alike; and the result is the one of the documented scans, whatever the ranks and threads.
#include <climits>
#include "gfield.h"
#include "scalar/mendTheta.h"
#ifdef SIM
#include "ompsim.h"
#endif
static GField g; static Scalar *F; static Cosmos *C; static std::string cfg; static LD R, Rp; static std::vector<LD> th; static std::vector<int> n0;
static const LD P2 = 2 * M_PIl;

static void fail1(const char *what, const std::string &name, size_t i, LD a, LD b)
{ vh::fail(cfg + ":" + what, "%s: %s at (%zu,%zu,%zu): %.9Lg, should be %.9Lg", name.c_str(), what, i % g.N, i / g.N % g.N, i / g.S, a, b); }

// the three scans, on the global lattice: number of periods added to each point
static int step(LD ref, LD x) { int k = 0; while (x + P2 * k - ref > M_PIl) k--; while (x + P2 * k - ref < -M_PIl) k++; return k; }
static bool close_ = false;
static void chain(std::vector<LD> &x, std::vector<int> &k) // x[0] is the anchor; forward and backward, kept where both agree
{
	size_t n = x.size(); std::vector<int> f(n, 0), b(n, 0);
	for (size_t i = 1; i < n; i++) { LD r = x[i - 1] + P2 * f[i - 1]; f[i] = step(r, x[i]); if (fabsl(fabsl(x[i] + P2 * f[i] - r) - M_PIl) < 1e-4) close_ = true; }
	for (size_t i = n - 1; i > 0; i--) { LD r = i == n - 1 ? x[0] : x[i + 1] + P2 * b[i + 1]; b[i] = step(r, x[i]); if (fabsl(fabsl(x[i] + P2 * b[i] - r) - M_PIl) < 1e-4) close_ = true; }
	for (size_t i = 0; i < n; i++) k[i] = f[i] == b[i] ? f[i] : 0;
}
static std::vector<int> reference()
{
	close_ = false;
	std::vector<LD> x = th; std::vector<int> k(x.size(), 0);
	auto add = [&](size_t i, int n) { k[i] += n; x[i] += P2 * n; };
	LD prev = x[g.at(0, 0, g.T - 1)];
	for (size_t z = 0; z < g.T; z++) { size_t i = g.at(0, 0, z); int s = step(prev, x[i]); if (fabsl(fabsl(x[i] + P2 * s - prev) - M_PIl) < 1e-4) close_ = true; add(i, s); prev = x[i]; }
	std::vector<LD> l(g.N); std::vector<int> c(g.N);
	for (size_t z = 0; z < g.T; z++) { for (size_t y = 0; y < g.N; y++) l[y] = x[g.at(0, y, z)]; chain(l, c); for (size_t y = 0; y < g.N; y++) add(g.at(0, y, z), c[y]); }
	for (size_t z = 0; z < g.T; z++) for (size_t y = 0; y < g.N; y++) { for (size_t q = 0; q < g.N; q++) l[q] = x[g.at(q, y, z)]; chain(l, c); for (size_t q = 0; q < g.N; q++) add(g.at(q, y, z), c[q]); }
	return k;
}

// th holds the angles to store; with smooth: th - 2 pi n0 is the smooth field
static void one(const std::string &name, bool smooth, bool folded, int mode)
{
	for (size_t i = 0; i < th.size(); i++) { g.m[i] = R * th[i]; g.v[i] = .3L * h01(i * 7 + mode) - .1L; }
	g.put(folded);
	std::vector<int> want;
	if (!smooth) { want = reference(); if (close_) { vh::eval(name, false); return; } }
	double r0 = *F->RV(), z0 = *F->zV(); FieldType t0 = F->Field();
	size_t ret = mendTheta(F);
	if (*F->RV() != r0 || *F->zV() != z0 || F->Field() != t0) vh::fail(cfg + ":state", "%s: time or type changed", name.c_str());
	g.refold(false);
	LD tol = (g.prec == FIELD_SINGLE ? 3e-5L : 1e-11L);
	bool bad = false, changed = false; int c = INT_MAX;
	for (size_t i = 0; i < g.S * g.Lz && !bad; i++) {
		size_t o = g.off() + i;
		LD m = g.load(F->mStart(), i).real(), v = g.load(F->vStart(), i).real(), d = (m - g.m[o].real()) / (R * P2); int k = (int) lroundl(d);
		if (k) changed = true;
		if (!(fabsl(d - k) <= tol)) { bad = true; fail1("value", name, o, d, k); }
		else if (k == 0 && m != g.m[o].real()) { bad = true; fail1("unchanged", name, o, m, g.m[o].real()); }
		else if (!(fabsl(v - g.v[o].real() - k * P2 * Rp) <= tol * 10 * (1 + Rp))) { bad = true; fail1("velocity", name, o, v - g.v[o].real(), k * P2 * Rp); }
		else if (smooth) { int e = k + n0[o]; if (c == INT_MAX) c = e; if (e != c) { bad = true; fail1("jump", name, o, e, c); } }
		else if (k != want[o]) { bad = true; fail1("scan", name, o, k, want[o]); }
	}
	int lc[2] = {c, -c}, gc[2]; MPI_Allreduce(lc, gc, 2, MPI_INT, MPI_MIN, MPI_COMM_WORLD);
	int nb = bad, ab; MPI_Allreduce(&nb, &ab, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
	if (smooth && !ab && gc[0] != -gc[1]) vh::fail(cfg + ":jump", "%s: ranks differ by periods (%d, %d)", name.c_str(), gc[0], -gc[1]);
	int ch = changed, any; MPI_Allreduce(&ch, &any, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
	if ((ret > 0) != (any > 0)) vh::fail(cfg + ":count", "%s: returned %zu, field %s", name.c_str(), ret, any ? "changed" : "unchanged");
	vh::eval(cfg + " " + name);
#ifdef SIM
	sim::drain(cfg.c_str());
#endif
}

int main(int argc, char **argv)
{
	// prec type N Lz Ng np frw lines columns zlines deltas randoms
	FieldPrecision prec = !strcmp(argv[1], "single") ? FIELD_SINGLE : FIELD_DOUBLE;
	FieldType type = !strcmp(argv[2], "axion") ? FIELD_AXION : FIELD_AXION_MOD;
	size_t N = atoi(argv[3]), Lz = atoi(argv[4]), Ng = atoi(argv[5]); int np = atoi(argv[6]); double frw = atof(argv[7]);
	long lines = atol(argv[8]), cols = atol(argv[9]), zl = atol(argv[10]), del = atol(argv[11]), rnd = atol(argv[12]);
	C = vh::start({"--size", argv[3], "--depth", argv[4], "--zgrid", argv[6], "--prec", argv[1], "--index", "0", "--lap", argv[5], "--qcd", "4", "--lsize", "6", "--llcf", "30"});
	F = vh::field(C, N, Lz, prec, type, np, Ng);
	C->SetMink(frw == 0); C->SetFrw(frw < 0 ? 1. : frw); C->SetPhysSize(7.0); C->ICData().grav = frw < 0 ? 0.8 : 0.;
	*F->zV() = 1.7; F->updateR(); R = *F->RV(); LD ct = 1.7L;
	Rp = frw < 0 ? 1 + .5L * ct * .8L : frw == 0 ? 0 : frw * powl(ct, frw - 1);
	if (frw == 0) { C->SetFrw(0.); *F->RV() = 1.; R = 1; }
	g.init(F, N, Lz, np, Ng, prec, type);
	cfg = vh::fmt("%s-%s-N%zu-Lz%zu-Ng%zu-np%d-t%d-frw%s", argv[2], argv[1], N, Lz, Ng, np, omp_get_max_threads(), argv[7]);
	th.assign(g.S * g.T, 0); n0.assign(g.S * g.T, 0);
	auto smooth = [&](int s) {
		for (size_t i = 0; i < th.size(); i++) {
			size_t x = i % N, y = i / N % N, z = i / g.S;
			LD a = P2 * x / N, b = P2 * y / N, c = P2 * z / g.T;
			th[i] = 3.1L * sinl(a + s) + 1.3L * cosl(b - a + 2 * s) + .5L * sinl(2 * a + b) + (g.T > 4 ? 1.4L : .4L) * cosl(c + s) + .4L * (s % 7);
			n0[i] = 0;
		}
	};
	auto jump = [&](size_t i, int k) { th[i] += P2 * k; n0[i] += k; };
	long nl = 1L << N, q = 0;
	// every pattern of shifted points along x (first point included), one line of the lattice each
	for (long p = 0; p < lines * (long) (N * g.T); p += N * g.T) {
		smooth(p % 11);
		for (size_t l = 0; l < N * g.T; l++) { long pat = lines * (long) (N * g.T) >= nl ? p + l : (p + l) * 2654435761L; for (size_t x = 0; x < N; x++) if (pat >> x & 1) jump(x + N * l, p % 3 == 1 ? -1 : 1); }
		one(vh::fmt("lines%ld", p), true, q % 2, q); q++;
	}
	for (long p = 0; p < cols * (long) g.T; p += g.T) {
		smooth(p % 11);
		for (size_t z = 0; z < g.T; z++) { long pat = cols * (long) g.T >= nl ? p + z : (p + z) * 2654435761L; for (size_t y = 0; y < N; y++) if (pat >> y & 1) { int k = 1 + p % 2; for (size_t x = 0; x < N; x++) jump(g.at(x, y, z), k); } }
		one(vh::fmt("columns%ld", p), true, q % 2, q); q++;
	}
	for (long p = 0; p < zl; p++) {
		smooth(p % 11);
		for (size_t z = 0; z < g.T; z++) if (p >> z & 1) for (size_t i = 0; i < (p % 2 ? g.S : 1); i++) jump(i + g.S * z, p % 5 ? 1 : -2);
		one(vh::fmt("slices%ld", p), true, q % 2, q); q++;
	}
	for (long p = 0; p < (del ? (long) th.size() : 0); p += del) {
		smooth(p % 11);
		jump(p, (int[]){1, -1, 2, -3}[p % 4]);
		one(vh::fmt("point%ld", p), true, q % 2, q); q++;
	}
	for (long p = 0; p < rnd; p++) { // no smooth field behind it
		for (size_t i = 0; i < th.size(); i++) th[i] = P2 * (h01(p * 1000003 + i) - .5L) * (p % 3 == 2 ? 2.9L : 1);
		one(vh::fmt("rough%ld", p), false, q % 2, q); q++;
	}
	for (long p = 0; p < rnd; p++) { // neighbours half a period apart, up to the last digit
		for (size_t i = 0; i < th.size(); i++) { LD h = P2 / 2 * (1 + (prec == FIELD_SINGLE ? 6e-8L : 1.1e-16L) * (long) (h01(p * 900007 + i + 77) * 9 - 4)); th[i] = (h01(p * 1000003 + i) < .5L ? 0 : 1) * h + (p % 4) * h; }
		one(vh::fmt("half%ld", p), false, q % 2, q); q++;
	}
	vh::quit();
}
