// P22: particle snapshots. Void mapping: every particle's place, mass and velocity. Halo mapping: the number of particles of every cell, for every set of random numbers.
#include "gfield.h"
#include "fixedrnd.h"
#include "gadget/gadget_output.h"
#include "utils/parse.h"
#include <hdf5.h>
#include <unistd.h>
typedef long double LD;
static Cosmos *C; static Scalar *F; static size_t N, T, Lz, Ng, n3; static int np; static std::string cfg; static GField g; static const LD PI = 3.141592653589793238462643383279L; static LD L = 7.0, L1 = .0362;
#define BAD(k, ...) vh::fail(cfg + ":" + std::string(k), __VA_ARGS__)
static std::string P(size_t i) { return vh::fmt("(%zu,%zu,%zu)", i % N, i / N % N, i / N / N); }
static bool data(hid_t f, const char *n, std::vector<double> &o, std::vector<hsize_t> &dim) { o.clear(); if (H5Lexists(f, n, H5P_DEFAULT) <= 0) return false; hid_t d = H5Dopen2(f, n, H5P_DEFAULT), s = H5Dget_space(d); hsize_t k[4] = {1, 1, 1, 1}; int r = H5Sget_simple_extent_dims(s, k, NULL); dim.assign(k, k + r); o.resize(H5Sget_simple_extent_npoints(s)); H5Dread(d, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, o.data()); H5Sclose(s); H5Dclose(d); return true; }
static std::vector<double> attrs(hid_t f, const char *n) { std::vector<double> o; hid_t h = H5Gopen2(f, "/Header", H5P_DEFAULT), a = H5Aopen(h, n, H5P_DEFAULT); if (a >= 0) { hid_t s = H5Aget_space(a); o.resize(H5Sget_simple_extent_npoints(s)); H5Aread(a, H5T_NATIVE_DOUBLE, o.data()); H5Sclose(s); H5Aclose(a); } H5Gclose(h); return o; }
static std::string file() { return vh::fmt("%s/%s.hdf5", outDir, gadName); }
static std::vector<LD> E; static LD mean, box, total;
// density and phase of every point
static void load(const std::vector<LD> &rho, int k) { for (size_t i = 0; i < n3; i++) { LD a = (i % N ? .4L : .0L) * k + 2.9L * h01(i * 13 + k), r = sqrtl(rho[i]); g.m[i] = cl((float) (r * cosl(a))); g.v[i] = cl((float) (r * sinl(a))); }
	g.put(false); F->exchangeGhosts(FIELD_M); F->exchangeGhosts(FIELD_V); E.resize(n3); mean = 0; for (size_t i = 0; i < n3; i++) { LD x = g.m[i].real(), y = g.v[i].real(); E[i] = x * x + y * y; mean += E[i]; } mean /= n3; }
static bool common(hid_t f, const std::string &nm, size_t n, bool mass, std::vector<double> &x, std::vector<double> &v, std::vector<double> &m)
{
	auto bs = attrs(f, "BoxSize"), am = attrs(f, "AverageMass"), nt = attrs(f, "NumPart_Total"), nf = attrs(f, "NumPart_ThisFile"), mt = attrs(f, "MassTable");
	if (bs.size() != 1 || fabsl(bs[0] - box) > 1e-12L * box) { BAD("box", "%s: box %g, should be %Lg", nm.c_str(), bs.size() ? bs[0] : NAN, box); return false; }
	if (am.size() != 1 || fabsl(am[0] - total / n) > 1e-10L * am[0]) { BAD("average", "%s: average mass %g, should be %Lg", nm.c_str(), am.size() ? am[0] : NAN, total / n); return false; }
	if (nt.size() != 2 || nt[1] != n || nt[0] || nf != nt) { BAD("number", "%s: header says %g particles, should be %zu", nm.c_str(), nt.size() == 2 ? nt[1] : NAN, n); return false; }
	if (mt.size() != 2 || mt[0] || (mass ? mt[1] != 0 : fabsl(mt[1] - total / n) > 1e-10L * mt[1])) { BAD("table", "%s: mass table (%g,%g)", nm.c_str(), mt.size() ? mt[0] : NAN, mt.size() == 2 ? mt[1] : NAN); return false; }
	std::vector<hsize_t> d; std::vector<double> id;
	if (!data(f, "/PartType1/Coordinates", x, d) || d != std::vector<hsize_t>{n, 3}) { BAD("coordinates", "%s: no or misshaped coordinates", nm.c_str()); return false; }
	if (!data(f, "/PartType1/Velocities", v, d) || d != std::vector<hsize_t>{n, 3}) { BAD("velocities", "%s: no or misshaped velocities", nm.c_str()); return false; }
	if (!data(f, "/PartType1/ParticleIDs", id, d) || id.size() != n) { BAD("ids", "%s: no or misshaped numbers", nm.c_str()); return false; }
	if (mass && (!data(f, "/PartType1/Masses", m, d) || m.size() != n)) { BAD("masses", "%s: no or misshaped masses", nm.c_str()); return false; }
	for (size_t i = 0; i < n; i++) if (id[i] != i) { BAD("ids", "%s: particle %zu has number %g", nm.c_str(), i, id[i]); return false; }
	for (size_t i = 0; i < 3 * n; i++) if (!(x[i] >= 0 && x[i] <= box * (1 + 1e-6L))) { BAD("outside", "%s: particle %zu has coordinate %g, box %Lg", nm.c_str(), i / 3, x[i], box); return false; }
	return true;
}
static void voids()
{
	LD z = *F->zV(), mA = F->AxionMass(); int k = 0;
	auto run = [&](const std::string &nm0, const std::vector<LD> &rho) { for (bool vel : {false, true}) for (size_t n : {(size_t) 0, n3}) {
		if (n && k % 3) continue; load(rho, ++k); std::string nm = nm0 + (vel ? " velocity" : "") + (n ? " n" : ""); if (!commRank()) unlink(file().c_str()); MPI_Barrier(MPI_COMM_WORLD); createGadget_Void(F, nullptr, N, n, vel, false, false); MPI_Barrier(MPI_COMM_WORLD);
		if (!commRank()) { hid_t f = H5Fopen(file().c_str(), H5F_ACC_RDONLY, H5P_DEFAULT); if (f < 0) { BAD("file", "%s: no file", nm.c_str()); continue; }
			std::vector<double> x, v, m; if (common(f, nm, n3, true, x, v, m)) {
				for (size_t i = 0; i < n3; i++) {
					size_t X[3] = {i % N, i / N % N, i / N / N}, st[3] = {1, N, N * N}; bool bad = false;
					for (int d = 0; d < 3; d++) { LD e = X[d] * box / N; if (!(fabsl(x[3 * i + d] - e) <= 1e-6L * box)) { BAD("place", "%s: particle of point %s has coordinate %d %g, should be %Lg", nm.c_str(), P(i).c_str(), d, x[3 * i + d], e); bad = true; break; } }
					LD e = E[i] / mean * total / n3; if (!bad && !(fabsl(m[i] - e) <= 2e-6L * e + 1e-30L)) { BAD("mass", "%s: particle of point %s has mass %g, should be %Lg", nm.c_str(), P(i).c_str(), m[i], e); bad = true; }
					for (int d = 0; d < 3 && !bad; d++) { LD w = 0; if (vel) { size_t a = i - X[d] * st[d] + (X[d] + 1) % N * st[d], b = i - X[d] * st[d] + (X[d] + N - 1) % N * st[d]; auto ph = [&](size_t j) { LD r = g.m[j].real(), s = g.v[j].real(), r0 = g.m[i].real(), s0 = g.v[i].real(); return atan2l(-r * s0 + s * r0, r * r0 + s * s0); }; w = .5L * (ph(a) - ph(b)) / (z * mA) * 299792.458L; }
						LD t = vel ? 4e-6L * PI / (z * mA) * 299792.458L : 0; if (!(fabsl(v[3 * i + d] - w) <= t)) { BAD("velocity", "%s: particle of point %s has velocity %d %g, should be %Lg", nm.c_str(), P(i).c_str(), d, v[3 * i + d], w); bad = true; } }
					if (bad) break; } }
			H5Fclose(f); }
		vh::eval(nm); } };
	std::vector<LD> r(n3);
	for (int q = 0; q < 6; q++) { for (size_t i = 0; i < n3; i++) r[i] = q == 0 ? 1 : q == 1 ? .02L + h01(i * 3) : q == 2 ? powl(10, 3 * h01(i) - 1.5L) : q == 3 ? (i / N / N / Lz % 2 ? 3 : .1L) * (.5L + h01(i)) : q == 4 ? 1e-6L + i : 1e6L * (.3L + h01(i * 7)); run(vh::fmt("pattern %d", q), r); }
	for (size_t p = 0; p < n3; p += n3 > 512 ? 29 : 5) { for (size_t i = 0; i < n3; i++) r[i] = i == p ? 50 : .25L; run("hot " + P(p), r); for (size_t i = 0; i < n3; i++) r[i] = i == p ? 1 : 0; if (p % 10 == 0) run("alone " + P(p), r); }
}
static void halos()
{
	int k = 0;
	auto run = [&](const std::string &nm0, const std::vector<LD> &rho, bool all) { for (size_t n : {(size_t) 0, N * N * np, 2 * n3, n3 * 3 / 2 + 7}) for (double sg : {0., .7}) for (int s = 0; s < 2; s++) {
		if (!all && (k + s + (sg > 0) + n / (N * N)) % 3) { k++; continue; } load(rho, ++k); fixedRnd = 1000 * k; std::string nm = nm0 + vh::fmt(" n %zu sigma %g numbers %d", n, sg, k); if (!commRank()) unlink(file().c_str()); MPI_Barrier(MPI_COMM_WORLD); createGadget_Halo(F, N, n, sg); MPI_Barrier(MPI_COMM_WORLD);
		size_t m = n ? n : n3;
		if (!commRank()) { hid_t f = H5Fopen(file().c_str(), H5F_ACC_RDONLY, H5P_DEFAULT); if (f < 0) { BAD("file", "%s: no file", nm.c_str()); continue; }
			std::vector<double> x, v, q; if (common(f, nm, m, false, x, v, q)) {
				for (size_t i = 0; i < 3 * m; i++) if (v[i] != 0) { BAD("velocity", "%s: particle %zu has velocity %g", nm.c_str(), i / 3, v[i]); break; }
				if (sg == 0) { std::vector<int> c(n3, 0); bool bad = false;
					for (size_t i = 0; i < m && !bad; i++) { size_t X[3]; for (int d = 0; d < 3; d++) { LD u = x[3 * i + d] / box * N; X[d] = (size_t) floorl(u); if (!(fabsl(u - X[d] - .5L) <= 1e-4L) || X[d] >= N) { BAD("place", "%s: particle %zu has coordinate %d %g cells, which is no centre", nm.c_str(), i, d, (double) u); bad = true; break; } } if (!bad) c[X[0] + N * (X[1] + N * X[2])]++; }
					for (size_t i = 0; i < n3 && !bad; i++) { LD e = E[i] / mean * m / n3, t = 1e-5L * e + 1e-5L; if (c[i] < floorl(e - t) || c[i] > ceill(e + t)) { BAD("share", "%s: cell %s has %d particles, its share is %Lg", nm.c_str(), P(i).c_str(), c[i], e); bad = true; } } } }
			H5Fclose(f); }
		vh::eval(nm); } };
	std::vector<LD> r(n3);
	for (int q = 0; q < 5; q++) { for (size_t i = 0; i < n3; i++) r[i] = q == 0 ? 1 : q == 1 ? .02L + h01(i * 3) : q == 2 ? powl(10, 3 * h01(i) - 1.5L) : q == 3 ? (i / N / N < T / 2 ? 3 : .1L) * (.5L + h01(i)) : 1e-3L + i; run(vh::fmt("pattern %d", q), r, true); }
	for (int b = 1; b < 1 << np; b++) for (int q = 0; q < 3; q++) { for (size_t i = 0; i < n3; i++) r[i] = b >> (i / N / N / Lz) & 1 ? (q == 0 ? 1 : q == 1 ? .1L + h01(i * 11) : i % (N * N * Lz) < 3 ? 1 + h01(i) : 0) : q == 1 ? .004L * h01(i) : 0; run(vh::fmt("ranks %d.%d", b, q), r, np < 3 || !q); }
	for (size_t p = 0; p < n3; p += n3 > 512 ? 47 : 19) { for (size_t i = 0; i < n3; i++) r[i] = i == p ? 1 : 0; run("alone " + P(p), r, false); for (size_t i = 0; i < n3; i++) r[i] = i == p ? 300 : i == (p + n3 / 2 + N + 3) % n3 ? 100.4L : .3L; run("two " + P(p), r, false); }
}
int main(int argc, char **argv)
{
	std::string what = argv[1]; N = atoi(argv[2]); np = atoi(argv[3]); Ng = atoi(argv[4]); T = N; Lz = T / np; n3 = N * N * T;
	C = vh::start({"--size", argv[2], "--depth", std::to_string(Lz), "--zgrid", argv[3], "--prec", "single", "--lap", argv[4], "--qcd", "4", "--lsize", "6", "--llcf", "30", "--fftplan", "64"});
	C->SetMink(false); C->SetFrw(1.0); C->SetLambda(30.0); C->SetLamZ2Exp(0.0); C->SetIndi3(1.1); C->SetQcdExp(3.0); C->SetPhysSize((double) L); C->SetQcdPot(V_QCD1_PQ1); auto ic = C->ICData(); ic.zi = 1.7; ic.L1_pc = (double) L1; C->SetICData(ic);
	cfg = vh::fmt("%s-%zu-np%d-halo%zu-t%d", what.c_str(), N, np, Ng, omp_get_max_threads());
	F = vh::field(C, N, Lz, FIELD_SINGLE, FIELD_PAXION, np, Ng); *F->zV() = 2.3; F->updateR(); g.init(F, N, Lz, np, Ng, FIELD_SINGLE, FIELD_PAXION);
	box = L * L1 / .7L; LD pc = 1 / 3.08567758e16L, G = 6.67430e-11L * 1.98847e30L * pc * pc * pc, H = .1L * pc; total = .3L * box * box * box * 3 * H * H / (8 * PI * G);
	if (what == "void") voids(); else halos();
	vh::quit();
}
