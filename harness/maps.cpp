// P24: projections, slice maps and the three-dimensional map against the lattice they show.
#include "gfield.h"
#include "meas/measa.h"
#include "energy/energy.h"
#include "projector/projector.h"
#include "io/readWrite.h"
#include "utils/parse.h"
#include <hdf5.h>
void resetPropagator(Scalar *) {}
static std::string cfg; static int np;
typedef std::vector<LD> V;
static V gather(const void *p, size_t l, FieldPrecision pr)
{
	std::vector<double> a(l), b(l * np); for (size_t i = 0; i < l; i++) a[i] = pr == FIELD_SINGLE ? ((const float *) p)[i] : ((const double *) p)[i];
	MPI_Allgather(a.data(), l, MPI_DOUBLE, b.data(), l, MPI_DOUBLE, MPI_COMM_WORLD); return V(b.begin(), b.end());
}
static bool has(hid_t h, const char *n) { std::string s(n), p; for (size_t i = 1; i != std::string::npos;) { i = s.find('/', i); p = s.substr(0, i); if (i != std::string::npos) i++; if (H5Lexists(h, p.c_str(), H5P_DEFAULT) <= 0) return false; } return true; }
static V load(hid_t h, const char *n)
{
	hid_t d = H5Dopen(h, n, H5P_DEFAULT), s = H5Dget_space(d); std::vector<double> b(H5Sget_simple_extent_npoints(s)); H5Dread(d, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, b.data()); H5Sclose(s); H5Dclose(d); return V(b.begin(), b.end());
}
static void cmp(hid_t h, const char *n, const V &e, LD tol, const std::string &nm)
{
	if (!has(h, n)) { vh::fail(cfg + ":missing", "%s: no dataset %s", nm.c_str(), n); return; }
	V b = load(h, n); if (b.size() != e.size()) { vh::fail(cfg + ":size", "%s: %s has %zu values, should have %zu", nm.c_str(), n, b.size(), e.size()); return; }
	for (size_t i = 0; i < e.size(); i++) if (!(fabsl(b[i] - e[i]) <= tol * fabsl(e[i]))) { vh::fail(cfg + ":" + n, "%s: %s value %zu is %.9Lg, should be %.9Lg", nm.c_str(), n, i, b[i], e[i]); return; }
}
static GField g; static int idx = 0;
static void labels(bool folded)
{
	LD R = *g.F->RV(); for (size_t i = 0; i < g.m.size(); i++) { g.m[i] = g.cplx ? R * cl(1 + (LD) i / g.m.size(), .3L + h01(i)) : cl((LD) i / g.m.size() * 4 - 2); g.v[i] = cl(h01(i + 5), g.cplx ? (LD) i / g.m.size() : 0); }
	g.put(folded); g.F->setM2(M2_DIRTY); g.F->setM2h(M2_DIRTY); g.F->setSD(SD_DIRTY);
}
static V emap(bool folded, V *rho)
{
	Scalar *F = g.F; labels(folded); std::vector<double> e(64); energy(F, e.data(), EN_MAP, g.cplx ? *F->RV() * F->Saskia() : 0.); size_t l = g.S * g.Lz;
	if (rho) *rho = gather((char *) F->m2Cpu() + (g.S * (g.Lz + 2 * g.Ng)) * F->Precision(), l, F->Precision());
	return gather(F->m2Cpu(), l, F->Precision());
}
static void slices(bool folded, long maty, int sl, MeasureType ms, const V &E, const std::string &nm0)
{
	labels(folded); size_t N = g.N, S = g.S, T = g.T; Scalar *F = g.F;
	MeasInfo in = deninfa; in.index = idx; in.measdata = (MeasureType) (MEAS_2DMAP | ms); in.mask = SPMASK_FLAT; in.maty = (SliceType) maty; in.sliceprint = sl; in.i_rmask = 0; in.rmask_tab.clear(); in.redmap = 0;
	auto before = g.snap(); bool bf = F->Folded();
	Measureme(F, in); std::string nm = nm0 + vh::fmt(" maps %ld slice %d", maty, sl);
	if (F->Folded() == bf && g.snap() != before) vh::fail(cfg + ":changed", "%s: the measurement changed the field", nm.c_str());
	if (vh::rk() == 0) {
		char f[600]; sprintf(f, "%s/%s.m.%05d", outDir, outName, idx); hid_t h = H5Fopen(f, H5F_ACC_RDONLY, H5P_DEFAULT); if (h < 0) vh::fail(cfg + ":file", "%s: no measurement file", nm.c_str());
		auto part = [&](const std::vector<cl> &a, bool yz) { V r; auto add = [&](cl c) { r.push_back(c.real()); if (g.cplx) r.push_back(c.imag()); }; if (yz) for (size_t z = 0; z < T; z++) for (size_t y = 0; y < N; y++) add(a[sl + N * y + S * z]); else for (size_t i = 0; i < S; i++) add(a[i + S * sl]); return r; };
		if (maty & MAPT_XYMV) { cmp(h, "/map/m", part(g.m, false), 0, nm); cmp(h, "/map/v", part(g.v, false), 0, nm); }
		if (maty & MAPT_YZMV) { cmp(h, "/mapp/m", part(g.m, true), 0, nm); cmp(h, "/mapp/v", part(g.v, true), 0, nm); }
		LD tol = F->Precision() == FIELD_SINGLE ? 2e-5L : 1e-12L;
		if (maty & MAPT_XYE) cmp(h, "/map/E", V(E.begin() + S * sl, E.begin() + S * (sl + 1)), tol, nm);
		V p(S), q(S); for (size_t i = 0; i < E.size(); i++) { p[i % S] += E[i] / T; q[i % S] += E[i] * E[i] / T; }
		if (maty & MAPT_XYPE) cmp(h, "/map/P", p, tol, nm);
		if (maty & MAPT_XYPE2) cmp(h, maty & MAPT_XYPE ? "/map/P2" : "/map/P", q, tol, nm);
		if (ms & MEAS_ENERGY3DMAP) cmp(h, "/energy/density/theta", E, tol, nm);
		H5Fclose(h); unlink(f);
	}
	idx++; MPI_Barrier(MPI_COMM_WORLD); vh::eval(cfg + " " + nm);
}
static void measure()
{
	size_t N = g.N, T = g.T;
	for (int folded = 0; folded < 2; folded++) {
		std::string nm = vh::fmt("%s %s Ng%zu %zux%zu %s", vh::fname(g.type), vh::pname(g.prec), g.Ng, N, T, folded ? "folded" : "plain");
		V rho, E = emap(folded, g.cplx ? &rho : nullptr);
		for (size_t s = 0; s < T; s++) { slices(folded, MAPT_XYMV, s, MEAS_NOTHING, E, nm); slices(folded, MAPT_XYE | (s % 2 ? MAPT_XYMV : 0), s, MEAS_NOTHING, E, nm); }
		for (size_t s = 0; s < N; s++) slices(folded, MAPT_YZMV, s, MEAS_NOTHING, E, nm);
		for (int k = 1; k < 32; k++) slices(folded, (k & 1 ? MAPT_XYMV : 0) | (k & 2 ? MAPT_YZMV : 0) | (k & 4 ? MAPT_XYE : 0) | (k & 8 ? MAPT_XYPE : 0) | (k & 16 ? MAPT_XYPE2 : 0), k % std::min(N, T), k % 3 ? MEAS_NOTHING : MEAS_ENERGY3DMAP, E, nm);
		// the three-dimensional maps, both parts
		E = emap(folded, g.cplx ? &rho : nullptr); char f[600]; sprintf(f, "%s/%s.m.%05d", outDir, outName, idx);
		createMeas(g.F, idx); writeEDens(g.F, g.cplx ? MAP_ALL : MAP_THETA); destroyMeas(); idx++;
		if (vh::rk() == 0) { hid_t h = H5Fopen(f, H5F_ACC_RDONLY, H5P_DEFAULT); cmp(h, "/energy/density/theta", E, 0, nm + " 3D"); if (g.cplx) cmp(h, "/energy/density/rho", rho, 0, nm + " 3D"); H5Fclose(h); unlink(f); }
		MPI_Barrier(MPI_COMM_WORLD); vh::eval(cfg + " " + nm + " 3D");
	}
}
// the projection of every single point, and of dense data
static void project()
{
	Scalar *F = g.F; size_t l = g.S * g.Lz, V3 = g.S * g.T; StatusM2 st[4] = {M2_ENERGY, M2_ANTIMASK, M2_MASK, M2_ENERGY_SMOOTH};
	for (size_t c = 0; c < V3 + 8; c++) {
		labels(c & 1); std::vector<double> a(V3, 0); if (c < V3) a[c] = 3; else for (size_t i = 0; i < V3; i++) a[i] = floor(64 * h01(i + 999 * c)) - 20;
		for (size_t i = 0; i < l; i++) { double x = a[g.off() + i]; if (g.prec == FIELD_SINGLE) ((float *) F->m2Cpu())[i] = x; else ((double *) F->m2Cpu())[i] = x; }
		int k = c % 3; std::function<double(double)> f = k == 0 ? [](double x) { return x; } : k == 1 ? [](double x) { return x * x; } : [](double x) { return x + 1; };
		F->setM2(st[c % 4]); auto before = g.snap(); projectField(F, f); std::string nm = vh::fmt("%s %s %zux%zu %zu", vh::fname(g.type), vh::pname(g.prec), g.N, g.T, c);
		if (g.snap() != before) vh::fail(cfg + ":changed", "%s: the projection changed the field", nm.c_str());
		if (vh::rk() == 0) for (size_t p = 0; p < g.S; p++) {
			LD e = 0; for (size_t z = 0; z < g.T; z++) e += f(a[p + g.S * z]) / (LD) g.T; double x = g.prec == FIELD_SINGLE ? ((float *) F->mFrontGhost())[p] : ((double *) F->mFrontGhost())[p];
			if (!(fabsl(x - e) <= (g.prec == FIELD_SINGLE ? 3e-6L : 1e-13L) * (fabsl(e) + 1))) { vh::fail(cfg + ":projection", "%s: column %zu is %.9g, should be %.9Lg", nm.c_str(), p, x, e); break; }
		}
		vh::eval(cfg + " " + nm);
	}
}
int main(int argc, char **argv)
{
	// measure|project PREC np N Lz Ng TYPE
	np = atoi(argv[3]); size_t N = atoi(argv[4]), Lz = atoi(argv[5]), Ng = atoi(argv[6]); FieldPrecision pr = !strcmp(argv[2], "single") ? FIELD_SINGLE : FIELD_DOUBLE; FieldType t = argv[7][0] == 's' ? FIELD_SAXION : FIELD_AXION;
	Cosmos *C = vh::start({"--size", argv[4], "--depth", argv[5], "--zgrid", argv[3], "--index", "0", "--prec", argv[2], "--lap", argv[6], "--qcd", "4", "--lsize", "6", "--llcf", "30"});
	cfg = vh::fmt("%s-%s-%s-np%d-t%d-Ng%zu", argv[1], argv[7], argv[2], np, omp_get_max_threads(), Ng);
	C->SetMink(false); C->SetFrw(1.0); C->SetLambda(30.0); C->SetLamZ2Exp(0.0); C->SetIndi3(1.1); C->SetQcdExp(3.0); C->SetPhysSize(7.0); C->SetQcdPot(V_QCD1_PQ1);
	Scalar *F = vh::field(C, N, Lz, pr, t, np, Ng, LAMBDA_FIXED); *F->zV() = 1.3; F->updateR(); g.init(F, N, Lz, np, Ng, pr, t);
	if (argv[1][0] == 'm') measure(); else project();
	vh::quit();
}
