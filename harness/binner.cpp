// P13: the histogram class on every small data set over an alphabet of bin edges and special values, and the histograms a
// measurement writes against the field they are made of.
#include "gfield.h"
#include "utils/binner.h"
#include "utils/parse.h"
#include "meas/measa.h"
#include "energy/energy.h"
#include "scalar/folder.h"
#include <hdf5.h>
#ifdef SIM
#include "ompsim.h"
#endif
void resetPropagator(Scalar *) {}
static std::string cfg; static int np;
struct Exp { bool any; double mn, mx; std::vector<double> lo, hi; double tot; };
// what the histogram of these values (of all ranks) must be; a value within tol of an edge may be on either side
template<class V> static Exp expect(const V &x, size_t nb, LD tol)
{
	Exp e; e.any = false; e.mn = INFINITY; e.mx = -INFINITY; e.lo.assign(nb, 0); e.hi = e.lo; e.tot = 0;
	for (double a : x) if (std::isfinite(a)) { e.any = true; e.mn = std::min(e.mn, a); e.mx = std::max(e.mx, a); }
	if (!e.any || fabs(e.mx - e.mn) < 1e-10) return e;
	LD st = ((LD) e.mx - e.mn) / (nb - 1), base = e.mn - st / 2;
	for (double a : x) if (std::isfinite(a)) {
		LD q = (a - base) / st; long b = floorl(q), l = floorl(q - tol), h = floorl(q + tol); e.tot++;
		auto in = [&](long k) { return std::min<long>(std::max<long>(k, 0), nb - 1); }; l = in(l); h = in(h); b = in(b);
		if (l == h) { e.lo[b]++; e.hi[b]++; } else { e.hi[l]++; e.hi[h]++; }
	}
	return e;
}
static bool check(const Exp &e, const double *bins, size_t nb, double mn, double mx, size_t n, const std::string &nm, const char *what)
{
	auto bad = [&](const char *w, double a, double b) { vh::fail(cfg + ":" + what + "-" + w, "%s: %s is %.17g, should be %.17g", nm.c_str(), w, a, b); return false; };
	if (!e.any || fabs(e.mx - e.mn) < 1e-10) return true; // no range, no histogram
	if (mn != e.mn) return bad("minimum", mn, e.mn); if (mx != e.mx) return bad("maximum", mx, e.mx);
	double st = (e.mx - e.mn) / (nb - 1), t = 0;
	for (size_t j = 0; j < nb; j++) { double c = bins[j] * st * n; t += c; if (!(c >= e.lo[j] - 1e-6 && c <= e.hi[j] + 1e-6)) { vh::fail(cfg + ":" + what + "-bin", "%s: bin %zu of %zu holds %.9g values, should be %g to %g", nm.c_str(), j, nb, c, e.lo[j], e.hi[j]); return false; } }
	if (fabs(t - e.tot) > 1e-6 * (1 + e.tot)) return bad("total", t, e.tot);
	return true;
}
template<size_t NB, class D> static void one(const std::vector<double> &x, size_t pad, size_t dat, const std::string &nm, bool mod)
{
	// x: the values of all ranks, in rank order; rows of dat values are spread over rows of pad elements
	size_t n = x.size() / np; std::vector<D> loc; const double *p = &x[commRank() * n];
	for (size_t i = 0; i < n; i++) { loc.push_back(D(p[i])); if (pad > dat && (i + 1) % dat == 0) for (size_t k = dat; k < pad; k++) loc.push_back(D(k % 2 ? 1e30 : -INFINITY)); }
	std::function<double(D)> f = [mod](D v) { return mod ? std::abs(v) : (double) std::real(v); };
	std::vector<double> y; for (double a : x) y.push_back(f(D(a)));
	Exp e = expect(y, NB, 1e-9L);
	Binner<NB, D> b(loc.data(), loc.size(), f); if (pad > dat) b.setpad(pad, dat);
	b.run();
	check(e, b.data(), NB, b.min(), b.max(), x.size(), nm, "class");
	if (e.any && e.mx - e.mn > 1e-9 && e.tot == x.size()) for (size_t j = 0; j < NB; j++) { double c = e.mn + (e.mx - e.mn) * j / (NB - 1); if (b[j] != b.data()[j] || (!mod && b(D(c)) != b[j])) { vh::fail(cfg + ":class-access", "%s: bin %zu is not the one returned for its index or its central value", nm.c_str(), j); break; } }
	if (pad == dat && e.any && e.tot == x.size()) {
		double mx = find<FIND_MAX, D>(loc.data(), loc.size(), f), mn = find<FIND_MIN, D>(loc.data(), loc.size(), f);
		if (mx != e.mx || mn != e.mn) vh::fail(cfg + ":find", "%s: find gives %.17g to %.17g, the data go from %.17g to %.17g", nm.c_str(), mn, mx, e.mn, e.mx);
	}
	vh::eval(cfg + " " + nm);
}
template<size_t NB, class D> static void sets(const char *ty, size_t per, size_t pad, size_t dat, bool mod, bool special)
{
	std::vector<double> al = {0, 1, .5, .25, -.5, -1};
	for (size_t k : {(size_t) 1, NB - 1}) { double e = (k - .5) / (NB - 1); al.push_back(e + 1e-7); al.push_back(e - 1e-7); }
	if (special) { al.push_back(INFINITY); al.push_back(-INFINITY); al.push_back(NAN); }
	if (std::is_same<D, float>::value) for (auto &a : al) a = (float) a;
	size_t n = per * np, A = al.size(), tot = 1; for (size_t i = 0; i < n; i++) tot *= A;
	for (size_t c = 0; c < tot; c++) {
		std::vector<double> x; std::string nm = vh::fmt("%s bins %zu pad %zu/%zu:", ty, NB, dat, pad); size_t k = c;
		for (size_t i = 0; i < n; i++, k /= A) { x.push_back(al[k % A]); nm += vh::fmt(" %.9g", x.back()); }
		one<NB, D>(x, pad, dat, nm, mod);
	}
}
template<size_t NB, class D> static void large(const char *ty, size_t per)
{
	for (int kind = 0; kind < 4; kind++) for (size_t extra : {0, 1, 7}) {
		std::vector<double> x; for (size_t i = 0; i < (per + extra) * np; i++) { double h = h01(i + 77 * kind); x.push_back((float) (kind == 0 ? h : kind == 1 ? log10(1e-10 + pow(h, 8)) : kind == 2 ? (i % 5 ? 3 * h : INFINITY) : 1e-8 * (h - .5))); }
		one<NB, D>(x, 1, 1, vh::fmt("%s bins %zu large %d %zu", ty, NB, kind, per + extra), false);
	}
}
// the histograms written by a measurement
static void measure(Cosmos *C, FieldPrecision pr, size_t N, size_t Lz, size_t Ng, FieldType t, int shape, int idx, bool contrast)
{
	GField g; Scalar *F = vh::field(C, N, Lz, pr, t, np, Ng, LAMBDA_FIXED); *F->zV() = 1.3; F->updateR(); g.init(F, N, Lz, np, Ng, pr, t); LD R = *F->RV(); size_t V = N * N * Lz * np;
	for (size_t i = 0; i < V; i++) {
		LD th = shape % 3 == 0 ? 6.2L * (h01(i) - .5L) : shape == 1 ? 1e-3L * i / V : (i % 7 ? .3L * h01(i) : 0), rh = 1 + .3L * (h01(i + 9) - .5L);
		g.m[i] = g.cplx ? R * rh * cl(cosl(th), sinl(th)) : cl(R * th); g.v[i] = cl(h01(i + 3) - .5L, g.cplx ? h01(i + 4) - .5L : 0);
	}
	std::string nm = vh::fmt("%s %s Ng%zu %zux%zu shape %d%s", vh::fname(t), vh::pname(pr), Ng, N, Lz * np, shape, contrast ? "" : " alone");
	g.put(false); F->exchangeGhosts(FIELD_M); std::vector<double> e; float eMean = 0;
	{	// the energy map the contrast is made of
		std::vector<double> er(64, 0); if (shape == 2) { Folder mu(F); mu(FOLD_ALL); }
		energy(F, er.data(), EN_MAP, g.cplx ? *F->RV() * F->Saskia() : 0.); double s = er[0] + er[1] + er[2] + er[3] + er[4]; eMean = s;
		if (F->Folded()) { Folder mu(F); mu(UNFOLD_ALL); }
		size_t l = N * N * Lz; e.resize(V); std::vector<double> loc(l); for (size_t i = 0; i < l; i++) loc[i] = pr == FIELD_SINGLE ? ((float *) F->m2Cpu())[i] : ((double *) F->m2Cpu())[i];
		MPI_Allgather(loc.data(), l, MPI_DOUBLE, e.data(), l, MPI_DOUBLE, MPI_COMM_WORLD);
	}
	g.put(shape == 1);
	F->setM2(M2_DIRTY); F->setM2h(M2_DIRTY); F->setSD(SD_DIRTY);
	MeasInfo in = deninfa; in.index = idx; in.measdata = (MeasureType) (MEAS_BINTHETA | MEAS_BINRHO | MEAS_BINLOGTHETA2 | (contrast ? MEAS_BINDELTA : 0)); in.mask = SPMASK_FLAT; in.maty = MAPT_NO; in.sliceprint = 0; in.i_rmask = 0; in.rmask_tab.clear(); in.redmap = 0;
	MeasData out = Measureme(F, in);
	std::vector<std::pair<std::string, std::vector<double>>> W(4); W[0].first = "thetaB"; W[1].first = "rhoB"; W[2].first = "logtheta2B"; W[3].first = "contB";
	float Rf = *F->RV(); (void) Rf; double Rd = *F->RV();
	for (size_t i = 0; i < V; i++) {
		if (g.cplx && pr == FIELD_SINGLE) { std::complex<float> c(g.m[i].real(), g.m[i].imag()); W[0].second.push_back(std::arg(c)); W[1].second.push_back(std::abs(c) / Rd); W[2].second.push_back(log10(1.0e-10 + pow(std::arg(c), 2))); }
		else if (g.cplx) { std::complex<double> c(g.m[i].real(), g.m[i].imag()); W[0].second.push_back(std::arg(c)); W[1].second.push_back(std::abs(c) / Rd); W[2].second.push_back(log10(1.0e-10 + pow(std::arg(c), 2))); }
		else { double a = g.m[i].real() / Rd; W[0].second.push_back(a); W[2].second.push_back((float) log10(1.0e-10 + a * a)); }
		if (contrast) W[3].second.push_back((float) log10(pr == FIELD_SINGLE ? (float) e[i] / eMean : e[i] / eMean));
	}
	if (vh::rk() == 0) {
		char f[600]; sprintf(f, "%s/%s.m.%05d", outDir, outName, idx); hid_t h = H5Fopen(f, H5F_ACC_RDONLY, H5P_DEFAULT);
		if (h < 0) vh::fail(cfg + ":file", "%s: the measurement file cannot be opened", nm.c_str());
		else {
			for (auto &w : W) if (!w.second.empty()) {
				hid_t d = H5Dopen(h, ("/bins/" + w.first + "/data").c_str(), H5P_DEFAULT); if (d < 0) { vh::fail(cfg + ":" + w.first, "%s: no histogram %s", nm.c_str(), w.first.c_str()); continue; }
				hid_t s = H5Dget_space(d); size_t n = H5Sget_simple_extent_npoints(s); std::vector<double> b(n); H5Dread(d, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, b.data()); H5Sclose(s); H5Dclose(d);
				double mm[2]; const char *an[2] = {"Minimum", "Maximum"}; hid_t gr = H5Gopen2(h, ("/bins/" + w.first).c_str(), H5P_DEFAULT); for (int k = 0; k < 2; k++) { hid_t a = H5Aopen(gr, an[k], H5P_DEFAULT); H5Aread(a, H5T_NATIVE_DOUBLE, &mm[k]); H5Aclose(a); } H5Gclose(gr);
				Exp x = expect(w.second, n, pr == FIELD_SINGLE || w.first == "contB" || w.first == "logtheta2B" ? 2e-2L : 1e-6L); LD tl = 2e-6L * (fabsl(x.mx) + fabsl(x.mn));
				if (fabsl(mm[0] - x.mn) <= tl) mm[0] = x.mn; if (fabsl(mm[1] - x.mx) <= tl) mm[1] = x.mx; // the filter's own rounding
				check(x, b.data(), n, mm[0], mm[1], V, nm, w.first.c_str());
				if (w.first == "thetaB" && !(fabs(out.maxTheta - std::max(fabs(x.mn), x.mx)) <= 2 * tl)) vh::fail(cfg + ":maxTheta", "%s: the largest angle is reported as %.9g, it is %.9g", nm.c_str(), out.maxTheta, std::max(fabs(x.mn), x.mx));
			}
			H5Fclose(h);
		}
	}
	vh::eval(cfg + " measurement " + nm); MPI_Barrier(MPI_COMM_WORLD); delete F;
}
int main(int argc, char **argv)
{
	// class PER np | pad np | large np | meas PREC np N Lz Ng
	np = atoi(argv[2]); bool ms = argv[1][0] == 'm';
	Cosmos *C = vh::start({"--size", ms ? argv[4] : "16", "--depth", ms ? argv[5] : "16", "--zgrid", argv[2], "--index", "0", "--prec", ms ? argv[3] : "single", "--lap", ms ? argv[6] : "1", "--qcd", "4", "--lsize", "6", "--llcf", "30"});
	cfg = vh::fmt("%s-np%d-t%d", argv[1], np, omp_get_max_threads()); if (ms) cfg += vh::fmt("-%s-Ng%s", argv[3], argv[6]);
	size_t per = ms ? 0 : atoi(argv[3]);
	if (argv[1][0] == 'c') { sets<2, float>("float", per, 1, 1, false, true); sets<3, double>("double", per, 1, 1, false, true); sets<5, float>("float", per, 1, 1, false, false); sets<10, std::complex<double>>("complex", per, 1, 1, true, false); }
	if (argv[1][0] == 'p') { sets<3, double>("double", per, 4, 2, false, true); sets<5, float>("float", per, 3, 2, false, false); sets<4, double>("double", per, 2, 1, false, false); }
	if (argv[1][0] == 'l') { large<3000, float>("float", per); large<3000, double>("double", per); large<100, double>("double", per); large<7, float>("float", per); }
	if (ms) {
		C->SetMink(false); C->SetFrw(1.0); C->SetLambda(30.0); C->SetLamZ2Exp(0.0); C->SetIndi3(1.1); C->SetQcdExp(3.0); C->SetPhysSize(7.0); C->SetQcdPot(V_QCD1_PQ1);
		int i = 0; for (FieldType t : {FIELD_SAXION, FIELD_AXION}) for (int s = 0; s < 4; s++) measure(C, !strcmp(argv[3], "single") ? FIELD_SINGLE : FIELD_DOUBLE, atoi(argv[4]), atoi(argv[5]), atoi(argv[6]), t, s, i, i % 2 == 0), i++;
	}
#ifdef SIM
	sim::drain(cfg.c_str());
#endif
	vh::quit();
}
