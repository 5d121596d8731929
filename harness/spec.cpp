// P12: the power, number and saxion spectra and the mode counts, against a sum over every mode of the full lattice.
#include "gfield.h"
#include "spectrum/spectrum.h"
#include "scalar/folder.h"
#include "fft/fftCode.h"
#include "utils/parse.h"
#include "cosmos/cosmos.h"
void resetPropagator(Scalar *) {}
static std::string cfg; static size_t N, Lz, T; static int np; static FieldPrecision pr; static Scalar *F; static GField g;
static size_t nb; static double mul; static LD PI = acosl(-1), L0, R;
typedef std::vector<LD> Arr;
static size_t binOf(double k2) { return floor(mul * sqrt(k2)); }
static LD dk(size_t k, size_t n) { return k > n / 2 ? (LD) k - (LD) n : (LD) k; }
// |F|^2 of a real array on the whole lattice for every mode
static Arr power(const Arr &r)
{
	size_t V = N * N * T; std::vector<cl> a(r.begin(), r.end()), b(V);
	for (int ax = 0; ax < 3; ax++) {
		size_t n = ax == 2 ? T : N, st = ax == 0 ? 1 : ax == 1 ? N : N * N; std::vector<cl> w(n); for (size_t i = 0; i < n; i++) w[i] = std::polar((LD) 1, -2 * PI * i / n);
		for (size_t i = 0; i < V; i++) { size_t p = i / st % n, base = i - p * st; cl s = 0; for (size_t q = 0; q < n; q++) s += a[base + q * st] * w[p * q % n]; b[i] = s; }
		a.swap(b);
	}
	Arr o(V); for (size_t i = 0; i < V; i++) o[i] = std::norm(a[i]); return o;
}
template<class W> static Arr bins(const Arr &P, LD norm, W w, Arr acc = Arr())
{
	if (acc.empty()) acc.assign(nb, 0);
	for (size_t z = 0; z < T; z++) for (size_t y = 0; y < N; y++) for (size_t x = 0; x < N; x++) {
		LD kx = dk(x, N), ky = dk(y, N), kz = dk(z, T), k2 = kx * kx + ky * ky + kz * kz; size_t b = binOf((double) k2);
		if (b >= nb) { vh::fail(cfg + ":range", "mode (%zu,%zu,%zu) belongs to bin %zu of %zu", x, y, z, b, nb); continue; }
		acc[b] += P[x + N * (y + N * z)] * norm * w(k2, kx, ky, kz);
	}
	return acc;
}
static LD one(LD, LD, LD, LD) { return 1; }
static LD norm() { LD V = (LD) N * N * T; return L0 * L0 * L0 / (2 * V * V); }
static LD eps();
static bool same(const SpecBin &s, SpectrumType t, const Arr &e, const char *what, const std::string &nm, LD tol)
{
	LD sc = 0; for (auto x : e) sc += fabsl(x);
	for (size_t j = 0; j < nb; j++) { LD d = fabsl(s(j, t) - e[j]); if (!(d <= tol * sc + (tol > 0 ? eps() * eps() * L0 * R * R * N * N : 0))) { vh::fail(cfg + ":" + what, "%s: bin %zu of the %s spectrum is %.10g, should be %.10Lg (all bins together %.10Lg)", nm.c_str(), j, what, s(j, t), e[j], sc); return false; } }
	return true;
}
static LD eps() { return pr == FIELD_SINGLE ? 3e-5L : 1e-11L; }
static void setBins(const MeasInfo &mi) { size_t pm = (size_t) floor(sqrt(2. * (N / 2) * (N / 2) + (T / 2) * (T / 2))) + 1; nb = mi.nbinsspec < 0 ? pm : (size_t) mi.nbinsspec; mul = mi.nbinsspec < 0 ? 1. : (double) nb / pm; }

static void counts()
{
	for (int n : {-1, 1, 2, 3, 5, 6, 7, 8, 9, 12, 13, 14, 15, 16, 21, 24, 28, 42, 64, 100}) {
		MeasInfo mi; mi.nbinsspec = n; setBins(mi); SpecBin s(F, false, mi); std::string nm = vh::fmt("nbins%d", n);
		if (s.NBins() != nb) vh::fail(cfg + ":nbins", "%s: %zu bins instead of %zu", nm.c_str(), s.NBins(), nb);
		Arr u(N * N * T, 1);
		Arr c = bins(u, 1, one), a = bins(u, 1, [](LD k2, LD, LD, LD) { return k2; });
		for (int rep = 0; rep < 2; rep++) { // asking again gives the same
			s.nmodRun(); if (!same(s, SPECTRUM_NN, c, "count", nm, 0)) return; s.avekRun(); if (!same(s, SPECTRUM_AK, a, "k2", nm, 1e-14L)) return;
		}
		LD t = 0; for (size_t j = 0; j < nb; j++) t += s(j, SPECTRUM_NN);
		if (t != (LD) N * N * T) vh::fail(cfg + ":count-total", "%s: %Lg modes are counted, there are %zu", nm.c_str(), t, N * N * T);
		vh::eval(cfg + " counts " + nm);
	}
}
// every real mode: the cosine and the sine of each wave vector (one of each pair k, -k)
struct Mode { size_t x, y, z; int ph; };
static std::vector<Mode> allModes(size_t step)
{
	std::vector<Mode> r; size_t V = N * N * T;
	for (size_t i = 0; i < V; i += step) { size_t x = i % N, y = i / N % N, z = i / N / N, j = (N - x) % N + N * ((N - y) % N + N * ((T - z) % T)); if (j < i) continue; r.push_back({x, y, z, 0}); if (j != i) r.push_back({x, y, z, 1}); }
	return r;
}
static LD wave(const Mode &m, size_t i) { size_t x = i % N, y = i / N % N, z = i / N / N; LD p = 2 * PI * ((LD) (m.x * x % N) / N + (LD) (m.y * y % N) / N + (LD) (m.z * z % T) / T); return m.ph ? sinl(p) : cosl(p); }
static void putReal(char *p, const Arr &a, size_t n) { for (size_t i = 0; i < n; i++) if (pr == FIELD_SINGLE) ((float *) p)[i] = a[i]; else ((double *) p)[i] = a[i]; }
static void pspec(const Mode *m, int variant, int n)
{
	size_t V = N * N * T, l = N * N * Lz; Arr a(V); LD mean = 0;
	for (size_t i = 0; i < V; i++) { a[i] = g.rnd(m ? 1.25L * wave(*m, i) : h01(i + 99) - .3L); mean += a[i] * a[i] / V; }
	std::string nm = m ? vh::fmt("mode(%zu,%zu,%zu)%c-%d", m->x, m->y, m->z, "cs"[m->ph], variant) : vh::fmt("dense-%d-%d", variant, n);
	Arr loc(a.begin() + commRank() * l, a.begin() + (commRank() + 1) * l);
	memset(F->m2Cpu(), 0x3b, 2 * F->eSize() * pr);
	char *p = (char *) (variant & 1 ? F->m2half() : F->m2Cpu()); putReal(p, loc, l);
	F->setM2(variant & 1 ? M2_DIRTY : M2_ENERGY); F->setM2h(variant & 1 ? M2_ENERGY : M2_DIRTY);
	MeasInfo mi; mi.nbinsspec = n; setBins(mi); SpecBin s(F, variant & 2, mi);
	Arr e = bins(power(a), norm(), one); s.pRun(); same(s, SPECTRUM_P, e, "power", nm, eps());
	LD t = 0; for (size_t j = 0; j < nb; j++) t += s(j, SPECTRUM_P);
	if (fabsl(t - L0 * L0 * L0 / 2 * mean) > eps() * t) vh::fail(cfg + ":variance", "%s: the bins add up to %Lg, the mean square times the volume over 2 is %Lg", nm.c_str(), t, L0 * L0 * L0 / 2 * mean);
	if (F->m2Status() == M2_ENERGY_FFT) { s.pRun(); same(s, SPECTRUM_P, e, "power-again", nm, eps()); SpecBin s2(F, false, mi); s2.pRun(); same(s2, SPECTRUM_P, e, "power-other", nm, eps()); }
	else vh::fail(cfg + ":status", "%s: the power spectrum did not leave the transform behind", nm.c_str());
	vh::eval(cfg + " power " + nm);
}
static void labels(bool on) { for (size_t i = 0; i < N * N * Lz; i++) ((char *) F->sData())[i] = 0; if (on) for (size_t i = 0; i < N * N * Lz; i++) if (h01(i + g.off() + 5) < .3) ((char *) F->sData())[i] = (char) STRING_MASK; }
static bool masked(size_t i) { return h01(i + 5) < .3; }
static LD fwd(LD k2, LD, LD, LD) { return k2 * (2 * PI / L0) * (2 * PI / L0); }
static void axspec(const Mode *m, size_t id, SpectrumMaskType mask, int nrt, int n)
{
	size_t V = N * N * T; auto sel = allModes(1); std::string nm = (m ? vh::fmt("mode(%zu,%zu,%zu)%c", m->x, m->y, m->z, "cs"[m->ph]) : std::string("dense")) + vh::fmt("-mask%d-what%d-nbins%d", mask, nrt, n);
	const Mode &o = sel[(id * 17 + 5) % sel.size()];
	for (size_t i = 0; i < V; i++) { g.m[i] = R * (m ? .7L * wave(*m, i) : 2 * h01(i + 1) - .9L); g.v[i] = m ? 1.5L * wave(o, i) : h01(i + 3) - .4L; }
	labels(mask != SPMASK_FLAT); F->setSD(mask == SPMASK_FLAT ? SD_DIRTY : (StatusSD) (SD_MASK | SD_AXITONMASK));
	g.put(id % 2); F->setM2(M2_DIRTY);
	MeasInfo mi; mi.nbinsspec = n; setBins(mi); SpecBin s(F, id % 3 == 1, mi);
	for (int rep = 0; rep < 2; rep++) s.nRun(mask, (nRunType) nrt); // asking again starts from empty bins
	LD m2 = F->AxionMassSq() * R * R; if (!(m2 > 0)) { vh::fail(cfg + ":setup", "no axion mass"); return; }
	auto cut = [&](auto f) { Arr a(V); for (size_t i = 0; i < V; i++) a[i] = mask != SPMASK_FLAT && masked(i) ? 0 : f(i); return power(a); };
	if (nrt & (NRUN_G | NRUN_V)) { Arr P = cut([&](size_t i) { return g.m[i].real(); }); same(s, SPECTRUM_GG, bins(P, norm(), fwd), "gradient", nm, eps()); same(s, SPECTRUM_VV, bins(P, norm() * m2, one), "potential", nm, eps()); }
	if (nrt & NRUN_K) same(s, SPECTRUM_KK, bins(cut([&](size_t i) { return g.v[i].real(); }), norm(), one), "kinetic", nm, eps());
	if (nrt & NRUN_S) same(s, SPECTRUM_VVNL, bins(cut([&](size_t i) { return 2 * R * sinl(g.m[i].real() / (2 * R)); }), norm() * m2, one), "nonlinear potential", nm, eps());
	vh::eval(cfg + " axion " + nm);
}
static void sxspec(const Mode *m, size_t id, SpectrumMaskType mask, int nrt, int n, bool turn)
{
	size_t V = N * N * T; auto sel = allModes(1); std::string nm = (m ? vh::fmt("mode(%zu,%zu,%zu)%c", m->x, m->y, m->z, "cs"[m->ph]) : std::string("dense")) + vh::fmt("-mask%d-what%d-nbins%d%s", mask, nrt, n, turn ? "-turned" : "");
	LD za = F->Saskia() * R, del = L0 / N; const Mode &o = sel[(id * 17 + 5) % sel.size()], &q = sel[(id * 29 + 11) % sel.size()];
	for (size_t i = 0; i < V; i++) {
		LD th = m ? .35L * wave(*m, i) : .5L * (h01(i + 1) - .4L), rh = m ? 1 + .05L * wave(o, i) : 1 + .1L * (h01(i + 7) - .5L); if (turn) th += 2.2L;
		g.m[i] = R * rh * cl(cosl(th), sinl(th)) + za; g.v[i] = m ? cl(wave(q, i), 1.5L * wave(o, i)) : cl(h01(i + 3) - .4L, h01(i + 4) - .5L);
	}
	labels(mask == SPMASK_REDO); F->setSD(mask == SPMASK_REDO ? SD_MASK : SD_DIRTY); g.put(id % 2); F->setM2(M2_DIRTY);
	MeasInfo mi; mi.nbinsspec = n; setBins(mi); SpecBin s(F, id % 3 == 1, mi); LD m2 = F->AxionMassSq() * R * R, ms = F->SaxionMassSq() * R * R; if (!(m2 > 0 && ms > 0)) { vh::fail(cfg + ":setup", "no mass (axion %Lg, saxion %Lg)", m2, ms); return; }
	auto a = [&](size_t x, size_t y, size_t z) { return g.m[g.at(x, y, z)] - za; };
	auto W = [&](size_t i) -> LD { LD r = std::abs(g.m[i] - za) / R; return mask == SPMASK_REDO ? !masked(i) : mask == SPMASK_VIL ? r : mask == SPMASK_VIL2 ? r * r : 1; };
	auto all = [&](auto f) { Arr r(V); for (size_t z = 0; z < T; z++) for (size_t y = 0; y < N; y++) for (size_t x = 0; x < N; x++) { size_t i = g.at(x, y, z); r[i] = W(i) * f(i, x, y, z); } return power(r); };
	for (int rep = 0; rep < 2; rep++) s.nRun(mask, (nRunType) nrt);
	LD tol = eps() * 4;
	if (nrt & (NRUN_K | NRUN_CK)) same(s, SPECTRUM_KK, bins(all([&](size_t i, size_t, size_t, size_t) { cl c = g.m[i] - za; return R * (std::conj(c) * g.v[i]).imag() / std::norm(c); }), norm(), one), "kinetic", nm, tol);
	if (nrt & NRUN_V) {
		same(s, SPECTRUM_VVNL, bins(all([&](size_t i, size_t, size_t, size_t) { return 2 * R * sinl(std::arg(g.m[i] - za) / 2); }), norm() * m2, one), "nonlinear potential", nm, tol);
	}
	if (nrt & (NRUN_V | NRUN_CV)) same(s, SPECTRUM_VV, bins(all([&](size_t i, size_t, size_t, size_t) { return R * std::arg(g.m[i] - za); }), norm() * m2, one), "potential", nm, tol);
	if (nrt & (NRUN_G | NRUN_CG)) {
		Arr e(nb, 0); bool c = nrt & NRUN_CG;
		for (int ax = 0; ax < 3; ax++) {
			Arr P = all([&](size_t i, size_t x, size_t y, size_t z) { cl u = a(x + (ax == 0), y + (ax == 1), z + (ax == 2)), d = a(x + (ax == 0 ? N - 1 : 0), y + (ax == 1 ? N - 1 : 0), z + (ax == 2 ? T - 1 : 0)), o = a(x, y, z);
				return c ? 2 * R / del * ((u - o) / (u + o)).imag() : R / (2 * del) * (std::conj(o) * (u - d)).imag() / std::norm(o); });
			e = bins(P, norm(), [&](LD, LD kx, LD ky, LD kz) { LD k = fabsl(ax == 0 ? kx : ax == 1 ? ky : kz); if (!k) return (LD) 1; LD p = 2 * PI * k / N; return p * p / (2 * (1 - cosl(p))); }, e);
		}
		same(s, SPECTRUM_GG, e, "gradient", nm, tol);
	}
	vh::eval(cfg + " saxion " + nm);
	if (nrt != NRUN_KGV || mask == SPMASK_GAUS) return;
	// the saxion's own spectra
	LD Rp = F->BckGnd()->Rp(*F->zV()) * R;
	for (int rep = 0; rep < 2; rep++) s.nSRun(mask, NRUN_KGV);
	same(s, SPECTRUM_KK, bins(all([&](size_t i, size_t, size_t, size_t) { cl c = g.m[i] - za; LD r = std::abs(c); return R * ((std::conj(c) * g.v[i]).real() / r / R - r * Rp / R / R); }), norm(), one), "saxion kinetic", nm, tol);
	Arr P = all([&](size_t i, size_t, size_t, size_t) { return std::abs(g.m[i] - za) - R; });
	same(s, SPECTRUM_GG, bins(P, norm(), fwd), "saxion gradient", nm, tol * 20); same(s, SPECTRUM_VV, bins(P, norm() * ms, one), "saxion potential", nm, tol * 20);
	vh::eval(cfg + " saxion radial " + nm);
}
int main(int argc, char **argv)
{
	// what precision N depth(total) np step
	N = atoi(argv[3]); T = atoi(argv[4]); np = atoi(argv[5]); Lz = T / np; pr = !strcmp(argv[2], "single") ? FIELD_SINGLE : FIELD_DOUBLE; size_t step = atoi(argv[6]);
	Cosmos *C = vh::start({"--size", argv[3], "--depth", vh::fmt("%zu", Lz), "--zgrid", argv[5], "--prec", argv[2], "--index", "0", "--qcd", "4", "--lsize", "6", "--llcf", "30"});
	cfg = vh::fmt("%s-%s-%zux%zu-np%d-t%d", argv[1], argv[2], N, T, np, omp_get_max_threads());
	C->SetMink(false); C->SetFrw(1.0); C->SetLambda(30.0); C->SetLamZ2Exp(0.0); C->SetIndi3(1.1); C->SetQcdExp(3.0); C->SetPhysSize(7.0); C->SetQcdPot(V_QCD1_PQ1);
	FieldType t = argv[1][0] == 's' || (argv[1][0] == 'p' && argv[1][1] == 's') ? FIELD_SAXION : FIELD_AXION;
	F = vh::field(C, N, Lz, pr, t, np, 1, LAMBDA_FIXED); *F->zV() = 1.3; F->updateR(); g.init(F, N, Lz, np, 1, pr, t); L0 = C->PhysSize(); R = *F->RV();
	auto modes = allModes(step);
	switch (argv[1][0]) {
		case 'c': counts(); break;
		case 'p': for (size_t i = 0; i < modes.size(); i++) pspec(&modes[i], i % 4, i % 5 ? -1 : 11); for (int v = 0; v < 4; v++) for (int n : {-1, 1, 5, 30}) pspec(nullptr, v, n); break;
		case 'a':
			for (size_t i = 0; i < modes.size(); i++) axspec(&modes[i], i, i % 3 ? SPMASK_FLAT : SPMASK_AXIT2, NRUN_KGVS, i % 5 ? -1 : 11);
			for (auto k : {SPMASK_FLAT, SPMASK_AXIT2}) for (int w = 1; w < 16; w++) axspec(nullptr, w, k, w, w % 2 ? -1 : 9);
			break;
		case 's':
			for (size_t i = 0; i < modes.size(); i++) sxspec(&modes[i], i, i % 4 ? SPMASK_FLAT : i % 8 ? SPMASK_REDO : i % 16 ? SPMASK_VIL : SPMASK_VIL2, i % 3 ? NRUN_KGV : NRUN_CK | NRUN_CG | NRUN_CV, i % 5 ? -1 : 11, i % 2);
			for (auto k : {SPMASK_FLAT, SPMASK_REDO, SPMASK_VIL, SPMASK_VIL2}) for (int w : {NRUN_K, NRUN_G, NRUN_V, NRUN_KG, NRUN_KGV, NRUN_CK, NRUN_CG, NRUN_CV, NRUN_CK | NRUN_CG | NRUN_CV}) for (int tr = 0; tr < 2; tr++) sxspec(nullptr, w, k, w, w % 2 ? -1 : 9, tr);
			break;
	}
	vh::quit();
}
