// P08: every plan applied to a basis of inputs (a delta at every point of the lattice), and every short history of
// planning, replacing, removing and running plans and of creating and deleting fields.
#include "gfield.h"
#include "fft/fftCode.h"
#include "scalar/fourier.h"
#include "utils/parse.h"
#include <fftw3-mpi.h>
extern bool fpectral;
void resetPropagator(Scalar *) {}
using namespace AxionFFT;
static std::string cfg; static size_t N = 8, Lz, T; static int np;
enum Ptr { M, MC, V, M2, M2S, M2H };
struct Kind { FFTtype t; bool real, trans; Ptr i, o, bi, bo; FieldType f; const char *name; };
static const Kind KD[] = {
	{FFT_CtoC_MtoM, 0, 1, M, M, M, M, FIELD_SAXION, "CtoC_MtoM"}, {FFT_CtoC_VtoV, 0, 1, V, V, V, V, FIELD_SAXION, "CtoC_VtoV"}, {FFT_CtoC_M2toM2, 0, 1, M2, M2, M2, M2, FIELD_SAXION, "CtoC_M2toM2"},
	{FFT_CtoC_MtoM2, 0, 0, M, M2, M2, M, FIELD_SAXION, "CtoC_MtoM2"}, {FFT_CtoC_VtoM2, 0, 0, V, M2, M2, V, FIELD_SAXION, "CtoC_VtoM2"}, {FFT_CtoC_M2toM, 0, 1, M2, M, M, M2, FIELD_SAXION, "CtoC_M2toM"},
	{FFT_RDSX_V, 0, 1, V, M2, M2, M2, FIELD_SAXION, "RDSX_V"}, {FFT_SPSX, 0, 1, M, M2, M2, M2, FIELD_SAXION, "SPSX"}, {FFT_RDSX_M, 0, 1, M, M2, M2, M2, FIELD_SAXION, "RDSX_M"},
	{FFT_SPAX, 1, 1, M2, M2, M2, M2, FIELD_AXION, "SPAX"}, {FFT_PSPEC_AX, 1, 1, M2, M2, M2, M2, FIELD_AXION, "PSPEC_AX"}, {FFT_PSPEC_AX, 1, 1, M2, M2, M2, M2, FIELD_SAXION, "PSPEC_AX/saxion"}, {FFT_RHO_SX, 1, 1, M2H, M2H, M2H, M2H, FIELD_SAXION, "RHO_SX"},
	{FFT_RtoC_M2StoM2S, 1, 1, M2S, M2S, M2S, M2S, FIELD_AXION, "RtoC_M2StoM2S"}, {FFT_RtoC_MtoM_WKB, 1, 1, MC, MC, MC, MC, FIELD_AXION, "RtoC_MtoM_WKB"}, {FFT_RtoC_VtoV_WKB, 1, 1, V, V, V, V, FIELD_AXION, "RtoC_VtoV_WKB"},
	{FFT_RtoC_M2toM2_WKB, 1, 1, M2, M2, M2, M2, FIELD_AXION, "RtoC_M2toM2_WKB"}, {FFT_RtoC_M2toM, 1, 1, M2, MC, MC, M2, FIELD_AXION, "RtoC_M2toM"}, {FFT_RtoC_M2toV, 1, 1, M2, V, V, M2, FIELD_AXION, "RtoC_M2toV"}};
static const int NK = sizeof KD / sizeof *KD;
static char *ptr(Scalar *F, Ptr p) { return (char *) (p == M ? F->mStart() : p == MC ? F->mCpu() : p == V ? F->vCpu() : p == M2 ? F->m2Cpu() : p == M2S ? F->m2Start() : F->m2half()); }
static FieldPrecision pr; static LD eps() { return pr == FIELD_SINGLE ? 2e-6L : 4e-15L; }
static double get(const char *p, size_t i) { return pr == FIELD_SINGLE ? (double) ((const float *) p)[i] : ((const double *) p)[i]; }
static void set(char *p, size_t i, double x) { if (pr == FIELD_SINGLE) ((float *) p)[i] = x; else ((double *) p)[i] = x; }

// the lattice of a plan (n points in x and y, t in z) and its exact transform
struct Lat {
	size_t n, t; std::vector<cl> wn, wt;
	Lat(size_t n_, size_t t_) : n(n_), t(t_), wn(n_), wt(t_) { for (size_t i = 0; i < n; i++) wn[i] = std::polar((LD) 1, -2 * acosl(-1) * i / n); for (size_t i = 0; i < t; i++) wt[i] = std::polar((LD) 1, -2 * acosl(-1) * i / t); }
	size_t vol() const { return n * n * t; }
	// calls f(local index, kx, ky, kz) for every mode of this rank
	template<class Fn> void modes(bool real, bool trans, Fn f) const
	{
		size_t nx = real ? n / 2 + 1 : n, r = commRank(), i = 0;
		if (trans) for (size_t y = r * n / np; y < (r + 1) * n / np; y++) for (size_t z = 0; z < t; z++) for (size_t x = 0; x < nx; x++) f(i++, x, y, z);
		else for (size_t z = r * t / np; z < (r + 1) * t / np; z++) for (size_t y = 0; y < n; y++) for (size_t x = 0; x < nx; x++) f(i++, x, y, z);
	}
};
struct Src { std::vector<std::pair<size_t, cl>> d; }; // a sum of deltas (x + n*(y + n*z), amplitude)
static void putIn(const Lat &L, bool real, char *p, const Src &s)
{
	size_t lz = L.t / np, pad = real ? L.n + 2 : L.n, r = commRank(), tot = pad * L.n * lz * (real ? 1 : 2);
	for (size_t i = 0; i < tot; i++) set(p, i, 0);
	if (real) for (size_t j = 0; j < L.n * lz; j++) { set(p, j * pad + L.n, 7e30); set(p, j * pad + L.n + 1, -7e30); } // whatever is in the padding must not matter
	for (auto &q : s.d) { size_t x = q.first % L.n, y = q.first / L.n % L.n, z = q.first / L.n / L.n; if (z / lz != r) continue; size_t i = x + pad * (y + L.n * (z % lz)); if (real) set(p, i, q.second.real()); else { set(p, 2 * i, q.second.real()); set(p, 2 * i + 1, q.second.imag()); } }
}
static bool isOut(const Lat &L, bool real, bool trans, const char *p, const Src &s, LD scale, std::string &why)
{
	bool ok = true; LD amp = 0; for (auto &q : s.d) amp += std::abs(q.second);
	L.modes(real, trans, [&](size_t i, size_t kx, size_t ky, size_t kz) {
		if (!ok) return;
		cl e = 0; for (auto &q : s.d) { size_t x = q.first % L.n, y = q.first / L.n % L.n, z = q.first / L.n / L.n; e += q.second * L.wn[kx * x % L.n] * L.wn[ky * y % L.n] * L.wt[kz * z % L.t]; }
		e *= scale; cl g(get(p, 2 * i), get(p, 2 * i + 1));
		if (!(std::abs(g - e) <= eps() * amp * scale * 4)) { ok = false; why = vh::fmt("mode (%zu,%zu,%zu) is (%.9g,%.9g), should be (%.9Lg,%.9Lg)", kx, ky, kz, (double) g.real(), (double) g.imag(), e.real(), e.imag()); }
	});
	return ok;
}
static bool isIn(const Lat &L, bool real, const char *p, const Src &s, LD scale, std::string &why, bool padded = true)
{
	size_t lz = L.t / np, pad = real && padded ? L.n + 2 : L.n, r = commRank(); LD amp = 0; for (auto &q : s.d) amp += std::abs(q.second);
	for (size_t z = 0; z < lz; z++) for (size_t y = 0; y < L.n; y++) for (size_t x = 0; x < L.n; x++) {
		size_t i = x + pad * (y + L.n * z), k = x + L.n * (y + L.n * (z + r * lz)); cl e = 0; for (auto &q : s.d) if (q.first == k) e += q.second;
		e *= scale; if (real) e = e.real(); cl g = real ? cl(get(p, i), 0) : cl(get(p, 2 * i), get(p, 2 * i + 1));
		if (!(std::abs(g - e) <= eps() * amp * scale * 8)) { why = vh::fmt("point (%zu,%zu,%zu) is (%.9g,%.9g), should be (%.9Lg,%.9Lg)", x, y, z + r * lz, (double) g.real(), (double) g.imag(), e.real(), e.imag()); return false; }
	}
	return true;
}
// every byte of the field's arrays outside the ranges a transform works on
struct Guard {
	Scalar *F; std::vector<char> m, v, m2; char *pm, *pv, *p2;
	size_t bm, bv, b2;
	Guard(Scalar *f) : F(f) { pm = (char *) f->mCpu(); pv = (char *) f->vCpu(); p2 = (char *) f->m2Cpu(); bm = f->eSize() * f->DataSize(); bv = f->Size() * f->DataSize(); b2 = f->Field() == FIELD_SAXION ? bm : 2 * bm; }
	void mark() { memset(pm, 0x3b, bm); memset(pv, 0x3c, bv); memset(p2, 0x3d, b2); }
	void snap() { m.assign(pm, pm + bm); v.assign(pv, pv + bv); m2.assign(p2, p2 + b2); }
	const char *changed(std::vector<std::pair<char *, size_t>> allow)
	{
		auto scan = [&](char *p, const std::vector<char> &old) { for (size_t i = 0; i < old.size(); i++) if (p[i] != old[i]) { bool a = false; for (auto &q : allow) a |= p + i >= q.first && p + i < q.first + q.second; if (!a) return true; } return false; };
		return scan(pm, m) ? "m" : scan(pv, v) ? "v" : scan(p2, m2) ? "m2" : nullptr;
	}
};
static std::vector<Src> basis(const Lat &L, bool real, size_t step)
{
	std::vector<Src> b; for (size_t k = 0; k < L.vol(); k += step) { b.push_back({{{k, cl(1, 0)}}}); if (!real) b.push_back({{{k, cl(0, 1)}}}); }
	Src g; for (size_t k = 0; k < L.vol(); k++) g.d.push_back({k, cl((float) h01(k * 2 + 9), real ? 0 : (float) h01(k * 2 + 10))}); b.push_back(g);
	return b;
}
static void plans(Cosmos *C, const Kind &K, size_t red, size_t step)
{
	Lat L(N / red, T / red);
	Scalar *F = vh::field(C, N, Lz, pr, K.f, np, 1); Guard G(F);
	initPlan(F, K.t, FFT_FWDBCK, "t", red);
	size_t lz = L.t / np, rb = (K.real ? (L.n + 2) : 2 * L.n) * L.n * lz * pr;
	long i = 0;
	for (auto &s : basis(L, K.real, step)) {
		std::string nm = vh::fmt("input%ld", i++), why; char *in = ptr(F, K.i), *out = ptr(F, K.o);
		G.mark(); putIn(L, K.real, in, s); G.snap();
		fetchPlan("t").run(FFT_FWD);
		if (!isOut(L, K.real, K.trans, out, s, 1, why)) vh::fail(cfg + ":forward", "%s (delta at %zu): %s", nm.c_str(), s.d[0].first, why.c_str());
		if (const char *c = G.changed({{out, rb}})) vh::fail(cfg + ":forward-touched", "%s: the transform changed %s outside its output", nm.c_str(), c);
		vh::eval(cfg + " forward " + nm);
		if (K.bi != K.o) continue;
		G.snap(); out = ptr(F, K.bo);
		fetchPlan("t").run(FFT_BCK);
		if (!isIn(L, K.real, out, s, L.vol(), why)) vh::fail(cfg + ":backward", "%s (delta at %zu): %s", nm.c_str(), s.d[0].first, why.c_str());
		if (const char *c = G.changed({{out, rb}, {ptr(F, K.bi), rb}})) vh::fail(cfg + ":backward-touched", "%s: the transform changed %s outside its output", nm.c_str(), c);
		vh::eval(cfg + " backward " + nm);
	}
	delete F;
}
static bool once(Scalar *F, const Lat &L, const Kind &K, const char *name, int seed, std::string &why, bool back = true)
{
	Src s; for (size_t k = seed % 5; k < L.vol(); k += 11 + seed % 7) s.d.push_back({k, cl(1 + k % 3, K.real ? 0 : (double) (k % 2) - .5)});
	putIn(L, K.real, ptr(F, K.i), s); fetchPlan(name).run(FFT_FWD);
	if (!isOut(L, K.real, K.trans, ptr(F, K.o), s, 1, why)) { why = "forward: " + why; return false; }
	if (!back) { Guard G(F); G.snap(); fetchPlan(name).run(FFT_BCK); if (G.changed({})) { why = "running it in a direction it was not made for changed the field"; return false; } return true; }
	fetchPlan(name).run(FFT_BCK); // all kinds used here transform back from where the forward one left the modes
	if (!isIn(L, K.real, ptr(F, K.bo), s, L.vol(), why)) { why = "backward: " + why; return false; }
	return true;
}
static const Kind &kind(FFTtype t) { for (auto &k : KD) if (k.t == t) return k; abort(); }
static void histories(Cosmos *C, int depth)
{
	// operations: 0-5 plan a or b as one of three kinds (the last one in one direction only), 6-7 remove a or b, 8-9 run a or b
	Scalar *F = vh::field(C, N, Lz, pr, FIELD_SAXION, np, 1); Lat L(N, T); Guard G(F);
	static const FFTtype KT[] = {FFT_CtoC_MtoM2, FFT_CtoC_VtoV, FFT_RHO_SX}; static const char *NM[] = {"a", "b"};
	long tot = 1; for (int i = 0; i < depth; i++) tot *= 10;
	for (long h = 0; h < tot; h++) {
		long k = h; int st[2] = {-1, -1}; std::string why, nm; bool runs = false, bad = false;
		std::vector<int> op; for (int i = 0; i < depth; i++, k /= 10) op.push_back(k % 10);
		if (op.back() < 8) continue; // only what a run shows can be observed; shorter histories are prefixes padded with runs
		for (int o : op) nm += vh::fmt("%d", o);
		for (int i = 0; i < depth && !bad; i++) {
			int o = op[i];
			if (o < 6) { initPlan(F, KT[o % 3], o % 3 == 2 ? FFT_FWD : FFT_FWDBCK, NM[o / 3]); if (st[o / 3] < 0) st[o / 3] = o % 3; }
			else if (o < 8) { removePlan(NM[o - 6]); st[o - 6] = -1; }
			else {
				int w = o - 8;
				if (st[w] >= 0) bad = !once(F, L, kind(KT[st[w]]), NM[w], h + i, why, st[w] < 2);
				else { G.mark(); G.snap(); fetchPlan(NM[w]).run(FFT_FWD); fetchPlan(NM[w]).run(FFT_BCK); if (G.changed({})) { bad = true; why = "running a plan that was never made changed the field"; } }
			}
			if (bad) vh::fail(cfg + ":history", "history %s, operation %d: %s", nm.c_str(), i, why.c_str());
		}
		// every plan that should exist still works
		for (int w = 0; w < 2 && !bad; w++) { if (st[w] >= 0 && !once(F, L, kind(KT[st[w]]), NM[w], h + 3, why, st[w] < 2)) vh::fail(cfg + ":history-end", "history %s, plan %s afterwards: %s", nm.c_str(), NM[w], why.c_str()); }
		removePlan("a"); removePlan("b");
		vh::eval(cfg + " history " + nm);
	}
	delete F;
}
static void lives(Cosmos *C, int depth)
{
	// fields created one after the other, of every type and precision, each with the plans its constructor makes
	long tot = 1; for (int i = 0; i < depth; i++) tot *= 4;
	Lat L(N, T);
	for (long h = 0; h < tot; h++) {
		long k = h; std::string nm, why;
		for (int i = 0; i < depth; i++, k /= 4) {
			pr = k & 1 ? FIELD_DOUBLE : FIELD_SINGLE; FieldType t = k & 2 ? FIELD_AXION : FIELD_SAXION; nm += vh::fmt("%s-%s ", vh::fname(t), vh::pname(pr));
			Scalar *F = vh::field(C, N, Lz, pr, t, np, 1);
			std::vector<std::pair<const char *, FFTtype>> P = {{"pSpecAx", FFT_PSPEC_AX}}; if (t == FIELD_SAXION) { P.push_back({"SpSx", FFT_SPSX}); P.push_back({"RdSxV", FFT_RDSX_V}); }
			for (auto &q : P) if (!once(F, L, kind(q.second), q.first, h, why)) vh::fail(cfg + ":life", "fields %s: plan %s: %s", nm.c_str(), q.first, why.c_str());
			if (k & 4) { initPlan(F, FFT_PSPEC_AX, FFT_FWDBCK, "again"); if (!once(F, L, kind(FFT_PSPEC_AX), "again", h, why)) vh::fail(cfg + ":life", "fields %s: new plan: %s", nm.c_str(), why.c_str()); }
			delete F;
		}
		vh::eval(cfg + " fields " + nm);
	}
}
static void ftfields(Cosmos *C, FieldType t, size_t step)
{
	fpectral = true; Scalar *F = vh::field(C, N, Lz, pr, t, np, 1); Lat L(N, T); bool real = t == FIELD_AXION; GField g; g.init(F, N, Lz, np, 1, pr, t);
	auto S = basis(L, real, step); FTfield ft(F);
	Ptr om = real ? MC : M; LD s1 = 1.L / L.vol();
	for (size_t i = 0; i < S.size(); i++) {
		const Src &a = S[i], &b = S[(i * 7 + 3) % S.size()]; bool folded = i % 3 == 1; std::string nm = vh::fmt("input%zu%s", i, folded ? " folded" : ""), why;
		auto load = [&](bool f) { for (auto *x : {&g.m, &g.v}) std::fill(x->begin(), x->end(), cl(0)); for (auto &q : a.d) g.m[q.first] = q.second; for (auto &q : b.d) g.v[q.first] = q.second; g.put(f, true); F->setMMomSpace(false); F->setVMomSpace(false); };
		auto fail = [&](const char *w) { vh::fail(cfg + ":" + w, "%s (deltas at %zu and %zu): %s", nm.c_str(), a.d[0].first, b.d[0].first, why.c_str()); };
		int how = i % 4; // both together, one after the other in either order, twice
		load(folded);
		if (how == 0) ft(FIELD_MV, FFT_FWD); else if (how == 1) { ft(FIELD_M, FFT_FWD); ft(FIELD_V, FFT_FWD); } else if (how == 2) { ft(FIELD_V, FFT_FWD); ft(FIELD_MV, FFT_FWD); } else { ft(FIELD_MV, FFT_FWD); ft(FIELD_MV, FFT_FWD); }
		if (!F->MMomSpace() || !F->VMomSpace() || F->Folded()) vh::fail(cfg + ":flags", "%s: after the transform the field is flagged %d %d folded %d", nm.c_str(), F->MMomSpace(), F->VMomSpace(), F->Folded());
		if (!isOut(L, real, true, ptr(F, om), a, s1, why)) fail("M"); if (!isOut(L, real, true, ptr(F, V), b, s1, why)) fail("V");
		ft(FIELD_MTOM2, FFT_BCK); if (!isIn(L, real, ptr(F, M2), a, 1, why)) fail("MTOM2");
		// what is needed again after a transform of a real field into m2 is read from m, so the modes must have been kept
		if (!real && !isOut(L, real, true, ptr(F, om), a, s1, why)) fail("M-after-MTOM2");
		if (real) { load(false); ft(FIELD_MV, FFT_FWD); }
		if (how == 1) { ft(FIELD_V, FFT_BCK); ft(FIELD_M, FFT_BCK); } else if (how == 2) { ft(FIELD_MV, FFT_BCK); ft(FIELD_MV, FFT_BCK); } else ft(FIELD_MV, FFT_BCK);
		if (F->MMomSpace() || F->VMomSpace() || F->Folded()) vh::fail(cfg + ":flags", "%s: after the inverse transform the field is flagged %d %d folded %d", nm.c_str(), F->MMomSpace(), F->VMomSpace(), F->Folded());
		if (!isIn(L, real, ptr(F, M), a, 1, why, false)) fail("M-back"); if (!isIn(L, real, ptr(F, V), b, 1, why, false)) fail("V-back");
		putIn(L, real, ptr(F, M2), a); ft(FIELD_M2TOM2, FFT_FWD); if (!isOut(L, real, true, ptr(F, M2), a, s1, why)) fail("M2");
		if (!isIn(L, real, ptr(F, M), a, 1, why, false) || !isIn(L, real, ptr(F, V), b, 1, why, false)) fail("M2-kept");
		vh::eval(cfg + " field " + nm);
	}
	delete F;
}
int main(int argc, char **argv)
{
	// what precision np depth planner ...
	np = atoi(argv[3]); Lz = atoi(argv[4]); T = Lz * np; pr = !strcmp(argv[2], "single") ? FIELD_SINGLE : FIELD_DOUBLE;
	Cosmos *C = vh::start({"--size", "8", "--depth", argv[4], "--zgrid", argv[3], "--index", "0", "--fftplan", argv[5]});
	cfg = vh::fmt("%s-%s-np%d-t%d-z%zu-plan%s", argv[1], argv[2], np, omp_get_max_threads(), T, argv[5]); std::string c0 = cfg;
	switch (argv[1][0]) {
		case 'p': for (int k = 0; k < NK; k++) for (size_t red : {1, 2}) { if (red == 2 && KD[k].t != FFT_PSPEC_AX) continue; cfg = c0 + "-" + KD[k].name + (red == 2 ? "-reduced" : ""); plans(C, KD[k], red, atoi(argv[6])); } break;
		case 'h': histories(C, atoi(argv[6])); break;
		case 'l': lives(C, atoi(argv[6])); break;
		case 'f': for (FieldType t : {FIELD_SAXION, FIELD_AXION}) { cfg = c0 + "-" + vh::fname(t); ftfields(C, t, atoi(argv[6])); } break;
	}
	vh::quit();
}
