// P14: configurations written and read back by the real code, in every combination of physical parameters, by
// different numbers of processes. `w` writes the files of one directory, `r` reads them.
#include "gfield.h"
#include "utils/parse.h"
#include "io/readWrite.h"
#include "fft/fftCode.h"
#include "scalar/fourier.h"
#include <hdf5.h>
Cosmos createCosmos();
extern bool fpectral, uQcd, uLambda, uMsa, uI3, uPot, uGamma, uZth, uZrs, uSize, uFR, uMI;
extern double nQcd, LL, lz2e, indi3, gammo, zthres, zrestore, sizeL, frw; extern VqcdType vqcdType;
void resetPropagator(Scalar *) {}
static std::string cfg; static const size_t N = 16, T = 12;
struct Par { // everything a file holds about the k-th configuration
	FieldType type; FieldPrecision prec; double z, frw, L, lambda, lz, nq, nq2, i3, zth, zrs, gam, zi, zf, mode, al, kc; int pot; LambdaType lt; ConfType ct; ConfsubType sm; size_t km, it; bool restart; bool mom;
};
static Par par(int k, FieldType t, FieldPrecision p)
{
	Par q; q.type = t; q.prec = p; q.mom = false;
	static const int QC[] = {V_QCD1, V_QCD0, V_QCDV, V_QCD2, V_QCDL, V_QCDC}, PQ[] = {V_PQ1, V_PQ2, V_PQ3}, DA[] = {0, V_DAMP_RHO, V_DAMP_ALL}, EV[] = {0, V_EVOL_RHO, V_EVOL_THETA};
	static const ConfType CT[] = {CONF_SMOOTH, CONF_KMAX, CONF_VILGOR, CONF_LOLA, CONF_COLE, CONF_TKACHEV};
	static const ConfsubType SM[] = {CONF_RAND, CONF_STRINGXY, CONF_STRINGYZ, CONF_MINICLUSTER, CONF_MINICLUSTER0, CONF_AXNOISE, CONF_SAXNOISE, CONF_AX1MODE, CONF_PARRES, CONF_STRWAVE};
	static const double FR[] = {1., .6, 2., 0.};
	int c = k % 162; q.pot = QC[c % 6] | PQ[c / 6 % 3] | DA[c / 18 % 3] | EV[c / 54 % 3];
	auto h = [&](int j) { return h01(k * 131 + j); };
	q.frw = FR[k % 4]; q.z = .6 + h(1) * 3; q.L = 3 + h(2); q.lambda = 100 * h(3); q.lt = k % 3 ? LAMBDA_Z2 : LAMBDA_FIXED; q.lz = q.lt == LAMBDA_Z2 ? .5 + 2 * h(4) : 0.;
	q.nq = 7 * h(5); q.nq2 = 3 * h(6); q.i3 = k % 7 == 3 && (q.pot & V_QCD0) ? 0. : .2 + h(7); q.zth = k % 2 ? 1e3 * h(8) : 1 + h(8); q.zrs = q.zth * (1 + h(9)); q.gam = k % 5 ? .3 * h(10) : 0.;
	q.zi = .1 + h(11); q.zf = 5 + h(12); q.mode = h(13); q.al = h(14); q.kc = 1 + h(15); q.ct = CT[k % 6]; q.sm = SM[k % 10]; q.km = 1 + k % 9; q.it = k % 11; q.restart = k % 17 == 5;
	return q;
}
static void fill(GField &g, int k) { for (size_t i = 0; i < g.m.size(); i++) { g.m[i] = cl(h01(i * 4 + k * 7919) * 8 - 4, h01(i * 4 + 1 + k * 7919) * 8 - 4); g.v[i] = cl(h01(i * 4 + 2 + k * 7919) * 8 - 4, h01(i * 4 + 3 + k * 7919) * 8 - 4); } g.round(); }

static void eq(const char *what, double a, double b, const std::string &name) { if (!(a == b)) vh::fail(cfg + ":" + what, "%s: %s is %.17g, should be %.17g", name.c_str(), what, a, b); }
static void same(GField &g, const char *what, const std::string &name, bool other, LD tol = 0)
{
	for (size_t i = 0; i < g.S * g.Lz; i++) for (int f = 0; f < 2; f++) {
		cl a = g.load(f ? g.F->vStart() : g.F->mStart(), i), b = f ? g.v[g.off() + i] : g.m[g.off() + i];
		if (other && g.F->Precision() == FIELD_SINGLE) b = cl((float) b.real(), (float) b.imag());
		if (!(std::abs(a - b) <= tol)) { vh::fail(cfg + ":" + what, "%s: %s at (%zu,%zu,%zu) is (%.9Lg,%.9Lg), should be (%.9Lg,%.9Lg)", name.c_str(), f ? "velocity" : "field", i % N, i / N % N, (g.off() + i) / g.S, a.real(), a.imag(), b.real(), b.imag()); return; }
	}
}
static void file(GField &g, const char *base, const std::string &name, LD tol)
{	// the raw data, read without the code under test
	if (commRank()) return;
	hid_t f = H5Fopen(base, H5F_ACC_RDONLY, H5P_DEFAULT);
	if (f < 0) { vh::fail(cfg + ":file", "%s: no file %s", name.c_str(), base); return; }
	for (int w = 0; w < 2; w++) {
		hid_t d = H5Dopen(f, w ? "/v" : "/m", H5P_DEFAULT), s = d < 0 ? -1 : H5Dget_space(d); size_t n = g.S * g.T * (g.cplx ? 2 : 1);
		if (d < 0 || (size_t) H5Sget_simple_extent_npoints(s) != n) { vh::fail(cfg + ":file", "%s: dataset %d has a wrong size", name.c_str(), w); if (d >= 0) { H5Sclose(s); H5Dclose(d); } continue; }
		std::vector<double> b(n); H5Dread(d, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, b.data()); H5Sclose(s);
		hid_t ty = H5Dget_type(d); if (H5Tget_size(ty) != (size_t) g.prec) vh::fail(cfg + ":file", "%s: element size %zu", name.c_str(), H5Tget_size(ty)); H5Tclose(ty); H5Dclose(d);
		for (size_t i = 0; i < g.S * g.T; i++) {
			cl c = g.cplx ? cl(b[2 * i], b[2 * i + 1]) : cl(b[i], 0), e = w ? g.v[i] : g.m[i]; if (!g.cplx) e = e.real();
			if (!(std::abs(c - e) <= tol)) { vh::fail(cfg + ":file", "%s: %s in the file at (%zu,%zu,%zu) is (%.9Lg,%.9Lg), should be (%.9Lg,%.9Lg)", name.c_str(), w ? "velocity" : "field", i % N, i / N % N, i / g.S, c.real(), c.imag(), e.real(), e.imag()); break; }
		}
	}
	H5Fclose(f);
}
static const FieldType TY[] = {FIELD_SAXION, FIELD_AXION, FIELD_AXION_MOD, FIELD_PAXION};
static std::string path(const Par &q, int k) { return q.restart ? vh::fmt("%s/%s.restart", outDir, outName) : vh::fmt("%s/%s.%05d", outDir, outName, k); }

int main(int argc, char **argv)
{
	// w|r type prec np Ng variants reads
	bool w = argv[1][0] == 'w'; FieldType t = TY[atoi(argv[2])]; FieldPrecision p = !strcmp(argv[3], "single") ? FIELD_SINGLE : FIELD_DOUBLE; int np = atoi(argv[4]); size_t Ng = atoi(argv[5]), Lz = T / np; int nv = atoi(argv[6]);
	Cosmos *C = vh::start({"--size", "16", "--depth", vh::fmt("%zu", Lz), "--zgrid", argv[4], "--index", "0", "--lap", argv[5]});
	cfg = vh::fmt("%s-%s-%s-np%d-t%d-Ng%zu", argv[1], vh::fname(t), argv[3], np, omp_get_max_threads(), Ng);
	fpectral = w && t != FIELD_PAXION;
	std::string dir0 = outDir;
	if (w) {
		Scalar *F = nullptr;
		for (int k = 0; k < nv; k++) {
			Par q = par(k, t, p); std::string name = vh::fmt("write%d", k);
			if (!F) F = vh::field(C, N, Lz, p, t, np, Ng);
			GField g; g.init(F, N, Lz, np, Ng, p, t); fill(g, k);
			C->SetFrw(q.frw); C->SetMink(q.frw == 0); C->SetPhysSize(q.L); C->SetLambda(q.lambda); C->SetLamZ2Exp(q.lz); C->SetQcdExp(q.nq); C->SetQcdExpr(q.nq2); C->SetIndi3(q.i3); C->SetZThRes(q.zth); C->SetZRestore(q.zrs); C->SetGamma(q.gam); C->SetQcdPot((VqcdType) q.pot);
			F->setLambdaT(q.lt); *F->zV() = q.z; F->updateR();
			zInit = q.zi; zFinl = q.zf; cType = q.ct; smvarType = q.sm; mode0 = q.mode; alpha = q.al; kCrit = q.kc; kMax = q.km; iter = q.it;
			bool folded = t != FIELD_PAXION && k % 2, mom = false;
			g.put(folded);
			std::string b = path(q, k); strcpy(outDir, dir0.c_str()); if (q.restart) { strcpy(outDir, vh::fmt("%s/r%d", dir0.c_str(), k).c_str()); b = path(q, k); }
			writeConf(F, k, q.restart);
			strcpy(outDir, dir0.c_str());
			commSync();
			file(g, b.c_str(), name, 0);
			g.refold(false); same(g, "kept", name, false);
			if (*F->zV() != q.z || F->Field() != t) vh::fail(cfg + ":kept", "%s: writing changed the field's time or type", name.c_str());
			vh::eval(cfg + " " + name);
		}
		// in momentum space
		if (t != FIELD_PAXION) {
			for (int k = nv; k < nv + 3; k++) {
				GField g; g.init(F, N, Lz, np, Ng, p, t); fill(g, k); g.put(false); std::string name = vh::fmt("momentum%d", k);
				FTfield ft(F); ft(k == nv + 1 ? FIELD_M : k == nv + 2 ? FIELD_V : FIELD_MV, FFT_FWD);
				writeConf(F, k, false); commSync();
				LD tol = p == FIELD_SINGLE ? 1e-5L : 1e-13L;
				file(g, vh::fmt("%s/%s.%05d", outDir, outName, k).c_str(), name, tol); g.refold(false); same(g, "kept", name, false, tol);
				vh::eval(cfg + " " + name);
			}
		}
		vh::quit();
	}
	int rounds = atoi(argv[7]);
	for (int k = 0; k < nv; k++) for (int o = 0; o < rounds; o++) {
		Par q = par(k, t, p); int ov = o ? k * rounds + o : 0; // o = 0: nothing on the command line; afterwards a different set of options each time
		std::string name = vh::fmt("read%d.%d", k, o);
		uPrec = ov & 1; sPrec = uPrec ? (k & 1 ? FIELD_SINGLE : FIELD_DOUBLE) : FIELD_SINGLE; FieldPrecision pr = uPrec ? sPrec : p;
		// one parameter at a time from the command line, and every fourth time none
		int which = o ? (k + o * 5) % 16 : 15;
		uZin = which == 0; uZfn = which == 1; uQcd = which == 2; uLambda = which == 3; uI3 = which == 4; uPot = which == 5; uGamma = which == 6; uZth = which == 7; uZrs = which == 8; uSize = which == 9; uFR = which == 10; uMsa = which == 11; uMI = which == 12;
		fTypeP = t; fIndex = k; zInit = -5; zFinl = 77; cType = CONF_NONE; smvarType = CONF_MINICLUSTER; mode0 = alpha = kCrit = -3; kMax = iter = 99; lType = LAMBDA_Z2;
		nQcd = 2.25; LL = 4321; lz2e = 1.25; indi3 = .875; gammo = .0625; zthres = 17; zrestore = 1e9; sizeL = 6.5; frw = which == 12 ? 0. : 1.5; vqcdType = V_QCD2_PQ1; mink = true;
		if (which == 12) uFR = true;
		Cosmos c = createCosmos(); c.ICData().zi = .375; c.ICData().Nghost = Ng;
		Scalar *F = nullptr;
		if (q.restart) strcpy(outDir, vh::fmt("%s/r%d", dir0.c_str(), k).c_str());
		if (q.restart && uZin) uZin = false; // a restart continues at the stored time
		readConf(&c, &F, q.restart ? 4711 : k, q.restart);
		strcpy(outDir, dir0.c_str());
		if (!F) { vh::fail(cfg + ":read", "%s: nothing read", name.c_str()); continue; }
		double z = uZin ? .375 : q.z, fr = uFR ? frw : q.frw;
		if (F->Field() != t || F->Precision() != pr || F->Length() != N || F->Depth() != Lz || F->Folded()) vh::fail(cfg + ":shape", "%s: type %d precision %d size %zu %zu folded %d", name.c_str(), (int) F->Field(), (int) F->Precision(), F->Length(), F->Depth(), F->Folded());
		else { GField g; g.init(F, N, Lz, np, Ng, p, t); fill(g, k); g.prec = pr; same(g, "data", name, true); }
		eq("z", *F->zV(), z, name); eq("R", *F->RV(), c.R(z), name); eq("frw", c.Frw(), fr, name); eq("mink", c.Mink(), fr == 0, name);
		if (fr != 0 && c.ICData().grav == 0 && fabs(c.R(z) - pow(z, fr)) > 1e-12 * c.R(z)) vh::fail(cfg + ":R", "%s: R(%g) is %g", name.c_str(), z, c.R(z));
		eq("L", c.PhysSize(), uSize ? sizeL : q.L, name); eq("lambda", c.Lambda(), uLambda || uMsa ? LL : q.lambda, name);
		if (!uLambda && !uMsa) { eq("lz2e", c.LamZ2Exp(), q.lz, name); eq("lType", F->LambdaT(), q.lt, name); } else eq("lz2e", c.LamZ2Exp(), lz2e, name);
		eq("nQcd", c.QcdExp(), uQcd ? nQcd : q.nq, name); if (!uQcd) eq("nQcd2", c.QcdExpr(), q.nq2, name); eq("indi3", c.Indi3(), uI3 ? indi3 : q.i3, name);
		eq("zThRes", c.ZThRes(), uZth ? zthres : q.zth, name); eq("zRestore", c.ZRestore(), uZrs ? zrestore : q.zrs, name); eq("gamma", c.Gamma(), uGamma ? gammo : q.gam, name);
		int pot = q.pot; if (uPot) pot = V_QCD2_PQ1 | (q.pot & (V_DAMP | V_EVOL)); if (c.Indi3() == 0) pot = (pot & ~V_QCD) | V_QCD0;
		eq("potential", c.QcdPot(), pot, name);
		eq("zInit", zInit, q.zi, name); eq("zFinl", zFinl, uZfn ? 77 : q.zf, name); eq("mode0", mode0, q.mode, name); eq("smvarType", smvarType, q.sm, name); eq("cType", c.ICData().smvarType, q.sm, name);
		if (cType != q.ct) vh::fail(cfg + ":cType", "%s: %d, should be %d", name.c_str(), (int) cType, (int) q.ct);
		if (q.ct == CONF_SMOOTH) { eq("iter", iter, q.it, name); eq("alpha", alpha, q.al, name); } else { eq("kMax", kMax, q.km, name); eq("kCrit", kCrit, q.kc, name); }
		if (q.restart) eq("index", fIndex, k, name);
		vh::eval(cfg + " " + name);
		delete F;
	}
	vh::quit();
}
