// P25: initial conditions. Mode filling, patterns by position, smoothing/normalisation chains and the relation between field and velocity.
#include "fixedrnd.h"
#include "gfield.h"
#include "propref.h"
#include "gen/genConf.h"
#include "gen/momConf.h"
#include "gen/randXeon.h"
#include "scalar/normField.h"
#include "scalar/normCore.h"
#include "utils/parse.h"
#include <unistd.h>
static Cosmos *C; static Scalar *F; static size_t N, T, Lz, Ng, n3; static int np; static FieldPrecision prec; static std::string cfg;
typedef std::vector<cl> Arr;
static LD PI = acosl(-1);
static LD eps() { return prec == FIELD_SINGLE ? 1e-6L : 1e-14L; }
static int sg(size_t k, size_t n) { return k > n / 2 ? (int) k - (int) n : (int) k; }
static cl get(const void *p, size_t i, bool cx)
{
	if (cx) { if (prec == FIELD_SINGLE) { auto q = ((const std::complex<float> *) p)[i]; return cl(q.real(), q.imag()); } auto q = ((const std::complex<double> *) p)[i]; return cl(q.real(), q.imag()); }
	return prec == FIELD_SINGLE ? (LD) ((const float *) p)[i] : (LD) ((const double *) p)[i];
}
static void make(FieldType t = FIELD_SAXION) { F = vh::field(C, N, Lz, prec, t, np, Ng); }
static Arr gather(const void *p, bool cx)
{
	size_t n = N * N * Lz; std::vector<double> a(2 * n), b(2 * n3); for (size_t i = 0; i < n; i++) { cl c = get(p, i, cx); a[2 * i] = c.real(); a[2 * i + 1] = c.imag(); }
	MPI_Allgather(a.data(), 2 * n, MPI_DOUBLE, b.data(), 2 * n, MPI_DOUBLE, MPI_COMM_WORLD); Arr o(n3); for (size_t i = 0; i < n3; i++) o[i] = cl(b[2 * i], b[2 * i + 1]); return o;
}
static Arr dft(Arr b)
{
	for (int dim = 0; dim < 3; dim++) {
		size_t n = dim == 2 ? T : N, st = dim == 0 ? 1 : dim == 1 ? N : N * N; std::vector<cl> w(n), e(n); for (size_t k = 0; k < n; k++) e[k] = cl(cosl(2 * PI * k / n), -sinl(2 * PI * k / n));
		for (size_t i = 0; i < n3; i++) { if (i / st % n) continue; for (size_t k = 0; k < n; k++) { cl s = 0; for (size_t j = 0; j < n; j++) s += b[i + j * st] * e[k * j % n]; w[k] = s; } for (size_t k = 0; k < n; k++) b[i + k * st] = w[k]; }
	}
	for (auto &c : b) c /= (LD) n3; return b;
}
#define BAD(k, ...) vh::fail(cfg + ":" + std::string(k), __VA_ARGS__)
static std::string P(size_t i) { return vh::fmt("(%zu,%zu,%zu)", i % N, i / N % N, i / N / N); }
static void near(const char *k, const std::string &nm, const Arr &a, const Arr &e, const std::vector<LD> &tol)
{
	LD w = -1; size_t at = 0; for (size_t i = 0; i < n3; i++) { LD d = std::abs(a[i] - e[i]) / tol[i]; if (!(d <= w)) { w = d; at = i; if (std::isnan((double) d)) break; } }
	if (!(w <= 1)) BAD(k, "%s: %s at %s is (%.8Lg,%.8Lg), should be (%.8Lg,%.8Lg)", nm.c_str(), k, P(at).c_str(), a[at].real(), a[at].imag(), e[at].real(), e[at].imag());
}
// ---- modes
struct Env { MomConfType t; const char *n; };
static const Env ENV[] = {{MOM_MFLAT, "flat"}, {MOM_MSIN, "sinc"}, {MOM_MVSINCOS, "sincos"}, {MOM_MVTHERMAL, "thermal"}, {MOM_MEXP, "exp"}, {MOM_MEXP2, "exp2"}, {MOM_COLE, "cole"}, {MOM_KCOLE, "kcole"}, {MOM_SPAX, "table"}};
static std::vector<double> tab() { std::vector<double> t; for (size_t i = 0; i < 2 * N + 4; i++) t.push_back(.1 + h01(i * 7 + 3)); return t; }
static void mom()
{
	make();
	for (auto &e : ENV) for (bool cx : {true, false}) for (size_t km : {(size_t) 0, (size_t) 1, (size_t) 2, N / 2 - 1, N}) for (double kc : {1.3, 4.}) for (bool rm : {false, true}) for (double m0 : {0., .7, 10.}) {
		if (rm && m0 < 1) continue;
		MomParms mp; mp.kMax = km; mp.kCrt = kc; mp.mocoty = e.t; mp.mass2 = 3.3; mp.k0 = .9; mp.mfttab = tab(); mp.cmplx = cx; mp.randommom = rm; mp.mp = F->mStart(); mp.vp = F->vStart(); ::mode0 = m0;
		memset(F->mCpu(), 0x7f, F->eSize() * F->DataSize()); memset(F->vCpu(), 0, F->Size() * F->DataSize()); momConf(F, mp);
		std::string nm = cfg + vh::fmt(" %s %s kmax %zu kcr %g %s mode0 %g", e.n, cx ? "complex" : "real", km, kc, rm ? "random" : "fixed", m0);
		size_t mx = cx ? N : N / 2 + 1, ly = N / np, k2 = std::min(km, N / 2 - 1); k2 = 3 * k2 * k2; bool two = e.t == MOM_MVSINCOS || e.t == MOM_MVTHERMAL; LD s2 = 0, v2 = 0; cl ph = 0; size_t cnt = 0; std::vector<double> phs;
		for (size_t oy = 0; oy < ly; oy++) for (size_t oz = 0; oz < T; oz++) for (size_t ox = 0; ox < mx; ox++) {
			int x = sg(ox, N), y = sg(oy + ly * commRank(), N), z = sg(oz, T); size_t p2 = x * x + y * y + z * z, i = ox + mx * (oz + T * oy); cl m = get(F->mStart(), i, true), v = get(F->vStart(), i, true); LD k = sqrtl(p2), q = k / kc, am, av = 0;
			std::string at = vh::fmt("%s mode (%d,%d,%d)", nm.c_str(), x, y, z);
			if (p2 > k2) { if (m != cl(0)) BAD("beyond", "%s above the largest is (%Lg,%Lg)", at.c_str(), m.real(), m.imag()); if (two && v != cl(0)) BAD("beyond-v", "%s above the largest has velocity (%Lg,%Lg)", at.c_str(), v.real(), v.imag()); continue; }
			switch (e.t) {
				case MOM_MFLAT: am = 1; break;
				case MOM_MSIN: am = p2 ? fabsl(sinl(q) / q) : 1; break;
				case MOM_MVSINCOS: am = p2 ? fabsl(sinl(q) / q) : 1; av = p2 ? fabsl(cosl(q) - sinl(q) / q) : 0; break;
				case MOM_MVTHERMAL: { LD w2 = sqrtl(k * k * .81L + 3.3L), n = sqrtl(1 / (expl(w2 / kc) - 1)); am = p2 ? n / sqrtl(w2) : 0; av = p2 ? n * sqrtl(w2) : sqrtl(kc); break; }
				case MOM_MEXP: am = expl(-q); break;
				case MOM_MEXP2: case MOM_KCOLE: am = expl(-q * q); break;
				case MOM_COLE: am = expl(-4 * kc * kc / (N * N) * q * q) / powl(q * q + 1, 1.5L); break;
				default: { auto t = tab(); size_t b = (size_t) k; am = t[b] + (t[b + 1] - t[b]) * (k - b); }
			}
			bool zero = !x && !y && !z;
			if (zero && m0 < 3 && e.t != MOM_SPAX) { cl s = two ? v : m, want(cosl(m0), sinl(m0)); if (std::abs(s - want) > 4 * eps()) BAD("mode0", "%s is (%.8Lg,%.8Lg)", at.c_str(), s.real(), s.imag()); if (two) v = 0; else continue; if (e.t == MOM_MVTHERMAL) continue; }
			LD tol = 40 * eps();
			if (!rm) { if (fabsl(std::abs(m) - am) > tol * (am + tol)) BAD("amplitude", "%s has amplitude %.8Lg, should be %.8Lg", at.c_str(), std::abs(m), am); if (e.t == MOM_MVSINCOS && !zero && fabsl(std::abs(v) - av) > tol * (av + 1)) BAD("amplitude-v", "%s has velocity amplitude %.8Lg, should be %.8Lg", at.c_str(), std::abs(v), av); }
			if (e.t == MOM_MVSINCOS && !zero) { LD sm = sinl(q) / q, sv = cosl(q) - sm; if (std::abs(m * sv - v * sm) > tol * 8 * (std::abs(m) + std::abs(v))) BAD("relation", "%s: velocity is not the derivative of the field", at.c_str()); }
			if (am > 1e-4L && std::abs(m) > 0) { s2 += std::norm(m) / (am * am); cnt++; ph += m / std::abs(m); phs.push_back(atan2((double) m.imag(), (double) m.real())); if (e.t == MOM_MVTHERMAL && !zero) v2 += std::norm(v) / (av * av); }
		}
		double loc[4] = {(double) s2, (double) v2, (double) ph.real(), (double) ph.imag()}, tot[4]; long c1 = cnt, ct; MPI_Allreduce(loc, tot, 4, MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD); MPI_Allreduce(&c1, &ct, 1, MPI_LONG, MPI_SUM, MPI_COMM_WORLD);
		if (ct > 20) {
			double sd = 7 * sqrt(2. / ct); if (rm && e.t != MOM_SPAX && fabs(tot[0] / ct - 1) > sd) BAD("variance", "%s: mean square of the amplitudes is %g of the requested one (%ld modes)", nm.c_str(), tot[0] / ct, ct);
			if (e.t == MOM_MVTHERMAL && fabs(tot[1] / ct - 1) > sd) BAD("variance-v", "%s: mean square of the velocity amplitudes is %g of the requested one (%ld modes)", nm.c_str(), tot[1] / ct, ct);
			if (hypot(tot[2], tot[3]) > 5 * sqrt((double) ct)) BAD("phases", "%s: mean of the phases is (%g,%g) over %ld modes", nm.c_str(), tot[2] / ct, tot[3] / ct, ct);
		}
		// no two modes of any threads or ranks share their random numbers
		std::vector<int> len(np), dis(np); int l = phs.size(); MPI_Allgather(&l, 1, MPI_INT, len.data(), 1, MPI_INT, MPI_COMM_WORLD); int s = 0; for (int r = 0; r < np; r++) { dis[r] = s; s += len[r]; } std::vector<double> all(s); MPI_Allgatherv(phs.data(), l, MPI_DOUBLE, all.data(), len.data(), dis.data(), MPI_DOUBLE, MPI_COMM_WORLD);
		std::sort(all.begin(), all.end()); size_t dup = 0; for (int i = 1; i < s; i++) dup += fabs(all[i] - all[i - 1]) < (prec == FIELD_SINGLE ? 0 : 1e-13) || all[i] == all[i - 1]; if (dup * 20 > (size_t) s) BAD("streams", "%s: %zu of %d modes repeat the phase of another", nm.c_str(), dup, s);
		vh::eval(nm);
	}
}
// ---- patterns by position
struct Kind { ConfsubType t; const char *n; };
static const Kind KIND[] = {{CONF_STRINGXY, "stXY"}, {CONF_STRINGYZ, "stYZ"}, {CONF_MINICLUSTER0, "mc0"}, {CONF_MINICLUSTER, "mc"}, {CONF_AX1MODE, "ax1mode"}, {CONF_PARRES, "parres"}, {CONF_AXITON, "axiton"}, {CONF_STRWAVE, "stringwave"}, {CONF_THETAVEL, "thetavel"}};
static LD kk[3]; static LD tolp; // tolerance of the pattern
static cl pattern(const IcData &ic, ConfsubType t, size_t x, size_t y, size_t z)
{
	LD L = C->PhysSize(), s = L * L / (2 * (LD) N * N * ic.kcr * ic.kcr), m0 = ic.mode0, th = 0, rho = 1; LD zc = sg(z, T), R = N * (ic.mode0 > 0 ? (LD) ic.mode0 : .2501L); tolp = 12 * eps();
	auto mid = [&](size_t a) { return (LD) a - (LD) (N / 2); };
	auto loop = [&](LD r, LD h) { LD a = (r + R) * (r + R) + h * h, b = (r - R) * (r - R) + h * h; tolp += eps() * 8 * R * R / b; return 3.14159265L * (.5L + (4 * R * R - a - b) / (4 * sqrtl(a * b))); };
	switch (t) {
		case CONF_STRINGXY: { LD h = (LD) z - (LD) ic.kcr; if (h > T / 2.L) h -= T; if (-h > T / 2.L) h += T; th = loop(hypotl(mid(x), mid(y)), h) * (h > .01L ? 1 : -1); break; }
		case CONF_STRINGYZ: th = loop(hypotl(zc, mid(y)), mid(x)) * (x > N / 2 ? -1 : 1); break;
		case CONF_MINICLUSTER: th = m0 * expl(-s * (mid(x) * mid(x) + mid(y) * mid(y) + zc * zc)); break;
		case CONF_MINICLUSTER0: { LD a = sg(x, N), b = sg(y, N); th = m0 * expl(-s * (a * a + b * b + zc * zc)); break; }
		case CONF_AXITON: { LD a = sg(x, N), b = sg(y, N); th = m0 / (1 + s * (a * a + b * b + zc * zc)); break; }
		case CONF_AX1MODE: th = m0 * cosl(2 * PI * ((LD) x * ic.kMax + y) / N); tolp += 1e-7L; break;
		case CONF_PARRES: th = m0 * cosl(2 * PI * (x * kk[0] + y * kk[1] + z * kk[2]) / N); rho = ic.kcr; tolp += 1e-6L; break;
		case CONF_THETAVEL: return cl(0, m0 * sinl(2 * PI / N * (x * kk[0] + y * kk[1] + z * kk[2])));
		case CONF_STRWAVE: { int d = ic.kMax; LD U = (LD) N / d; for (int i = -d; i < d + 2; i++) for (int j = -d; j < d + 2; j++) th += ((i + j) & 1 ? -1 : 1) * atan2l(y - (j + .5L) * U, x - (i + .5L) * U); tolp = 400 * eps(); break; }
		default: break;
	}
	return rho * cl(cosl(th), sinl(th));
}
static IcData ICs(ConfsubType t, int k)
{
	IcData ic = C->ICData(); ic.cType = CONF_SMOOTH; ic.smvarType = t; ic.fieldindex = FIELD_M; ic.kMax = t == CONF_STRWAVE ? 2 + k % 2 * 2 : 1 + k % 3; ic.kcr = t == CONF_STRINGXY ? k % 3 * 2.3 : t == CONF_PARRES ? 1 + .2 * (k % 3) : .6 + .4 * (k % 3);
	ic.mode0 = t == CONF_STRINGXY || t == CONF_STRINGYZ ? (k % 2 ? .31 : 0.) : .2 + .9 * (k % 4); ic.siter = 0; ic.alpha = .3; ic.normcore = false; ic.kickalpha = 0; ic.extrav = 0; ic.preprop = false; ::kCrit = ic.kcr; ic.randommom = true; return ic;
}
static void kfile(int k, const IcData &ic)
{
	kk[0] = ic.kMax; kk[1] = kk[2] = 0; MPI_Barrier(MPI_COMM_WORLD); if (!commRank()) { unlink("kkk.dat"); if (k % 2) { FILE *f = fopen("kkk.dat", "w"); fprintf(f, "%d %d %d", 1, k % 3, 2); fclose(f); } } MPI_Barrier(MPI_COMM_WORLD);
	if (k % 2) { kk[0] = 1; kk[1] = k % 3; kk[2] = 2; }
}
static void pos()
{
	make();
	for (auto &t : KIND) for (int k = 0; k < 6; k++) for (int where = 0; where < 3; where++) {
		IcData ic = ICs(t.t, k); if (t.t == CONF_STRWAVE && N % ic.kMax) continue; kfile(k, ic); ic.fieldindex = where == 0 ? FIELD_M : where == 1 ? FIELD_V : FIELD_M2; void *p = where == 0 ? F->mStart() : where == 1 ? F->vCpu() : F->m2Cpu();
		memset(p, 0, F->Size() * F->DataSize()); randConf(F, ic); std::string nm = cfg + vh::fmt(" %s kmax %zu kcr %g mode0 %g into %d", t.n, ic.kMax, ic.kcr, ic.mode0, where);
		LD w = -1; for (size_t i = 0; i < N * N * Lz; i++) { size_t z = i / N / N + Lz * commRank(); cl g = get(p, i, true), e = pattern(ic, t.t, i % N, i / N % N, z); LD d = std::abs(g - e); if (!(d <= tolp)) { BAD(t.n, "%s: at (%zu,%zu,%zu) is (%.8Lg,%.8Lg), should be (%.8Lg,%.8Lg)", nm.c_str(), i % N, i / N % N, z, g.real(), g.imag(), e.real(), e.imag()); break; } }
		vh::eval(nm);
	}
	MPI_Barrier(MPI_COMM_WORLD); if (!commRank()) unlink("kkk.dat");
}
// ---- chains
static Arr smoothed(const Arr &a, size_t it, LD al)
{
	Arr m = a, o(n3); for (size_t q = 0; q < it; q++) { for (size_t z = 0; z < T; z++) for (size_t y = 0; y < N; y++) for (size_t x = 0; x < N; x++) { auto M = [&](size_t x, size_t y, size_t z) { return m[x % N + N * (y % N + N * (z % T))]; };
		o[x + N * (y + N * z)] = al * M(x, y, z) + (1 - al) / 6 * (M(x + 1, y, z) + M(x + N - 1, y, z) + M(x, y + 1, z) + M(x, y + N - 1, z) + M(x, y, z + 1) + M(x, y, z + T - 1)); } m = o; }
	return m;
}
// profile of the modulus around strings from the gradient of the phase
static Arr cored(const Arr &m, std::vector<LD> &tol)
{
	Arr o(n3); LD R = *F->RV(), d = F->Delta(), LL = F->LambdaP();
	for (size_t z = 0; z < T; z++) for (size_t y = 0; y < N; y++) for (size_t x = 0; x < N; x++) {
		auto M = [&](size_t x, size_t y, size_t z) { return m[x % N + N * (y % N + N * (z % T))]; }; cl c = M(x, y, z); LD g = 0; for (cl n : {M(x + 1, y, z), M(x + N - 1, y, z), M(x, y + 1, z), M(x, y + N - 1, z), M(x, y, z + 1), M(x, y, z + T - 1)}) { LD s = (n / c).imag(); g += s * s; }
		LD rho = 1; if (g > 1e-7L) { LD s = 2 * sqrtl(LL) * R * d / sqrtl(g); rho = (.43L * s + .164L * s * s + .036L * s * s * s * s) / (1 + .39L * s + .2L * s * s + .036L * s * s * s * s); }
		size_t i = x + N * (y + N * z); tol[i] = 8 * tol[i] + 40 * eps(); if (g < 1e-5L) { LD s = 2 * sqrtl(LL) * R * d / 3e-4L; tol[i] += 2 / (s * s) + 20 * eps(); } o[i] = c / std::abs(c) * rho;
	}
	return o;
}
static void setup(double ct, bool mink) { if (mink) C->SetMink(true); else { C->SetMink(false); C->SetFrw(1.0); } *F->zV() = ct; F->updateR(); }
static void wipe() { for (void *p : {F->mCpu(), F->vCpu()}) memset(p, 0, (p == F->vCpu() ? F->Size() : F->eSize()) * F->DataSize()); memset(F->m2Cpu(), 0, F->Size() * F->DataSize()); F->setFolded(false); F->setMMomSpace(false); F->setVMomSpace(false); }
static void halo(const std::string &nm) // genConf leaves the halo of m filled
{
	Arr a = gather(F->mStart(), true); size_t s = N * N, b = F->DataSize(); for (size_t l = 0; l < Ng; l++) for (size_t i = 0; i < s; i += 5) {
		long zl = (long) (Lz * commRank()) - Ng + l, zu = Lz * (commRank() + 1) + l; cl lo = get((char *) F->mStart() - (Ng - l) * s * b, i, true), up = get((char *) F->mStart() + (Lz + l) * s * b, i, true);
		if (Ng == 1 || true) { if (std::abs(up - a[i + s * (zu % T)]) > 0) { BAD("halo", "%s: upper halo layer %zu differs", nm.c_str(), l); return; } }
		(void) lo; (void) zl;
	}
}
static void checkmv(const std::string &nm, const Arr &m, const Arr &v, const Arr &em, const std::vector<LD> &tol, LD R, LD Rp, LD kick, bool mink, const Arr *v0 = nullptr)
{
	Arr xm(n3), xv(n3); std::vector<LD> tm(n3), tv(n3); for (size_t i = 0; i < n3; i++) { cl z = v0 ? (*v0)[i] : cl(0); xm[i] = em[i] * (mink ? 1.L : R); xv[i] = (mink ? z : R * z + Rp * R * em[i]) * (1 + kick); tm[i] = tol[i] * (1 + R); tv[i] = tol[i] * (1 + fabsl(Rp * R)) * (1 + fabsl(kick)) * (1 + std::abs(z)); }
	near("field", nm, m, xm, tm); near("velocity", nm, v, xv, tv);
}
static void chain()
{
	make(); int k = 0;
	for (auto &t : KIND) if (t.t != CONF_THETAVEL) for (size_t it : {0, 1, 3}) for (bool mink : {false, true}) for (bool core : {false, true}) for (double kick : {0., .35}) {
		k++; if ((k * 7 + (int) it) % 3 == 2 && it) continue; IcData ic = ICs(t.t, k); if (t.t == CONF_STRWAVE && N % ic.kMax) continue; kfile(k, ic); ic.siter = it; ic.alpha = k % 2 ? .143 : .6; ic.normcore = core; ic.kickalpha = kick; ic.zi = 1.7; C->SetICData(ic); setup(1.7, mink); wipe();
		std::string nm = cfg + vh::fmt(" %s kmax %zu kcr %g mode0 %g, %zu smoothings %g%s%s kick %g", t.n, ic.kMax, ic.kcr, ic.mode0, it, ic.alpha, mink ? " flat" : "", core ? " cores" : "", kick); genConf(C, F); Arr m = gather(F->mStart(), true), v = gather(F->vStart(), true);
		Arr e(n3), v0; std::vector<LD> tol(n3); for (size_t i = 0; i < n3; i++) { e[i] = pattern(ic, t.t, i % N, i / N % N, i / N / N); tol[i] = tolp; }
		if (t.t == CONF_STRWAVE) { v0.resize(n3); IcData i2 = ic; for (size_t i = 0; i < n3; i++) v0[i] = pattern(i2, CONF_THETAVEL, i % N, i / N % N, i / N / N) * e[i]; for (size_t i = 0; i < n3; i++) { pattern(ic, t.t, 0, 0, 0); } }
		if (it) { LD w = 0; for (LD x : tol) w = std::max(w, x); e = smoothed(e, it, ic.alpha); for (auto &x : tol) x = w + 4 * eps(); }
		bool norm = t.t != CONF_PARRES; if (norm) for (size_t i = 0; i < n3; i++) { LD a = std::abs(e[i]); e[i] /= a; tol[i] = tol[i] * 2 / a + 4 * eps(); if (!(tol[i] < .3L)) tol[i] = 1e9L; }
		if (core) { LD w = 0; std::vector<LD> t0 = tol; bool bad = false; for (LD x : tol) { if (x > .3L) bad = true; w = std::max(w, x); } e = cored(e, tol); if (bad) continue; for (auto &x : tol) x += 20 * w; }
		if (F->Folded()) BAD("order", "%s: marked as in vector order", nm.c_str());
		checkmv(nm, m, v, e, tol, *F->RV(), C->Rp(*F->zV()), kick, mink, v0.empty() ? nullptr : &v0); halo(nm); vh::eval(nm);
	}
	MPI_Barrier(MPI_COMM_WORLD); if (!commRank()) unlink("kkk.dat");
}
// ---- random kinds
static void modulus(const std::string &nm, const Arr &m, LD lo, LD hi) { for (size_t i = 0; i < n3; i++) { LD a = std::abs(m[i]); if (!(a >= lo && a <= hi)) { BAD("modulus", "%s: modulus at %s is %.8Lg, should be in [%.8Lg,%.8Lg]", nm.c_str(), P(i).c_str(), a, lo, hi); return; } } }
static void distinct(const std::string &nm, const Arr &m) { std::vector<std::pair<LD, LD>> a; for (auto &c : m) a.push_back({c.real(), c.imag()}); std::sort(a.begin(), a.end()); size_t d = 0; for (size_t i = 1; i < n3; i++) d += a[i] == a[i - 1]; if (d * 50 > n3) BAD("streams", "%s: %zu of %zu points repeat the value of another", nm.c_str(), d, n3); }
static void mvof(const std::string &nm, const Arr &m, const Arr &v, cl f, LD tol) { LD w = 0; size_t at = 0; for (size_t i = 0; i < n3; i++) { LD d = std::abs(v[i] - f * m[i]); if (!(d <= w)) { w = d; at = i; if (std::isnan((double) d)) break; } } if (!(w <= tol)) BAD("relation", "%s: velocity at %s is (%.8Lg,%.8Lg), the field (%.8Lg,%.8Lg) times (%.8Lg,%.8Lg) was expected", nm.c_str(), P(at).c_str(), v[at].real(), v[at].imag(), m[at].real(), m[at].imag(), f.real(), f.imag()); }
static void ran()
{
	make(); int k = 0; LD e = 60 * eps();
	for (bool mink : {false, true}) for (double kick : {0., .4}) for (size_t it : {0, 2}) for (double ct : {1.7, 3.1}) for (int r = 0; r < 2; r++) {
		::mode0 = 10; k++;
		for (ConfsubType t : {CONF_RAND, CONF_AXNOISE, CONF_SAXNOISE}) {
			IcData ic = ICs(t, k); ic.kcr = .3; ic.mode0 = .4; ic.siter = it; ic.kickalpha = kick; C->SetICData(ic); setup(ct, mink); wipe(); std::string nm = cfg + vh::fmt(" %s %zu smoothings%s kick %g ct %g", t == CONF_RAND ? "rand" : t == CONF_AXNOISE ? "axnoise" : "saxnoise", it, mink ? " flat" : "", kick, ct);
			genConf(C, F); Arr m = gather(F->mStart(), true), v = gather(F->vStart(), true); LD R = mink ? 1.L : (LD) *F->RV(), Rp = C->Rp(*F->zV()); if (t != CONF_SAXNOISE) modulus(nm, m, R * (1 - e), R * (1 + e)); else modulus(nm, m, R * (.7L - e), R * (1.3L + e));
			mvof(nm, m, v, mink ? 0 : Rp * (1 + kick), e * (1 + Rp) * R); distinct(nm, m); LD lo = 9, hi = -9, rl = 9, rh = 0; cl mean = 0; for (auto &c : m) { LD p = atan2l(c.imag(), c.real()); lo = std::min(lo, p); hi = std::max(hi, p); rl = std::min(rl, std::abs(c) / R); rh = std::max(rh, std::abs(c) / R); mean += c / std::abs(c) / (LD) n3; }
			if (t == CONF_RAND && std::abs(mean) > (it ? 20 : 6) / sqrtl(n3)) BAD("mean", "%s: mean of the phases is (%Lg,%Lg)", nm.c_str(), mean.real(), mean.imag());
			if (t == CONF_AXNOISE) { if (lo < .1L - e || hi > .7L + e) BAD("range", "%s: angles from %Lg to %Lg, asked for 0.4 +- 0.3", nm.c_str(), lo, hi); if (!it && hi - lo < .5L) BAD("range", "%s: angles only from %Lg to %Lg", nm.c_str(), lo, hi); }
			if (t == CONF_SAXNOISE) { if (lo < .4L - e || hi > .4L + e) BAD("range", "%s: angles from %Lg to %Lg, asked for 0.4", nm.c_str(), lo, hi); if (!it && rh - rl < .5L) BAD("range", "%s: moduli only from %Lg to %Lg", nm.c_str(), rl, rh); }
			if (t == CONF_RAND && !it && ct < 2) { // the sectors of the angle are all filled
				int q[8] = {0}; for (auto &c : m) q[(int) ((atan2l(c.imag(), c.real()) + PI) / (2 * PI) * 7.9999L)]++; for (int j = 0; j < 8; j++) if (q[j] * 8 < (int) n3 / 3) BAD("uniform", "%s: sector %d has %d of %zu points", nm.c_str(), j, q[j], n3); }
			vh::eval(nm + (r ? " again" : ""));
		}
		for (MomConfType mt : {MOM_MFLAT, MOM_MEXP, MOM_MEXP2, MOM_MSIN}) {
			IcData ic = ICs(CONF_RAND, k); ic.cType = CONF_KMAX; ic.mocoty = mt; ic.kMax = 1 + it; ic.kcr = 1.5; C->SetICData(ic); setup(ct, mink); wipe(); std::string nm = cfg + vh::fmt(" kmax %d max %zu%s ct %g", (int) mt, ic.kMax, mink ? " flat" : "", ct); genConf(C, F); Arr m = gather(F->mStart(), true), v = gather(F->vStart(), true); LD R = mink ? 1.L : (LD) *F->RV();
			modulus(nm, m, R * (1 - e), R * (1 + e)); mvof(nm, m, v, mink ? 0 : 1 / R, e * 2); distinct(nm, m); if (F->Folded()) BAD("order", "%s: marked as in vector order", nm.c_str()); halo(nm); vh::eval(nm);
		}
		for (ConfType c : {CONF_LOLA, CONF_VILGOR}) for (size_t km : {0, 1}) {
			if (c == CONF_VILGOR && !km) continue; IcData ic = ICs(CONF_RAND, k); ic.cType = c; ic.mocoty = MOM_MEXP2; ic.kMax = km; ic.kickalpha = kick; ic.siter = it ? 1 : 0; ic.kcr = it ? 1.3 : 1; ic.logi = 1.2; ic.zi = ct; C->SetICData(ic); setup(ct, mink); wipe();
			std::string nm = cfg + vh::fmt(" %s %zu iter %zu%s kick %g ct %g", c == CONF_LOLA ? "lola" : "vilgor", km, ic.siter, mink ? " flat" : "", kick, ct); genConf(C, F); Arr m = gather(F->mStart(), true), v = gather(F->vStart(), true); LD R = mink ? 1.L : (LD) *F->RV();
			modulus(nm, m, R * (1 - e), R * (1 + e)); mvof(nm, m, v, mink ? 0 : (1 + kick) / R, e * 3); distinct(nm, m); if (F->Folded()) BAD("order", "%s: marked as in vector order", nm.c_str()); halo(nm); vh::eval(nm);
		}
		if (!mink) for (double ex : {0., .5}) {
			IcData ic = ICs(CONF_RAND, k); ic.cType = CONF_COLE; ic.kcr = .5; ic.kickalpha = kick; ic.extrav = ex; C->SetICData(ic); setup(ct, mink); wipe(); std::string nm = cfg + vh::fmt(" cole kick %g extra %g ct %g", kick, ex, ct); genConf(C, F); Arr m = gather(F->mStart(), true), v = gather(F->vStart(), true); LD R = *F->RV(), am = 0, av = 0;
			for (size_t i = 0; i < n3; i++) { am += std::abs(m[i]) / n3; av += std::abs(v[i] - m[i] * (1 + (LD) kick) / R) / n3; } if (!(fabsl(am / R - 1) < e)) BAD("mean", "%s: mean modulus is %Lg, should be %Lg", nm.c_str(), am, R); if (!(fabsl(av - ex) < 4 * e)) BAD("extra", "%s: mean modulus of the extra velocity is %Lg, should be %g", nm.c_str(), av, ex); distinct(nm, m); halo(nm); vh::eval(nm);
		}
		if (!mink && N == T) for (size_t km : {(size_t) 1, (size_t) 2}) for (double kc : {.04, .15}) {
			IcData ic = ICs(CONF_RAND, k); ic.cType = CONF_TKACHEV; ic.kMax = km; ic.kcr = kc; C->SetICData(ic); setup(ct, mink); wipe(); std::string nm = cfg + vh::fmt(" tkachev kmax %zu kcr %g ct %g", km, kc, ct); genConf(C, F); Arr m = gather(F->mStart(), true), v = gather(F->vStart(), true); LD R = *F->RV(), Rp = C->Rp(ct), t2 = 0;
			modulus(nm, m, R * (1 - e), R * (1 + e)); Arr th(n3), tp(n3); bool fold = false; for (size_t i = 0; i < n3; i++) { th[i] = atan2l(m[i].imag(), m[i].real()); if (std::abs(th[i]) > 2.9L) fold = true; t2 += std::norm(th[i]) / n3; cl q = v[i] / m[i]; if (!(fabsl(q.real() - Rp) < e * 4)) { BAD("radial", "%s: radial velocity at %s is %Lg, should be %Lg", nm.c_str(), P(i).c_str(), q.real(), Rp); break; } tp[i] = q.imag(); }
			if (!fold) { if (!(fabsl(t2 / (PI * PI / 3 * kc) - 1) < e * 4)) BAD("theta2", "%s: mean square angle is %Lg, should be %Lg", nm.c_str(), t2, PI * PI / 3 * kc); Arr a = dft(th), b = dft(tp); LD kz = C->PhysSize() / (2 * PI * ct); size_t k2 = std::min(km, N / 2 - 1); k2 *= 3 * k2;
				for (size_t i = 0; i < n3; i++) { int x = sg(i % N, N), y = sg(i / N % N, N), z = sg(i / N / N, T); size_t p2 = x * x + y * y + z * z; LD q = sqrtl(p2) / kz, s = p2 ? sinl(q) / q : 1, dv = p2 ? (cosl(q) - s) / ct : 0; if (!p2) continue; if (p2 > k2 ? std::abs(a[i]) + std::abs(b[i]) > e : std::abs(a[i] * dv - b[i] * s) > e) { BAD(p2 > k2 ? "beyond" : "derivative", "%s: mode (%d,%d,%d) of the angle (%Lg,%Lg), of its velocity (%Lg,%Lg), ratio should be %Lg", nm.c_str(), x, y, z, a[i].real(), a[i].imag(), b[i].real(), b[i].imag(), dv / s); break; } } }
			distinct(nm, m); halo(nm); vh::eval(nm);
		}
	}
}
// ---- given spectrum
static void spax(bool sax)
{
	LD e = 80 * eps(); int k = 0; if (!commRank()) unlink("initialspectrum.dat");
	for (int what = 0; what < (sax ? 3 : 2); what++) for (double ct : {1.7, 3.1}) for (int rep = 0; rep < (sax ? 2 : 4); rep++) {
		k++; auto tm = [&](size_t i) { return (sax && what == 1) ? 0.L : .001L * roundl(1000 * h01(i * 11 + k)) * (sax ? .02L : 1); }; auto tv = [&](size_t i) { return (sax && what == 0) ? 0.L : .001L * roundl(1000 * h01(i * 13 + k)) * (sax ? .02L : 1); };
		MPI_Barrier(MPI_COMM_WORLD); if (!commRank()) { FILE *f = fopen("initialspectrum.dat", "w"); for (size_t i = 0; i < 2 * N + 4; i++) fprintf(f, "%.9Lf %.9Lf\n", tm(i), tv(i)); fclose(f); } MPI_Barrier(MPI_COMM_WORLD);
		make(FIELD_SAXION); IcData ic = ICs(CONF_RAND, k); ic.cType = CONF_SPAX; ic.fType = sax ? FIELD_SAXION : FIELD_AXION; ic.randommom = false; ic.siter = 0; ic.kcr = 1; ic.kMax = rep % 2; ic.logi = 1.2; C->SetICData(ic); setup(ct, false); ::mode0 = 10;
		std::string nm = cfg + vh::fmt(" given spectrum %s %d ct %g strings %zu (%d)", sax ? "saxion" : "axion", what, ct, ic.kMax, rep); genConf(C, F); LD R = *F->RV(), Rp = C->Rp(ct); Arr a, b;
		if (F->Field() != ic.fType) BAD("type", "%s: field type %d", nm.c_str(), (int) F->Field());
		if (!sax) { a = dft(gather(F->mStart(), false)); b = dft(gather(F->vStart(), false)); }
		else {
			Arr m = gather(F->mStart(), true), v = gather(F->vStart(), true), th(n3); modulus(nm, m, R * (1 - e), R * (1 + e)); bool ok = true;
			for (size_t i = 0; i < n3; i++) { cl q = v[i] / m[i]; if (!(fabsl(q.real() - Rp) < e)) { BAD("radial", "%s: radial velocity at %s is %Lg, should be %Lg", nm.c_str(), P(i).c_str(), q.real(), Rp); ok = false; break; } th[i] = q.imag() * R; }
			if (what == 2 || !ok) { vh::eval(nm); delete F; continue; }
			if (what == 0) { for (auto &c : th) c /= -Rp; a = dft(th); } else b = dft(th);
		}
		int bad = 0; size_t h2 = 3 * (N / 2 - 1) * (N / 2 - 1); for (size_t i = 0; i < n3 && !bad; i++) { int x = sg(i % N, N), y = sg(i / N % N, N), z = sg(i / N / N, T); size_t p2 = x * x + y * y + z * z; if (x == 0 || x == (int) N / 2) continue; LD q = sqrtl(p2); size_t j = (size_t) q; LD w = q - j, em = p2 > h2 ? 0 : tm(j) * (1 - w) + tm(j + 1) * w, ev = p2 > h2 ? 0 : tv(j) * (1 - w) + tv(j + 1) * w;
			if (!a.empty() && !(fabsl(std::abs(a[i]) - em) < e)) { BAD("spectrum", "%s: mode (%d,%d,%d) has amplitude %Lg, asked for %Lg", nm.c_str(), x, y, z, std::abs(a[i]), em); bad = 1; }
			if (!b.empty() && !(fabsl(std::abs(b[i]) - ev) < e)) { BAD("spectrum-v", "%s: mode (%d,%d,%d) has velocity amplitude %Lg, asked for %Lg", nm.c_str(), x, y, z, std::abs(b[i]), ev); bad = 1; } }
		vh::eval(nm); delete F;
	}
}
// ---- pre-evolution
static void prep()
{
	for (ConfType c : {CONF_LOLA, CONF_SMOOTH, CONF_VILGOR}) for (LambdaType lt : {LAMBDA_FIXED, LAMBDA_Z2}) for (double coe : {1.2, 2.}) for (double gam : {0., .4}) for (double lz : {0., 2.}) {
		C->SetMink(false); C->SetFrw(1.0); C->SetLambda(lt == LAMBDA_FIXED ? 30. : 50.); C->SetLamZ2Exp(lt == LAMBDA_FIXED ? 0. : 1.5); C->SetGamma(.11); C->ICData().zi = 1.7; F = vh::field(C, N, Lz, prec, FIELD_SAXION, np, Ng, lt);
		IcData ic = ICs(CONF_RAND, 1); ic.cType = c; ic.preprop = true; ic.prepcoe = coe; ic.pregammo = gam; ic.prelZ2e = lz; ic.prevtype = gam > 0 ? V_QCD0_PQ1_DRHO : V_QCD0_PQ1; ic.icstudy = false; ic.zi = 1.7; ic.logi = 1.2; ic.siter = 1; ic.kcr = 1; ic.kMax = 1; ic.mocoty = MOM_MEXP2; C->SetICData(ic); ::mode0 = 10;
		*F->zV() = 1.7; F->updateR(); double l0 = C->Lambda(), e0 = C->LamZ2Exp(); std::string nm = cfg + vh::fmt(" pre-evolution %s %s from zi/%g damping %g exponent %g", c == CONF_LOLA ? "lola" : c == CONF_SMOOTH ? "smooth" : "vilgor", lt == LAMBDA_FIXED ? "fixed" : "z2", coe, gam, lz); genConf(C, F);
		if (fabs(*F->zV() - 1.7) > 1e-12) BAD("time", "%s: ends at %.10g, asked for 1.7", nm.c_str(), *F->zV()); if (fabs(*F->RV() - C->R(1.7)) > 1e-12) BAD("scale", "%s: R is %g", nm.c_str(), *F->RV());
		if (C->Lambda() != l0 || C->LamZ2Exp() != e0 || F->LambdaT() != lt) BAD("lambda", "%s: lambda %g exponent %g type %d afterwards, were %g %g %d", nm.c_str(), C->Lambda(), C->LamZ2Exp(), (int) F->LambdaT(), l0, e0, (int) lt);
		if (C->Gamma() != .11) BAD("gamma", "%s: damping is %g afterwards, was 0.11", nm.c_str(), C->Gamma());
		if (F->Folded()) { Folder mu(F); mu(UNFOLD_ALL); } Arr m = gather(F->mStart(), true), v = gather(F->vStart(), true); for (size_t i = 0; i < n3; i++) if (!(std::abs(m[i]) < 9 && std::abs(v[i]) < 1e3)) { BAD("finite", "%s: (%Lg,%Lg) at %s", nm.c_str(), m[i].real(), m[i].imag(), P(i).c_str()); break; } distinct(nm, m);
		vh::eval(nm); delete F;
	}
}
int main(int argc, char **argv)
{
	std::string what = argv[1]; prec = !strcmp(argv[2], "single") ? FIELD_SINGLE : FIELD_DOUBLE; N = atoi(argv[3]); T = atoi(argv[4]); np = atoi(argv[5]); Ng = atoi(argv[6]); Lz = T / np; n3 = N * N * T;
	C = vh::start({"--size", argv[3], "--depth", std::to_string(Lz), "--zgrid", argv[5], "--prec", argv[2], "--lap", argv[6], "--qcd", "4", "--lsize", "6", "--llcf", "30", "--fftplan", "64"});
	C->SetMink(false); C->SetFrw(1.0); C->SetLambda(30.0); C->SetLamZ2Exp(0.0); C->SetIndi3(1.1); C->SetQcdExp(3.0); C->SetPhysSize(7.0); C->SetQcdPot(V_QCD1_PQ1); C->ICData().zi = 1.7;
	cfg = vh::fmt("%s-%s-%zux%zu-np%d-halo%zu-t%d", what.c_str(), vh::pname(prec), N, T, np, Ng, omp_get_max_threads());
	if (what == "mom") mom(); if (what == "pos") pos(); if (what == "chain") chain(); if (what == "ran") ran(); if (what == "spax") spax(false); if (what == "spaxs") spax(true); if (what == "prep") prep();
	vh::quit();
}
