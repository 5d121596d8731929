// P20: adiabatic extrapolation of an angle field. Every Fourier mode of a dense field against its own adiabatic solution.
#include "gfield.h"
#include "WKB/WKB.h"
#include <sys/stat.h>
#include <unistd.h>
static Cosmos *C; static Scalar *F, *G2; static size_t N, T, Lz, Ng, n3; static int np; static FieldPrecision prec; static std::string cfg; static bool two; static GField g;
typedef std::vector<cl> Arr;
static LD PI = acosl(-1);
static LD eps() { return prec == FIELD_SINGLE ? 1.2e-7L : 2.3e-16L; }
static int sg(size_t k, size_t n) { return k > n / 2 ? (int) k - (int) n : (int) k; }
static Arr gather(const void *p)
{
	size_t n = N * N * Lz; std::vector<double> a(n), b(n3); for (size_t i = 0; i < n; i++) a[i] = prec == FIELD_SINGLE ? ((const float *) p)[i] : ((const double *) p)[i];
	MPI_Allgather(a.data(), n, MPI_DOUBLE, b.data(), n, MPI_DOUBLE, MPI_COMM_WORLD); Arr o(n3); for (size_t i = 0; i < n3; i++) o[i] = b[i]; return o;
}
static Arr dft(Arr b)
{
	for (int dim = 0; dim < 3; dim++) {
		size_t n = dim == 2 ? T : N, st = dim == 0 ? 1 : dim == 1 ? N : N * N; std::vector<cl> w(n), e(n); for (size_t k = 0; k < n; k++) e[k] = cl(cosl(2 * PI * k / n), -sinl(2 * PI * k / n));
		for (size_t i = 0; i < n3; i++) { if (i / st % n) continue; for (size_t k = 0; k < n; k++) { cl s = 0; for (size_t j = 0; j < n; j++) s += b[i + j * st] * e[k * j % n]; w[k] = s; } for (size_t k = 0; k < n; k++) b[i + k * st] = w[k]; }
	}
	for (auto &c : b) c /= (LD) n3; return b;
}
#define BAD(k, ...) vh::fail(cfg + ":" + std::string(k), __VA_ARGS__)
// ---- the adiabatic solution
struct Cos { LD n, ind, zC; };
static LD mconf(const Cos &c, LD z) { return c.ind * powl(std::min(z, c.zC), c.n / 2) * z; }
// power of z in the mass squared; at the crossing itself the later one, unless the interval ends there
static LD power(const Cos &c, LD z, bool end, LD z1) { if (z < c.zC) return c.n; if (end && z == c.zC && z1 < z) return c.n; return 0; }
struct Node { LD w, m2; }; static std::vector<Node> nodes;
static void grid(const Cos &c, LD a, LD b)
{
	static const LD x[4] = {.1834346424956498049394761L, .5255324099163289858177390L, .7966664774136267395915539L, .9602898564975362316835609L}, w[4] = {.3626837833783619829651504L, .3137066458778872873379622L, .2223810344533744705443560L, .1012285362903762591525314L};
	if (b <= a) return; int q = 24; for (int i = 0; i < q; i++) { LD u = a * powl(b / a, (LD) i / q), v = a * powl(b / a, (LD) (i + 1) / q), h = (v - u) / 2, m = (u + v) / 2; for (int j = 0; j < 4; j++) for (int t = -1; t < 2; t += 2) { LD z = mconf(c, m + t * h * x[j]); nodes.push_back({h * w[j], z * z}); } }
}
static void grids(const Cos &c, LD a, LD b) { nodes.clear(); if (a < c.zC && c.zC < b) { grid(c, a, c.zC); grid(c, c.zC, b); } else grid(c, a, b); }
static LD phase(LD k2) { LD s = 0; for (auto &n : nodes) s += n.w * sqrtl(k2 + n.m2); return s; }
static void setup(const Cos &c, double L) { C->SetQcdExp(c.n); C->SetIndi3(c.ind); C->SetZThRes(c.zC); C->SetZRestore(c.zC / 2); C->SetPhysSize(L); }
static void fill(int k) { for (size_t i = 0; i < n3; i++) { g.m[i] = 2 * h01(i * 13 + k * 7919) - 1; g.v[i] = 4 * h01(i * 17 + k * 104729 + 5) - 2; } }
static void single(int x, int y, int z, LD p, LD q) { for (size_t i = 0; i < n3; i++) { LD a = 2 * PI * ((LD) x * (i % N) + (LD) y * (i / N % N)) / N + 2 * PI * z * (LD) (i / N / N) / T; g.m[i] = cosl(a + p); g.v[i] = 1.5L * cosl(a + q); } }
static void one(const std::string &nm, const Cos &c, LD L, LD z1, LD z2, const Arr &M1, const Arr &V1)
{
	if (*F->zV() != (double) z2) BAD("time", "%s: the time is %g", nm.c_str(), *F->zV()); if (fabs(*F->RV() - C->R(z2)) > 1e-12) BAD("scale", "%s: R is %g", nm.c_str(), *F->RV()); if (F->Folded()) { Folder mu(F); mu(UNFOLD_ALL); }
	Arr M2 = dft(gather(F->mStart())), V2 = dft(gather(F->vStart())); LD m1 = mconf(c, z1), m2 = mconf(c, z2); cl I(0, 1); grids(c, z1, z2); std::vector<LD> ph(4 * N * N, -1);
	LD sM = 0, sV = 0, sM2 = 0, sV2 = 0; for (size_t i = 0; i < n3; i++) { sM = std::max(sM, std::abs(M1[i])); sV = std::max(sV, std::abs(V1[i])); sM2 = std::max(sM2, std::abs(M2[i])); sV2 = std::max(sV2, std::abs(V2[i])); }
	for (size_t i = 0; i < n3; i++) {
		int x = sg(i % N, N), y = sg(i / N % N, N), z = sg(i / N / N, T); size_t p2 = x * x + y * y + z * z; LD k2 = p2 * 4 * PI * PI / L / L, w1 = sqrtl(k2 + m1 * m1), w2 = sqrtl(k2 + m2 * m2); std::string at = nm + vh::fmt(" mode (%d,%d,%d)", x, y, z);
		LD tol = 40 * eps();
		if (w1 == 0) { cl e = M1[i] + V1[i] * (z2 - z1); if (!(std::abs(M2[i] - e) <= tol * (sM + sV * (z2 - z1))) || !(std::abs(V2[i] - V1[i]) <= tol * sV)) BAD("free", "%s is (%.8Lg,%.8Lg), should be (%.8Lg,%.8Lg)", at.c_str(), M2[i].real(), V2[i].real(), e.real(), V1[i].real()); continue; }
		LD c1 = .25L * (power(c, z1, false, z1) + 2) * m1 * m1 / z1 / (w1 * w1 * w1), c2 = .25L * (power(c, z2, true, z1) + 2) * m2 * m2 / z2 / (w2 * w2 * w2); if (z1 == z2) c2 = c1;
		if (ph[p2] < 0) ph[p2] = phase(k2); LD r = sqrtl(w1 / w2), Ph = ph[p2]; LD pt = tol + 1e-9L * Ph;
		cl e = cl(cosl(Ph), sinl(Ph)), ap = r * e * .5L * (M1[i] * (1.L - I * c1) + V1[i] / (I * w1)), am = r / e * .5L * (M1[i] * (1.L + I * c1) - V1[i] / (I * w1)), gp = .5L * (M2[i] * (1.L - I * c2) + V2[i] / (I * w2)), gm = .5L * (M2[i] * (1.L + I * c2) - V2[i] / (I * w2));
		LD noise = tol * (r * (sM * (1 + c1) + sV / w1) + sM2 * (1 + c2) + sV2 / w2);
		for (int s = 0; s < 2; s++) { cl a = s ? am : ap, b = s ? gm : gp; LD A = std::abs(a);
			if (!(fabsl(std::abs(b) - A) <= noise)) { BAD("amplitude", "%s: adiabatic amplitude %d is %.8Lg, should be %.8Lg", at.c_str(), s, std::abs(b), A); return; }
			if (!(std::abs(b - a) <= noise + pt * A)) { BAD("phase", "%s: adiabatic amplitude %d is off by a phase %.3Lg of %.6Lg", at.c_str(), s, std::arg(b / a), Ph); return; } }
	}
	vh::eval(nm);
}
static void run(const std::string &what, Cos c, double L, LD z1, const std::vector<double> &ends, bool folded)
{
	c = {(double) c.n, (double) c.ind, (double) c.zC}; z1 = (double) z1; setup(c, L); *F->zV() = z1; F->updateR(); g.put(folded); Arr M1 = dft(g.m), V1 = dft(g.v);
	AxionWKB::WKB w(F, two ? G2 : F);
	for (double z2 : ends) { w(z2); one(cfg + vh::fmt(" %s n=%Lg m=%Lg crossing %Lg L=%g from %Lg to %g%s", what.c_str(), c.n, c.ind, c.zC, L, z1, z2, folded ? " folded" : ""), c, L, z1, z2, M1, V1); }
}
int main(int argc, char **argv)
{
	std::string what = argv[1]; prec = !strcmp(argv[2], "single") ? FIELD_SINGLE : FIELD_DOUBLE; N = T = atoi(argv[3]); np = atoi(argv[4]); Ng = atoi(argv[5]); two = atoi(argv[6]); Lz = T / np; n3 = N * N * T;
	C = vh::start({"--size", argv[3], "--depth", std::to_string(Lz), "--zgrid", argv[4], "--prec", argv[2], "--lap", argv[5], "--qcd", "4", "--lsize", "6", "--llcf", "30", "--fftplan", "64"});
	C->SetMink(false); C->SetFrw(1.0); C->SetLambda(30.0); C->SetLamZ2Exp(0.0); C->SetIndi3(1.1); C->SetQcdExp(3.0); C->SetPhysSize(7.0); C->SetQcdPot(V_QCD1_PQ1); C->ICData().zi = 1.7;
	cfg = vh::fmt("%s-%s-%s-%zu-np%d-halo%zu-t%d", what.c_str(), two ? "two" : "place", vh::pname(prec), N, np, Ng, omp_get_max_threads());

	F = vh::field(C, N, Lz, prec, FIELD_AXION, np, Ng); G2 = two ? new Scalar(C, N, Lz, prec, DEV_CPU, 1.7, true, np, FIELD_WKB, LAMBDA_FIXED) : F; g.init(F, N, Lz, np, Ng, prec, FIELD_AXION);
	bool D = prec == FIELD_DOUBLE;
	if (what == "dense") {
		int k = 0; const LD never = 1e6L;
		for (LD n : {0.L, 3.L, 6.68L, 7.L}) for (LD ind : {0.L, .02L, 1.1L, 40.L}) for (LD zC : {never, 2.5L, 1.2L, 1.7L, 3.1L}) for (double L : {4., 30.}) { if (ind == 0 && n > 0 && n < 7) continue; fill(k); run("dense", {n, ind, zC}, L, 1.7L, {1.7, 1.9, 3.1, 4.4}, k % 2); k++; }
		for (LD ind : {1.1L, 300.L}) { fill(k); run("late", {7, ind, never}, 6, 3.3L, {3.35, 9.5}, k % 2); k++; }
	}
	if (what == "single") for (int z = 0; z < (int) T; z++) for (int y = 0; y < (int) N; y++) for (int x = 0; x <= (int) N / 2; x++) { if ((x + y + z) % np && !D) continue; single(x, y, z, .3L, 1.1L); run(vh::fmt("wave (%d,%d,%d)", x, y, z), {4, 1.1L, 2.2L}, 6, 1.7L, {2.0, 3.0}, (x + y) % 2); }
	vh::quit();
}
