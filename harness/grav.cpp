// P21: the gravitational potential of a field against the exact solution of the Poisson equation of its density contrast.
#include "gfield.h"
#include "propref.h"
#include "propagator/propBase.h"
#include "propagator/propagator.h"
#include "gravity/potential.h"
#include "energy/energy.h"
#include <chrono>
#include <time.h>
#include "fft/fftCode.h"
extern std::unique_ptr<PropBase> prop;
// a clock that the harness controls: every potential computed takes as long as it is told, in every rank
static bool fakeClock = false; static long long fakeNow = 1000000000ll; static int runs = 0, winner = 0;
namespace std { namespace chrono { inline namespace _V2 { system_clock::time_point system_clock::now() noexcept
{ if (!fakeClock) { timespec t; clock_gettime(CLOCK_REALTIME, &t); return time_point(duration(t.tv_sec * 1000000000ll + t.tv_nsec)); } return time_point(duration(fakeNow)); } } } }
AxionFFT::FFTplan &rfp(std::string) asm("__real__ZN8AxionFFT9fetchPlanENSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE");
AxionFFT::FFTplan &wfp(std::string) asm("__wrap__ZN8AxionFFT9fetchPlanENSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE");
AxionFFT::FFTplan &wfp(std::string n) { if (fakeClock && n.compare(0, 2, "m2") == 0) fakeNow += runs++ == winner ? 1000000 : 90000000; return rfp(n); }
static Cosmos *C; static Scalar *F; static GField g; static size_t N, Lz, T, Ng, n3; static int np; static FieldPrecision prec; static std::string cfg; static bool folded;
static LD L = 7.0; static std::vector<std::vector<LD>> cosT; static std::vector<LD> green;
typedef std::vector<LD> Vec;
static LD wrapk(size_t n, size_t len) { return n > len / 2 ? (LD) n - (LD) len : (LD) n; }
// angle of the mode (p, q, r) at the point i, in units of the period over N
static const int MT = 40; static LD tc(size_t a) { static std::vector<LD> t; if (t.empty()) { t.resize(MT * N); for (size_t i = 0; i < t.size(); i++) t[i] = cosl(2 * M_PIl * i / t.size()); } return t[a % t.size()]; }
static size_t arg3(size_t i, size_t p, size_t q, size_t r) { return (i % N * p + i / N % N * q + i / N / N * r) % N; }
// density -> field with a phase different at every point
static void load(const Vec &rho) { for (size_t i = 0; i < n3; i++) { size_t a = h01(i + 77) * MT * N; LD s = sqrtl(rho[i]); g.m[i] = cl(s * tc(a)); g.v[i] = cl(s * tc(a + MT * N * 3 / 4)); } g.put(folded); F->setM2(M2_DIRTY); F->setM2Folded(false); }
static Vec solve(const Vec &rho)
{
	Ref r; r.N = N; r.Lz = T; r.n3 = n3; r.L = L; r.kind = 2; std::vector<LC> a(n3); for (size_t i = 0; i < n3; i++) a[i] = rho[i];
	a = r.spec(a, [](LD k2) { return k2 == 0 ? 0.L : -1.L / k2; }); Vec o(n3); for (size_t i = 0; i < n3; i++) o[i] = a[i].real(); return o;
}
static LD tol(LD scale) { return scale * (prec == FIELD_SINGLE ? 2e-5L : 2e-13L); }
// value of m2 at a point of the slab whatever its order
static LD phi(size_t i)
{
	size_t S = N * N, j = i;
	if (F->M2Folded()) { size_t sh = F->DataAlign() / F->DataSize(), x = i % N, y = i / N % N, z = i / S, iy = y % (N / sh), sy = y / (N / sh); j = z * S + iy * N * sh + x * sh + sy; }
	return prec == FIELD_SINGLE ? (LD) ((float *) F->m2Start())[j] : (LD) ((double *) F->m2Start())[j];
}
static void check(const char *k, const std::string &name, const Vec &e, LD t, bool source)
{
	LD worst = -1, got = 0; size_t at = 0;
	for (size_t i = 0; i < N * N * Lz; i++) { LD p = phi(i), d = fabsl(p - e[g.off() + i]); if (!(d <= worst)) { worst = d; at = i; got = p; if (std::isnan((double) d)) break; } }
	if (!(worst <= t)) vh::fail(cfg + ":" + k, "%s: potential at (%zu,%zu,%zu) is %.9Lg, should be %.9Lg (tolerance %.1Lg)", name.c_str(), at % N, at / N % N, at / N / N + commRank() * Lz, got, e[g.off() + at], t);
	if (g.type == FIELD_PAXION && F->Folded() != folded) vh::fail(cfg + ":" + k + "-order", "%s: the order of the field changed", name.c_str());
	if (F->Folded() && !F->M2Folded()) vh::fail(cfg + ":" + k + "-m2order", "%s: the potential is not in the order of the field", name.c_str());
	if (F->m2Status() != M2_POT) vh::fail(cfg + ":" + k + "-status", "%s: the potential is not labelled as such", name.c_str());
	if (source) { static std::vector<char> b; b = g.snap(); static GField h; (void) h; if (F->Folded()) { Folder mu(F); mu(UNFOLD_ALL); b = g.snap(); } size_t bs = N * N * Lz; for (size_t i = 0; i < bs; i++) for (int c = 0; c < 2; c++) { LD x = prec == FIELD_SINGLE ? (LD) ((float *) b.data())[c * bs + i] : (LD) ((double *) b.data())[c * bs + i], y = (c ? g.v : g.m)[g.off() + i].real(); if (x != y) { vh::fail(cfg + ":" + k + "-source", "%s: the field changed while its potential was computed", name.c_str()); return; } } }
}
static void setup(bool grav, double G = 0.3, double beta = 0.0)
{
	auto ic = C->ICData(); ic.grav = G; ic.beta = beta; C->SetICData(ic); F->updateR(); pType = (PropType) (PROP_RKN4 | PROP_BASE); prop.reset(); initPropagator(pType, F, C->QcdPot(), (int) Ng);
	if (grav) { InitGravity(F); tuneGravity(prop->BlockX(), prop->BlockY(), prop->BlockZ()); prop->SetGravity(true); }
}
static Vec dense(int k) { Vec r(n3); LD s = 0; for (size_t i = 0; i < n3; i++) { r[i] = .2L + h01(i * 7 + k) + .6L * (1 + cosl(2 * M_PIl * (i % N + k) / N)) * (i / N / N < T / 2 ? 1.5L : .5L); s += r[i]; } for (auto &x : r) x *= n3 / s; return r; }
static void full(int stride)
{
	setup(true); C->ICData();
	// dense, exact solution
	for (int k = 0; k < 3; k++) { Vec r = dense(k); load(r); setHybridMode(false); calculateGraviPotential(); Vec e = solve(r); LD s = 0; for (auto x : e) s = std::max(s, fabsl(x)); check("dense", vh::fmt("%s dense density %d", cfg.c_str(), k), e, tol(s * 2), true); vh::eval(cfg + vh::fmt(" dense %d", k)); }
	// repeated on the potential just computed (nothing of the last call may survive)
	{ Vec r = dense(1); load(r); Vec e = solve(r); LD s = 0; for (auto x : e) s = std::max(s, fabsl(x)); for (int k = 0; k < 2; k++) { calculateGraviPotential(); check("again", cfg + " computed again", e, tol(s * 2), false); } vh::eval(cfg + " again"); }
	// every single mode, two phases alternating
	for (size_t md = 1; md < n3; md += stride) {
		size_t p = md % N, q = md / N % N, r = md / N / N; LD k = 2 * M_PIl / L, kp = wrapk(p, N), kq = wrapk(q, N), kr = wrapk(r, T), k2 = k * k * (kp * kp + kq * kq + kr * kr); bool self = (2 * p) % N == 0 && (2 * q) % N == 0 && (2 * r) % T == 0; size_t ph = self ? 0 : md % 5;
		Vec rho(n3), e(n3); for (size_t i = 0; i < n3; i++) { LD c = tc(MT * arg3(i, p, q, r) + 8 * ph); rho[i] = 1 + .5L * c; e[i] = -.5L * c / k2; }
		load(rho); calculateGraviPotential(); std::string nm = cfg + vh::fmt(" mode (%Lg,%Lg,%Lg)", kp, kq, kr); check("mode", nm, e, tol(.5L / k2 + 1 / (k * k) / 50), false); vh::eval(nm);
	}
	// every point source
	Vec d(n3, .001L); d[0] = n3 * .5L; green = solve(d); LD s = 0; for (auto x : green) s = std::max(s, fabsl(x));
	for (size_t pt = 0; pt < n3; pt += stride) {
		Vec rho(n3, .001L), e(n3); rho[pt] = n3 * .5L; size_t x0 = pt % N, y0 = pt / N % N, z0 = pt / N / N;
		for (size_t i = 0; i < n3; i++) e[i] = green[(i % N + N - x0) % N + N * ((i / N % N + N - y0) % N) + N * N * ((i / N / N + T - z0) % T)];
		load(rho); calculateGraviPotential(); std::string nm = cfg + vh::fmt(" point source (%zu,%zu,%zu)", x0, y0, z0); check("point", nm, e, tol(s * 2), false); vh::eval(nm);
	}
	// every block shape
	unsigned XC = prop->BlockX(), YC = prop->BlockY(); Vec r = dense(2), e = solve(r); s = 0; for (auto x : e) s = std::max(s, fabsl(x));
	for (unsigned by = 1; by <= YC; by++) for (unsigned bz = 1; bz <= Lz; bz++) { load(r); tuneGravity(XC, by, bz); calculateGraviPotential(); std::string nm = cfg + vh::fmt(" blocks of %ux%u", by, bz); check("block", nm, e, tol(s * 2), false); vh::eval(nm); }
}
static void norm()
{
	for (int k = 0; k < 40; k++) {
		Vec r = dense(k); LD f = powl(1.7L, k % 8 - 4); for (auto &x : r) x *= f; load(r); double b0 = k % 3 ? .7 : -.4; auto ic = C->ICData(); ic.beta = b0; ic.grav = .1; C->SetICData(ic);
		pType = (PropType) (PROP_RKN4 | PROP_BASE); prop.reset(); initPropagator(pType, F, C->QcdPot(), (int) Ng); std::string nm = cfg + vh::fmt(" normalisation of a mean density %.4Lg (%d)", f, k);
		initGravity(F); LD s = 0, all = 0; if (folded) { Folder mu(F); mu(UNFOLD_ALL); }
		size_t bs = N * N * Lz; auto b = g.snap(); for (size_t i = 0; i < bs; i++) for (int c = 0; c < 2; c++) { LD x = prec == FIELD_SINGLE ? (LD) ((float *) b.data())[c * bs + i] : (LD) ((double *) b.data())[c * bs + i], y = (c ? g.v : g.m)[g.off() + i].real() / sqrtl(f); s += x * x; if (!(fabsl(x - y) < tol(3))) { vh::fail(cfg + ":norm", "%s: component %d of point %zu is %.9Lg, should be %.9Lg", nm.c_str(), c, i, x, y); i = bs; break; } }
		double sd = s, ad; MPI_Allreduce(&sd, &ad, 1, MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD); all = ad / n3; if (!(fabsl(all - 1) < tol(1))) vh::fail(cfg + ":norm-mean", "%s: the mean density becomes %.9Lg", nm.c_str(), all);
		double bb = C->ICData().beta; if (!(fabsl(bb - b0 * f) < tol(1) * fabsl(b0 * f))) vh::fail(cfg + ":norm-beta", "%s: the self-coupling becomes %g, should be %Lg", nm.c_str(), bb, b0 * f);
		vh::eval(nm);
	}
}
// one and two time steps with gravity
static void step()
{
	struct { double frw, nq, beta, grav; } P[] = {{1, 3, 0, .5}, {1, 3, .6, .5}, {1, 1, -.5, -.8}, {.5, 2, .4, .7}, {.5, 4, 0, 1.}, {1, 3, 0, 0}};
	for (auto &p : P) for (int steps = 1; steps <= 2; steps++) for (int k = 0; k < 2; k++) for (int nr = 0; nr < 2; nr++) {
		C->SetFrw(p.frw); C->SetQcdExp(p.nq); *F->zV() = 1.3; Vec r = dense(k); load(r); std::string nm = cfg + vh::fmt(" expansion %g mass law %g self-coupling %g gravity %g density %d: %d steps%s", p.frw, p.nq, p.beta, p.grav, k, steps, nr ? " normalised first" : "");
		auto ic = C->ICData(); ic.grav = p.grav; ic.beta = p.beta; C->SetICData(ic); F->updateR(); pType = (PropType) (PROP_RKN4 | PROP_BASE); prop.reset(); initPropagator(pType, F, C->QcdPot(), (int) Ng);
		if (nr) initGravity(F); else { InitGravity(F); tuneGravity(prop->BlockX(), prop->BlockY(), prop->BlockZ()); prop->SetGravity(true); }
		Ref R; R.N = N; R.Lz = T; R.n3 = n3; R.Ng = Ng; R.type = FIELD_PAXION; R.L = L; R.c = C; R.ct = 1.3; R.beta = p.beta; R.kind = 1; R.coeffs(); R.m.assign(g.m.begin(), g.m.end()); R.v.assign(g.v.begin(), g.v.end()); R.pot = C->QcdPot();
		std::vector<LD> cc, dd; bool first; integrator(PROP_RKN4, cc, dd, first); const double dz = 0.05;
		auto kick = [&](LD h) {
			Vec rho(n3); for (size_t i = 0; i < n3; i++) rho[i] = std::norm(R.m[i]) + std::norm(R.v[i]); Vec ph = solve(rho); LD u = 2 * (LD) p.frw - 1, RR = C->R(R.ct), t = R.ct, K = fabsl(u) < 1e-9L ? p.beta * t * logl((t + h) / t) / (8 * RR * RR) : p.beta * t * (powl(t + h, u) - powl(t, u)) / (8 * RR * RR * u * powl(t + h, u)), mA = sqrtl(C->AxionMass2(R.ct));
			for (size_t i = 0; i < n3; i++) { LD a = R.m[i].real(), b = R.v[i].real(), gg = K * rho[i] - mA * p.grav * h * ph[i]; R.m[i] = cosl(gg) * a - sinl(gg) * b; R.v[i] = cosl(gg) * b + sinl(gg) * a; }
		};
		for (int s = 0; s < steps; s++) {
			kick(dz / 2);
			for (size_t q = 0; q < cc.size(); q++) {
				LD RR = C->R(R.ct), mA = sqrtl(C->AxionMass2(R.ct)), al = (LD) C->DlogMARDlogct(R.ct) - 1, t = R.ct; auto dzp = [&](LD d) { return fabsl(al) < 1e-2L ? t * log1pl(d / t) : t / al * (1 - powl(1 + d / t, -al)); };
				auto l = R.lap(R.m); LD f = dzp(dz * cc[q]) / (2 * mA * RR); for (size_t i = 0; i < n3; i++) R.v[i] += f * l[i];
				l = R.lap(R.v); f = dzp(dz * dd[q]) / (2 * mA * RR); for (size_t i = 0; i < n3; i++) R.m[i] -= f * l[i]; R.ct += (double) (dz * dd[q]);
			}
			kick(dz / 2); propagate(F, dz);
		}
		if (F->Folded()) { Folder mu(F); mu(UNFOLD_ALL); }
		size_t bs = N * N * Lz; auto b = g.snap(); LD w = -1, got = 0, want = 0; size_t at = 0; for (size_t i = 0; i < bs; i++) for (int c = 0; c < 2; c++) { LD x = prec == FIELD_SINGLE ? (LD) ((float *) b.data())[c * bs + i] : (LD) ((double *) b.data())[c * bs + i], y = (c ? R.v : R.m)[g.off() + i].real(), d = fabsl(x - y); if (!(d <= w)) { w = d; at = i; got = x; want = y; } }
		if (!(w < (prec == FIELD_SINGLE ? 1e-4L : 1e-11L))) vh::fail(cfg + ":step" + (getenv("VH_DBG") ? nm : ""), "%s: point %zu is %.9Lg, should be %.9Lg", nm.c_str(), at + g.off(), got, want);
		if (fabsl(*F->zV() - R.ct) > 1e-12L) vh::fail(cfg + ":time", "%s: time %g", nm.c_str(), *F->zV()); vh::eval(nm);
	}
}
// the multigrid approximation: long modes, small contrast on a large mean
static void hybrid()
{
	setup(true); setHybridMode(true); const LD A = .01L;
	LD worst[3] = {}; long kmax = N / 8;
	for (long p = 0; p <= kmax; p++) for (long q = -kmax; q <= kmax; q++) for (long r = -kmax; r <= kmax; r++) for (int ph = 0; ph < 2; ph++) {
		if (!p && !q && !r) continue; long n2 = p * p + q * q + r * r, kind = n2 == 1 ? 0 : n2 <= 3 ? 1 : 2; LD k = 2 * M_PIl / L, k2 = k * k * n2; Vec rho(n3), e(n3); for (size_t i = 0; i < n3; i++) { LD c = tc(MT * arg3(i, (p + N) % N, (q + N) % N, (r + N) % N) + 70 * ph); rho[i] = 1 + A * c; e[i] = -A * c / k2; }
		load(rho); calculateGraviPotential(); LD s = 0, s2 = 0; std::string nm = cfg + vh::fmt(" mode (%ld,%ld,%ld) phase %d", p, q, r, ph);
		for (size_t i = 0; i < N * N * Lz; i++) { LD d = phi(i) - e[g.off() + i]; s += d * d; s2 += e[g.off() + i] * e[g.off() + i]; }
		double a[2] = {(double) s, (double) s2}, b[2]; MPI_Allreduce(a, b, 2, MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD); LD er = sqrtl(b[0] / b[1]); worst[kind] = std::max(worst[kind], er);
		if (!(er < (kind == 0 ? .2L : kind == 1 ? .4L : .8L))) vh::fail(cfg + ":hybrid", "%s: relative error of the potential %.4Lf", nm.c_str(), er); vh::eval(nm);
	}
	if (getenv("VH_DBG") && !commRank()) fprintf(stderr, "worst %.4Lf %.4Lf %.4Lf\n", worst[0], worst[1], worst[2]);
}
// every assignment of the fastest choice to the ranks
static void tuned()
{
	setup(true); int W = 5; long all = 1; for (int r = 0; r < np; r++) all *= W; long used = np <= 2 ? all : W * np;
	for (long c = 0; c < used; c++) {
		long code = c; if (np > 2) { int base = c % W, odd = c / W; code = 0; for (int r = np - 1; r >= 0; r--) code = code * W + (r == odd ? (base + 1) % W : base); }
		std::vector<int> w(np); for (int r = 0; r < np; r++, code /= W) w[r] = code % W; std::string nm = cfg + " fastest:"; for (int x : w) nm += vh::fmt(" %d", x);
		Vec r = dense(c % 3), e = solve(r); LD s = 0; for (auto x : e) s = std::max(s, fabsl(x)); load(r); winner = w[commRank()]; runs = 0; fakeClock = true; alarm(20); setHybridMode(false); tuneGravityHybrid(); fakeClock = false;
		load(r); setHybridMode(true); calculateGraviPotential(); for (size_t i = 0; i < N * N * Lz; i++) if (!(fabsl(phi(i)) < 20 * s)) { vh::fail(cfg + ":tuned-hybrid", "%s: potential %Lg, largest exact one %Lg", nm.c_str(), phi(i), s); break; }
		load(r); setHybridMode(false); calculateGraviPotential(); alarm(0); check("tuned", nm + " full solution after tuning", e, tol(s * 2), true); vh::eval(nm);
	}
}
int main(int argc, char **argv)
{
	std::string what = argv[1]; prec = !strcmp(argv[2], "single") ? FIELD_SINGLE : FIELD_DOUBLE; N = atoi(argv[3]); Ng = atoi(argv[4]); np = atoi(argv[5]); folded = atoi(argv[6]); Lz = N / np; T = N; n3 = N * N * N; auto type = what == "axion" ? FIELD_AXION : FIELD_PAXION;
	C = vh::start({"--size", argv[3], "--depth", std::to_string(Lz), "--zgrid", argv[5], "--prec", argv[2], "--lap", argv[4], "--qcd", "4", "--lsize", "6", "--llcf", "30", "--fftplan", "64"});
	C->SetMink(false); C->SetFrw(1.0); C->SetLambda(30.0); C->SetLamZ2Exp(0.0); C->SetIndi3(1.1); C->SetQcdExp(3.0); C->SetPhysSize((double) L); C->SetQcdPot(V_QCD1_PQ1);
	F = vh::field(C, N, Lz, prec, type, np, Ng); g.init(F, N, Lz, np, Ng, prec, type); *F->zV() = 1.3; F->updateR();
	cfg = vh::fmt("%s-%s-%zu-halo%zu-np%d-%s", what.c_str(), vh::pname(prec), N, Ng, np, folded ? "folded" : "plain");
	if (what == "full") full(argc > 7 ? atoi(argv[7]) : 1);
	if (what == "norm") norm();
	if (what == "step") step();
	if (what == "hybrid") hybrid();
	if (what == "tuned") tuned();
	if (what == "axion") {
		setup(true);
		for (int k = 0; k < 24; k++) {
			LD R = *F->RV(); for (size_t i = 0; i < n3; i++) { g.m[i] = R * (.9L * sinl(2 * M_PIl * (i % N + k) / N) + .5L * cosl(2 * M_PIl * (i / N % N * (1 + k % 3)) / N + .3L) + .4L * h01(i + k)); g.v[i] = h01(i + 9 * k) - .5L; }
			g.put(folded); std::vector<double> e(32); energy(F, e.data(), EN_MAP, 0.); Vec loc(n3), rho(n3); LD s = 0; for (size_t i = 0; i < N * N * Lz; i++) loc[g.off() + i] = prec == FIELD_SINGLE ? (LD) ((float *) F->m2Cpu())[i] : (LD) ((double *) F->m2Cpu())[i];
			MPI_Allreduce(loc.data(), rho.data(), n3, MPI_LONG_DOUBLE, MPI_SUM, MPI_COMM_WORLD); for (auto x : rho) s += x; for (auto &x : rho) x *= n3 / s; Vec ex = solve(rho); s = 0; for (auto x : ex) s = std::max(s, fabsl(x));
			g.put(folded); F->setM2(M2_DIRTY); calculateGraviPotential(); std::string nm = cfg + vh::fmt(" angle field %d", k); check("angle", nm, ex, tol(s * 5), true); vh::eval(nm);
		}
	}
	vh::quit();
}
