// P07: conversions between representations on the real code, against the defining formulas in long double, at every point.
#include "gfield.h"
#include "scalar/thetaScalar.h"
#include "scalar/theta2Cmplx.h"
#include "scalar/thetaNaxion.h"
#include "scalar/thetaPaxion.h"
void resetPropagator(Scalar *) {} // the propagator is not part of this check
static GField g; static Scalar *F; static Cosmos *C; static std::string cfg; static LD R, Rp, tol;
static const LD P2 = 2 * M_PIl;
static size_t N, Lz, Ng; static int np; static FieldPrecision prec; static double FW;

static void bad(const char *key, const std::string &name, size_t i, LD a, LD b)
{ vh::fail(cfg + ":" + key, "%s: at (%zu,%zu,%zu): %.12Lg, should be %.12Lg", name.c_str(), i % N, i / N % N, i / g.S, a, b); }

static void fresh(FieldType t)
{
	F = vh::field(C, N, Lz, prec, t, np, Ng);
	*F->zV() = 1.7; F->updateR();
	if (FW == 0) *F->RV() = 1.;
	R = *F->RV();
	g.init(F, N, Lz, np, Ng, prec, t);
}
static bool state(const std::string &key, const std::string &name, FieldType t, size_t dsize)
{
	if (F->Field() != t) { vh::fail(cfg + ":" + key + ":type", "%s: field type %d after the conversion", name.c_str(), (int) F->Field()); return false; }
	if (F->DataSize() != dsize) { vh::fail(cfg + ":" + key + ":size", "%s: element size %zu after the conversion", name.c_str(), (size_t) F->DataSize()); return false; }
	if (*F->zV() != 1.7 || *F->RV() != (double) R) vh::fail(cfg + ":" + key + ":time", "%s: time changed", name.c_str());
	if (F->LowMem()) vh::fail(cfg + ":" + key + ":lowmem", "%s: low memory", name.c_str());
	if (F->MMomSpace() || F->VMomSpace()) vh::fail(cfg + ":" + key + ":space", "%s: momentum space", name.c_str());
	if (F->m2Status() == M2_ENERGY) vh::fail(cfg + ":" + key + ":m2", "%s: m2 is still announced as the energy map of the field before", name.c_str());
	return true;
}
static LD scalar(const void *p, size_t i) { return prec == FIELD_SINGLE ? (LD) ((const float *) p)[i] : (LD) ((const double *) p)[i]; }

// every phase, modulus and velocity of a grid of 48 x 5 x 5 x 5 combinations, a different share in each round
static void values(long r, LD &ph, LD &mod, LD &a, LD &b, size_t i)
{
	size_t c = (i * 7919 + r * 104729 + i / 6000) % 6000;
	ph = -M_PIl + P2 * ((c % 48) + .37L) / 48; mod = .4L + .25L * (c / 48 % 5); a = -2 + (LD) (c / 240 % 5); b = -1.5L + .8L * (c / 1200 % 5);
}

static void theta(long r, bool mod, bool folded, LD sh)
{
	std::string name = vh::fmt("theta%ld mod%d folded%d shift%d", r, mod, folded, sh > 0);
	fresh(FIELD_SAXION); sh = g.rnd(sh * R);
	for (size_t i = 0; i < g.m.size(); i++) { LD p, q, a, b; values(r, p, q, a, b, i); g.m[i] = R * q * cl(cosl(p), sinl(p)) + sh; g.v[i] = cl(a, b); }
	g.put(folded);
	F->setM2(M2_ENERGY);
	cmplxToTheta(F, (double) sh, mod);
	if (!state("theta", name, mod ? FIELD_AXION_MOD : FIELD_AXION, prec)) return;
	g.refold(false);
	for (size_t i = 0; i < g.S * g.Lz; i++) {
		size_t o = g.off() + i; cl s = g.m[o] - sh; LD th = std::arg(s), w = (g.v[o] * std::conj(s)).imag() / std::norm(s) * R + Rp * th;
		LD m = scalar(F->mStart(), i), v = scalar(F->vStart(), i); int k = mod ? 0 : (int) lroundl((m / R - th) / P2);
		if (!(fabsl(m / R - th - P2 * k) <= tol * (1 + abs(k)))) { bad("theta:m", name, o, m / R, th + P2 * k); return; }
		if (!(fabsl(v - w - P2 * k * Rp) <= tol * 10 * (1 + abs(k)))) { bad("theta:v", name, o, v, w + P2 * k * Rp); return; }
	}
	vh::eval(cfg + " " + name);
}
static void cmplx(long r)
{
	std::string name = vh::fmt("cmplx%ld", r);
	fresh(FIELD_SAXION);
	for (size_t i = 0; i < g.m.size(); i++) { LD p, q, a, b; values(r, p, q, a, b, i); g.m[i] = cl(p * q * 2, a); g.v[i] = cl(a, b); }
	g.put(false);
	theta2Cmplx(F);
	if (!state("cmplx", name, FIELD_SAXION, 2 * prec)) return;
	for (size_t i = 0; i < g.S * g.Lz; i++) {
		size_t o = g.off() + i; LD t = g.m[o].real(); cl w = R * cl(cosl(t), sinl(t)), u = w * cl(Rp / R, g.v[o].real()), m = g.load(F->mStart(), i), v = g.load(F->vStart(), i);
		if (!(std::abs(m - w) <= tol * R)) { bad("cmplx:m", name, o, std::abs(m - w), 0); return; }
		if (!(std::abs(v - u) <= tol * R * 5)) { bad("cmplx:v", name, o, std::abs(v - u), 0); return; }
	}
	vh::eval(cfg + " " + name);
}
static void nonrel(long r, bool pax, bool folded, bool created)
{
	std::string name = vh::fmt("%s%ld folded%d created%d", pax ? "paxion" : "naxion", r, folded, created);
	fresh(created ? FIELD_AXION : FIELD_SAXION);
	if (!created) F->setField(FIELD_AXION);
	g.init(F, N, Lz, np, Ng, prec, FIELD_AXION);
	for (size_t i = 0; i < g.m.size(); i++) { LD p, q, a, b; values(r, p, q, a, b, i); g.m[i] = R * p * q; g.v[i] = a + b; }
	g.put(folded);
	F->setM2(M2_ENERGY);
	if (pax) thetaToPaxion(F); else thetaToNaxion(F);
	if (!state(pax ? "paxion" : "naxion", name, pax ? FIELD_PAXION : FIELD_NAXION, pax ? prec : 2 * prec)) return;
	g.refold(false);
	LD M = F->AxionMass() * R, dM = M * (Rp / R) * (1 + 1.5L); // mass^2 goes as R^3 here
	g.type = pax ? FIELD_PAXION : FIELD_NAXION; g.cplx = !pax;
	for (size_t i = 0; i < g.S * g.Lz; i++) {
		size_t o = g.off() + i; LD q, p, a, b, th = g.m[o].real(), v = g.v[o].real();
		if (pax) { q = sqrtl(M / 2) * th; p = v / sqrtl(2 * M) + q * dM / (2 * M * M); a = scalar(F->mStart(), i); b = scalar(F->vStart(), i); }
		else { q = sqrtl(M) * th; p = -v / sqrtl(M); cl c = g.load(F->mStart(), i); a = c.real(); b = c.imag(); }
		if (!(fabsl(a - q) <= tol * (fabsl(q) + .1L))) { bad(pax ? "paxion:m" : "naxion:m", name, o, a, q); return; }
		if (!(fabsl(b - p) <= tol * (fabsl(p) + fabsl(q) + .1L))) { bad(pax ? "paxion:v" : "naxion:v", name, o, b, p); return; }
	}
	if (pax) { // both parts have a halo from now on
		F->exchangeGhosts(FIELD_M); F->exchangeGhosts(FIELD_V);
		for (size_t i = 0; i < g.S * g.Lz; i++) { LD v = scalar(F->vStart(), i), th = g.m[g.off() + i].real(), w = g.v[g.off() + i].real() / sqrtl(2 * M) + sqrtl(M / 2) * th * dM / (2 * M * M); if (!(fabsl(v - w) <= tol * (10 + fabsl(w)))) { bad("paxion:halo", name, g.off() + i, v, w); return; } }
	}
	vh::eval(cfg + " " + name);
}
int main(int argc, char **argv)
{
	// prec N Lz Ng np frw rounds
	prec = !strcmp(argv[1], "single") ? FIELD_SINGLE : FIELD_DOUBLE; tol = prec == FIELD_SINGLE ? 4e-6L : 1e-13L;
	N = atoi(argv[2]); Lz = atoi(argv[3]); Ng = atoi(argv[4]); np = atoi(argv[5]); FW = atof(argv[6]); int rounds = atoi(argv[7]);
	C = vh::start({"--size", argv[2], "--depth", argv[3], "--zgrid", argv[5], "--prec", argv[1], "--index", "0", "--lap", argv[4], "--qcd", "4", "--lsize", "6", "--llcf", "30"});
	C->SetMink(FW == 0); C->SetFrw(FW < 0 ? 1. : FW); C->SetPhysSize(7.0); C->ICData().grav = FW < 0 ? 0.8 : 0.; C->SetIndi3(1.1); C->SetQcdExp(3.0); C->SetZThRes(1e6); C->SetZRestore(1e7);
	LD ct = 1.7L; Rp = FW < 0 ? 1 + .5L * ct * .8L : FW == 0 ? 0 : FW * powl(ct, FW - 1);
	cfg = vh::fmt("%s-N%zu-Lz%zu-Ng%zu-np%d-t%d-frw%s", argv[1], N, Lz, Ng, np, omp_get_max_threads(), argv[6]);
	for (int r = 0; r < rounds; r++) {
		theta(r, true, r % 2, r % 4 < 2 ? 0 : .07L); theta(r, false, r % 2, r % 4 < 2 ? .05L : 0);
		cmplx(r);
		nonrel(r, false, r % 2, false);
		nonrel(r, true, r % 2, r % 4 < 2);
	}
	vh::quit();
}
