// P16: the background functions against the configured laws in long double, at times on, next to and between the boundaries.
#include "vh.h"
typedef long double LD;
void resetPropagator(Scalar *) {}
static std::string cfg;
struct Law {
	LD frw, grav, i3, n, nr, zt, zr, lam, le; long pot;
	LD R(LD c) const { return grav > 0 && frw == 1 ? c * (1 + grav * c / 4) : powl(c, frw); }
	LD H(LD c) const { return grav > 0 && frw == 1 ? (1 + grav * c / 2) / R(c) : frw / c; }
	LD Rpp(LD c) const { return grav > 0 && frw == 1 ? grav / 2 / R(c) : frw * (frw - 1) / (c * c); }
	// piece: 0 growing, 1 cut, 2 restored; side -1/+1 chooses at a boundary
	int piece(LD c, int side) const { LD r = R(c) * (1 + side * 1e-13L); if (r < zt) return 0; return zt <= zr && r > zr ? 2 : 1; }
	LD m2(LD c, int p) const { LD r = R(c); return i3 * i3 * (p == 0 ? powl(r, n) : powl(zt, n) * (p == 2 ? powl(r / zr, nr) : 1)); }
	LD ex(int p) const { return p == 0 ? n : p == 1 ? 0 : nr; }
	LD tof(LD r) const { return grav > 0 && frw == 1 ? (sqrtl(1 + grav * r) - 1) * 2 / grav : frw == 0 ? -1 : powl(r, 1 / frw); }
};
static bool close(double a, LD b, LD tol) { return a == b || fabsl(a - b) <= tol * fabsl(b) + 1e-300L || (std::isnan(a) && std::isnan((double) b)); }
#define SAME(what, a, b, tol) do { double A_ = (a); LD B_ = (b); if (!close(A_, B_, tol)) vh::fail(std::string(what), "%s ct %.17g: %s is %.15g, should be %.15Lg", nm.c_str(), ct, what, A_, B_); } while (0)
static Scalar *sax; static Cosmos *C;
static std::vector<double> times(const Law &l)
{
	std::vector<double> t = {0.01, 0.3, 0.77, 1, 1.5, 2.2, 3, 7.9, 40};
	for (LD b : {l.zt, l.zr}) if (b < 1e6L) { double c = l.tof(b); if (c > 0 && std::isfinite(c)) { double u = c, d = c; t.push_back(c); for (int k = 0; k < 3; k++) { u = nextafter(u, 1e9); d = nextafter(d, 0); t.push_back(u); t.push_back(d); } for (double e : {1e-9, 1e-5, 1e-3}) { t.push_back(c * (1 + e)); t.push_back(c * (1 - e)); } } }
	return t;
}
static void point(const Law &l, double ct, const std::string &nm)
{
	LD R = l.R(ct), t = 1e-12L;
	SAME("R", C->R(ct), R, t); SAME("Rp", C->Rp(ct), l.H(ct), t); SAME("Rpp", C->Rpp(ct), l.Rpp(ct), t);
	int a = l.piece(ct, -1), b = l.piece(ct, 1); // next to a boundary either side is right
	double m2 = C->AxionMass2(ct), dm = C->DAxionMass2Dct(ct), dl = C->DlogMARDlogct(ct);
	SAME("axion-mass", m2, l.m2(ct, b), t);
	bool k1 = false, k2 = false; LD d, e; for (int p = a; p <= b; p++) { k1 |= close(dm, d = l.ex(p) * l.H(ct) * l.m2(ct, p), t); k2 |= close(dl, e = ct * l.H(ct) * (l.ex(p) / 2 + 1), t); }
	if (!k1) SAME("axion-mass-derivative", dm, d, t);
	if (!k2) SAME("axion-mass-logarithmic-derivative", dl, e, t);
	LD lp = l.lam / powl(R, l.le), ms = lp * ((l.pot & V_PQ) == V_PQ2 ? 8 : 2);
	SAME("lambda", C->LambdaP(ct), lp, t); SAME("saxion-mass", C->SaxionMass2(ct), ms, t);
	// the field at its own time, and asked for a time while its own is another one
	Scalar *S = sax; LD al = l.m2(ct, b) / lp; auto fm = [](LD x, LD a) { return x * x * x - x - a; };
	for (int own = 0; own < 2; own++) {
		S->setZ(own ? ct : ct * 1.7 + .1); S->updateR();
		SAME("field-R", S->Rfromct(ct), R, t);
		SAME("field-axion-mass", own ? S->AxionMass() : S->AxionMass(ct), sqrtl(l.m2(ct, b)), t);
		SAME("field-axion-mass-squared", own ? S->AxionMassSq() : S->AxionMassSq(ct), l.m2(ct, b), t);
		SAME("field-saxion-mass", own ? S->SaxionMassSq() : S->SaxionMassSq(ct), ms, t);
		double sh = own ? S->SaxionShift() : S->SaxionShift(ct), sk = own ? S->Saskia() : S->Saskia(ct);
		if (al < 10 && al > 1e-12L) { LD x = sh + 1.0L; if (!(fabsl(fm(x, al)) <= 1e-10L * (1 + al * al) && x >= 1 - 1e-9L)) vh::fail("saxion-shift", "%s ct %.17g: shift %.15g does not solve x^3-x=%.15Lg", nm.c_str(), ct, sh, al); }
		if ((l.pot & V_QCD) == V_QCD1 && (l.pot & V_PQ) != V_PQ2) SAME("shift", sk, sh, t);
		if ((l.pot & V_QCD) == V_QCD1 && (l.pot & V_PQ) == V_PQ2 && al < 3) { // a fit of the root of 2x^3(x^4-1)=alpha
			LD x = 1 + al / 8; for (int k = 0; k < 60; k++) x -= (2 * x * x * x * (x * x * x * x - 1) - al) / (14 * powl(x, 6) - 6 * x * x);
			if (!(fabsl(sk - (x - 1)) <= 2e-3L * (x - 1) + 1e-12L)) vh::fail("shift", "%s ct %.17g: shift %.15g, should be close to %.15Lg", nm.c_str(), ct, sk, x - 1);
		}
		if ((l.pot & V_QCD) == V_QCD0 || (l.pot & V_QCD) == V_QCDV) SAME("shift", sk, 0, t);
		if (own) {
			SAME("field-own-R", *S->RV(), R, t); SAME("field-lambda", S->LambdaP(), lp, t); SAME("field-Rpp", S->Rpp(), l.Rpp(ct), t); SAME("field-Hubble-mass", S->HubbleMassSq(), l.Rpp(ct), t);
			SAME("field-conformal-Hubble", S->HubbleConformal(), l.H(ct), t); SAME("field-msa", S->Msa(), sqrtl(2 * lp) * R * S->Delta(), t);
		}
	}
	vh::eval(nm + vh::fmt(" ct %.17g", ct), ct != 1);
}
// integral and double integral of mass^2 R^n of the growing and cut law, by Gauss-Legendre quadrature on the pieces
static LD quad(const Law &l, LD a, LD b, int n, bool twice, LD end)
{
	static const LD x[5] = {0, 0.5384693101056830910L, 0.9061798459386639928L, 0, 0}, w[3] = {0.5688888888888888889L, 0.4786286704993664680L, 0.2369268850561890875L};
	LD s = 0; int K = 60; for (int k = 0; k < K; k++) { LD lo = a * powl(b / a, (LD) k / K), hi = a * powl(b / a, (LD) (k + 1) / K), c = (lo + hi) / 2, h = (hi - lo) / 2; for (int j = -2; j <= 2; j++) { LD y = c + (j < 0 ? -h : h) * x[abs(j)]; s += h * w[abs(j)] * l.m2(y, l.R(y) < l.zt ? 0 : 1) * powl(l.R(y), n) * (twice ? end - y : 1); } }
	return s;
}
static LD integral(const Law &l, LD a, LD b, int n, bool twice)
{
	LD c = l.frw == 0 ? -1 : powl(l.zt, 1 / l.frw); LD lo = std::min(a, b), hi = std::max(a, b);
	if (!(c > lo && c < hi)) return a == b ? 0 : quad(l, a, b, n, twice, b);
	return quad(l, a, c, n, twice, b) + quad(l, c, b, n, twice, b);
}
static void laws(long pot)
{
	C->SetQcdPot((VqcdType) pot); long cnt = 0;
	for (double frw : {0., .5, 1., 1.5, 2.}) for (double grav : {0., .3, 2.}) { if (grav > 0 && frw != 1 && frw != 2) continue;
	for (double n : {0., 2., 6.68}) for (double nr : {6.68, 0., 3.}) { if (nr == 6.68 && n != 6.68) continue;
	for (double zt : {.7, 1.3, 1e8}) for (double zr : {.5, 1.3, 2.5, 1e9}) for (double i3 : {1., .37, 0.}) for (double le : {0., 2., 1.}) {
		if ((i3 != 1) + (le != 0) > 1) continue;
		C->SetMink(false); C->SetMink(frw == 0); C->SetFrw(frw); IcData ic = C->ICData(); ic.grav = grav; C->SetICData(ic);
		C->SetQcdExp(n); if (n != nr) C->SetQcdExpr(nr); C->SetZThRes(zt); C->SetZRestore(zr); C->SetIndi3(i3); C->SetLambda(30); C->SetLamZ2Exp(le); C->SetPhysSize(7);
		Law l{frw, grav, i3, n, n == 6.68 ? nr : nr, zt, zr, 30, le, pot};
		std::string nm = vh::fmt("pot %ld frw %g grav %g nQcd %g nQcdr %g zth %g zres %g indi3 %g lz2e %g", pot, frw, grav, n, nr, zt, zr, i3, le);
		for (double ct : times(l)) point(l, ct, nm);
		if (zr < 1e8 || grav > 0 || le != 0 || pot != V_QCD1_PQ1) continue;
		std::vector<double> t = {.3, 1., 2.2, 5.}; if (frw) { double c = l.tof(zt); if (c < 100) { t.push_back(c); t.push_back(c * 1.01); t.push_back(c * .9); } }
		sax->setZ(1.9); sax->updateR();
		for (double a : t) for (double b : t) for (int p : {0, 1, 3}) {
			double ct = a; LD i1 = integral(l, a, b, p, false), i2 = integral(l, a, b, p, true); std::string nn = nm + vh::fmt(" to %.17g n %d", b, p);
			LD sc = std::max(integral(l, .3L, 6, p, false), (LD) 0); double g1 = sax->IAxionMassSqn(a, b, p), g2 = sax->IIAxionMassSqn(a, b, p);
			if (!(fabsl(g1 - i1) <= 1e-9L * fabsl(i1) + 1e-12L * sc)) vh::fail("integral", "%s ct %.17g: integral %.15g, should be %.15Lg", nn.c_str(), ct, g1, i1);
			if (!(fabsl(g2 - i2) <= 1e-9L * fabsl(i2) + 1e-12L * sc)) vh::fail("double-integral", "%s ct %.17g: double integral %.15g, should be %.15Lg", nn.c_str(), ct, g2, i2);
			vh::eval(nn + vh::fmt(" from %.17g", a), a != b);
		}
	} } }
}
// the tabulated cosmology against the table
struct Spl { // natural cubic spline
	std::vector<LD> x, y, m;
	Spl(const std::vector<LD> &a, const std::vector<LD> &b) : x(a), y(b), m(a.size(), 0) { size_t n = x.size(); std::vector<LD> c(n), d(n); for (size_t i = 1; i + 1 < n; i++) { LD h0 = x[i] - x[i - 1], h1 = x[i + 1] - x[i], p = 2 * (h0 + h1) - h0 * c[i - 1]; c[i] = h1 / p; d[i] = (6 * ((y[i + 1] - y[i]) / h1 - (y[i] - y[i - 1]) / h0) - h0 * d[i - 1]) / p; } for (size_t i = n - 2; i > 0; i--) m[i] = d[i] - c[i] * m[i + 1]; }
	LD ev(LD t, bool der = false) const { size_t i = 0; while (i + 2 < x.size() && t >= x[i + 1]) i++; LD h = x[i + 1] - x[i], a = (x[i + 1] - t) / h, b = (t - x[i]) / h; return der ? (y[i + 1] - y[i]) / h + h / 6 * ((1 - 3 * a * a) * m[i] + (3 * b * b - 1) * m[i + 1]) : a * y[i] + b * y[i + 1] + h * h / 6 * ((a * a * a - a) * m[i] + (b * b * b - b) * m[i + 1]); }
};
static void table(const char *file, double fA)
{
	std::vector<LD> e, r, T, p, x, f; FILE *h = fopen(file, "r"); char b[300]; fgets(b, 300, h); LD v[6];
	while (fscanf(h, "%Lf %Lf %Lf %Lf %Lf %Lf", v, v + 1, v + 2, v + 3, v + 4, v + 5) == 6) { e.push_back(v[0]); r.push_back(v[1]); T.push_back(v[2]); p.push_back(v[3]); x.push_back(v[4]); f.push_back(v[5]); } fclose(h);
	std::vector<LD> le; for (LD a : e) le.push_back(log10l(a)); Spl sf(le, f); LD lo = le[0], hi = le.back(); for (int k = 0; k < 200; k++) { LD c = (lo + hi) / 2; (sf.ev(c) < log10l(fA) ? lo : hi) = c; }
	LD e1 = powl(10, lo); std::string nm = vh::fmt("table fA %g", fA);
	C->SetUeC(true); C->SetFA(fA); C->Setup(); double ct = 1;
	SAME("R(1)", C->R(1), 1, 1e-12L); SAME("chi(1)", C->TopSus(1), 1, 1e-12L);
	std::vector<double> ts; double last = -1; vh::eval(nm);
	{ FILE *o = fopen("out/cosmos.txt", "r"); if (o) { double q; while (fgets(b, 300, o) && sscanf(b, "%lf", &q) == 1) { ts.push_back(q); if (!(q > last)) vh::fail("table", "%s: times do not increase", nm.c_str()); last = q; } fclose(o); } }
	if (ts.size() + 1 < e.size() || ts.size() > e.size()) { vh::fail("table", "%s: %zu rows, the table has %zu", nm.c_str(), ts.size(), e.size()); return; }
	double E1 = e[0] / ts[0]; ct = E1; SAME("time-unit", E1, e1, 3e-3L); // found to 1e-5 in log10 fA
	std::vector<LD> q; for (LD a : e) q.push_back(a / (LD) E1); Spl sR(q, r), sT(q, T), sp(q, p), sx(q, x); LD R1 = sR.ev(1), x1 = sx.ev(1);
	LD tol = 1e-4L; // the printed times have seven digits, and the splines' end conditions differ
	for (size_t i = 0; i + 2 < ts.size(); i++) for (int w = 0; w < 3; w++) {
		ct = q[i] + (q[i + 1] - q[i]) * w / 3; if (ct < .02) continue; std::string kk = vh::fmt(" row %zu.%d", i, w);
		SAME("table-R", C->R(ct), sR.ev(ct) / R1, tol); SAME("table-T", C->T(ct), sT.ev(ct), 1e-3L); if (w == 0) SAME("table-Rpp", C->Rpp(ct) * ct * ct + 1, p[i] + 1, 1e-5L);
		LD X = sx.ev(ct) / x1; if (fabsl(X) > 1e-4L) { SAME("table-chi", C->TopSus(ct), X, 1e-3L); SAME("table-mass", C->AxionMass2(ct), C->TopSus(ct), 1e-12L); }
		if (ct > .1 && ct < q.back() * .9) {
			SAME("table-Rp", C->Rp(ct), sR.ev(ct, true) / sR.ev(ct), 1e-3L);
			if (fabsl(X) > 1e-2L) { LD D = sx.ev(ct, true) / x1; double d = C->DAxionMass2Dct(ct); if (!(fabsl(d - D) <= 1e-2L * fabsl(D) + 1e-2L * X / ct)) vh::fail("table-mass-derivative", "%s ct %.9g: %.9g, should be %.9Lg", nm.c_str(), ct, d, D);
				LD L = ct * (D / X / 2 + sR.ev(ct, true) / sR.ev(ct)); SAME("table-logarithmic-derivative", C->DlogMARDlogct(ct), L, 2e-2L); }
		}
		sax->setZ(ct); sax->updateR(); SAME("table-field-R", *sax->RV(), C->R(ct), 1e-15L); SAME("table-field-mass", sax->AxionMassSq(), C->AxionMass2(ct), 1e-15L); SAME("table-field-Rpp", sax->Rpp(), C->Rpp(ct), 1e-15L); SAME("table-field-H", sax->HubbleConformal(), C->Rp(ct), 1e-15L);
		vh::eval(nm + kk);
	}
}
int main(int argc, char **argv)
{
	// laws POT | table FILE FA
	C = vh::start({"--size", "16", "--depth", "16", "--zgrid", "1", "--index", "0", "--prec", "single", "--qcd", "4", "--lsize", "6", "--llcf", "30"});
	C->SetMink(false); C->SetFrw(1.0); C->SetLambda(30.0); C->SetLamZ2Exp(0.0); C->SetIndi3(1.1); C->SetQcdExp(3.0); C->SetPhysSize(7.0); C->SetQcdPot(V_QCD1_PQ1);
	sax = vh::field(C, 16, 16, FIELD_SINGLE, FIELD_SAXION, 1, 1, LAMBDA_FIXED);
	if (argv[1][0] == 'l') laws(atol(argv[2])); else table(argv[2], atof(argv[3]));
	vh::quit();
}
