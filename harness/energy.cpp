// P09: energies, energy maps and string energies of the real code against the densities in long double on the global lattice.
#include "gfield.h"
#include "energy/energy.h"
#include "strings/strings.h"
#ifdef SIM
#include "ompsim.h"
#endif
static GField g; static Scalar *F; static Cosmos *C; static std::string cfg; static LD del, R, H; static std::vector<char> mask;
struct D { LD th[5], rh[6], map, rmap; };

static D density(long pot, LD shift, size_t x, size_t y, size_t z)
{
	D d; memset(&d, 0, sizeof d);
	size_t o = g.at(x, y, z), nb[6] = {g.at(x + 1, y, z), g.at(x + g.N - 1, y, z), g.at(x, y + 1, z), g.at(x, y + g.N - 1, z), g.at(x, y, z + 1), g.at(x, y, z + g.T - 1)};
	LD mA2 = F->AxionMassSq(), o2 = .25L / (del * del);
	if (g.type == FIELD_SAXION) {
		cl m = g.m[o], im = std::conj(m) / std::norm(m);
		LD r2 = std::norm(m) / (R * R);
		for (int k = 0; k < 6; k++) { cl q = (g.m[nb[k]] - m) * im; d.th[k / 2] += o2 / (R * R) * r2 * q.imag() * q.imag(); d.rh[k / 2] += o2 / (R * R) * r2 * q.real() * q.real(); }
		cl w = g.v[o] * im;
		d.th[3] = .5L / (R * R) * r2 * w.imag() * w.imag(); d.rh[3] = .5L / (R * R) * r2 * (w.real() - H) * (w.real() - H);
		cl s = m - shift; LD p2 = std::norm(s) / (R * R), lam = F->LambdaP();
		d.rh[5] = sqrtl(p2);
		switch (pot & V_PQ) {
			case V_PQ1: d.rh[4] = lam / 4 * (p2 - 1) * (p2 - 1); break;
			case V_PQ2: d.rh[4] = lam / 4 * (p2 * p2 - 1) * (p2 * p2 - 1); break;
			case V_PQ3: d.rh[4] = lam / 4 * (p2 >= 1 ? 4 * (sqrtl(p2) - 1) * (sqrtl(p2) - 1) : (p2 - 1) * (p2 - 1)); break;
		}
		switch (pot & V_QCD) {
			case V_QCD1: case V_QCDC: d.th[4] = mA2 * (1 - s.real() / std::abs(s)); break;
			case V_QCDV: d.th[4] = mA2 * .5L * std::norm(cl(1) - s / R); break;
			case V_QCD2: d.th[4] = mA2 * .5L * s.imag() * s.imag() / std::norm(s); break;
		}
	} else if (g.type == FIELD_PAXION) {
		LD mA = F->AxionMass(), q = g.m[o].real(), p = g.v[o].real();
		for (int k = 0; k < 6; k++) { LD a = g.m[nb[k]].real() - q, b = g.v[nb[k]].real() - p; d.th[k / 2] += o2 / mA / powl(R, 5) * (a * a + b * b); }
		d.th[3] = q * q + p * p; d.th[4] = -1.L / 16 / powl(R, 6) * d.th[3] * d.th[3];
		d.map = d.th[3]; d.rmap = d.th[0] + d.th[1] + d.th[2] + d.th[4];
		return d;
	} else {
		LD m = g.m[o].real(), per = 2 * M_PIl * R;
		for (int k = 0; k < 6; k++) { LD q = g.m[nb[k]].real() - m; if (g.type == FIELD_AXION_MOD) q -= per * roundl(q / per); d.th[k / 2] += o2 / powl(R, 4) * q * q; }
		LD w = g.v[o].real() - H * m;
		d.th[3] = .5L * w * w / powl(R, 4);
		switch (pot & V_QCD) {
			case V_QCD0: break;
			case V_QCDL: d.th[4] = mA2 * .5L * m * m / (R * R); break;
			default: d.th[4] = mA2 * (1 - cosl(m / R));
		}
	}
	for (int k = 0; k < 5; k++) { d.map += d.th[k]; d.rmap += d.rh[k]; }
	return d;
}

static const char *emn(int e) { return e == EN_ENE ? "ENE" : e == EN_MAP ? "MAP" : e == EN_MASK ? "MASK" : e == EN_ENEMASK ? "ENEMASK" : e == EN_MAPMASK ? "MAPMASK" : "ENEMAPMASK"; }
static std::string potn(long p) { return vh::fmt("%s-%s", (p & V_PQ) == V_PQ1 ? "PQ1" : (p & V_PQ) == V_PQ2 ? "PQ2" : "PQ3", (p & V_QCD) == V_QCD0 ? "QCD0" : (p & V_QCD) == V_QCD1 ? "QCD1" : (p & V_QCD) == V_QCDV ? "QCDV" : (p & V_QCD) == V_QCD2 ? "QCD2" : (p & V_QCD) == V_QCDL ? "QCDL" : "QCDC"); }

static void one(const std::string &name, long pot, int em, LD shift, bool folded)
{
	C->SetQcdPot((VqcdType) pot);
	bool sx = g.type == FIELD_SAXION;
	std::string key = cfg + ":" + potn(pot) + ":" + emn(em);
	g.put(folded);
	if (sx || em & EN_MASK) { for (size_t i = 0; i < g.S * g.Lz; i++) ((char *) F->sData())[i] = mask[g.off() + i] ? STRING_MASK | (i % 3 == 0) : (i % 5 == 0); F->setSD(em & EN_MASK ? SD_MASK : SD_MAP); }
	auto before = g.snap();
	size_t fs = F->Precision() == FIELD_SINGLE ? 4 : 8;
	if (em & 2) memset(F->m2Cpu(), 0x7f, fs * 2 * F->eSize());
	double e[32]; for (auto &x : e) x = 12345.;
	energy(F, e, (EnType) em, shift);
	g.refold(folded);
	if (g.snap() != before) vh::fail(key + ":field", "%s: the field was changed", name.c_str());
	LD s[23] = {0}, a[23] = {0}, n = 0; bool bad = false;
	const double tol = g.prec == FIELD_SINGLE ? 3e-5 : 1e-10;
	LD mx = 0; std::vector<D> loc;
	std::vector<D> all(g.S * g.T);
	for (size_t z = 0; z < g.T; z++) for (size_t y = 0; y < g.N; y++) for (size_t x = 0; x < g.N; x++) {
		D d = density(pot, shift, x, y, z); all[g.at(x, y, z)] = d;
		for (int k = 0; k < 5; k++) s[k] += d.th[k];
		for (int k = 0; k < 6; k++) s[5 + k] += d.rh[k];
		if (mask[g.at(x, y, z)]) { n++; for (int k = 0; k < 5; k++) s[11 + k] += d.th[k]; for (int k = 0; k < 6; k++) s[16 + k] += d.rh[k]; }
	}
	for (int k = 0; k < 23; k++) {
		bool mk = k >= 11;
		if (!sx && k >= 5) break;
		if (mk ? !(em & EN_MASK) : !(em & EN_ENE)) continue;
		if (mk && n == 0) continue;
		LD w = k == 22 ? n : s[k] / (mk ? n : (LD) (g.S * g.T)), sc = fabsl(w) + (k == 4 || k == 15 ? F->AxionMassSq() : k == 9 || k == 20 ? F->LambdaP() * .01 : .05L * sqrtl(fabsl(w)) + 1e-9L); // a small kinetic or gradient part is a square of a difference
		if (!(fabsl(e[k] - w) <= tol * sc)) { bad = true; vh::fail(key + vh::fmt(":%d", k), "%s: entry %d is %.12g, should be %.12Lg", name.c_str(), k, e[k], w); }
	}
	if (em & 2) {
		size_t half = F->eSize();
		for (size_t i = 0; i < g.S * g.Lz && !bad; i++) {
			const D &d = all[g.off() + i]; LD sc = 0;
			bool cut = em == EN_MAPMASK && !mask[g.off() + i];
			for (int h = 0; h < (sx || g.type == FIELD_PAXION ? 2 : 1); h++) {
				LD got = fs == 4 ? (LD) ((float *) F->m2Cpu())[i + h * half] : (LD) ((double *) F->m2Cpu())[i + h * half], w = cut ? 0 : h ? d.rmap : d.map;
				sc = fabsl(w) + (h ? (sx ? (LD) F->LambdaP() : fabsl(d.th[0] + d.th[1] + d.th[2])) : F->AxionMassSq());
				if (!(fabsl(got - w) <= tol * sc)) { bad = true; vh::fail(key + (h ? ":map2" : ":map"), "%s: density at point %zu is %.12Lg, should be %.12Lg", name.c_str(), (size_t) (g.off() + i), got, w); break; }
			}
		}
		if (F->m2Status() != M2_ENERGY) vh::fail(key + ":status", "%s: m2 status %d after the map", name.c_str(), (int) F->m2Status());
	}
	vh::eval(vh::fmt("%s %s %s %s", cfg.c_str(), name.c_str(), potn(pot).c_str(), emn(em)));
#ifdef SIM
	sim::drain(key.c_str());
#endif
}

static void stringE(const std::string &name)
{
	C->SetQcdPot((VqcdType) (V_QCD1 | V_PQ1));
	g.put(false);
	for (size_t i = 0; i < g.S * g.Lz; i++) ((char *) F->sData())[i] = mask[g.off() + i] ? STRING_MASK : 0;
	F->setSD(SD_MASK);
	StringEnergyData e = stringenergy(F);
	LD tot = 0, a = 0, s = 0, aV = 0, sV = 0, n = 0, sh = F->Saskia() * R, lam = F->LambdaP(), R4 = R * R * R * R;
	for (size_t z = 0; z < g.T; z++) for (size_t y = 0; y < g.N; y++) for (size_t x = 0; x < g.N; x++) {
		size_t o = g.at(x, y, z), nb[3] = {g.at(x + 1, y, z), g.at(x, y + 1, z), g.at(x, y, z + 1)};
		cl m = g.m[o], w = g.v[o] - H * m, ms = m - sh; LD mo = std::abs(ms);
		LD pt = .25L * lam * powl(std::norm(m) / (R * R) - 1, 2), kin = .5L * std::norm(w) / R4, gr = 0, gs = 0;
		for (auto q : nb) { gr += .5L * std::norm(g.m[q] - m) / R4 / (del * del); gs += .5L * powl(std::abs(g.m[q] - sh) - mo, 2) / R4 / (del * del); }
		LD ak = .5L * powl((w / ms).imag(), 2) / (R * R), sk = .5L * powl((w * mo / ms).real(), 2) / R4;
		tot += kin + gr + pt; aV += mo * mo / (R * R) * 2 * ak; sV += mo * mo / (R * R) * (sk + gs + pt);
		if (!mask[o]) { a += 2 * ak; s += sk + gs + pt; n++; }
	}
	LD V = g.S * g.T, w[7] = {a / n, s / n, tot / V - a / n - s / n, aV / V, sV / V, tot / V - aV / V - sV / V, n};
	double got[7] = {e.rho_a, e.rho_s, e.rho_str, e.rho_a_Vil, e.rho_s_Vil, e.rho_str_Vil, (double) e.nout};
	for (int k = 0; k < 7; k++) if (n > 0 || k == 3 || k == 4 || k == 5)
		if (!(fabsl(got[k] - w[k]) <= (g.prec == FIELD_SINGLE ? 5e-5 : 1e-10) * (fabsl(w[k]) + fabsl(tot / V)))) vh::fail(cfg + vh::fmt(":string:%d", k), "%s: string energy entry %d is %.12g, should be %.12Lg", name.c_str(), k, got[k], w[k]);
	vh::eval(cfg + " string " + name);
#ifdef SIM
	sim::drain((cfg + ":string").c_str());
#endif
}

int main(int argc, char **argv)
{
	// prec type N Lz Ng np frw delta(0/1) pots...
	FieldPrecision prec = !strcmp(argv[1], "single") ? FIELD_SINGLE : FIELD_DOUBLE;
	std::string t = argv[2]; FieldType type = t == "saxion" ? FIELD_SAXION : t == "axion" ? FIELD_AXION : t == "axionmod" ? FIELD_AXION_MOD : FIELD_PAXION;
	size_t N = atoi(argv[3]), Lz = atoi(argv[4]), Ng = atoi(argv[5]); int np = atoi(argv[6]); double frw = atof(argv[7]); int deltas = atoi(argv[8]);
	C = vh::start({"--size", argv[3], "--depth", argv[4], "--zgrid", argv[6], "--prec", argv[1], "--index", "0", "--lap", argv[5], "--qcd", "4", "--lsize", "6", "--llcf", "30"});
	F = vh::field(C, N, Lz, prec, type, np, Ng);
	bool grav = frw < 0;
	C->SetMink(false); C->SetFrw(grav ? 1.0 : frw); C->SetLambda(30.0); C->SetLamZ2Exp(0.5); C->SetIndi3(1.1); C->SetQcdExp(3.0); C->SetPhysSize(7.0);
	C->ICData().grav = grav ? 0.8 : 0.;
	*F->zV() = 1.7; F->updateR();
	R = *F->RV(); H = grav ? (1 + 2 * .25L * 1.7L * .8L) / (1.7L * (1 + .25L * 1.7L * .8L)) : (LD) frw / 1.7L; del = 7.0L / N;
	if (fabsl(F->Delta() / del - 1) > 1e-9) vh::fail("setup", "lattice spacing %g", F->Delta());
	g.init(F, N, Lz, np, Ng, prec, type);
	cfg = vh::fmt("%s-%s-N%zu-Lz%zu-Ng%zu-np%d-t%d-frw%s", argv[2], argv[1], N, Lz, Ng, np, omp_get_max_threads(), argv[7]);
	mask.assign(g.S * g.T, 0);
	auto fill = [&](uint64_t s) {
		for (size_t i = 0; i < g.S * g.T; i++) {
			if (type == FIELD_SAXION) { LD r = (.35L + 1.2L * h01(s + 5 * i)) * R, p = 2 * M_PIl * h01(s + 5 * i + 1); g.m[i] = cl(r * cosl(p), r * sinl(p)); g.v[i] = cl(h01(s + 5 * i + 2) - .5, h01(s + 5 * i + 3) - .5) * (LD) 4; }
			else if (type == FIELD_PAXION) { g.m[i] = 2 * h01(s + 5 * i) - 1; g.v[i] = 2 * h01(s + 5 * i + 1) - 1; }
			else { g.m[i] = (2 * h01(s + 5 * i) - 1) * M_PIl * .999L * R; g.v[i] = 4 * h01(s + 5 * i + 1) - 2; }
		}
	};
	std::vector<long> pots;
	for (int i = 9; i < argc; i++) pots.push_back(atol(argv[i]));
	const int ems[] = {EN_ENE, EN_MAP, EN_MASK, EN_ENEMASK, EN_MAPMASK, EN_ENEMAPMASK};
	int run = 0;
	for (long pot : pots) for (int em : ems) for (int mk = 0; mk < (type == FIELD_SAXION && em & EN_MASK ? 4 : 1); mk++) {
		if (type != FIELD_SAXION && em > EN_MAP) continue;
		fill(1000003ull * (run + 1));
		for (size_t i = 0; i < mask.size(); i++) mask[i] = mk == 0 ? h01(i + 17 * run) < .4 : mk == 1 ? 1 : mk == 2 ? i == mask.size() - 1 - run % 7 : 0;
		LD sh = type == FIELD_SAXION && run % 2 ? .07L * R : 0; sh = g.rnd(sh);
		one(vh::fmt("fill%d mask%d shift%d", run, mk, (int) (sh > 0)), pot, em, (double) sh, run % 3 == 0);
		run++;
	}
	if (deltas) {
		for (auto &x : mask) x = 0;
		for (size_t i = 0; i < g.S * g.T; i += deltas) { // one point differs from a constant field
			for (size_t j = 0; j < g.m.size(); j++) { g.m[j] = type == FIELD_SAXION ? cl(.9L * R, .3L * R) : cl(.2L * R); g.v[j] = type == FIELD_SAXION ? cl(.1L, .2L) : cl(.3L); }
			g.m[i] = type == FIELD_SAXION ? cl(-.4L * R, .5L * R) : cl(1.9L * R); g.v[i] += .7L; mask[i] = 1;
			one(vh::fmt("delta%zu", i), pots[i % pots.size()], type == FIELD_SAXION ? (i & 1 ? EN_ENEMAPMASK : EN_MAPMASK) : EN_MAP, 0, i % 3 == 0);
			if (type == FIELD_SAXION && i % 2) stringE(vh::fmt("delta%zu", i));
			mask[i] = 0;
		}
	}
	if (type == FIELD_SAXION) for (int r = 0; r < 6; r++) {
		fill(r * 777777ull + 3); for (size_t i = 0; i < mask.size(); i++) mask[i] = r == 1 ? 0 : r == 2 ? i % 7 != 3 : h01(i * 3 + r) < .3;
		stringE(vh::fmt("fill%d", r));
	}
	vh::quit();
}
