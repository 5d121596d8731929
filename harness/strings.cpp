// P10/P11: string detection, string length and velocity sums on the real code, against plain long double formulas on the
// global lattice. Fields: every assignment of K phases to the corners of a cube (64 or so cubes per field, at every
// offset), and fields with one pseudo-random label per point.
#include "vh.h"
#include "strings/strings.h"
#ifdef SIM
#include "ompsim.h"
#endif

typedef std::complex<long double> cl;
static size_t N, Lz, T, Ng, S; static int np; static FieldPrecision prec;
static Scalar *F; static Cosmos *C;
static std::string cfg;
static std::vector<cl> m, v;           // global, lexicographic, as stored (rounded)
static std::vector<long double> ph;    // phases
static std::vector<unsigned char> map_; // expected marks of the global lattice
static long nplaq, nchir, nwall;
static const long double PI = 3.141592653589793238462643383279502884L;

static size_t at(size_t x, size_t y, size_t z) { return (x % N) + N * (y % N) + S * (z % T); }
static double h01(uint64_t k) { k += 0x9E3779B97F4A7C15ull; k = (k ^ (k >> 30)) * 0xBF58476D1CE4E5B9ull; k = (k ^ (k >> 27)) * 0x94D049BB133111EBull; k ^= k >> 31; return (k >> 11) * (1.0 / 9007199254740992.0); }
static long double wrap(long double d) { while (d > PI) d -= 2 * PI; while (d < -PI) d += 2 * PI; return d; }
static int winding(size_t a, size_t b, size_t c, size_t d)
{
	long double s = wrap(ph[b] - ph[a]) + wrap(ph[c] - ph[b]) + wrap(ph[d] - ph[c]) + wrap(ph[a] - ph[d]);
	return (int) lroundl(s / (2 * PI));
}
static bool wallLink(size_t a, size_t b) // the link crosses the negative real axis
{
	long double i1 = m[a].imag(), i2 = m[b].imag();
	if ((i1 > 0) == (i2 > 0)) return false;
	return (m[a].real() * i2 - m[b].real() * i1) / (i2 - i1) < 0;
}

// puts the global field into the local arrays (in plain or folded order) after rounding it to the field's precision
static void put(bool folded, double mag)
{
	for (auto &c : m) c = prec == FIELD_SINGLE ? cl((float) (c.real() * mag), (float) (c.imag() * mag)) : cl((double) (c.real() * mag), (double) (c.imag() * mag));
	for (auto &c : v) c = prec == FIELD_SINGLE ? cl((float) c.real(), (float) c.imag()) : cl((double) c.real(), (double) c.imag());
	size_t z0 = commRank() * Lz * S;
	memset(F->mCpu(), 0x7f, F->eSize() * F->DataSize());
	for (size_t i = 0; i < S * Lz; i++) {
		if (prec == FIELD_SINGLE) { ((std::complex<float> *) F->mStart())[i] = {(float) m[z0 + i].real(), (float) m[z0 + i].imag()}; ((std::complex<float> *) F->vStart())[i] = {(float) v[z0 + i].real(), (float) v[z0 + i].imag()}; }
		else { ((std::complex<double> *) F->mStart())[i] = {(double) m[z0 + i].real(), (double) m[z0 + i].imag()}; ((std::complex<double> *) F->vStart())[i] = {(double) v[z0 + i].real(), (double) v[z0 + i].imag()}; }
	}
	F->setFolded(false);
	if (folded) { Folder munge(F); munge(FOLD_ALL); }
	for (size_t i = 0; i < m.size(); i++) ph[i] = atan2l(m[i].imag(), m[i].real());
	nplaq = nchir = nwall = 0;
	for (size_t z = 0; z < T; z++) for (size_t y = 0; y < N; y++) for (size_t x = 0; x < N; x++) {
		size_t o = at(x, y, z), px = at(x + 1, y, z), py = at(x, y + 1, z), pz = at(x, y, z + 1);
		int w[3] = {winding(o, px, at(x + 1, y + 1, z), py), winding(o, py, at(x, y + 1, z + 1), pz), winding(o, pz, at(x + 1, y, z + 1), px)};
		unsigned char b = 0; // the code calls a phase that decreases around x->y, y->z, z->x positive
		for (int i = 0; i < 3; i++) if (w[i]) { b |= w[i] < 0 ? (1 << i) : (8 << i); nplaq++; nchir -= w[i]; }
		if (wallLink(o, px) || wallLink(o, py) || wallLink(o, pz)) { b |= STRING_WALL; nwall++; }
		map_[o] = b;
	}
	// closed lines: the signed marks of the faces of each cube cancel
	auto sg = [&](size_t o, int i) { return (map_[o] >> i & 1) - (map_[o] >> (i + 3) & 1); };
	for (size_t z = 0; z < T; z++) for (size_t y = 0; y < N; y++) for (size_t x = 0; x < N; x++)
		if (sg(at(x, y, z), 0) - sg(at(x, y, z + 1), 0) + sg(at(x, y, z), 1) - sg(at(x + 1, y, z), 1) + sg(at(x, y, z), 2) - sg(at(x, y + 1, z), 2)) { vh::fail("oracle", "expected marks do not close"); return; }
}

static bool checkMap(const std::string &name, const StringData &d, const char *what)
{
	const unsigned char *s = (const unsigned char *) F->sData();
	size_t z0 = commRank() * Lz * S; bool ok = true;
	long lp = 0, lc = 0, lw = 0;
	for (size_t i = 0; i < S * Lz; i++) {
		unsigned char e = map_[z0 + i];
		for (int k = 0; k < 3; k++) { lp += (e >> k & 1) + (e >> (k + 3) & 1); lc += (e >> k & 1) - (e >> (k + 3) & 1); }
		lw += e >> 6 & 1;
		if (s[i] != e && ok) { ok = false; vh::fail(cfg + ":" + what + ":map", "%s: point x=%zu y=%zu z=%zu is marked %d, should be %d", name.c_str(), i % N, i / N % N, i / S + commRank() * Lz, s[i], e); }
	}
	if ((long) d.strDen != nplaq || (long) d.strChr != nchir || (long) d.wallDn != nwall) { ok = false; vh::fail(cfg + ":" + what + ":totals", "%s: totals %zu %lld %zu, should be %ld %ld %ld", name.c_str(), d.strDen, (long long) d.strChr, d.wallDn, nplaq, nchir, nwall); }
	if ((long) d.strDen_local != lp || (long) d.strChr_local != lc || (long) d.wallDn_local != lw) { ok = false; vh::fail(cfg + ":" + what + ":local", "%s: local counts %zu %lld %zu, should be %ld %ld %ld", name.c_str(), d.strDen_local, (long long) d.strChr_local, d.wallDn_local, lp, lc, lw); }
	return ok;
}

static void checkField(const std::string &name)
{
	bool f = F->Folded();
	std::vector<char> keep((char *) F->mStart(), (char *) F->mStart() + S * Lz * F->DataSize()), kv((char *) F->vStart(), (char *) F->vStart() + S * Lz * F->DataSize());
	if (!f) { Folder munge(F); munge(FOLD_ALL); }
	if (f && (memcmp(keep.data(), F->mStart(), keep.size()) || memcmp(kv.data(), F->vStart(), kv.size()))) vh::fail(cfg + ":field", "%s: the field was changed", name.c_str());
	if (!f) { Folder munge(F); munge(UNFOLD_ALL); }
}

static void detect(const std::string &name, bool folded, bool pos)
{
	std::vector<char> keep((char *) F->mStart(), (char *) F->mStart() + S * Lz * F->DataSize()), kv((char *) F->vStart(), (char *) F->vStart() + S * Lz * F->DataSize());
	StringData d = strings(F);
	checkMap(name, d, "strings");
	vh::eval(name, nplaq > 0);
	if (F->Folded() != folded) { Folder munge(F); munge(folded ? FOLD_ALL : UNFOLD_ALL); }
	if (memcmp(keep.data(), F->mStart(), keep.size()) || memcmp(kv.data(), F->vStart(), kv.size())) vh::fail(cfg + ":field", "%s: the field was changed", name.c_str());
	if (!pos) return;
	StringData e = strings2(F);
	if (!checkMap(name, e, "strings2")) return;
	std::multiset<long> want, got; size_t z0 = commRank() * Lz;
	for (size_t i = 0; i < S * Lz; i++) {
		long x = 2 * (i % N), y = 2 * (i / N % N), z = 2 * (i / S + z0); unsigned char b = map_[z0 * S + i];
		auto id = [](long x, long y, long z) { return (z * 100000 + y) * 100000 + x; };
		if (b & STRING_XY) want.insert(id(x + 1, y + 1, z));
		if (b & STRING_YZ) want.insert(id(x, y + 1, z + 1));
		if (b & STRING_ZX) want.insert(id(x + 1, y, z + 1));
	}
	unsigned short *p = (unsigned short *) F->m2Cpu();
	bool fits = want.size() * 6 <= S * Lz * F->DataSize();
	if (fits) {
		for (size_t i = 0; i < want.size(); i++) got.insert((p[3 * i + 2] * 100000L + p[3 * i + 1]) * 100000L + p[3 * i]);
		if (got != want) vh::fail(cfg + ":coordinates", "%s: the list of string coordinates does not hold the centres of the marked plaquettes", name.c_str());
		if (F->m2Status() != M2_STRINGCOO) vh::fail(cfg + ":m2status", "%s: m2 status %d after the coordinates were stored", name.c_str(), (int) F->m2Status());
	}
}

// crossing point of the zero lines of Re and Im in a plaquette, from the zeros on its four links; the centre if there are not two of each
static void crossing(cl a, cl u, cl w, cl uw, long double *o)
{
	std::vector<std::pair<long double, long double>> n[2];
	for (int k = 0; k < 2; k++) {
		auto g = [&](cl c) { return k ? c.imag() : c.real(); };
		auto z = [&](cl p, cl q) { return g(p) / (g(p) - g(q)); };
		if (g(a) * g(u) <= 0) n[k].push_back({z(a, u), 0});
		if (g(u) * g(uw) <= 0) n[k].push_back({1, z(u, uw)});
		if (g(uw) * g(w) <= 0) n[k].push_back({z(w, uw), 1});
		if (g(w) * g(a) <= 0) n[k].push_back({0, z(a, w)});
	}
	o[0] = o[1] = 0.5L;
	if (n[0].size() != 2 || n[1].size() != 2) return;
	// p + s (q-p) = r + t (k-r)
	auto p = n[0][0], q = n[0][1], r = n[1][0], k = n[1][1];
	long double ax = q.first - p.first, ay = q.second - p.second, bx = k.first - r.first, by = k.second - r.second, cx = r.first - p.first, cy = r.second - p.second;
	long double s = (cx * by - cy * bx) / (ax * by - ay * bx);
	o[0] = p.first + s * ax; o[1] = p.second + s * ay;
}

struct V3 { long double x, y, z; };
static long double dist(V3 a, V3 b) { return sqrtl((a.x - b.x) * (a.x - b.x) + (a.y - b.y) * (a.y - b.y) + (a.z - b.z) * (a.z - b.z)); }
static void pairings(std::vector<V3> p, long double acc, long double &sum, long &n)
{
	if (p.empty()) { sum += acc; n++; return; }
	V3 a = p[0];
	for (size_t i = 1; i < p.size(); i++) { auto q = p; q.erase(q.begin() + i); q.erase(q.begin()); pairings(q, acc + dist(a, p[i]), sum, n); }
}

static long hist[8];

static void length(const std::string &name)
{
	StringData d0 = strings(F);
	StringData d = stringlength(F, d0, (StringMeasureType) (STRMEAS_LENGTH | STRMEAS_GAMMA));
	long double L = 0, Ll = 0, big = 0, G = 0, G2 = 0, U = 0, U2 = 0, Gl = 0;
	long double R = *F->RV(), H = F->HubbleConformal(), ms = F->SaxionMassSq(), c = 0.41238;
	auto g2 = [&](size_t i) {
		cl p = m[i] / R, dp = (v[i] - H * m[i]) / (R * R);
		long double q = 2 * (p.real() * dp.real() + p.imag() * dp.imag());
		return std::norm(dp) * (1 + std::norm(p) / (8 * c * c)) / (ms * c * c) + q * q / (16 * ms * c * c * c * c);
	};
	for (size_t z = 0; z < T; z++) for (size_t y = 0; y < N; y++) for (size_t x = 0; x < N; x++) {
		std::vector<V3> p; long double o[2];
		auto M = [&](int a, int b, int e) { return m[at(x + a, y + b, z + e)]; };
		for (int e = 0; e < 2; e++) {
			if (map_[at(x, y, z + e)] & STRING_XY) { crossing(M(0,0,e), M(1,0,e), M(0,1,e), M(1,1,e), o); p.push_back({o[0], o[1], (long double) e}); }
			if (map_[at(x + e, y, z)] & STRING_YZ) { crossing(M(e,0,0), M(e,1,0), M(e,0,1), M(e,1,1), o); p.push_back({(long double) e, o[0], o[1]}); }
			if (map_[at(x, y + e, z)] & STRING_ZX) { crossing(M(0,e,0), M(0,e,1), M(1,e,0), M(1,e,1), o); p.push_back({o[1], (long double) e, o[0]}); }
		}
		hist[p.size()]++;
		long double sum = 0; long n = 0;
		if (p.size()) pairings(p, 0, sum, n);
		bool loc = z / Lz == (size_t) commRank();
		if (n) { L += sum / n; if (loc) Ll += sum / n; big += 1; }
		static const int off[3][4][3] = {{{0,0,0},{1,0,0},{0,1,0},{1,1,0}}, {{0,0,0},{0,1,0},{0,0,1},{0,1,1}}, {{0,0,0},{0,0,1},{1,0,0},{1,0,1}}};
		for (int k = 0; k < 3; k++) if (map_[at(x, y, z)] & (9 << k)) {
			long double q = 0; for (auto &e : off[k]) q += g2(at(x + e[0], y + e[1], z + e[2])) / 4;
			long double g = sqrtl(1 + q); G += g; G2 += 1 + q; U += g * sqrtl(q / (1 + q)); U2 += g * q / (1 + q);
			if (loc) Gl += g;
		}
	}
	auto cmp = [&](const char *w, double got, long double want, double tol) {
		if (!(fabsl(got - want) <= tol * (1 + fabsl(want)))) vh::fail(cfg + ":" + w, "%s: %s is %.12g, should be %.12Lg", name.c_str(), w, got, want);
	};
	double t = prec == FIELD_SINGLE ? 2e-5 : 1e-11, tg = prec == FIELD_SINGLE ? 2e-5 : 1e-10;
	cmp("length", d.strLen, L, t); cmp("length_local", d.strLen_local, Ll, t);
	if (nplaq) { cmp("gamma_sum", d.strDeng, G, tg); cmp("gamma_local", d.strDeng_local, Gl, tg); cmp("velocity", d.strVel, U / G, tg); cmp("velocity2", d.strVel2, U2 / G, tg); cmp("gamma", d.strGam, G2 / G, tg); }
	if ((long) d.strDen != nplaq || (long) d.strChr != nchir || (long) d.wallDn != nwall) vh::fail(cfg + ":counts", "%s: counts were not passed on", name.c_str());
	vh::eval(name, nplaq > 0);
}

int main(int argc, char **argv)
{
	// mode(detect|length) prec N Lz Ng np fields(random) K from to step offsets
	std::string mode = argv[1];
	prec = !strcmp(argv[2], "single") ? FIELD_SINGLE : FIELD_DOUBLE;
	N = atoi(argv[3]); Lz = atoi(argv[4]); Ng = atoi(argv[5]); np = atoi(argv[6]); T = Lz * np; S = N * N;
	int nr = atoi(argv[7]), K = atoi(argv[8]); long from = atol(argv[9]), to = atol(argv[10]); int offs = atoi(argv[11]);
	C = vh::start({"--size", argv[3], "--depth", argv[4], "--zgrid", argv[6], "--prec", argv[2], "--index", "0", "--lap", argv[5], "--qcd", "4", "--lsize", "6", "--llcf", "30"});
	F = vh::field(C, N, Lz, prec, FIELD_SAXION, np, Ng);
	C->SetQcdPot((VqcdType) (V_QCD1 | V_PQ1)); C->SetMink(false); C->SetFrw(1.0); C->SetLambda(30.0); C->SetLamZ2Exp(0.5);
	*F->zV() = 1.7; F->updateR();
	if (!(F->SaxionMassSq() > 0 && F->HubbleConformal() > 0)) { vh::fail("setup", "saxion mass %g Hubble %g", F->SaxionMassSq(), F->HubbleConformal()); }
	cfg = vh::fmt("%s-N%zu-Lz%zu-Ng%zu-np%d-t%d", vh::pname(prec), N, Lz, Ng, np, omp_get_max_threads());
	m.resize(S * T); v.resize(S * T); ph.resize(S * T); map_.resize(S * T);
	auto run = [&](const std::string &n, bool folded, bool pos) {
		put(folded, 1.1);
		if (mode == "detect") detect(n, folded, pos); else length(n);
#ifdef SIM
		sim::drain(cfg.c_str());
#endif
	};
	for (int r = 0; r < nr; r++) for (int kind = 0; kind < 4; kind++) {
		for (size_t i = 0; i < S * T; i++) {
			double p = 2 * PI * h01(i * 7 + r * 1000003 + 1), q = 0.4 + h01(i * 7 + r * 1000003 + 2);
			long z = i / S, y = i / N % N, x = i % N;
			if (kind == 1) p = 1.0 + 0.5 * h01(i);                                   // no strings
			if (kind == 2) { double X = x - 1.3 - r % N, Y = z - 0.6; p = atan2(Y, X); } // straight strings along y, cut off by the boundary
			if (kind == 3) p = 2 * PI * (x + 2 * y + 3 * z) / 12.1 + 1.5 * h01(i + r * 77);
			m[i] = cl(q * cosl(p), q * sinl(p));
			v[i] = cl(h01(i * 7 + 3 + r) - 0.5, h01(i * 7 + 4 + r) - 0.5);
		}
		run(vh::fmt("%s random%d kind%d", cfg.c_str(), r, kind), r & 1, true);
	}
	if (K) {
		size_t per = (N / 2) * (N / 2) * (T / 2); long nf = 0;
		for (long f0 = from; f0 < to; f0 += per, nf++) for (int o = (offs > 1 ? 0 : nf % 8); o < (offs > 1 ? 8 : nf % 8 + 1); o++) {
			for (size_t i = 0; i < S * T; i++) v[i] = cl(h01(i * 3 + f0) - 0.5, h01(i * 3 + 1 + f0) - 0.5);
			for (size_t k = 0; k < per; k++) {
				long code = f0 + k; size_t cx = k % (N / 2), cy = k / (N / 2) % (N / 2), cz = k / (N / 2) / (N / 2);
				for (int j = 0; j < 8; j++) {
					long double p = 2 * PI * (code % K) / K + (f0 & 1 ? 0.2L : -0.13L), q = 0.5 + h01(f0 + k * 8 + j); code /= K;
					m[at(2 * cx + (j & 1) + (o & 1), 2 * cy + (j >> 1 & 1) + (o >> 1 & 1), 2 * cz + (j >> 2) + (o >> 2))] = cl(q * cosl(p), q * sinl(p));
				}
			}
			run(vh::fmt("%s cubes%ld+%d", cfg.c_str(), f0, o), nf & 1, nf % 16 == 0);
		}
	}
	vh::counter("cubes_with_0_ends", hist[0]); vh::counter("cubes_with_2_ends", hist[2]); vh::counter("cubes_with_4_ends", hist[4]); vh::counter("cubes_with_6_ends", hist[6]);
	vh::quit();
}
