// P03, P04, P05: time steps of the real propagators against the reference.
#include "propref.h"
#include "vh_mpi.h"
#ifdef SIM
#include "ompsim.h"
#endif
#include "fft/fftCode.h"
#include "scalar/fourier.h"
#include "propagator/propBase.h"
void initPropagator(PropType, Scalar *, VqcdType, int);
void propagate(Scalar *, const double);
void tunePropagator(Scalar *);
void resetPropagator(Scalar *);

extern std::unique_ptr<PropBase> prop;

static FieldPrecision prec; static FieldType type; static size_t N, Lz, Ng; static int np; static Cosmos *C; static Scalar *F;
static int modSet = 0; static bool qcdlBeta = false; static double worstM = 0, worstV = 0;
static bool isC() { return type == FIELD_SAXION || type == FIELD_NAXION; }

// a value of its own for every point, component and array
static double lab(size_t i, int comp, int arr)
{
	uint64_t h = i * 0x9E3779B97F4A7C15ull + comp * 0xC2B2AE3D27D4EB4Full + arr * 0x165667B19E3779F9ull + 12345;
	h ^= h >> 29; h *= 0xBF58476D1CE4E5B9ull; h ^= h >> 32; h *= 0x94D049BB133111EBull; h ^= h >> 29;
	return (double) (h >> 11) / 9007199254740992.0 * 2 - 1;
}

static void setArr(void *p, const std::vector<LC> &a, bool cm)
{
	size_t n = N * N * Lz, o = commRank() * n;
	for (size_t i = 0; i < n; i++)
		if (prec == FIELD_SINGLE) { float *f = (float *) p; if (cm) { f[2*i] = a[o+i].real(); f[2*i+1] = a[o+i].imag(); } else f[i] = a[o+i].real(); }
		else { double *f = (double *) p; if (cm) { f[2*i] = a[o+i].real(); f[2*i+1] = a[o+i].imag(); } else f[i] = a[o+i].real(); }
}

static LC getArr(void *p, size_t i, bool cm)
{
	if (prec == FIELD_SINGLE) { float *f = (float *) p; return cm ? LC(f[2*i], f[2*i+1]) : LC(f[i], 0); }
	double *f = (double *) p; return cm ? LC(f[2*i], f[2*i+1]) : LC(f[i], 0);
}

static Ref start(long pot, int pt, const Par &p)
{
	Ref r; r.N = N; r.Lz = Lz * np; r.n3 = N * N * Lz * np; r.Ng = Ng; r.type = type; r.pot = pot; r.L = p.L; r.c = C; r.ct = p.z0; r.beta = p.beta; r.kind = pt & 7;
	r.coeffs(); r.m.resize(r.n3); r.v.resize(r.n3);
	LD R = C->R(p.z0);
	for (size_t i = 0; i < r.n3; i++) {
		double a = lab(i, 0, 0), b = lab(i, 1, 0), e = lab(i, 0, 1), f = lab(i, 1, 1);
		switch (type) {
			case FIELD_SAXION: r.m[i] = std::polar((LD) (1 + .4 * a) * R, (LD) (M_PI * b)); r.v[i] = LC(e, f); break;
			case FIELD_NAXION: r.m[i] = LC(a, b); r.v[i] = LC(e, f); break;
			// clusters whose differences stay away from half a period, and (drift) values that cross the end of the period
			case FIELD_AXION_MOD: r.m[i] = modSet ? Ref::red(3.05L + .2L * a, 2 * M_PIl) * R : ((b < -.33 ? -2.6L : b < .33 ? 0 : 2.6L) + .2L * a) * R; r.v[i] = e; break;
			case FIELD_PAXION: r.m[i] = a; r.v[i] = e; break;
			default: r.m[i] = (LD) (2.5 * a) * R; r.v[i] = 2 * e; break;
		}
		if (prec == FIELD_SINGLE) { r.m[i] = LC((float) r.m[i].real(), (float) r.m[i].imag()); r.v[i] = LC((float) r.v[i].real(), (float) r.v[i].imag()); }
		else { r.m[i] = LC((double) r.m[i].real(), (double) r.m[i].imag()); r.v[i] = LC((double) r.v[i].real(), (double) r.v[i].imag()); }
	}
	return r;
}

static void load(const Ref &r, const Par &p)
{
	F->setFolded(false); F->setM2Folded(false); F->setMMomSpace(false); F->setVMomSpace(false);
	setArr(F->mStart(), r.m, isC()); setArr(F->vStart(), r.v, isC());
	memset(F->mFrontGhost(), 0x7f, 0);
	*F->zV() = p.z0; F->updateR();
}

static double tolM, tolV;

static bool compare(const Ref &r, const std::string &key, const std::string &name, double fac = 1)
{
	if (F->MMomSpace() || F->VMomSpace()) { FTfield ft(F); ft(FIELD_MV, FFT_BCK); }
	if (F->Folded()) { Folder munge(F); munge(UNFOLD_ALL); }
	size_t n = N * N * Lz, o = commRank() * n;
	LD sm = 0, sv = 0, em = 0, ev = 0; size_t im = 0, iv = 0;
	for (size_t i = 0; i < r.n3; i++) { sm = std::max(sm, std::abs(r.m[i])); sv = std::max(sv, std::abs(r.v[i])); }
	LD per = type == FIELD_AXION_MOD ? 2 * M_PIl * (LD) C->R(r.ct) : 0;
	bool nan = false;
	for (size_t i = 0; i < n; i++) {
		LC a = getArr(F->mStart(), i, isC()), b = getArr(F->vStart(), i, isC());
		LC dm = a - r.m[o+i], dv = b - r.v[o+i];
		if (per > 0) { LD d = dm.real(), q = 2 * M_PIl * (LD) C->R(r.ct); dm = d; LD k = roundl(d / q); if (k != 0 && fabsl(fabsl(a.real()) - q / 2) < q * 0.2L) dm = 0; }
		if (!(std::abs(dm) < 1e30L) || !(std::abs(dv) < 1e30L)) nan = true;
		if (std::abs(dm) > em) { em = std::abs(dm); im = i; }
		if (std::abs(dv) > ev) { ev = std::abs(dv); iv = i; }
	}
	bool noV = type == FIELD_NAXION;
	worstM = std::max(worstM, (double) (em / sm)); if (!noV) worstV = std::max(worstV, (double) (ev / sv));
	auto pos = [&](size_t i) { return vh::fmt("(%zu,%zu,%zu)", i % N, i / N % N, i / N / N + Lz * commRank()); };
	if (nan) { vh::fail(key, "%s: a value is not a number", name.c_str()); return false; }
	if (em > sm * tolM * fac) { vh::fail(key, "%s: field at %s differs from the reference by %.3Le (largest value %.3Le)", name.c_str(), pos(im).c_str(), em, sm); return false; }
	if (!noV && ev > sv * tolV * fac) { vh::fail(key, "%s: velocity at %s differs from the reference by %.3Le (largest value %.3Le)", name.c_str(), pos(iv).c_str(), ev, sv); return false; }
	if (fabs(*F->zV() - r.ct) > 1e-12 * fabs(r.ct)) { vh::fail(key, "%s: time is %.15g, should be %.15g", name.c_str(), *F->zV(), r.ct); return false; }
	if (fabs(*F->RV() - C->R(r.ct)) > 1e-12 * C->R(r.ct)) { vh::fail(key, "%s: R is %.15g, should be %.15g", name.c_str(), *F->RV(), C->R(r.ct)); return false; }
	return true;
}

static const char *potName(long p)
{
	static char b[100];
	const char *q = "?";
	switch (p & V_QCD) { case V_QCD0: q = "QCD0"; break; case V_QCD1: q = "QCD1"; break; case V_QCDV: q = "QCDV"; break; case V_QCD2: q = "QCD2"; break; case V_QCDL: q = "QCDL"; break; case V_QCDC: q = "QCDC"; break; }
	snprintf(b, sizeof b, "%s%s%s%s%s", q, p & V_EVOL_THETA ? "+theta" : "", p & V_EVOL_RHO ? "+rho" : "", p & V_DAMP_RHO ? "+drho" : "", p & V_DAMP_ALL ? "+dall" : "");
	return b;
}

static const char *kindName(int pt) { return (pt & 7) == 1 ? "base" : (pt & 7) == 2 ? "spec" : "fspec"; }

static void init(int pt, long pot) { pType = (PropType) pt; C->SetQcdPot((VqcdType) pot); prop.reset(); initPropagator((PropType) pt, F, (VqcdType) pot, (int) Ng); }

static const Par pars[] = { // z0 frw lam lz2e indi3 nq zth zrest gam dect beta L
	{1.3, 1.0, 2.0, 0.0, 0.9, 2.0, 1e9, 1e9, 0.7, -1.0, 0.6, 6.0},
	{1.7, 1.5, 3.0, 2.0, 0.8, 3.0, 1e9, 1e9, 0.5, 2.5, 0.9, 5.0},
	{0.8, 0.5, 1.5, 1.0, 1.1, 4.0, 0.95, 0.9, 0.9, -1.0, 0.3, 4.0},  // thermal restoration reached within the step
	{2.0, 2.0, 0.7, 2.0, 0.4, 1.0, 1e9, 1e9, 0.2, 1.5, 1.0, 7.0},
};

static void oneStep(int pt, long pot, int ip, double dz, int steps)
{
	Par p = pars[ip]; p.L *= N / 8.; if (type & FIELD_AXION && (pot & V_QCD) == V_QCDL && !qcdlBeta) p.beta = 0;
	apply(C, p);
	init(pt, pot);
	std::string name = vh::fmt("%s %s N=%zu Lz=%zu Ng=%zu ranks=%d %s integrator=%d %s parameters=%d dz=%g steps=%d", vh::fname(type), vh::pname(prec), N, Lz * np, Ng, np, kindName(pt), pt & PROP_MASK, potName(pot), ip, dz, steps);
	std::string key = vh::fmt("%s:%s:%s:%s:i%d:frw%g%s", vh::fname(type), vh::pname(prec), kindName(pt), potName(pot), pt & PROP_MASK, p.frw, p.dect > 0 ? ":dect" : "") + (qcdlBeta ? ":beta" : "") + (F->LowMem() ? ":low" : "");
	Ref r = start(pot, pt, p); load(r, p);
	std::vector<LD> cc, dd; bool first; integrator(pt, cc, dd, first);
	for (int s = 0; s < steps; s++) { propagate(F, dz); r.step(dz, cc, dd, first); }
	vh::eval(name, dz != 0);
	compare(r, key, name);
	prop.reset();
}

// the same global field under every block shape, and every way in which the messages of the halo exchange can progress
static void indep(int pt, long pot, int ip, double dz, int steps, int shapes, int modes)
{
	Par p = pars[ip]; p.L *= N / 8.; if (type & FIELD_AXION && (pot & V_QCD) == V_QCDL) p.beta = 0;
	apply(C, p);
	init(pt, pot);
	unsigned YC = prop->BlockY(), ZC = Lz;
	Ref r0 = start(pot, pt, p), r = r0;
	std::vector<LD> cc, dd; bool first; integrator(pt, cc, dd, first);
	for (int s = 0; s < steps; s++) r.step(dz, cc, dd, first);
	std::string base = vh::fmt("%s:%s:%s:%s:Ng%zu", vh::fname(type), vh::pname(prec), kindName(pt), potName(pot), Ng);
	auto one = [&](unsigned by, unsigned bz, unsigned mode, int order) {
		std::string name = vh::fmt("%s N=%zu Lz=%zu ranks=%d threads=%d block %ux%u messages %u%s", base.c_str(), N, Lz * np, np, omp_get_max_threads(), by, bz, mode, order ? vh::fmt(" order %d", order).c_str() : "");
		init(pt, pot); prop->SetBlockY(by); prop->SetBlockZ(bz);
		load(r0, p); vmpi::ctl().mode = mode;
#ifdef SIM
		sim::ctl.order = order;
#endif
		for (int s = 0; s < steps; s++) propagate(F, dz);
		vh::eval(name, true);
		vmpi::ctl().mode = 0;
		compare(r, base, name);
		if (prop->BlockY() != by || prop->BlockZ() != bz) vh::fail("block:" + base, "%s: the block shape changed to %ux%u", name.c_str(), prop->BlockY(), prop->BlockZ());
	};
	auto grid = [&](unsigned m) { std::vector<unsigned> v; for (unsigned i = 1; i <= m; i++) if (shapes > 1 || i <= 3 || i >= m - 1 || m % i == 0 || i == m / 2 + 1) v.push_back(i); return v; };
	int orders = 1;
#ifdef SIM
	orders = omp_get_max_threads() > 2 ? 3 : 2;
#endif
	for (unsigned by : shapes ? grid(YC) : std::vector<unsigned>{YC}) for (unsigned bz : shapes ? grid(ZC) : std::vector<unsigned>{ZC}) for (int o = 0; o < orders; o++) one(by, bz, 0, o);
	for (int m = 1; m < modes; m++) { one(YC, ZC, m, 0); if (m == 3 || m == 12) one(YC > 1 ? YC - 1 : 1, 1, m, 0); }
#ifdef SIM
	sim::drain(base.c_str());
#endif
	prop.reset();
}

// ---- P05: the tuner and its cache ----
#include <chrono>
#include <sys/stat.h>
#include <signal.h>
#include <time.h>
#include "utils/parse.h"
static bool fakeClock = false; static long clockCalls = 0; static unsigned winY = 0, winZ = 0; static long long fakeNow = 1000000000ll;
namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept
{
	if (!fakeClock) { timespec t; clock_gettime(CLOCK_REALTIME, &t); return time_point(duration(t.tv_sec * 1000000000ll + t.tv_nsec)); }
	clockCalls++; // the step takes long except with the shape that is to win
	fakeNow += prop && prop->BlockY() == winY && prop->BlockZ() == winZ ? 1000 : 1000000;
	return time_point(duration(fakeNow));
}
} } }

struct Setting { FieldType t; size_t Lz, Ng; int th; Scalar *f; };
static std::vector<Setting> settings;
static void use(const Setting &s) { type = s.t; Lz = s.Lz; Ng = s.Ng; F = s.f; omp_set_num_threads(s.th); }
static unsigned rows() { size_t t = F->DataAlign() / F->DataSize(); unsigned sh = 0; while (t > 1) { sh++; t >>= 1; } return N >> sh; }
static std::string curCase;
static void onAlarm(int) { vh::fail("hang", "%s: the tuner does not end", curCase.c_str()); vh::close(); _exit(0); }
static std::string cacheName() { return std::string(wisDir) + "/tuneCache.dat"; }
static std::string slurp(const std::string &n) { std::string s; if (FILE *f = fopen(n.c_str(), "r")) { char b[65536]; size_t k = fread(b, 1, sizeof b, f); s.assign(b, k); fclose(f); } return s; }
static void spit(const std::string &n, const std::string &s) { FILE *f = fopen(n.c_str(), "w"); fwrite(s.data(), 1, s.size(), f); fclose(f); }
static int typeNo() { switch (type) { case FIELD_SAXION: return 0; case FIELD_AXION: return 1; case FIELD_NAXION: return 2; case FIELD_PAXION: return 3; default: return 4; } }
static std::string line(unsigned by, unsigned bz, int dMpi = 0, int dTh = 0, int dLx = 0, int dLz = 0, int dT = 0, int dNg = 0)
{
	return vh::fmt("Cpu %d %d %zu %zu %d %zu %u %u %zu", np + dMpi, omp_get_max_threads() + dTh, N + dLx, Lz + dLz, (typeNo() + dT) % 5, N * N / rows(), by, bz, Ng + dNg);
}
// tunes as a new run would; returns whether the tuner measured (false: it took the cached shape)
static bool tune(long pot, const std::string &key, const std::string &name, unsigned wy, unsigned wz)
{
	curCase = name;
	Par p = pars[0]; p.L *= N / 8.; apply(C, p);
	init((PROP_RKN4 | PROP_BASE), pot);
	Ref r = start(pot, (PROP_RKN4 | PROP_BASE), p); load(r, p);
	winY = wy; winZ = wz;
	alarm(40); fakeClock = true; clockCalls = 0;
	fakeNow = 1000000000ll;
	size_t gh = N * N * Ng * F->DataSize(); memset(F->mFrontGhost(), 0x5a, gh);
	tunePropagator(F);
	fakeClock = false; alarm(0);
	bool ran = false; for (size_t i = 0; i < gh; i++) if (((unsigned char *) F->mFrontGhost())[i] != 0x5a) ran = true; // measuring a step fills the halo
	vh::eval(name, true);
	unsigned by = prop->BlockY(), bz = prop->BlockZ();
	if (by < 1 || by > rows() || bz < 1 || bz > Lz) vh::fail(key, "%s: block %ux%u selected on a local lattice of %u rows x %zu slices", name.c_str(), by, bz, rows(), Lz);
	if (!prop->IsTuned()) vh::fail(key, "%s: not tuned afterwards", name.c_str());
	unsigned b2[4] = {by, bz, ~by, ~bz}, m2[4]; MPI_Allreduce(b2, m2, 4, MPI_UNSIGNED, MPI_MAX, MPI_COMM_WORLD);
	if (m2[0] != by || m2[2] != ~by || m2[1] != bz || m2[3] != ~bz) vh::fail(key, "%s: ranks ended with different blocks, here %ux%u", name.c_str(), by, bz);
	compare(r, key, name + ", after tuning"); // tuning must not move the field
	load(r, p);
	std::vector<LD> cc, dd; bool first; integrator((PROP_RKN4 | PROP_BASE), cc, dd, first);
	propagate(F, 0.03); r.step(0.03, cc, dd, first);
	compare(r, key, name + ", step after tuning");
	return ran;
}

static void mkdirs(int k) { sprintf(wisDir, "w%d", k); if (commRank() == 0) mkdir(wisDir, 0755); commSync(); }

static void tuneShapes(long pot)
{
	int k = 0;
	for (auto &s : settings) {
		use(s);
		unsigned R = rows();
		std::string key = vh::fmt("tune:%s:%s", vh::fname(type), vh::pname(prec));
		for (unsigned wy = 1; wy <= R; wy++) for (unsigned wz = 1; wz <= Lz; wz++) {
			if (wy != 2 && R % wy) continue; if (Lz % wz) continue;
			mkdirs(++k);
			std::string name = vh::fmt("%s N=%zu Lz=%zu Ng=%zu ranks=%d threads=%d fastest shape %ux%u", key.c_str(), N, Lz, Ng, np, s.th, wy, wz);
			bool ran = tune(pot, key, name, np > 1 && commRank() ? R : wy, wz); // ranks may disagree on what is fast
			unsigned by = prop->BlockY(), bz = prop->BlockZ();
			if (!ran) vh::fail(key, "%s: the tuner did not run without a cache", name.c_str());
			int there = 1; if (commRank() == 0) there = !slurp(cacheName()).empty(); MPI_Bcast(&there, 1, MPI_INT, 0, MPI_COMM_WORLD);
			if (!there) continue; // nothing cached: allowed
			ran = tune(pot, key, name + ", again", R, Lz);
			if (!ran && (prop->BlockY() != by || prop->BlockZ() != bz)) vh::fail(key, "%s: the cache gave block %ux%u, it was made with %ux%u", name.c_str(), prop->BlockY(), prop->BlockZ(), by, bz);
		}
	}
}

static void tuneSequences(long pot, int depth)
{
	int n = settings.size(), k = 100000, total = 1; for (int i = 0; i < depth; i++) total *= n;
	for (int w = 0; w < total; w++) {
		mkdirs(++k);
		std::string name = "tune sequence"; std::map<int, std::pair<unsigned, unsigned>> made;
		for (int i = 0, x = w; i < depth; i++, x /= n) {
			int s = x % n; use(settings[s]);
			name += vh::fmt(" %s/Lz%zu/Ng%zu/t%d", vh::fname(type), Lz, Ng, settings[s].th);
			std::string key = "seq:" + std::string(vh::fname(type));
			bool ran = tune(pot, key, name, i % 2 ? rows() : 2, i % 2 ? 1 : Lz);
			if (!ran && !made.count(s)) vh::fail(key, "%s: took block %ux%u from a cache without an entry for these settings", name.c_str(), prop->BlockY(), prop->BlockZ());
			if (!ran && made.count(s) && (prop->BlockY() != made[s].first || prop->BlockZ() != made[s].second)) vh::fail(key, "%s: the cache gave block %ux%u, made was %ux%u", name.c_str(), prop->BlockY(), prop->BlockZ(), made[s].first, made[s].second);
			made[s] = {prop->BlockY(), prop->BlockZ()};
		}
	}
}

static void tuneFiles(long pot)
{
	int k = 200000;
	for (auto &s : settings) {
		use(s);
		std::vector<std::pair<std::string, std::string>> fs; // what, contents
		std::string own = line(1, 1), pre = line(1, Lz, 1) + "\n", post = line(rows(), 1, 0, 7) + "\n", all = pre + own + "\n" + post;
		fs.push_back({"empty", ""}); fs.push_back({"newline", "\n"}); fs.push_back({"binary", std::string("\0\1\2\xff\xfe \0", 7)});
		for (size_t n = 1; n < all.size(); n++) fs.push_back({vh::fmt("first %zu bytes", n), all.substr(0, n)});
		std::vector<std::string> tok = vh::split(own);
		for (size_t i = 0; i < tok.size(); i++)
			for (std::string v : {std::string("0"), std::string("-1"), std::string("abc"), std::string("99999999999999999999"), std::string("4294967295"), std::string("%n"), std::string("Gpu"), std::string(3000, 'x'), std::string(3000, '1'), std::string("")}) {
				auto u = tok; u[i] = v; std::string l; for (auto &t : u) l += (l.empty() ? "" : " ") + t;
				fs.push_back({vh::fmt("field %zu is %s", i, v.size() > 30 ? "3000 characters" : v.c_str()), l + "\n"});
				if (v == "0" || v == "abc") fs.push_back({vh::fmt("field %zu is %s, then others", i, v.c_str()), l + "\n" + post});
			}
		for (int i = 0; i < 6; i++) for (int d : {1, 2, 3}) { int e[6] = {0, 0, 0, 0, 0, 0}; e[i] = d; fs.push_back({vh::fmt("entry with key field %d larger by %d", i, d), line(1, 1, e[0], e[1], e[2], e[3], e[4], e[5]) + "\n"}); }
		for (unsigned by : {0u, rows(), rows() + 1, 2 * rows(), 1000000u}) for (unsigned bz : {0u, (unsigned) Lz, (unsigned) Lz + 1, 1000000u}) fs.push_back({vh::fmt("block %ux%u", by, bz), line(by, bz) + "\n"});
		fs.push_back({"*directory", ""}); fs.push_back({"*nodir", ""}); fs.push_back({"*readonly", ""});
		for (auto &f : fs) {
			mkdirs(++k);
			if (f.first == "*nodir") sprintf(wisDir, "nowhere/%d", k);
			if (commRank() == 0) { if (f.first == "*directory") mkdir(cacheName().c_str(), 0755); else if (f.first == "*nodir") {} else spit(cacheName(), f.second); }
			commSync();
			std::string name = vh::fmt("tune %s/Lz%zu/Ng%zu ranks=%d, cache file: ", vh::fname(type), Lz, Ng, np) + f.first, key = "file:" + f.first.substr(0, f.first.find(' '));
			bool ran = tune(pot, key, name, 2, 1);
			if (!ran) { // then some line of the file is complete, made for these settings and has this block
				bool ok = false; std::string txt = f.second, l;
				for (size_t a = 0; a < txt.size(); ) { size_t e = txt.find('\n', a); if (e == std::string::npos) e = txt.size(); l = txt.substr(a, e - a); a = e + 1;
					auto t = vh::split(l), o = vh::split(own); if (t.size() != 10) continue;
					bool same = true; for (int i : {0, 1, 2, 3, 4, 5, 9}) if (t[i] != o[i]) same = false;
					if (same && strtoul(t[7].c_str(), 0, 10) == prop->BlockY() && strtoul(t[8].c_str(), 0, 10) == prop->BlockZ()) ok = true; }
				if (!ok) vh::fail(key, "%s: took block %ux%u without a complete entry for these settings", name.c_str(), prop->BlockY(), prop->BlockZ());
			}
		}
	}
}

int main(int argc, char **argv)
{
	std::string mode = argv[1];
	prec = !strcmp(argv[2], "single") ? FIELD_SINGLE : FIELD_DOUBLE; type = (FieldType) atoi(argv[3]); N = atoi(argv[4]); Lz = atoi(argv[5]); Ng = atoi(argv[6]); np = atoi(argv[7]);
	std::vector<std::string> rest(argv + 8, argv + argc);
	if (mode == "indep" && atoi(rest[4].c_str()) > 1) vmpi::ctl().on = true;
	C = vh::start({"--size", argv[4], "--depth", argv[5], "--zgrid", argv[7], "--prec", argv[2], "--index", "0", "--lap", argv[6], "--qcd", "4", "--lsize", "6"});
	apply(C, pars[0]); C->SetQcdPot(V_QCD1_PQ1);
	tolM = prec == FIELD_SINGLE ? 2e-5 : 1e-12; tolV = prec == FIELD_SINGLE ? 4e-5 : 2e-12;
	if (mode == "tune") ; else if (type == FIELD_NAXION) { F = vh::field(C, N, Lz, prec, FIELD_SAXION, np, Ng); F->setField(FIELD_NAXION); }
	else F = vh::field(C, N, Lz, prec, type, np, Ng, LAMBDA_FIXED, mode == "low");
	auto num = [&](int i) { return atof(rest[i].c_str()); };

	if (mode == "tune") { // shapes|sequences|files, settings as type/Lz/Ng/threads ...
		signal(SIGALRM, onAlarm);
		for (size_t i = 2; i < rest.size(); i++) {
			auto w = vh::split(rest[i], '/'); Setting s{(FieldType) atoi(w[0].c_str()), (size_t) atoi(w[1].c_str()), (size_t) atoi(w[2].c_str()), atoi(w[3].c_str()), nullptr};
			if (s.t == FIELD_NAXION) { s.f = vh::field(C, N, s.Lz, prec, FIELD_SAXION, np, s.Ng); s.f->setField(FIELD_NAXION); }
			else s.f = vh::field(C, N, s.Lz, prec, s.t, np, s.Ng);
			settings.push_back(s);
		}
		long pot = V_QCD1_PQ1;
		if (rest[0] == "shapes") tuneShapes(pot);
		if (rest[0] == "sequences") tuneSequences(pot, num(1));
		if (rest[0] == "files") tuneFiles(pot);
	}
	if (mode == "indep") { // integrator, step, steps, shapes (0 the default one, 1 some, 2 all), message modes, potentials...
		int pt = num(0); if (num(4) > 1) vmpi::ctl().on = true;
		if ((pt & 7) == 2) AxionFFT::initPlan(F, type == FIELD_SAXION ? FFT_CtoC_MtoM2 : FFT_SPAX, FFT_FWDBCK, "SpSx");
		if ((pt & 7) == 2 && type != FIELD_SAXION) AxionFFT::initPlan(F, FFT_SPAX, FFT_FWDBCK, "pSpecAx");
		if ((pt & 7) == 4) { AxionFFT::initPlan(F, FFT_SPAX, FFT_FWDBCK, "pSpecAx"); AxionFFT::initPlan(F, FFT_RtoC_M2toM, FFT_FWDBCK, "R2CM22M"); AxionFFT::initPlan(F, FFT_RtoC_M2toV, FFT_FWDBCK, "R2CM22V"); }
		for (size_t i = 5; i < rest.size(); i++) indep(pt, (long) num(i), (int) i % 2, num(1), num(2), num(3), num(4));
#ifdef SIM
		vh::counter("parallel_regions", sim::ctl.regions); vh::counter("phases", sim::ctl.phases); vh::counter("accesses_checked", sim::ctl.accesses);
#endif
	}
	if (mode == "step" || mode == "low") { // integrators and Laplacians; pars from..to; step counts
		int pt0 = num(0), set = num(1), p0 = num(2), p1 = num(3); double dz = num(4); int steps = rest.size() > 5 ? num(5) : 1;
		std::vector<long> pots;
		auto variants = [&](long q) { for (long v : {0l, (long) V_EVOL_THETA, (long) V_EVOL_RHO, (long) V_DAMP_RHO, (long) (V_DAMP_RHO | V_EVOL_RHO), (long) V_DAMP_ALL, (long) (V_DAMP_ALL | V_EVOL_THETA)}) pots.push_back(q | V_PQ1 | v); };
		if (type == FIELD_SAXION) {
			if (set) { for (long q : {V_QCD0, V_QCD1, V_QCD2, V_QCDC, V_QCDL}) variants(q); }
			else pots = {V_QCD1_PQ1, V_QCD2_PQ1 | V_DAMP_RHO};
		} else if (type == FIELD_AXION || type == FIELD_AXION_MOD) { if (set) pots = {V_QCD0_PQ1, V_QCD1_PQ1, V_QCDC_PQ1, V_QCDL_PQ1}; else pots = {V_QCD1_PQ1}; }
		else pots = {V_QCD1_PQ1};
		if ((pt0 & 7) == 2) { char a[] = "SpSx"; AxionFFT::initPlan(F, type == FIELD_SAXION ? FFT_CtoC_MtoM2 : FFT_SPAX, FFT_FWDBCK, "SpSx"); (void) a;
			if (type != FIELD_SAXION) AxionFFT::initPlan(F, FFT_SPAX, FFT_FWDBCK, "pSpecAx"); }
		if ((pt0 & 7) == 4) { AxionFFT::initPlan(F, FFT_SPAX, FFT_FWDBCK, "pSpecAx"); AxionFFT::initPlan(F, FFT_RtoC_M2toM, FFT_FWDBCK, "R2CM22M"); AxionFFT::initPlan(F, FFT_RtoC_M2toV, FFT_FWDBCK, "R2CM22V"); }
		if ((pt0 & 7) == 2 || F->LowMem()) { // the spectral and low memory propagators have no angular evolution, and define radial evolution with a QCD force differently
			std::vector<long> o; for (long q : pots) if (!(q & V_EVOL_THETA) && !(q & V_EVOL_RHO && (q & V_QCD) != V_QCD0)) o.push_back(q);
			pots = o;
		}
		for (modSet = 0; modSet < (type == FIELD_AXION_MOD ? 2 : 1); modSet++)
			for (long q : pots) for (int ip = p0; ip < p1; ip++) oneStep(pt0, q, ip, dz, steps);
		modSet = 0; qcdlBeta = true; 
		if (type == FIELD_AXION && (pt0 & 7) == 1 && set) oneStep(pt0, V_QCDL_PQ1, p0, dz, steps);
		if (getenv("VH_WORST")) printf("worst m %.3g v %.3g\n", worstM, worstV);
	}
	vh::quit();
}
