// P23: reduction, expansion and smoothing of fields and energy maps, against the filter's factor on every Fourier mode.
#include "gfield.h"
#include "propref.h"
#include "reducer/reducer.h"
#include "spectrum/spectrum.h"
void expandField(Scalar *);
#include "utils/parse.h"
#include "io/readWrite.h"
#include "fft/fftCode.h"
void smoothXeon (Scalar *field, const size_t iter, const double alpha);
void resetPropagator(Scalar *) {}
static Cosmos *C; static Scalar *F; static size_t N, T, Lz, Ng, n3, M, MT; static int np; static FieldPrecision prec; static FieldType type; static std::string cfg;
typedef std::vector<cl> Arr;
static LD PI = acosl(-1);
static std::string why = "";
static LD eps() { return prec == FIELD_SINGLE ? 4e-6L : 1e-14L; }
static const char *tn(FieldType t) { return vh::fname(t); }
// the filter: another factor for every mode; real fields need a factor that does not depend on the signs
static cl fac(int kx, int ky, int kz)
{
	if (!kx && !ky && !kz) return 1; // keeps the mean
	if (type != FIELD_SAXION) { kx = abs(kx); ky = abs(ky); kz = abs(kz); }
	size_t h = ((kx + 50) * 101 + ky + 50) * 101 + kz + 50; return type == FIELD_SAXION ? cl(h01(h) - .5L, h01(h + 1000003) - .5L) : cl(h01(h) - .5L, 0);
}
static std::function<std::complex<float>(int, int, int, std::complex<float>)> ff = [](int a, int b, int c, std::complex<float> x) { cl f = fac(a, b, c); return std::complex<float>(f.real(), f.imag()) * x; };
static std::function<std::complex<double>(int, int, int, std::complex<double>)> fd = [](int a, int b, int c, std::complex<double> x) { cl f = fac(a, b, c); return std::complex<double>(f.real(), f.imag()) * x; };
static Scalar *reduce(Scalar *f, size_t lx, size_t lz, FieldIndex w, bool in) { return prec == FIELD_SINGLE ? reduceField(f, lx, lz, w, ff, in) : reduceField(f, lx, lz, w, fd, in); }
static int sg(size_t k, size_t n) { return k > n / 2 ? (int) k - (int) n : (int) k; }
// Fourier mode p of the lattice, phase (real fields: cosine or sine)
struct Mode { size_t x, y, z; int ph; int kx() const { return sg(x, N); } int ky() const { return sg(y, N); } int kz() const { return sg(z, T); } std::string str() const { return vh::fmt("mode (%d,%d,%d) phase %d", kx(), ky(), kz(), ph); } };
static Mode mode(size_t i, int ph) { i %= n3; return Mode{i % N, i / N % N, i / N / N, ph}; }
static const std::vector<LD> &cs(size_t n) { static std::map<size_t, std::vector<LD>> t; auto &v = t[n]; if (v.empty()) { v.resize(n); for (size_t i = 0; i < n; i++) v[i] = cosl(2 * PI * i / n); } return v; }
static Arr wave(const Mode &m, cl amp, LD mean)
{
	Arr a(n3); size_t U = N * T * 8; auto &t = cs(U);
	for (size_t z = 0; z < T; z++) for (size_t y = 0; y < N; y++) for (size_t x = 0; x < N; x++) {
		size_t q = (m.x * x % N * T * 8 + m.y * y % N * T * 8 + m.z * z % T * N * 8 + m.ph * N * T) % U; cl e(t[q], t[(q + U * 3 / 4) % U]);
		a[x + N * (y + N * z)] = type == FIELD_SAXION ? amp * e + mean : cl(amp.real() * e.real() + mean, 0);
	}
	return a;
}
static Arr filtered(const Mode &m, cl amp, LD mean) { return wave(m, amp * fac(m.kx(), m.ky(), m.kz()), mean); }
// interpolation onto the coarse points
static Arr coarse(const Arr &a)
{
	Arr o(M * M * MT); LD rx = (LD) N / M, rz = (LD) T / MT;
	for (size_t z = 0; z < MT; z++) for (size_t y = 0; y < M; y++) for (size_t x = 0; x < M; x++) {
		LD p[3] = {x * rx, y * rx, z * rz}; size_t b[3]; LD w[3]; for (int i = 0; i < 3; i++) { b[i] = (size_t) floorl(p[i] + 1e-9L); w[i] = p[i] - b[i]; if (w[i] < 1e-9L) w[i] = 0; }
		cl s = 0; for (int c = 0; c < 8; c++) { LD f = 1; size_t q[3]; for (int i = 0; i < 3; i++) { int u = c >> i & 1; f *= u ? w[i] : 1 - w[i]; q[i] = (b[i] + u) % (i == 2 ? T : N); } if (f != 0) s += f * a[q[0] + N * (q[1] + N * q[2])]; }
		o[x + M * (y + M * z)] = s;
	}
	return o;
}
static cl get(const void *p, size_t i, bool cx)
{
	if (cx) { if (prec == FIELD_SINGLE) { auto q = ((const std::complex<float> *) p)[i]; return cl(q.real(), q.imag()); } auto q = ((const std::complex<double> *) p)[i]; return cl(q.real(), q.imag()); }
	return prec == FIELD_SINGLE ? (LD) ((const float *) p)[i] : (LD) ((const double *) p)[i];
}
static void cmp(const char *k, const std::string &nm, const void *p, const Arr &e, size_t n, size_t lz, LD tol, bool cx, const char *what, size_t row = 0)
{
	size_t off = commRank() * n * n * lz; LD w = -1; size_t at = 0; cl got = 0; if (!row) row = n;
	for (size_t i = 0; i < n * n * lz; i++) { cl g = get(p, i / n * row + i % n, cx); LD d = std::abs(g - e[off + i]); if (!(d <= w)) { w = d; at = i; got = g; if (std::isnan((double) d)) break; } }
	if (!(w <= tol)) vh::fail(cfg + ":" + k + (getenv("VH_DBG") ? nm : ""), "%s: %s at (%zu,%zu,%zu) is (%.9Lg,%.9Lg), should be (%.9Lg,%.9Lg)", nm.c_str(), what, at % n, at / n % n, (off + at) / n / n, got.real(), got.imag(), e[off + at].real(), e[off + at].imag());
}
static void make(GField &g) { F = vh::field(C, N, Lz, prec, type, np, Ng); g.init(F, N, Lz, np, Ng, prec, type); *F->zV() = 1.7; F->updateR(); }
// field and velocity
static void mv(bool folded, bool in, int stride)
{
	GField g; bool cx = type == FIELD_SAXION; F = nullptr; size_t cnt = 0; size_t mz = MT / np;
	for (size_t i = 0; i < n3; i += stride) for (int ph = 0; ph < (stride > 1 ? 1 : 2); ph++) {
		Mode a = mode(i, ph ? 3 : 0), b = mode(i * 7 + 3 + ph, 5); LD mean = .25L; if (!F) make(g);
		g.m = wave(a, cl(.7L, cx ? .2L : 0), mean); g.v = wave(b, 1.3L, -mean); g.put(folded); F->setM2(M2_DIRTY); Arr m0 = g.m, v0 = g.v;
		std::string nm = cfg + " field " + a.str() + " velocity " + b.str(); Scalar *o = reduce(F, M, mz, cnt++ % 3 ? FIELD_MV : cnt % 2 ? FIELD_M : FIELD_V, in);
		if (!o) { vh::fail(cfg + ":none", "%s: nothing returned", nm.c_str()); continue; }
		if (in != (o == F)) vh::fail(cfg + ":place", "%s: returned field is %s", nm.c_str(), in ? "another" : "the same");
		if (o->Length() != M || o->Depth() != mz || o->TotalDepth() != MT || o->Size() != M * M * mz || o->Field() != type || o->Precision() != prec || fabs(*o->zV() - 1.7) > 1e-15) { vh::fail(cfg + ":shape", "%s: %zux%zux%zu type %d time %g", nm.c_str(), o->Length(), o->Length(), o->TotalDepth(), (int) o->Field(), *o->zV()); break; }
		if (o->Folded()) vh::fail(cfg + ":order", "%s: the reduced field is marked as in vector order", nm.c_str());
		Arr em = coarse(filtered(a, cl(.7L, cx ? .2L : 0), mean)), ev = coarse(filtered(b, 1.3L, -mean));
		cmp("m", nm, o->mStart(), em, M, mz, 4 * eps(), cx, "reduced field"); cmp("v", nm, o->vStart(), ev, M, mz, 6 * eps(), cx, "reduced velocity");
		if (F->m2Status() != M2_DIRTY) vh::fail(cfg + ":m2", "%s: status of m2 is %d", nm.c_str(), (int) F->m2Status());
		if (!in) { // the source keeps its values
			g.m = m0; g.v = v0; g.round(); if (F->Folded()) { Folder mu(F); mu(UNFOLD_ALL); }
			cmp("source-m", nm, F->mStart(), g.m, N, Lz, 0, cx, "field that was to be kept"); cmp("source-v", nm, F->vStart(), g.v, N, Lz, 0, cx, "velocity that was to be kept");
			if (F->Length() != N || F->Depth() != Lz) vh::fail(cfg + ":source-shape", "%s: shape of the source changed", nm.c_str());
			delete o;
		} else { delete F; F = nullptr; }
		vh::eval(nm);
	}
	if (F) delete F;
}
// energy maps (real, in m2, always in place)
static void ener(int stride)
{
	GField g; make(g); FieldType ty = type; size_t mz = MT / np; Arr dm(n3, 1); g.m = dm; g.v = dm; g.put(false);
	for (size_t i = 0; i < n3; i += stride) for (int ph = 0; ph < 2; ph++) {
		type = FIELD_AXION; Mode a = mode(i, ph ? 3 : 0); Arr w = wave(a, .7L, 2.5L), e = coarse(filtered(a, .7L, 2.5L)); type = ty;
		std::string nm = cfg + " energy " + a.str() + (ph ? " already transformed" : "");
		bool pad = ph; size_t row = pad ? N + 2 : N; for (size_t q = 0; q < N * N * Lz; q++) { size_t d = q / N * row + q % N; LD x = w[commRank() * N * N * Lz + q].real(); if (prec == FIELD_SINGLE) ((float *) F->m2Cpu())[d] = x; else ((double *) F->m2Cpu())[d] = x; }
		F->setReduced(false); F->setM2(M2_ENERGY); if (ph) { AxionFFT::fetchPlan("pSpecAx").run(FFT_FWD); F->setM2(M2_ENERGY_FFT); }
		auto f = type; type = FIELD_AXION; Scalar *o = reduce(F, M, mz, FIELD_M2, i & 1); type = f;
		if (o != F || !F->Reduced() || F->rLength() != M || F->rDepth() != mz || F->rSize() != M * M * mz || F->m2Status() != M2_ENERGY || F->Length() != N || F->Depth() != Lz) vh::fail(cfg + ":state", "%s: reduced %d to %zu,%zu status %d, lattice %zu,%zu", nm.c_str(), (int) F->Reduced(), F->rLength(), F->rDepth(), (int) F->m2Status(), F->Length(), F->Depth());
		cmp("energy", nm, F->m2Cpu(), e, M, mz, 8 * eps(), false, "reduced energy");
		if (i % 64 == 0) { cmp("energy-m", nm, F->mStart(), dm, N, Lz, 0, type == FIELD_SAXION, "field"); cmp("energy-v", nm, F->vStart(), dm, N, Lz, 0, type == FIELD_SAXION, "velocity"); }
		vh::eval(nm);
	}
	for (int s : {(int) M2_DIRTY, (int) M2_POT}) { // without an energy in m2 nothing happens
		memset(F->m2Cpu(), 0x11, N * N * Lz * prec); F->setReduced(false); F->setM2((StatusM2) s); auto f = type; type = FIELD_AXION; reduce(F, M, mz, FIELD_M2, true); type = f;
		bool same = true; for (size_t q = 0; q < N * N * Lz * prec; q++) if (((char *) F->m2Cpu())[q] != 0x11) same = false; std::string nm = cfg + vh::fmt(" status %d", s);
		if (!same || F->Reduced() || F->m2Status() != s) vh::fail(cfg + ":no-energy", "%s: changed without an energy", nm.c_str()); vh::eval(nm);
	}
}
// nearest-neighbour smoothing of a complex field
static void smooth()
{
	GField g; make(g); const double AL[] = {0., .25, .5, .9, 1.}; const size_t IT[] = {1, 2, 5};
	for (size_t i = 0; i < n3; i++) {
		Mode a = mode(i, 0); double al = AL[i % 5]; size_t it = IT[i / 5 % 3]; LD mean = .25L; g.m = wave(a, cl(.7L, .2L), mean); g.v = wave(mode(i * 3 + 1, 0), 1, 0); Arr v0 = g.v; g.put(false); std::string nm = cfg + vh::fmt(" smoothing %g %zu times ", al, it) + a.str();
		smoothXeon(F, it, al); LD f = al + (1 - al) / 3.L * (cosl(2 * PI * a.x / N) + cosl(2 * PI * a.y / N) + cosl(2 * PI * a.z / T)); LD p = 1; for (size_t q = 0; q < it; q++) p *= f;
		cmp("smooth", nm, F->mStart(), wave(a, cl(.7L, .2L) * p, mean), N, Lz, 4 * eps(), true, "smoothed field"); g.v = v0; g.round(); cmp("smooth-v", nm, F->vStart(), g.v, N, Lz, 0, true, "velocity");
		// and its halo is that of the smoothed field
		vh::eval(nm);
	}
}
// smoothing of the energy map in momentum space, one length after another on the kept transform
static void filt(int stride)
{
	GField g; make(g); Arr dm(n3, 1); g.m = dm; g.v = dm; g.put(false); MeasInfo mi; mi.nbinsspec = -1; SpecBin S(F, false, mi); auto ty = type; LD L = C->PhysSize(); const LD LEN[] = {0.L, .4L, 1.1L, 2.7L}; cl (*none)(int) = nullptr; (void) none;
	for (size_t i = 0; i < n3; i += stride) {
		type = FIELD_AXION; Mode a = mode(i, i % 2 ? 3 : 0); Arr w = wave(a, .7L, 2.5L); bool half = i / stride % 3 == 2; void *dst = half ? F->m2half() : F->m2Cpu();
		for (size_t q = 0; q < N * N * Lz; q++) { LD x = w[commRank() * N * N * Lz + q].real(); if (prec == FIELD_SINGLE) ((float *) dst)[q] = x; else ((double *) dst)[q] = x; }
		F->setM2(half ? M2_DIRTY : M2_ENERGY); F->setM2h(half ? M2_ENERGY : M2_DIRTY); std::string seq;
		for (int s = 0; s < 4; s++) {
			int fi = (s + i) % 3; LD len = LEN[(i / 3 + s) % 4], k = 2 * PI / L * sqrtl((LD) a.kx() * a.kx() + (LD) a.ky() * a.ky() + (LD) a.kz() * a.kz()), x = k * len, f = fi == 0 ? expl(-x * x / 2) : fi == 1 ? (x > 0 ? 3 * (sinl(x) - x * cosl(x)) / (x * x * x) : 1) : x > 1 ? 0 : 1; if (fi == 2 && fabsl(x - 1) < 1e-5L) continue;
			seq += vh::fmt(" %s(%Lg)", fi == 0 ? "gauss" : fi == 1 ? "tophat" : "sharp", len); std::string nm = cfg + " filter " + a.str() + seq; S.smoothFourier((double) len, (FilterIndex) fi);
			LD t = 8 * eps(); if (fi == 1 && x > 0) t += eps() / std::min((LD) 1, x * x);
			cmp("filter", nm, F->m2Cpu(), wave(a, .7L * f, 2.5L), N, Lz, t, false, "smoothed energy", N + 2); if (F->m2Status() != M2_ENERGY_SMOOTH) vh::fail(cfg + ":filter-status", "%s: status %d", nm.c_str(), (int) F->m2Status());
			vh::eval(nm);
		}
		type = ty;
	}
}
// the field expanded from every smaller lattice: linear interpolation on the periodic lattice
static Arr finer(const Arr &a, size_t nx, size_t nz, size_t X, size_t Z)
{
	Arr o(X * X * Z);
	for (size_t z = 0; z < Z; z++) for (size_t y = 0; y < X; y++) for (size_t x = 0; x < X; x++) {
		size_t num[3] = {x * nx, y * nx, z * nz}, den[3] = {X, X, Z}, lim[3] = {nx, nx, nz}; cl s = 0;
		for (int c = 0; c < 8; c++) { LD f = 1; size_t q[3]; for (int i = 0; i < 3; i++) { LD w = (LD) (num[i] % den[i]) / den[i]; int u = c >> i & 1; f *= u ? w : 1 - w; q[i] = (num[i] / den[i] + u) % lim[i]; } s += f * a[q[0] + nx * (q[1] + nx * q[2])]; }
		o[x + X * (y + X * z)] = s;
	}
	return o;
}
static void expand()
{
	GField g; make(g); bool cx = type == FIELD_SAXION;
	for (size_t nx = 1; nx < N; nx++) for (size_t nz = 1; nz < Lz; nz++) for (int k = 0; k < 2; k++) {
		size_t nt = nz * np; Arr m(nx * nx * nt), v(nx * nx * nt); for (size_t i = 0; i < m.size(); i++) { m[i] = cl(g.rnd(h01(i * 5 + k) - .5L), cx ? g.rnd(h01(i * 5 + 1 + k) - .5L) : 0); v[i] = cl(g.rnd(h01(i * 5 + 2 + k) - .5L), cx ? g.rnd(h01(i * 5 + 3 + k) - .5L) : 0); }
		memset(F->mCpu(), 0x7f, F->eSize() * F->DataSize()); memset(F->vCpu(), 0x7f, F->Size() * F->DataSize()); memset(F->m2Cpu(), 0x7f, F->eSize() * F->DataSize()); F->setFolded(false);
		for (size_t i = 0; i < nx * nx * nz; i++) { g.store(F->mStart(), i, m[commRank() * nx * nx * nz + i]); g.store(F->vStart(), i, v[commRank() * nx * nx * nz + i]); }
		std::string nm = cfg + vh::fmt(" from %zux%zux%zu, %d", nx, nx, nt, k); F->setReduced(true, nx, nz); expandField(F); F->setReduced(false, 1, 1);
		cmp("expand", nm, F->mStart(), finer(m, nx, nt, N, T), N, Lz, 4 * eps(), cx, "expanded field"); cmp("expand-v", nm, F->vStart(), finer(v, nx, nt, N, T), N, Lz, 4 * eps(), cx, "expanded velocity"); vh::eval(nm);
	}
}
static Arr dense(size_t nx, size_t nt, int k, bool cx, FieldPrecision p) { Arr a(nx * nx * nt); auto r = [&](LD x) { return p == FIELD_SINGLE ? (LD) (float) x : (LD) (double) x; }; for (size_t i = 0; i < a.size(); i++) a[i] = cl(r(h01(i * 3 + 17 * k) - .5L), cx ? r(h01(i * 3 + 1 + 17 * k) - .5L) : 0); return a; }
int main(int argc, char **argv)
{
	std::string what = argv[1]; std::string t = argv[2]; type = t == "saxion" ? FIELD_SAXION : t == "axion" ? FIELD_AXION : t == "axionmod" ? FIELD_AXION_MOD : FIELD_PAXION; prec = !strcmp(argv[3], "single") ? FIELD_SINGLE : FIELD_DOUBLE; N = atoi(argv[4]); T = atoi(argv[5]); np = atoi(argv[6]); Ng = atoi(argv[7]); M = atoi(argv[8]); MT = atoi(argv[9]); Lz = T / np; n3 = N * N * T;
	int a1 = argc > 10 ? atoi(argv[10]) : 0, a2 = argc > 11 ? atoi(argv[11]) : 0, a3 = argc > 12 ? atoi(argv[12]) : 1;
	size_t sn = what == "read" ? M : N, sz = (what == "read" ? MT : T) / np;
	std::vector<std::string> a = {"--size", std::to_string(sn), "--depth", std::to_string(sz), "--zgrid", argv[6], "--prec", argv[3], "--lap", argv[7], "--qcd", "4", "--lsize", "6", "--llcf", "30"}; if (what != "read" || a1) { a.push_back("--fftplan"); a.push_back("64"); }
	if (what == "read") { a.push_back("--index"); a.push_back("0"); if (type != FIELD_SAXION) { a.push_back("--ftype"); a.push_back("axion"); } }
	C = vh::start(a); cfg = vh::fmt("%s-%s-%s-%zux%zu-to-%zux%zu-np%d-halo%zu-%d%d-t%d", what.c_str(), tn(type), vh::pname(prec), N, T, M, MT, np, Ng, a1, a2, omp_get_max_threads());
	if (what != "read") { C->SetMink(false); C->SetFrw(1.0); C->SetLambda(30.0); C->SetPhysSize(7.0); C->SetQcdPot(V_QCD1_PQ1); }
	if (what == "mv") mv(a1, a2, a3);
	if (what == "energy") ener(a3);
	if (what == "smooth") smooth();
	if (what == "filter") filt(a3);
	if (what == "expand") expand();
	if (what == "write") { GField g; make(g); for (int k = 0; k < 3; k++) { g.m = dense(N, T, 2 * k, type == FIELD_SAXION, prec); g.v = dense(N, T, 2 * k + 1, type == FIELD_SAXION, prec); g.put(false); writeConf(F, k, false); commSync(); } }
	if (what == "read") for (int k = 0; k < 3; k++) {
		Scalar *o = nullptr; bool cx = type == FIELD_SAXION; std::string nm = cfg + vh::fmt(" configuration %d", k); fIndex = k; fTypeP = type; readConf(C, &o, k, false); if (!o) { vh::fail(cfg + ":none", "%s: nothing read", nm.c_str()); continue; }
		if (o->Length() != M || o->TotalDepth() != MT || o->Depth() != MT / np || o->Field() != type || o->Precision() != prec || o->Reduced() || o->Folded()) { vh::fail(cfg + ":shape", "%s: %zu %zu (%zu) type %d reduced %d", nm.c_str(), o->Length(), o->TotalDepth(), o->Depth(), (int) o->Field(), (int) o->Reduced()); continue; }
		Arr m = dense(N, T, 2 * k, cx, prec), v = dense(N, T, 2 * k + 1, cx, prec);
		if (M < N) { Ref r; r.N = N; r.Lz = T; r.n3 = n3; auto f = [&](const Arr &x) { std::vector<LC> b(x.begin(), x.end()), w(n3); Arr o(n3);
				// separable Gaussian: the transform in each direction
				for (int ax = 0; ax < 3; ax++) { size_t n = ax == 2 ? T : N, st = ax == 0 ? 1 : ax == 1 ? N : N * N; LD tgt = ax == 2 ? (LD) MT : (LD) M, c = 2 * PI * PI / (tgt * tgt); std::vector<LD> ker(n); for (size_t d = 0; d < n; d++) { LD s = 0; for (size_t q = 0; q < n; q++) { LD kk = sg(q, n); s += expl(-c * kk * kk) * cosl(2 * PI * q * d / n); } ker[d] = s / n; } for (size_t i = 0; i < n3; i++) { size_t p = i / st % n, base = i - p * st; LC s = 0; for (size_t q = 0; q < n; q++) s += b[base + q * st] * ker[(p + n - q) % n]; w[i] = s; } b.swap(w); }
				for (size_t i = 0; i < n3; i++) o[i] = b[i]; return coarse(o); };
			m = f(m); v = f(v); }
		else if (M > N) { m = finer(m, N, T, M, MT); v = finer(v, N, T, M, MT); }
		cmp("m", nm, o->mStart(), m, M, MT / np, 8 * eps(), cx, "field"); cmp("v", nm, o->vStart(), v, M, MT / np, 8 * eps(), cx, "velocity"); vh::eval(nm);
		// the plans belong to the new lattice: a transform of the energy map there and back
		if (o->m2Cpu()) { size_t s = M * M * (MT / np); for (size_t q = 0; q < s; q++) { LD x = h01(q + commRank() * s); size_t d = q / M * (M + 2) + q % M; if (prec == FIELD_SINGLE) ((float *) o->m2Cpu())[d] = x; else ((double *) o->m2Cpu())[d] = x; }
			auto &pl = AxionFFT::fetchPlan("pSpecAx"); pl.run(FFT_FWD); pl.run(FFT_BCK); LD w = 0; for (size_t q = 0; q < s; q++) { LD x = h01(q + commRank() * s); w = std::max(w, std::abs(get(o->m2Cpu(), q / M * (M + 2) + q % M, false) / (LD) (M * M * MT) - x)); } if (!(w < 8 * eps())) vh::fail(cfg + ":plan", "%s: transform there and back on the new lattice is off by %Lg", nm.c_str(), w); }
		cmp("m-after", nm, o->mStart(), m, M, MT / np, 8 * eps(), cx, "field after a transform of m2"); delete o;
	}
	vh::quit();
}
