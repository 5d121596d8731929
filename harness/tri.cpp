// P26: the vector functions against the scalar ones, for all floats of the range and the listed doubles. No MPI.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <cstdint>
#include <cstdarg>
#include <algorithm>
#include <functional>
#include <limits>
#include <vector>
#include <string>
#include <omp.h>
#include "utils/triSimd.h"
#if defined(__AVX512F__)
typedef __m512 VF; typedef __m512d VD;
#define OP(f) _mm512_##f
#define ISA "avx512"
#elif defined(__AVX__)
typedef __m256 VF; typedef __m256d VD;
#define OP(f) _mm256_##f
#define ISA "avx"
#else
typedef __m128 VF; typedef __m128d VD;
#define OP(f) _mm_##f
#define ISA "sse"
#endif
static const int NF = sizeof(VF) / 4, ND = sizeof(VD) / 8;
static FILE *out; static long evals = 0, fails = 0; static std::string isa;
static void fail(const std::string &k, const std::string &w) { static std::vector<std::string> seen;
#pragma omp critical
	{ fails++; long c = std::count(seen.begin(), seen.end(), k); if (c < 3) { seen.push_back(k); fprintf(out, "F %s\t%s\n", k.c_str(), w.c_str()); fflush(out); } } }
static std::string S(const char *f, ...) { char b[400]; va_list a; va_start(a, f); vsnprintf(b, 400, f, a); va_end(a); return b; }
static inline float FB(uint32_t b) { float f; memcpy(&f, &b, 4); return f; }
#if defined(__FMA__) || defined(__AVX512F__)
static const bool fma_ = true; static const double TMf = 1e7, TMd = 1e15;
#else
static const bool fma_ = false; static const double TMf = 1e5, TMd = 1e12;
#endif
// the accuracy of a single precision function: a few units in the last place of 1, plus the reduction's error for large arguments
static double tolF(double x, double ref, double ulps)
{
	x = fabs(x); double a = ulps * 6e-8;
	if (!fma_) return a + x * 1.3e-7 * .5;   // the product is rounded: error of the argument's own rounding
	return a + (x > 1e5 ? x * 1.5e-11 : 0);
}
static void allFloats(bool sine, int part, int parts, float low)
{
	long n = 0; const double L = TMf; uint32_t top; { float t = L; memcpy(&top, &t, 4); }
#pragma omp parallel for schedule(dynamic, 1) reduction(+:n)
	for (int64_t blk = part; blk < 4096; blk += parts) {
		uint64_t b0 = (uint64_t) blk << 20; if ((b0 & 0x7fffffff) > top) continue;
		for (uint64_t b = b0; b < b0 + (1 << 20); b += NF) {
			alignas(64) float a[16], r[16]; int sh = (b / NF) % NF; for (int i = 0; i < NF; i++) a[i] = FB(b + (i + sh) % NF); if (!(fabsf(a[0]) <= L) || fabsf(a[0]) < low) continue;
			VF x = OP(load_ps)(a); OP(store_ps)(r, sine ? OP(sin_ps)(x) : OP(cos_ps)(x));
			for (int i = 0; i < NF; i++) { if (fabs(a[i]) > L) continue; double e = sine ? sin((double) a[i]) : cos((double) a[i]), t = tolF(a[i], e, 2.6); bool ok = fabs(r[i] - e) <= t; if (ok && fma_ && fabs(a[i]) <= 1e4 && fabs(a[i]) > 1e-30) { double u = ldexp(1., std::max(-126, ilogb(e)) - 23); ok = fabs(r[i] - e) <= 4.5 * u; } if (!ok) { fail(isa + (sine ? ":sin_ps" : ":cos_ps"), S("lane %d: %s(%.9g) is %.9g, should be %.9g", i, sine ? "sin" : "cos", a[i], r[i], e)); } n++; }
		}
	}
	evals += n;
}
static void allMod(float md, int part, int parts)
{
	long n = 0;
#pragma omp parallel for schedule(dynamic, 1) reduction(+:n)
	for (int64_t blk = part; blk < 4096; blk += parts) for (uint64_t b = (uint64_t) blk << 20; b < (uint64_t) (blk + 1) << 20; b += NF) {
		alignas(64) float a[16], r[16]; int sh = (b / NF) % NF; for (int i = 0; i < NF; i++) a[i] = FB(b + (i + sh) % NF); if (!(fabsf(a[0]) <= 1.5f * md)) continue;
		VF x = OP(load_ps)(a); OP(store_ps)(r, OP(mod_ps)(x, OP(set1_ps)(md)));
		for (int i = 0; i < NF; i++) { float xp = a[i] + md, xm = a[i] - md, m = std::min(fabsf(a[i]), std::min(fabsf(xp), fabsf(xm))); bool in = r[i] == a[i] || r[i] == xp || r[i] == xm;
			if (!in || (fabsf(r[i]) != m && !(fabsf(r[i]) < 1e-18 && m < 1e-18))) fail(isa + ":mod_ps", S("lane %d: %.9g modulo %.9g is %.9g", i, a[i], md, r[i])); n++; }
	}
	evals += n;
}
static void doubles(const std::vector<double> &v)
{
	long n = 0, m = v.size() / ND;
#pragma omp parallel for reduction(+:n)
	for (long k = 0; k < m; k++) {
		alignas(64) double a[8], s[8], c[8]; for (int i = 0; i < ND; i++) a[i] = v[k * ND + (i + k) % ND]; VD x = OP(load_pd)(a); OP(store_pd)(s, OP(sin_pd)(x)); OP(store_pd)(c, OP(cos_pd)(x));
		for (int i = 0; i < ND; i++) {
			long double es = sinl(a[i]), ec = cosl(a[i]), t = 3.4e-16L + fabsl(a[i]) * (fma_ ? 1.7e-16L : 3e-16L) * (fabs(a[i]) < 5e7 ? 1 : 5);
			if (!(fabsl(s[i] - es) <= t) || (fabs(a[i]) < 1 && a[i] != 0 && fabs(a[i]) > 1e-300 && !(fabsl(s[i] - es) <= 4 * ldexpl(1, ilogbl(es) - 52)))) fail(isa + ":sin_pd", S("lane %d: sin(%.17g) is %.17g, should be %.17Lg", i, a[i], s[i], es));
			if (!(fabsl(c[i] - ec) <= t)) fail(isa + ":cos_pd", S("lane %d: cos(%.17g) is %.17g, should be %.17Lg", i, a[i], c[i], ec)); n += 2;
		}
	}
	evals += n;
}
static void doubleLists(bool T)
{
	std::vector<double> v; auto around = [&](long double c, int w) { double d = c; for (int i = 0; i < w; i++) d = nextafter(d, -1e300); for (int i = -w; i <= w; i++) { if (fabs(d) <= TMd) v.push_back(d), v.push_back(-d); d = nextafter(d, 1e300); } };
	auto flush = [&]() { while (v.size() % ND) v.push_back(.5); doubles(v); v.clear(); };
	for (long k = 0; k < (T ? 1 << 21 : 1 << 17); k++) { around(k * M_PIl / 4, T ? 16 : 8); if (v.size() > 4000000) flush(); }
	for (int j = 0; j < 50; j++) for (int m = 1; m < (T ? 1024 : 128); m++) around(ldexpl(m * M_PIl / 4, j), 6); flush();
	for (int e = -300; e < 51; e++) for (int m = 0; m < (T ? 65536 : 2048); m++) { double d = ldexp(1 + m / (T ? 65536. : 2048.), e); if (d <= TMd) v.push_back(d), v.push_back(-d); } flush();
	// reduction of differences
	long n = 0; for (double md : {2 * M_PI, 2 * M_PI * 1.3, 2 * M_PI * .01, 8., 1.}) {
		v.clear(); for (int q = -6; q <= 6; q++) { double c = q * md / 4; double d = c; for (int i = 0; i < 40; i++) d = nextafter(d, -1e300); for (int i = -40; i <= 40; i++) { v.push_back(d); d = nextafter(d, 1e300); } } for (int i = -200000; i <= 200000; i++) v.push_back(md * 1.5 * i / 200000); while (v.size() % ND) v.push_back(0);
		for (size_t k = 0; k < v.size(); k += ND) { alignas(64) double a[8], r[8]; for (int i = 0; i < ND; i++) a[i] = v[k + (i + k / ND) % ND]; VD x = OP(load_pd)(a); OP(store_pd)(r, OP(mod_pd)(x, OP(set1_pd)(md)));
			for (int i = 0; i < ND; i++) { double xp = a[i] + md, xm = a[i] - md, m = std::min(fabs(a[i]), std::min(fabs(xp), fabs(xm))); if (fabs(r[i]) != m || !(r[i] == a[i] || r[i] == xp || r[i] == xm)) fail(isa + ":mod_pd", S("lane %d: %.17g modulo %.17g is %.17g", i, a[i], md, r[i])); n++; } }
	}
	evals += n;
}
// selection and pair functions: all combinations of listed values in every lane, other lanes different
template<typename T, typename V> static void small(const char *sfx, int N, std::function<V(V, V, V, V)> kkk, std::function<V(V)> md2, std::function<V(V)> vq)
{
	std::vector<T> val = {0, (T) -0.0, 1, -1, (T) 1.5, (T) -2.25, (T) 3e-5, (T) 1e5, std::numeric_limits<T>::max() / 8, std::numeric_limits<T>::min(), (T) M_PI, (T) .1}; long n = 0; size_t K = val.size(); alignas(64) T a[16], b[16], c[16], d[16], r[16];
	for (int l = 0; l < N; l++) for (size_t i = 0; i < K; i++) for (size_t j = 0; j < K; j++) {
		for (int q = 0; q < N; q++) { a[q] = 100 + q; b[q] = -200 - q; c[q] = val[(i + q + (q > l) * 3) % K]; d[q] = val[(j + 5 * q) % K]; } c[l] = val[i]; d[l] = val[j];
		V o = kkk(*(V *) a, *(V *) b, *(V *) c, *(V *) d); memcpy(r, &o, sizeof o); for (int q = 0; q < N; q++) { T e = c[q] >= d[q] ? a[q] : b[q]; if (r[q] != e) fail(isa + ":kkk" + sfx, S("lane %d: for %g and %g gives %g, should be %g", q, (double) c[q], (double) d[q], (double) r[q], (double) e)); n++; }
	}
	for (int l = 0; l < N; l += 2) for (size_t i = 0; i < K; i++) for (size_t j = 0; j < K; j++) {
		for (int q = 0; q < N; q++) a[q] = val[(i + 7 * q) % K] * (T) .5; a[l] = val[i]; a[l + 1] = val[j]; V o = md2(*(V *) a), p = vq(*(V *) a); memcpy(r, &o, sizeof o); memcpy(c, &p, sizeof p);
		for (int q = 0; q < N; q++) { T x = a[q & ~1], y = a[q | 1], e = x + y; if (r[q] != e) fail(isa + ":md2" + sfx, S("lane %d: (%g,%g) gives %g", q, (double) x, (double) y, (double) r[q])); e = q & 1 ? x * y : y * y; if (c[q] != e) fail(isa + ":vqcd0" + sfx, S("lane %d: (%g,%g) gives %g", q, (double) x, (double) y, (double) c[q])); n += 2; }
	}
	evals += n;
}
int main(int argc, char **argv)
{
	// ISA-name what part parts
	isa = argv[1]; std::string w = argv[2]; int p = atoi(argv[3]), ps = atoi(argv[4]); out = fopen((std::string(getenv("VH_OUT")) + ".0").c_str(), "a");
#if defined(__AVX512F__)
	if (!__builtin_cpu_supports("avx512f") || !__builtin_cpu_supports("avx512vl")) { fprintf(out, "C 0 0\nS %s: this machine has no AVX512\nE\n", argv[1]); fclose(out); return 0; }
#endif
	if (w == "sin") allFloats(true, 0, ps, p ? 1e-6f : 0); else if (w == "cos") allFloats(false, 0, ps, p ? 1e-6f : 0); else if (w == "mod") { float v[] = {(float) (2 * M_PI), (float) (2 * M_PI * 1.3), 1.f, .037f}; allMod(v[p % 4], 0, ps); }
	else { doubleLists(p); small<float, VF>("_ps", NF, [](VF a, VF b, VF c, VF d) { return OP(kkk_ps)(a, b, c, d); }, [](VF a) { return OP(md2_ps)(a); }, [](VF a) { return OP(vqcd0_ps)(a); }); small<double, VD>("_pd", ND, [](VD a, VD b, VD c, VD d) { return OP(kkk_pd)(a, b, c, d); }, [](VD a) { return OP(md2_pd)(a); }, [](VD a) { return OP(vqcd0_pd)(a); }); }
	fprintf(out, "S %s %s %ld values\nC %ld %ld\nE\n", isa.c_str(), w.c_str(), evals, evals, evals);
	fclose(out); return 0;
}
