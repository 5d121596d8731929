// P27: the axiton tracker. Histories of searches and readings of angle fields, printed and read back; grouping of dense points of non-relativistic fields.
#include "gfield.h"
#include "axiton/tracker.h"
#include "utils/parse.h"
#include "io/readWrite.h"
#include <hdf5.h>
#include <map>
#include <set>
#include <sys/stat.h>
#include <unistd.h>
static Cosmos *C; static Scalar *F; static size_t N, T, Lz, Ng, n3; static int np; static FieldPrecision prec; static std::string cfg; static GField g;
#define BAD(k, ...) vh::fail(cfg + ":" + std::string(k), __VA_ARGS__)
typedef std::set<size_t> Set;
static std::string P(size_t i) { return vh::fmt("(%zu,%zu,%zu)", i % N, i / N % N, i / N / N); }
namespace { struct Step { char op; Set m, v; bool folded; }; // S: search, R: read; points above the threshold of the field and of the velocity
struct Rec { int i0; std::vector<double> m, v; }; }
static void dataset(hid_t f, const std::string &n, std::vector<double> &o) { o.clear(); hid_t d = H5Dopen2(f, n.c_str(), H5P_DEFAULT); if (d < 0) return; hid_t s = H5Dget_space(d); hsize_t k[4] = {0}; H5Sget_simple_extent_dims(s, k, NULL); o.resize(k[0]); if (k[0]) H5Dread(d, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, o.data()); H5Sclose(s); H5Dclose(d); }
static int attr(hid_t g, const char *n) { int x = -12345; hid_t a = H5Aopen(g, n, H5P_DEFAULT); if (a >= 0) { H5Aread(a, H5T_NATIVE_INT, &x); H5Aclose(a); } return x; }
static double TH, VE, CT; static int nMax; static bool useV;
static bool history(const std::string &nm, const std::vector<Step> &h, int seed)
{
	auto ic = C->ICData(); ic.axtinfo.nMax = nMax; ic.axtinfo.th_threshold = TH; ic.axtinfo.ve_threshold = useV ? VE : -1.; ic.axtinfo.ct_threshold = CT; C->SetICData(ic); *F->zV() = 2; F->updateR(); initTracker(F);
	int lim = (nMax == -2 ? 100 : nMax) / np; if (nMax > 0 && nMax < np) lim = -1; double th = TH == -1. ? acos(-1) : TH, ct = CT == -1. ? 2.5 : CT; std::vector<double> cts; std::vector<std::map<size_t, Rec>> model(np); std::vector<bool> over(np, false); std::map<size_t, std::vector<std::pair<int, size_t>>> maybe; std::vector<GField> snaps; std::vector<std::vector<Set>> dummy;
	std::vector<std::vector<cl>> ms, vs; std::vector<std::map<int, Set>> sets(np); std::vector<size_t> cnt(np, 0);
	for (size_t q = 0; q < h.size(); q++) {
		const Step &s = h[q]; double z = 2 + .25 * q; *F->zV() = z; F->updateR(); double R = *F->RV(), ml = th * R, vl = (useV ? VE : 1.) * F->AxionMass() * R * R; bool active = F->AxionMass() * R * z >= ct;
		for (size_t i = 0; i < n3; i++) { double a = h01(i * 31 + q * 977 + seed), b = h01(i * 37 + q * 1009 + seed + 5); bool hm = s.m.count(i), hv = s.v.count(i); g.m[i] = (a < .5 ? -1 : 1) * ml * (hm ? 1.001 + b : (i % 3 ? b * .999 : .999)); g.v[i] = (b < .5 ? -1 : 1) * vl * (hv ? 1.001 + a : (i % 5 ? a * .999 : .999)); }
		g.put(s.folded);
		if (s.op == 'S') { searchAxitons(); if (active) for (size_t i = 0; i < n3; i++) if (s.m.count(i) || (useV && s.v.count(i))) { int r = i / (N * N) / Lz; if (!model[r].count(i)) { Rec c; c.i0 = cts.size(); model[r][i] = c; } } }
		else { readAxitons(); cts.push_back(z); for (auto &mr : model) for (auto &c : mr) { c.second.m.push_back((double) g.m[c.first].real()); c.second.v.push_back((double) g.v[c.first].real()); } }
		if (F->Folded() != s.folded) BAD("order", "%s: the tracker changed the order of the field", nm.c_str());
	}
	if (!commRank()) unlink(vh::fmt("%s/notixa.m.00000", outDir).c_str()); MPI_Barrier(MPI_COMM_WORLD); printAxitons(); MPI_Barrier(MPI_COMM_WORLD);
	bool ok = true; if (strcmp(::outName, "axion")) { BAD("name", "%s: the name of the output files became %s", nm.c_str(), ::outName); strcpy(::outName, "axion"); }
	if (!commRank()) {
		hid_t f = H5Fopen(vh::fmt("%s/notixa.m.00000", outDir).c_str(), H5F_ACC_RDONLY, H5P_DEFAULT); if (f < 0) { BAD("file", "%s: no file", nm.c_str()); return false; }
		std::vector<double> a; dataset(f, "/ct/data", a); if (a != cts) { BAD("times", "%s: %zu times, %zu readings", nm.c_str(), a.size(), cts.size()); ok = false; }
		std::vector<size_t> found(np, 0); std::set<size_t> seen; int n = 0;
		for (;; n++) {
			std::string gn = vh::fmt("/axiton%3d", n); if (H5Lexists(f, gn.c_str(), H5P_DEFAULT) <= 0) break; hid_t gg = H5Gopen2(f, gn.c_str(), H5P_DEFAULT); int x = attr(gg, "x"), y = attr(gg, "y"), z = attr(gg, "z"), i0 = attr(gg, "i0"); H5Gclose(gg);
			if (x < 0 || y < 0 || z < 0 || x >= (int) N || y >= (int) N || z >= (int) T) { BAD("where", "%s: record %d is at (%d,%d,%d)", nm.c_str(), n, x, y, z); ok = false; break; }
			size_t i = x + N * (y + N * z); int r = z / Lz; auto it = model[r].find(i); if (it == model[r].end() || !seen.insert(i).second) { BAD("which", "%s: record %d is of point %s, which %s", nm.c_str(), n, P(i).c_str(), it == model[r].end() ? "never passed the threshold" : "has another record"); ok = false; break; }
			found[r]++; Rec &e = it->second; dataset(f, gn + "/field/data", a); std::vector<double> b; dataset(f, gn + "/veloc/data", b); int late = 0;
			if (i0 != e.i0) { // a point that was rejected for lack of room is not tracked later either, unless room was there at its first search
				BAD("start", "%s: record %d of point %s starts at reading %d, was found before reading %d", nm.c_str(), n, P(i).c_str(), i0, e.i0); ok = false; break; }
			if (a != e.m || b != e.v) { size_t k = 0; while (k < e.m.size() && k < a.size() && k < b.size() && a[k] == e.m[k] && b[k] == e.v[k]) k++; BAD("history", "%s: record %d of point %s has %zu values, should have %zu; number %zu is (%g,%g), should be (%g,%g)", nm.c_str(), n, P(i).c_str(), a.size(), e.m.size(), k, k < a.size() ? a[k] : NAN, k < b.size() ? b[k] : NAN, k < e.m.size() ? e.m[k] : NAN, k < e.v.size() ? e.v[k] : NAN); ok = false; break; }
			(void) late;
		}
		for (int r = 0; ok && r < np; r++) { size_t e = model[r].size(); if (lim >= 0) e = std::min(e, (size_t) lim); if (found[r] != e) { BAD("count", "%s: rank %d has %zu records, should have %zu", nm.c_str(), r, found[r], e); ok = false; } }
		H5Fclose(f);
	}
	vh::eval(nm); return ok;
}
static Set line(size_t p, size_t st, size_t n) { Set s; for (size_t i = 0; i < n; i++) s.insert((p + i * st) % n3); return s; }
static std::string bits(int b, int n) { std::string s; for (int i = 0; i < n; i++) s += b >> i & 1 ? 'f' : 'u'; return s; }
static void track()
{
	int k = 0;
	struct Cf { double th, ve; bool v; double ct; int nmax; }; std::vector<Cf> cfs = {{-1, 1, false, -1, 1000}, {1.3, .8, true, .1, 1000}, {-1, .5, true, -1, -2}, {2, 1, false, 30, 1000}};
	for (auto &c : cfs) {
		TH = c.th; VE = c.ve; useV = c.v; CT = c.ct; nMax = c.nmax;
		// every point, alone, in every order of search and reading
		for (size_t p = 0; p < n3; p += &c == &cfs[0] && n3 <= 512 ? 1 : 11) { int b = k++; history(vh::fmt("point %s %s th=%g v=%d ct=%g", P(p).c_str(), bits(b & 7, 3).c_str(), TH, useV, CT), {{'S', {p}, {(p + 3) % n3}, (bool) (b & 1)}, {'R', {}, {}, (bool) (b & 2)}, {'R', {p}, {}, (bool) (b & 4)}}, b); }
		// points found at different times
		for (int b = 0; b < 32; b++) for (size_t st : {(size_t) 1, N, N * N, N * N * Lz, 5 * N * N + 3 * N + 1}) {
			size_t p = (b * 97 + st) % n3, m = st >= N * N ? T / (st / (N * N) ? st / (N * N) : 1) : 3; if (!m) m = 1; Set A = line(p, st, m), B = line((p + N + 1) % n3, st, 2), D; D = A; D.insert((p + 7) % n3);
			history(vh::fmt("sets %s step %zu %s th=%g v=%d ct=%g", P(p).c_str(), st, bits(b, 5).c_str(), TH, useV, CT), {{'S', A, B, (bool) (b & 1)}, {'R', {}, {}, (bool) (b & 2)}, {'S', D, A, (bool) (b & 4)}, {'R', B, B, (bool) (b & 8)}, {'S', B, {}, (bool) (b & 16)}, {'R', A, {}, (bool) (b & 1)}, {'S', {n3 - 1}, {}, (bool) (b & 2)}}, k++);
		}
		// nothing found; readings before the first search
		history("nothing", {{'R', {}, {}, false}, {'S', {}, {}, true}, {'R', {}, {}, true}}, k++); history("late", {{'R', {}, {}, true}, {'R', {5}, {}, false}, {'S', {6, n3 / 2}, {}, true}, {'R', {}, {}, true}}, k++);
	}
	// more points than records
	for (int nm : {4, 8, 24}) for (int b = 0; b < 4; b++) { TH = -1; useV = false; CT = -1; nMax = nm; Set all; for (size_t i = 0; i < n3; i += 1 + b) all.insert(i); history(vh::fmt("limit %d every %d", nm, 1 + b), {{'S', all, {}, (bool) (b & 1)}, {'R', {}, {}, (bool) (b & 2)}, {'R', all, {}, false}}, k++); }
}
static void group()
{
	auto ic = C->ICData(); ic.axtinfo.nMax = 1000; ic.axtinfo.con_threshold = 4; C->SetICData(ic); int k = 0;
	auto run = [&](const std::string &nm, const Set &hot) {
		for (bool folded : {false, true}) {
			for (size_t i = 0; i < n3; i++) { double a = h01(i * 41 + k) * 6.28, r = sqrt(hot.count(i) ? 4.01 + 3 * h01(i + k) : 3.99 * h01(i * 3 + k)); g.m[i] = r * cos(a); g.v[i] = r * sin(a); } g.put(folded);
			if (!commRank()) unlink(vh::fmt("%s/axion.m.17562", outDir).c_str()); MPI_Barrier(MPI_COMM_WORLD); initTracker(F); searchAxitons(); grouptags(); MPI_Barrier(MPI_COMM_WORLD);
			// components within the slab of this rank
			size_t n = N * N * Lz, o = g.off(); std::vector<int> comp(n, -1); int nc = 0; for (size_t s = 0; s < n; s++) if (hot.count(o + s) && comp[s] < 0) { std::vector<size_t> st{s}; comp[s] = nc; while (!st.empty()) { size_t q = st.back(); st.pop_back(); size_t x = q % N, y = q / N % N, z = q / N / N; std::vector<size_t> nb{(x + 1) % N + N * (y + N * z), (x + N - 1) % N + N * (y + N * z), x + N * ((y + 1) % N + N * z), x + N * ((y + N - 1) % N + N * z)}; if (z + 1 < Lz) nb.push_back(q + N * N); if (z) nb.push_back(q - N * N); for (size_t t : nb) if (hot.count(o + t) && comp[t] < 0) { comp[t] = nc; st.push_back(t); } } nc++; }
			size_t sh = F->DataAlign() / F->DataSize(); std::map<int, double> lab; std::map<double, int> bal; std::string c = nm + (folded ? " folded" : ""); const void *p = F->m2hStart();
			for (size_t s = 0; s < n; s++) { size_t x = s % N, y = s / N % N, z = s / N / N, at = folded ? z * N * N + sh * ((y % (N / sh)) * N + x) + y / (N / sh) : s; double l = prec == FIELD_SINGLE ? ((const float *) p)[at] : ((const double *) p)[at];
				if (comp[s] < 0) { if (l != 0) { BAD("cold", "%s: point %s below the threshold has group %g", c.c_str(), P(s + o).c_str(), l); break; } continue; }
				if (!(l > 0)) { BAD("none", "%s: dense point %s has group %g", c.c_str(), P(s + o).c_str(), l); break; }
				if (lab.count(comp[s]) && lab[comp[s]] != l) { BAD("split", "%s: point %s has group %g, its neighbours' cluster has %g", c.c_str(), P(s + o).c_str(), l, lab[comp[s]]); break; }
				if (bal.count(l) && bal[l] != comp[s]) { BAD("merged", "%s: point %s has the group %g of points it is not connected with", c.c_str(), P(s + o).c_str(), l); break; } lab[comp[s]] = l; bal[l] = comp[s]; }
			vh::eval(c); k++;
		}
	};
	for (size_t p = 0; p < n3; p += 3) run("one " + P(p), {p});
	for (size_t p : {(size_t) 0, N * N, n3 / 2 + 3 * N + 2, n3 - 1}) for (size_t q = 0; q < n3; q += 2) if (q != p) run("two " + P(p) + P(q), {p, q, (q + N * N) % n3});
	for (size_t st : {(size_t) 1, N, N * N, N + 1}) for (size_t l : {2, 3, 5, 8}) for (size_t p : {(size_t) 0, (size_t) 6, N * N, n3 - 3}) run(vh::fmt("line %s step %zu length %zu", P(p).c_str(), st, l), line(p, st, l));
	for (int d = 1; d < 8; d++) for (int rep = 0; rep < 3; rep++) { Set s; for (size_t i = 0; i < n3; i++) if (h01(i * 53 + d * 7 + rep * 1001) < d * .12) s.insert(i); run(vh::fmt("random %d.%d", d, rep), s); }
	Set all; for (size_t i = 0; i < n3; i++) all.insert(i); run("all", all); run("nothing", {});
}
int main(int argc, char **argv)
{
	std::string what = argv[1]; prec = !strcmp(argv[2], "single") ? FIELD_SINGLE : FIELD_DOUBLE; N = atoi(argv[3]); T = atoi(argv[4]); np = atoi(argv[5]); Ng = atoi(argv[6]); Lz = T / np; n3 = N * N * T;
	C = vh::start({"--size", argv[3], "--depth", std::to_string(Lz), "--zgrid", argv[5], "--prec", argv[2], "--lap", argv[6], "--qcd", "4", "--lsize", "6", "--llcf", "30", "--fftplan", "64"});
	C->SetMink(false); C->SetFrw(1.0); C->SetLambda(30.0); C->SetLamZ2Exp(0.0); C->SetIndi3(1.1); C->SetQcdExp(3.0); C->SetPhysSize(7.0); C->SetQcdPot(V_QCD1_PQ1); C->ICData().zi = 1.7;
	cfg = vh::fmt("%s-%s-%zux%zu-np%d-halo%zu-t%d", what.c_str(), vh::pname(prec), N, T, np, Ng, omp_get_max_threads());
	FieldType ft = what == "group" ? FIELD_PAXION : FIELD_AXION; F = vh::field(C, N, Lz, prec, ft, np, Ng); g.init(F, N, Lz, np, Ng, prec, ft);
	if (what == "track") track(); else group();
	vh::quit();
}
