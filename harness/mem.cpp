// P18: the totals the library reports are those of the blocks still allocated, for every sequence of allocations and releases and every
// life of a field; no block is used outside its bounds or after its release. Blocks end at forbidden pages (fence.h).
#include "gfield.h"
#include "fence.h"
#include <fstream>
#include "utils/memAlloc.h"
#include "utils/logger.h"
#include "io/readWrite.h"
#include "propagator/propBase.h"
#include "propagator/propagator.h"
#include "energy/energy.h"
#include "meas/measa.h"
#include "reducer/reducer.h"
#include "projector/projector.h"
#include "scalar/thetaScalar.h"
#include "scalar/theta2Cmplx.h"
#include "scalar/thetaNaxion.h"
#include "scalar/thetaPaxion.h"
#include "scalar/mendTheta.h"
#include "gen/smoothXeon.h"
#include "strings/strings.h"
#include "gravity/potential.h"
#include "WKB/WKB.h"
extern std::unique_ptr<PropBase> prop;
static Cosmos *C; static Scalar *F; static GField g; static size_t N, Lz, Ng; static int np; static FieldPrecision prec; static std::string cfg, scen; static int idx = 0;
static std::ifstream lg; static std::string key(const char *k) { return cfg + ":" + k; }
struct Tot { long a = -1, u = -1; std::vector<std::pair<int, std::pair<std::string, size_t>>> ptr; };
static Tot totals()
{
	Tot t; if (vh::rk()) return t;
	printMemStats(); LogFlush(); if (!lg.is_open()) lg.open("axion.log.0"); lg.clear(); std::string l; int kind = 0;
	while (std::getline(lg, l)) {
		size_t p; if ((p = l.find("aligned   memory ")) != std::string::npos && l.find("unaligned") == std::string::npos) { t.a = atol(l.c_str() + p + 17); t.ptr.clear(); }
		else if ((p = l.find("unaligned memory ")) != std::string::npos) t.u = atol(l.c_str() + p + 17);
		else if (l.find("Unaligned") != std::string::npos) kind = 1; else if (l.find("Aligned") != std::string::npos) kind = 0;
		else if ((p = l.find("Pointer 0x")) != std::string::npos) { char q[40]; unsigned long s; if (sscanf(l.c_str() + p, "Pointer %39s Size %lu", q, &s) == 2) t.ptr.push_back({kind, {q, s}}); }
	}
	return t;
}
static void report(const char *k, const char *t) { vh::fail(key(k), "%s", t); }
static void compare(const std::string &w, long a, long u)
{
	if (vh::rk()) return; Tot t = totals();
	if (t.a != a) vh::fail(key("aligned"), "%s: the aligned memory reported is %ld bytes, should be %ld", w.c_str(), t.a, a);
	if (t.u != u) vh::fail(key("unaligned"), "%s: the unaligned memory reported is %ld bytes, should be %ld", w.c_str(), t.u, u);
}
// --- all sequences of the three functions
static void sequences(int depth)
{
	struct Op { int kind; size_t size; }; const Op ops[] = {{0, 64}, {0, 4096}, {1, 0}, {1, 24}, {1, 1000}}; const int NO = 5, SL = 3;
	long n = 1; for (int i = 0; i < depth; i++) n *= NO + SL; Tot t0 = totals(); long A0 = t0.a, U0 = t0.u; size_t P0 = t0.ptr.size();
	for (int d = 1; d <= depth; d++) {
		long n = 1; for (int i = 0; i < d; i++) n *= NO + SL;
		for (long c = 0; c < n; c++) {
			void *s[SL] = {}; Op o[SL]; std::string w; long q = c; bool ok = true;
			// valid: release of a slot in use, allocation into the lowest free slot
			{ bool u[SL] = {}; long r = c; for (int i = 0; i < d && ok; i++, r /= NO + SL) { int k = r % (NO + SL); if (k < NO) { int f = 0; while (f < SL && u[f]) f++; if (f == SL) ok = false; else u[f] = true; } else if (!u[k - NO]) ok = false; else u[k - NO] = false; } }
			if (!ok) continue;
			for (int i = 0; i < d; i++, q /= NO + SL) {
				int k = q % (NO + SL);
				if (k < NO) { int f = 0; while (s[f]) f++; o[f] = ops[k]; if (o[f].kind == 0) alignAlloc(&s[f], 64, o[f].size); else trackAlloc(&s[f], o[f].size); w += vh::fmt(" +%c%zu", "AU"[o[f].kind], o[f].size); if (!s[f] || (o[f].kind == 0 && (uintptr_t) s[f] % 64)) vh::fail(key("block"), "sequence%s: block %p", w.c_str(), s[f]); else memset(s[f], 1, o[f].size); }
				else { trackFree(s[k - NO]); s[k - NO] = nullptr; w += vh::fmt(" -%d", k - NO); }
			}
			Tot t = totals(); long a = A0, u = U0; size_t np = P0; for (int f = 0; f < SL; f++) if (s[f]) { (o[f].kind ? u : a) += o[f].size; np++; int m = 0; for (auto &p : t.ptr) if (p.first == o[f].kind && p.second.second == o[f].size && p.second.first == vh::fmt("%p", s[f])) m++; if (m != 1) vh::fail(key("list"), "sequence%s: block %p of %zu bytes is listed %d times", w.c_str(), s[f], o[f].size, m); }
			if (t.a != a || t.u != u) vh::fail(key("totals"), "sequence%s: totals %ld and %ld, should be %ld and %ld", w.c_str(), t.a, t.u, a, u);
			if (t.ptr.size() != np) vh::fail(key("list"), "sequence%s: %zu blocks are listed, should be %zu", w.c_str(), t.ptr.size(), np);
			for (int f = 0; f < SL; f++) if (s[f]) { if (o[f].size && *(char *) s[f] != 1) vh::fail(key("content"), "sequence%s: a block changed", w.c_str()); trackFree(s[f]); }
			fence::errors(report); vh::eval("sequence" + w);
		}
	}
	compare("after all sequences", A0, U0);
}
// --- lives of fields
static void fill()
{
	g.init(F, N, Lz, np, Ng, prec, F->Field()); LD R = *F->RV(); g.cplx = F->Field() & (FIELD_SAXION | FIELD_NAXION);
	for (size_t i = 0; i < g.m.size(); i++) { size_t x = i % N, y = i / N % N, z = i / g.S; LD ph = .9L * sinl(2 * M_PIl * x / N) + .7L * sinl(2 * M_PIl * (y + 1) / N) + .8L * cosl(2 * M_PIl * z / g.T) + (h01(i) - .5L) * .3L; g.m[i] = g.cplx ? R * (.8L + .4L * h01(i + 9)) * cl(cosl(2 * ph), sinl(2 * ph)) : cl(R * ph); g.v[i] = cl(h01(i + 5) - .5L, g.cplx ? h01(i + 7) - .5L : 0); }
	g.put(false, false); F->setM2(M2_DIRTY); F->setM2h(M2_DIRTY); F->setSD(SD_DIRTY);
}
struct Op { const char *name; std::function<bool()> can; std::function<void()> run; };
static bool is(int t) { return F->Field() == t; }
static std::vector<Op> ops; static bool low, saxBorn;
static void meas(long md, long maty, long mask, long nrt, long str)
{
	MeasInfo in = deninfa; in.index = idx; in.measdata = (MeasureType) md; in.mask = (SpectrumMaskType) mask; in.maty = (SliceType) maty; in.sliceprint = 1; in.nrt = (nRunType) nrt; in.strmeas = (StringMeasureType) str; in.i_rmask = 1; in.rmask_tab = {2.0}; in.rmask = 2.0; in.redmap = N / 2;
	Measureme(F, in);
	if (vh::rk() == 0) { char f[600]; sprintf(f, "%s/%s.m.%05d", outDir, outName, idx); unlink(f); }
	idx++;
}
static void start(PropType p, double dz)
{ pType = p; prop.reset(); initPropagator(p, F, C->QcdPot(), (int) Ng); tunePropagator(F); propagate(F, dz); propagate(F, dz); prop.reset(); }
static void makeOps()
{
	auto cplx = [] { return is(FIELD_SAXION); }; auto real = [] { return is(FIELD_AXION) || is(FIELD_AXION_MOD); }; auto any = [] { return true; }; auto full = [] { return !low; };
	auto both = [=] { return is(FIELD_SAXION) || is(FIELD_AXION); };
	ops.push_back({"fold", any, [] { Folder m(F); m(FOLD_ALL); }});
	ops.push_back({"unfold", any, [] { Folder m(F); m(UNFOLD_ALL); }});
	ops.push_back({"ghosts", any, [] { F->exchangeGhosts(FIELD_M); }});
	ops.push_back({"energy", [=] { return (is(FIELD_SAXION) && !low) || is(FIELD_AXION) || is(FIELD_PAXION); }, [] { std::vector<double> e(32); energy(F, e.data(), EN_ENE, is(FIELD_SAXION) ? *F->RV() * F->Saskia() : 0.); }});
	ops.push_back({"emap", [=] { return (is(FIELD_SAXION) && !low) || is(FIELD_AXION); }, [] { std::vector<double> e(32); energy(F, e.data(), EN_MAP, is(FIELD_SAXION) ? *F->RV() * F->Saskia() : 0.); }});
	ops.push_back({"strings", [=] { return is(FIELD_SAXION) && !low; }, [] { strings(F); }});
	ops.push_back({"prop", [=] { return is(FIELD_SAXION) || real() || ((is(FIELD_PAXION) || is(FIELD_NAXION)) && !low); }, [] { start((PropType) (PROP_RKN4 | PROP_BASE), 0.01); }});
	ops.push_back({"propspec", [=] { return is(FIELD_SAXION) && !low && Lz * np == N; }, [] { start((PropType) (PROP_RKN4 | PROP_SPEC), 0.01); }});
	ops.push_back({"theta", [=] { return is(FIELD_SAXION) && !low; }, [] { cmplxToTheta(F, 0., false); }});
	ops.push_back({"thetamod", [=] { return is(FIELD_SAXION) && !low; }, [] { cmplxToTheta(F, 0., true); }});
	ops.push_back({"cmplx", [=] { return is(FIELD_AXION) && saxBorn; }, [] { theta2Cmplx(F); }});
	ops.push_back({"naxion", [=] { return is(FIELD_AXION) && saxBorn; }, [] { thetaToNaxion(F); }});
	ops.push_back({"paxion", [=] { return is(FIELD_AXION); }, [] { thetaToPaxion(F); }});
	ops.push_back({"mend", [=] { return is(FIELD_AXION); }, [] { mendTheta(F); }});
	ops.push_back({"write", [=] { return both() || is(FIELD_AXION_MOD) || is(FIELD_PAXION); }, [] { writeConf(F, idx++); }});
	ops.push_back({"writeread", [=] { return both() || is(FIELD_AXION_MOD); }, [] { writeConf(F, idx); Scalar *b = nullptr; auto ic = C->ICData(); readConf(C, &b, idx); idx++; if (!b) vh::fail(key("read"), "%s: no field read", scen.c_str()); delete b; C->ICData() = ic; }});
	ops.push_back({"smooth", [=] { return is(FIELD_SAXION) && !low; }, [] { Folder m(F); m(UNFOLD_ALL); smoothXeon(F, 2, 0.2); }});
	ops.push_back({"wkb", [=] { return is(FIELD_AXION) && Ng == 1 && Lz * np == N; }, [] { Folder m(F); m(UNFOLD_ALL); AxionWKB::WKB w(F, F); w(*F->zV() * 1.01); }});
	for (int hy = 0; hy < 2; hy++) ops.push_back({hy ? "gravhybrid" : "gravity", [=] { return !low && (is(FIELD_AXION) || is(FIELD_PAXION)) && Lz * np == N && np == 1; }, [=] { pType = (PropType) (PROP_RKN4 | PROP_BASE); prop.reset(); initPropagator(pType, F, C->QcdPot(), (int) Ng); tunePropagator(F); initGravity(F); setHybridMode(hy); calculateGraviPotential(); prop.reset(); F->setM2(M2_DIRTY); }});
	ops.push_back({"project", both, [] { if (prec == FIELD_SINGLE) projectField(F, [](float x) -> float { return x; }); else projectField(F, [](double x) -> double { return x; }); }});
	ops.push_back({"reducem2", [=] { return is(FIELD_AXION) && Lz * np == N; }, [] { std::vector<double> e(32); energy(F, e.data(), EN_MAP, 0.); Scalar *r; if (prec == FIELD_SINGLE) r = reduceField(F, N / 2, Lz / 2, FIELD_M2, [](int, int, int, std::complex<float> x) { return x; }); else r = reduceField(F, N / 2, Lz / 2, FIELD_M2, [](int, int, int, std::complex<double> x) { return x; }); if (r && r != F) delete r; F->setReduced(false); }});
	static std::vector<std::array<long, 5>> M; auto mm = [&](const char *n, std::function<bool()> can, long md, long maty = 0, long mask = SPMASK_FLAT, long nrt = 0, long str = 0) { ops.push_back({n, can, [=] { meas(md, maty, mask, nrt, str); }}); };
	auto sx = [=] { return is(FIELD_SAXION) && !low; }; auto ok = [=] { return sx() || is(FIELD_AXION); }; auto cub = [=] { return ok() && Lz * np == N; }; auto scub = [=] { return sx() && Lz * np == N; }; auto acub = [=] { return is(FIELD_AXION) && Lz * np == N; };
	mm("m:bintheta", ok, MEAS_BINTHETA); mm("m:binrho", sx, MEAS_BINRHO); mm("m:binlog", ok, MEAS_BINLOGTHETA2); mm("m:bindelta", ok, MEAS_BINDELTA);
	mm("m:string", sx, MEAS_STRING); mm("m:stringmap", sx, MEAS_STRINGMAP); mm("m:stringcoo", sx, MEAS_STRINGCOO); mm("m:length", sx, MEAS_STRING, 0, SPMASK_FLAT, 0, STRMEAS_LENGTH | STRMEAS_GAMMA);
	mm("m:energy", ok, MEAS_ENERGY); mm("m:energy3d", ok, MEAS_ENERGY3DMAP); mm("m:redene", acub, MEAS_REDENE3DMAP); mm("m:3d", ok, MEAS_3DMAP);
	mm("m:slices", ok, MEAS_2DMAP, MAPT_XYMV | MAPT_YZMV); mm("m:emaps", ok, MEAS_2DMAP, MAPT_XYE | MAPT_XYPE | MAPT_XYPE2);
	mm("m:psp", cub, MEAS_PSP_A); mm("m:nspk", cub, MEAS_NSP_A, 0, SPMASK_FLAT, NRUN_K); mm("m:nspg", cub, MEAS_NSP_A, 0, SPMASK_FLAT, NRUN_G); mm("m:nspv", cub, MEAS_NSP_A, 0, SPMASK_FLAT, NRUN_V); mm("m:nsps", cub, MEAS_NSP_A, 0, SPMASK_FLAT, NRUN_S);
	mm("m:nspc", cub, MEAS_NSP_A, 0, SPMASK_FLAT, NRUN_CK | NRUN_CG | NRUN_CV | NRUN_CS); mm("m:nsp_s", scub, MEAS_NSP_S, 0, SPMASK_FLAT, NRUN_KGV); mm("m:nn", cub, MEAS_NNSPEC);
	mm("m:vil", scub, MEAS_NSP_A, 0, SPMASK_VIL, NRUN_KGV); mm("m:vil2", scub, MEAS_NSP_A, 0, SPMASK_VIL2, NRUN_KGV); mm("m:redo", scub, MEAS_NSP_A | MEAS_MASK, 0, SPMASK_REDO, NRUN_KGV, STRMEAS_ENERGY); mm("m:gaus", scub, MEAS_NSP_A, 0, SPMASK_GAUS, NRUN_KGV); mm("m:diff", scub, MEAS_NSP_A, 0, SPMASK_DIFF, NRUN_KGV); mm("m:ball", scub, MEAS_NSP_A, 0, SPMASK_BALL, NRUN_KGV);
	mm("m:multicon", acub, MEAS_MULTICON); mm("m:axit", acub, MEAS_NSP_A | MEAS_PSP_A, 0, SPMASK_AXIT | SPMASK_FLAT, NRUN_S);
}
static void create(int t)
{
	low = t >= 10000; if (low) t -= 10000; auto T = (FieldType) t;
	F = vh::field(C, N, Lz, prec, T, np, Ng, LAMBDA_FIXED, low); *F->zV() = 1.7; F->updateR(); saxBorn = T == FIELD_SAXION;
}
static bool usable(int t) { return t == FIELD_SAXION || t == FIELD_AXION || t == FIELD_AXION_MOD || t == FIELD_PAXION || t >= 10000 && (t - 10000 == FIELD_SAXION || t - 10000 == FIELD_AXION || t - 10000 == FIELD_AXION_MOD); }
int main(int argc, char **argv)
{
	std::string what = argv[1]; // seq depth | life prec N Lz Ng np depth part parts only types...
	if (what == "seq") { C = vh::start({"--size", "16", "--zgrid", "1", "--index", "0", "--qcd", "4", "--lsize", "6", "--llcf", "30"}); cfg = "sequences"; fence::on(true); fence::label("sequences"); sequences(atoi(argv[2])); vh::quit(); }
	prec = !strcmp(argv[2], "single") ? FIELD_SINGLE : FIELD_DOUBLE; N = atoi(argv[3]); Lz = atoi(argv[4]); Ng = atoi(argv[5]); np = atoi(argv[6]); int depth = atoi(argv[7]), part = atoi(argv[8]), parts = atoi(argv[9]); std::string only = argv[10];
	C = vh::start({"--size", argv[3], "--depth", argv[4], "--zgrid", argv[6], "--prec", argv[2], "--index", "0", "--lap", argv[5], "--qcd", "4", "--lsize", "6", "--llcf", "30", "--fftplan", "64"});
	C->SetMink(false); C->SetFrw(1.0); C->SetLambda(30.0); C->SetLamZ2Exp(0.0); C->SetIndi3(1.1); C->SetQcdExp(3.0); C->SetPhysSize(7.0); C->SetQcdPot(V_QCD1_PQ1);
	makeOps(); long count = 0; bool dbg = getenv("VH_DBG");
	for (int a = 11; a < argc; a++) {
		int t = atoi(argv[a]); size_t no = usable(t) ? ops.size() : 0; std::vector<std::vector<int>> all = {{}};
		for (size_t b = 0, d = 0; no && d < (size_t) depth; d++) { size_t e = all.size(); for (size_t i = b; i < e; i++) for (size_t k = 0; k < no; k++) { auto x = all[i]; x.push_back(k); all.push_back(x); } b = e; }
		if (only != "-") { all = {{}}; for (auto &w : vh::split(only, '+')) for (size_t k = 0; k < ops.size(); k++) if (w == ops[k].name) all[0].push_back(k); }
		for (size_t c = 0; c < all.size(); c++) {
			auto &s = all[c]; if (only == "-" && (long) c % parts != part) continue;
			cfg = vh::fmt("%s%s-%s", t >= 10000 ? "low-" : "", t % 10000 == FIELD_SX_RD ? "sxrd" : t % 10000 == FIELD_AX_RD ? "axrd" : t % 10000 == FIELD_FAXION ? "faxion" : vh::fname((FieldType) (t % 10000)), vh::pname(prec)); scen = cfg + vh::fmt(" %zux%zu halo %zu np%d:", N, Lz, Ng, np);
			long a0 = fence::tracked(0), u0 = fence::tracked(1); Tot t0 = totals(); bool valid = true; std::string nm = scen;
			for (int k : s) nm += std::string(" ") + ops[k].name; // applicability is decided while running
			fence::label((nm + " (creating)").c_str()); fence::on(true); create(t); if (no) fill();
			if (vh::rk() == 0 && count == 0 && t0.a < 0) vh::fail(key("log"), "%s: no totals are reported", nm.c_str());
			compare(nm + " (created)", t0.a + fence::tracked(0) - a0, t0.u + fence::tracked(1) - u0);
			size_t done = 0;
			for (int k : s) {
				if (!ops[k].can()) { valid = false; break; }
				if (dbg) { fprintf(stderr, "%s: %s\n", nm.c_str(), ops[k].name); }
				long a1 = fence::tracked(0), u1 = fence::tracked(1); fence::label((nm + " (in " + ops[k].name + ")").c_str()); ops[k].run(); done++;
				if (fence::tracked(0) != a1 || fence::tracked(1) != u1) vh::fail(cfg + ":leak:" + ops[k].name, "%s: %s changes the memory allocated by %ld and %ld bytes", nm.c_str(), ops[k].name, fence::tracked(0) - a1, fence::tracked(1) - u1);
				compare(nm + " (after " + ops[k].name + ")", t0.a + fence::tracked(0) - a0, t0.u + fence::tracked(1) - u0);
			}
			long ax = fence::tracked(0), ux = fence::tracked(1); (void) ax; (void) ux;
			fence::label((nm + " (deleting)").c_str()); bool whole = done == s.size(); delete F; fence::on(false);
			if (whole || done) {
				if (s.empty() && (fence::tracked(0) != a0 || fence::tracked(1) != u0)) vh::fail(cfg + ":leak", "%s: %ld and %ld bytes are left after the field is deleted", nm.c_str(), fence::tracked(0) - a0, fence::tracked(1) - u0);
				else if (fence::tracked(0) != a0 || fence::tracked(1) != u0) vh::fail(cfg + ":leak:" + ops[s[0]].name, "%s: %ld and %ld bytes are left after the field is deleted", nm.c_str(), fence::tracked(0) - a0, fence::tracked(1) - u0);
				compare(nm + " (deleted)", t0.a + fence::tracked(0) - a0, t0.u + fence::tracked(1) - u0);
			}
			fence::errors(report);
			if (valid) vh::eval(nm); count++;
		}
	}
	fence::check(); fence::errors(report);
	auto st = fence::stats(); vh::counter("fenced_blocks", st.blocks);
	vh::quit();
}
