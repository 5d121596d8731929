// P19: every command line (each in a process of its own) against a reference table of the options.
#include "vh.h"
#include "vh_mpi.h"
#include "comms/comms.h"
#include "utils/parse.h"
#include <sys/wait.h>
#include <sys/mman.h>
#include <dlfcn.h>
#include <fcntl.h>
void resetPropagator(Scalar *) {}
static bool child = false;
extern "C" void exit(int c) { if (child) _exit(c ? 1 : 0); typedef void (*X)(int); ((X) dlsym(RTLD_NEXT, "exit"))(c); __builtin_unreachable(); }

typedef std::vector<std::string> A;
struct St { std::map<std::string, double> n; std::map<std::string, std::string> s; std::set<std::string> u; bool err = false; double &operator[](const char *k) { return n[k]; } void orr(const char *k, long b) { n[k] = (long) n[k] | b; } };

// what the program has after reading its arguments
static void state(std::map<std::string, double> &n, std::map<std::string, std::string> &s)
{
#define N1(x) n[#x] = (double) (x)
	N1(sizeN); N1(sizeZ); N1(zGrid); N1(nSteps); N1(dump); N1(fIndex); N1(zInit); N1(zFinl); N1(mode0); N1(alpha); N1(kCrit); N1(pregammo); N1(ng0calib); N1(dwgammo); N1(kMax); N1(iter);
	N1(wTime); N1(Nng); N1(wDz); N1(slicepp); N1(wkb2z); N1(prepstL); N1(prepcoe); N1(endredmap); N1(endredmapwkb); N1(safest0); N1(uwDz); N1(lowmem); N1(lowmemGPU); N1(uPrec); N1(uZin); N1(uZfn); N1(aMod);
	N1(spectral); N1(fpectral); N1(mink); N1(icstudy); N1(preprop); N1(coSwitch2theta); N1(sPrec); N1(cDev); N1(fTypeP); N1(fftplanType); N1(pType); N1(spmask); N1(rmask);
	N1(defaultmeasType); N1(rho2thetameasType); N1(maty); N1(nrt); N1(strmeas); N1(gadType); N1(logMpi); N1(debug); N1(verb); N1(p2dmapo); N1(p2dEmapo); N1(p2dPmapo); N1(p3dstrings); N1(p3dwalls); N1(pconfinal); N1(pconfinalwkb); N1(restart_flag);
	s["outName"] = outName; s["gadName"] = gadName; s["outDir"] = outDir; s["wisDir"] = wisDir; std::string r; for (double d : rmask_tab) r += vh::fmt("%.17g ", d); s["rmask_tab"] = r; N1(i_rmask);
	MeasInfo &d = deninfa; N1(d.sliceprint); N1(d.idxprint); N1(d.measdata); N1(d.mask); N1(d.rmask); N1(d.nrt); N1(d.nbinsspec); N1(d.maty); N1(d.i_rmask); N1(d.redmap); N1(d.strmeas); N1(d.measCPU); N1(d.cummask); N1(d.printconf); N1(d.maskenergyonly);
	r = ""; for (double x : d.rmask_tab) r += vh::fmt("%.17g ", x); s["d.rmask_tab"] = r;
	Cosmos c = createCosmos(); n["c.lambda"] = c.Lambda(); n["c.lz2e"] = c.LamZ2Exp(); n["c.qcd"] = c.QcdExp(); n["c.gamma"] = c.Gamma(); n["c.dectime"] = c.DecTime(); n["c.pot"] = c.QcdPot(); n["c.size"] = c.PhysSize(); n["c.zth"] = c.ZThRes(); n["c.zrs"] = c.ZRestore(); n["c.indi3"] = c.Indi3(); n["c.frw"] = c.Frw(); n["c.mink"] = c.Mink(); n["c.uec"] = c.UeC();
	IcData i = c.ICData(); N1(i.fType); N1(i.Nghost); N1(i.icdrule); N1(i.preprop); N1(i.icstudy); N1(i.prepstL); N1(i.prepcoe); N1(i.pregammo); N1(i.prelZ2e); N1(i.prevtype); N1(i.normcore); N1(i.alpha); N1(i.siter); N1(i.kMax); N1(i.kcr); N1(i.mode0); N1(i.beta); N1(i.zi); N1(i.logi); N1(i.kickalpha); N1(i.extrav);
	N1(i.cType); N1(i.smvarType); N1(i.mocoty); N1(i.fieldindex); N1(i.grav); N1(i.L1_pc); N1(i.grav_hyb); N1(i.grav_sat); N1(i.part_vel); N1(i.sm_vel); N1(i.part_disp); N1(i.randommom);
	AxitonInfo &a = i.axtinfo; N1(a.nMax); N1(a.th_threshold); N1(a.ve_threshold); N1(a.con_threshold); N1(a.ct_threshold); N1(a.printradius); N1(a.gradients);
}
struct Out { int rc; std::map<std::string, double> n; std::map<std::string, std::string> s; };
static Out runReal(const A &a)
{
	int p[2]; if (pipe(p)) _exit(9); fcntl(p[1], F_SETPIPE_SZ, 65536); pid_t c = fork();
	if (!c) {
		child = true; close(p[0]); fclose(vh::out()); alarm(20); freopen("/dev/null", "w", stdout); freopen("/dev/null", "w", stderr);
		char *raw = (char *) mmap(nullptr, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); (void) raw;
		char **v = (char **) calloc(a.size() + 2, sizeof(char *)); v[0] = strdup("prog"); for (size_t i = 0; i < a.size(); i++) v[i + 1] = strdup(a[i].c_str());
		parseDims(a.size() + 1, v); parseArgs(a.size() + 1, v);
		std::map<std::string, double> n; std::map<std::string, std::string> s; state(n, s); std::string o; for (auto &x : n) o += vh::fmt("N%s=%.17g\n", x.first.c_str(), x.second); for (auto &x : s) o += "S" + x.first + "=" + x.second + "\n"; o += "E\n";
		for (size_t k = 0; k < o.size();) { ssize_t w = write(p[1], o.data() + k, o.size() - k); if (w <= 0) break; k += w; } _exit(0);
	}
	close(p[1]); std::string o; char b[65536]; ssize_t r; while ((r = read(p[0], b, sizeof b)) > 0) o.append(b, r); close(p[0]); int st; waitpid(c, &st, 0);
	Out out; out.rc = WIFSIGNALED(st) ? 1000 + WTERMSIG(st) : WEXITSTATUS(st); size_t i = 0, j; bool end = false;
	while ((j = o.find('\n', i)) != std::string::npos) { std::string l = o.substr(i, j - i); i = j + 1; if (l == "E") end = true; else { size_t e = l.find('='); if (l[0] == 'N') out.n[l.substr(1, e - 1)] = atof(l.c_str() + e + 1); else out.s[l.substr(1, e - 1)] = l.substr(e + 1); } }
	if (out.rc == 0 && !end) out.rc = 999; return out;
}
// ---- reference: one entry per option
typedef std::function<void(St &, const std::string &)> F;
enum Need { FLAG, VALUE, OPTIONAL };
struct Opt { std::string name; Need need; A good, bad; F f; F none; };
static std::vector<Opt> T; static St base;
static double D(const std::string &v) { return atof(v.c_str()); }
static void flag(const char *n, std::function<void(St &)> f) { T.push_back({n, FLAG, {}, {}, [f](St &s, const std::string &) { f(s); }, nullptr}); }
static void val(const char *n, A good, A bad, F f) { T.push_back({n, VALUE, good, bad, f, nullptr}); }
static void num(const char *n, A good, A bad, std::vector<const char *> keys) { val(n, good, bad, [keys](St &s, const std::string &v) { for (auto k : keys) s[k] = D(v); }); }
static void table()
{
	num("--zgrid", {"1", "2", "4"}, {"0", "-1"}, {"zGrid"});
	val("--device", {"cpu", "gpu"}, {"xeon", "tpu"}, [](St &s, const std::string &v) { s["cDev"] = v == "cpu" ? DEV_CPU : DEV_GPU; });
	flag("--nologmpi", [](St &s) { s["logMpi"] = ZERO_RANK; });
	val("--verbose", {"0", "1", "2", "3", "4"}, {}, [](St &s, const std::string &v) { s["verb"] = std::min(3., D(v)); });
	val("--ftype", {"saxion", "axion", "Paxion"}, {"photon", ""}, [](St &s, const std::string &v) { s["fTypeP"] = s["i.fType"] = v == "saxion" ? FIELD_SAXION : v == "axion" ? FIELD_AXION : FIELD_PAXION; });
	flag("--mink", [](St &s) { s["mink"] = 1; s.u.insert("mink"); s["frw"] = 0; });
	flag("--debug", [](St &s) { s["debug"] = 1; });
	val("--frw", {"2", "0.5", "1"}, {}, [](St &s, const std::string &v) { s["frw"] = D(v); s.u.insert("frw"); });
	T.push_back({"--p3D", OPTIONAL, {"0", "1", "2", "3", "4", "32"}, {}, [](St &s, const std::string &v) { s["d.printconf"] = D(v); }, [](St &s, const std::string &) { s["d.printconf"] = 0; }});
	auto map2 = [](St &s, const char *k, long m) { s[k] = 1; s.orr("defaultmeasType", MEAS_2DMAP); s.orr("maty", m); };
	flag("--p2Dmap", [=](St &s) { map2(s, "p2dmapo", MAPT_XYMV); }); flag("--p2DmapYZ", [=](St &s) { map2(s, "p2dmapo", MAPT_YZMV); }); flag("--p2DmapE", [=](St &s) { map2(s, "p2dEmapo", MAPT_XYE); });
	flag("--p2DmapPE", [=](St &s) { map2(s, "p2dPmapo", MAPT_XYPE); }); flag("--p2DmapPE2", [=](St &s) { map2(s, "p2dPmapo", MAPT_XYPE2); });
	val("--p2Dslice", {"0", "5"}, {}, [=](St &s, const std::string &v) { map2(s, "p2dmapo", MAPT_XYMV); s["slicepp"] = D(v); });
	val("--p2DsliceYZ", {"0", "7"}, {}, [=](St &s, const std::string &v) { map2(s, "p2dmapo", MAPT_YZMV); s["slicepp"] = D(v); });
	num("--sliceprint", {"0", "3"}, {}, {"slicepp"});
	flag("--measaux", [](St &s) { s.orr("defaultmeasType", MEAS_AUX); });
	flag("--p3Dstr", [](St &s) { s["p3dstrings"] = 1; }); flag("--p3Dwal", [](St &s) { s["p3dwalls"] = 1; });
	for (auto n : {"--pcon", "--p3Def"}) T.push_back({n, OPTIONAL, {"64", "32"}, {}, [](St &s, const std::string &v) { s["endredmap"] = D(v); }, [](St &s, const std::string &) { s["pconfinal"] = 1; }});
	for (auto n : {"--pconwkb", "--p3Dewkb"}) T.push_back({n, OPTIONAL, {"64", "16"}, {}, [](St &s, const std::string &v) { s["endredmapwkb"] = D(v); }, [](St &s, const std::string &) { s["pconfinalwkb"] = 1; }});
	num("--idxprint", {"0", "12"}, {}, {"d.idxprint"});
	val("--wTime", {"0", "2", "0.5"}, {"-1"}, [](St &s, const std::string &v) { s["wTime"] = floor(D(v) * 3600000000.); });
	struct { const char *n; int q; } q[] = {{"--vqcdC", V_QCDC}, {"--vqcdV", V_QCDV}, {"--vqcdL", V_QCDL}, {"--N2", V_QCD2}};
	for (auto &x : q) { int k = x.q; flag(x.n, [k](St &s) { s["q"] = k; s.u.insert("pot"); }); }
	flag("--vqcd0", [](St &s) { s["q"] = V_QCD0; s["indi3"] = 0; s.u.insert("pot"); s.u.insert("i3"); });
	struct { const char *n; int q; } pq[] = {{"--vPQ1", V_PQ1}, {"--vPQ2", V_PQ2}, {"--vPQ3", V_PQ3}}; for (auto &x : pq) { int k = x.q; flag(x.n, [k](St &s) { s["pq"] = k; s.u.insert("pot"); }); }
	flag("--onlyrho", [](St &s) { s["evol"] = V_EVOL_RHO; s.u.insert("pot"); }); flag("--onlytheta", [](St &s) { s["evol"] = V_EVOL_THETA; s.u.insert("pot"); });
	flag("--lowmem", [](St &s) { s["lowmem"] = 1; }); flag("--lowmemGPU", [](St &s) { s["lowmemGPU"] = 1; }); flag("--notheta", [](St &s) { s["coSwitch2theta"] = 0; });
	num("--size", {"2", "64", "128", "4096"}, {"1", "0"}, {"sizeN"}); num("--depth", {"1", "32", "128"}, {}, {"sizeZ"});
	num("--kcr", {"0", "0.3", "2"}, {"-0.1"}, {"kCrit", "i.kcr"}); flag("--norandommom", [](St &s) { s["i.randommom"] = 0; });
	num("--alpha", {"0", "0.5", "1"}, {"-0.1", "1.5"}, {"alpha", "i.alpha"}); flag("--nncore", [](St &s) { s["i.normcore"] = 0; });
	val("--wkb", {"5", "1", "50"}, {"-2", "0.5"}, [](St &s, const std::string &v) { s["wkb2z"] = D(v); s.u.insert("wkb"); });
	T.push_back({"--redmp", OPTIONAL, {"64", "16"}, {}, [](St &s, const std::string &v) { s["endredmap"] = D(v); }, [](St &s, const std::string &) { s["endredmap"] = 256; }});
	T.push_back({"--redmpwkb", OPTIONAL, {"64", "16"}, {}, [](St &s, const std::string &v) { s["endredmapwkb"] = D(v); }, [](St &s, const std::string &) { s["endredmapwkb"] = 256; }});
	num("--pregam", {"0", "0.4"}, {"-1"}, {"pregammo", "i.pregammo"}); num("--prelz2e", {"0", "2"}, {}, {"i.prelZ2e"}); num("--prevqcdtype", {"1026", "9218"}, {}, {"i.prevtype"});
	num("--dwgam", {"0", "0.7"}, {"-0.5"}, {"dwgammo"});
	val("--gam", {"0", "0.4"}, {"-1"}, [](St &s, const std::string &v) { s["gamma"] = D(v); s["damp"] = V_DAMP_RHO; s.u.insert("pot"); s.u.insert("gam"); });
	val("--dectime", {"0", "2.5"}, {"-1"}, [](St &s, const std::string &v) { s["dectime"] = D(v); s["damp"] = V_DAMP_RHO; s.u.insert("pot"); s.u.insert("dec"); });
	val("--gamall", {"0", "0.4"}, {"-1"}, [](St &s, const std::string &v) { s["gamma"] = D(v); s["damp"] = V_DAMP_ALL; s.u.insert("pot"); s.u.insert("gam"); });
	num("--beta", {"0", "-2", "1.5"}, {}, {"i.beta"}); num("--gravity", {"0", "0.01"}, {}, {"i.grav"}); num("--L1_pc", {"0.05", "1"}, {}, {"i.L1_pc"});
	struct { const char *n, *k; } b[] = {{"--hybrid_gravity", "i.grav_hyb"}, {"--sat_gravity", "i.grav_sat"}, {"--part_vel", "i.part_vel"}, {"--sm_vel", "i.sm_vel"}, {"--part_disp", "i.part_disp"}, {"--measCPU", "d.measCPU"}, {"--maskenergyonly", "d.maskenergyonly"}, {"--cax", "aMod"}, {"--restart", "restart_flag"}};
	for (auto &x : b) { const char *k = x.k; flag(x.n, [k](St &s) { s[k] = 1; }); }
	val("--zi", {"0.1", "0.9"}, {"-1"}, [](St &s, const std::string &v) { s["i.zi"] = D(v); s["uZin"] = 1; });
	val("--logi", {"3", "0"}, {}, [](St &s, const std::string &v) { s["i.logi"] = D(v); s.u.insert("logi"); });
	num("--kickalpha", {"0.5", "-1"}, {}, {"i.kickalpha"}); num("--extrav", {"0.5", "0"}, {}, {"i.extrav"});
	val("--zf", {"0.8", "4"}, {"-1"}, [](St &s, const std::string &v) { s["zFinl"] = D(v); s["uZfn"] = 1; });
	val("--lsize", {"0.5", "12"}, {"0", "-3"}, [](St &s, const std::string &v) { s["lsize"] = D(v); s.u.insert("size"); });
	val("--llcf", {"1", "12000"}, {"0", "-3"}, [](St &s, const std::string &v) { s["LL"] = D(v); s.u.insert("ll"); });
	val("--Rc", {"0.5", "3"}, {"0", "-2"}, [](St &s, const std::string &v) { s["zth"] = D(v); s.u.insert("zth"); });
	val("--RcOff", {"5000", "2"}, {"0", "-2"}, [](St &s, const std::string &v) { s["zrs"] = D(v); s.u.insert("zrs"); });
	val("--msa", {"1", "0.4"}, {"0", "-1"}, [](St &s, const std::string &v) { s["msa"] = D(v); s.u.insert("msa"); });
	val("--lz2e", {"0", "1", "2.5"}, {}, [](St &s, const std::string &v) { s["lz2e"] = D(v); s.u.insert("lz2e"); });
	val("--ind3", {"0", "1", "0.3"}, {"-1"}, [](St &s, const std::string &v) { s["indi3"] = D(v); s.u.insert("i3"); if (D(v) == 0) s["q"] = V_QCD0; });
	val("--wDz", {"0.5", "1.5"}, {"0", "-1"}, [](St &s, const std::string &v) { s["wDz"] = D(v); s["uwDz"] = 1; });
	num("--mode0", {"0", "1.2"}, {}, {"mode0", "i.mode0"});
	val("--qcd", {"0", "3.3", "qcd"}, {"-1"}, [](St &s, const std::string &v) { if (v == "qcd") { s["uec"] = 1; s.u.insert("uec"); } else s["nqcd"] = D(v); s.u.insert("nqcd"); });
	val("--fA", {"1e11", "0"}, {"-1"}, [](St &s, const std::string &v) { s["fA"] = D(v); s.u.insert("fA"); });
	num("--steps", {"0", "500"}, {"-1"}, {"nSteps"}); num("--sst0", {"10", "-1"}, {}, {"safest0"}); num("--dump", {"0", "10"}, {"-1"}, {"dump"});
	val("--meas", {"0", "32", "16384", "573440"}, {"-1"}, [](St &s, const std::string &v) { s.orr("defaultmeasType", atol(v.c_str())); });
	val("--meas2theta", {"0", "32", "2048"}, {"-1"}, [](St &s, const std::string &v) { s.orr("rho2thetameasType", atol(v.c_str())); });
	num("--spmask", {"1", "9", "512"}, {"-1"}, {"spmask"}); num("--spKGV", {"1", "7"}, {"-1"}, {"nrt"}); flag("--printmask", [](St &s) { s.orr("defaultmeasType", MEAS_MASK); });
	num("--fftplan", {"64", "0", "32", "8"}, {}, {"fftplanType"});
	val("--rmask", {"3", "0.5"}, {}, [](St &s, const std::string &v) { s["rmask"] = D(v); s.s["tab"] += v + " "; });
	num("--nbinsspec", {"10", "200"}, {}, {"d.nbinsspec"}); num("--strmeas", {"0", "1", "7"}, {"-1"}, {"strmeas"});
	val("--name", {"x", std::string(96, 'n'), "run 1"}, {std::string(97, 'n'), std::string(400, 'n')}, [](St &s, const std::string &v) { s.s["outName"] = v; });
	val("--gname", {"y", std::string(96, 'g')}, {std::string(97, 'g'), std::string(300, 'g')}, [](St &s, const std::string &v) { s.s["gadName"] = v; });
	T.push_back({"--axitontracker", OPTIONAL, {"50", "1000"}, {}, [](St &s, const std::string &v) { s["a.nMax"] = D(v); }, [](St &s, const std::string &) { s["a.nMax"] = -2; }});
	num("--axitontracker.th_threshold", {"1.5", "0"}, {}, {"a.th_threshold"}); num("--axitontracker.vh_threshold", {"1.5", "0"}, {}, {"a.ve_threshold"}); num("--axitontracker.con_threshold", {"30", "0"}, {}, {"a.con_threshold"}); num("--axitontracker.ct_threshold", {"1.5", "0"}, {}, {"a.ct_threshold"});
	num("--axitontracker.printradius", {"3", "0"}, {}, {"a.printradius"}); flag("--axitontracker.gradients", [](St &s) { s["a.gradients"] = 1; });
	num("--kmax", {"0", "5"}, {"-1"}, {"kMax", "i.kMax"}); num("--sIter", {"0", "7"}, {"-1"}, {"iter", "i.siter"}); num("--index", {"0", "12"}, {"-1"}, {"fIndex"});
	struct W { const char *n; int k; }; static const W ct[] = {{"smooth", CONF_SMOOTH}, {"kmax", CONF_KMAX}, {"vilgor", CONF_VILGOR}, {"vilgork", CONF_VILGORK}, {"vilgors", CONF_VILGORS}, {"tkachev", CONF_TKACHEV}, {"thermal", CONF_THERMAL}, {"lola", CONF_LOLA}, {"cole", CONF_COLE}, {"spax", CONF_SPAX}, {"string", CONF_STRING}};
	A cn; for (auto &w : ct) cn.push_back(w.n); val("--ctype", cn, {"other", "Kmax", "kmaxx", ""}, [](St &s, const std::string &v) { for (auto &w : ct) if (v == w.n) s["i.cType"] = w.k; });
	static const W sv[] = {{"stXY", CONF_STRINGXY}, {"stYZ", CONF_STRINGYZ}, {"mc0", CONF_MINICLUSTER0}, {"mc", CONF_MINICLUSTER}, {"axnoise", CONF_AXNOISE}, {"saxnoise", CONF_SAXNOISE}, {"ax1mode", CONF_AX1MODE}, {"parres", CONF_PARRES}, {"stringwave", CONF_STRWAVE}, {"axiton", CONF_AXITON}};
	A sn; for (auto &w : sv) sn.push_back(w.n); val("--smvar", sn, {"other", "stxy"}, [](St &s, const std::string &v) { for (auto &w : sv) if (v == w.n) s["i.smvarType"] = w.k; });
	val("--gadtype", {"halo", "void"}, {"other"}, [](St &s, const std::string &v) { s["gadType"] = v == "halo" ? HALO : VOID; });
	val("--prec", {"double", "single"}, {"half", "Double"}, [](St &s, const std::string &v) { s["uPrec"] = 1; s["sPrec"] = v == "double" ? FIELD_DOUBLE : FIELD_SINGLE; });
	static const W pr[] = {{"leap", PROP_LEAP}, {"mleap", PROP_MLEAP}, {"rkn4", PROP_RKN4}, {"om2", PROP_OMELYAN2}, {"om4", PROP_OMELYAN4}};
	A pn; for (auto &w : pr) pn.push_back(w.n); val("--prop", pn, {"euler", ""}, [](St &s, const std::string &v) { for (auto &w : pr) if (v == w.n) s["integ"] = w.k; });
	flag("--spec", [](St &s) { s["spectral"] = 1; }); flag("--fspec", [](St &s) { s["fpectral"] = 1; });
	flag("--preprop", [](St &s) { s["preprop"] = s["i.preprop"] = 1; }); flag("--icstudy", [](St &s) { s["icstudy"] = s["i.icstudy"] = 1; });
	num("--prepstL", {"2", "0.5"}, {"0", "-1"}, {"prepstL", "i.prepstL"}); num("--prepcoe", {"2", "1.5"}, {"1", "0.5"}, {"prepcoe", "i.prepcoe"}); num("--ng0calib", {"1", "-1"}, {}, {"ng0calib"}); num("--cummask", {"3", "1"}, {}, {"d.cummask"});
	val("--lap", {"1", "2", "3", "4"}, {"-1", "7"}, [](St &s, const std::string &v) { s["Nng"] = s["i.Nghost"] = D(v); s["lap"] = 1; });
}
static void finish(St &s)
{
	// derived settings
	if (s.u.count("wkb") && s["wkb2z"] < s["zFinl"]) s.err = true;
	if (s["Nng"] > 0 && (s["spectral"] || s["fpectral"])) s.err = true;
	if (s.err) return;
	s["pType"] = (s["integ"] ? (long) s["integ"] : PROP_RKN4) | (s["spectral"] ? PROP_SPEC : 0) | (s["fpectral"] ? PROP_FSPEC : 0) | (s["lap"] || !(s["spectral"] || s["fpectral"]) ? PROP_BASE : 0);
	double N = s["sizeN"], L = s["lsize"], msa = s["msa"], frw = s["frw"], e = s.u.count("lz2e") ? s["lz2e"] : s.u.count("msa") ? 2 : 0;
	if (s.u.count("msa")) {
		// the spacing-to-core ratio: sqrt(2 LL R^-e) R L/N = msa, at the end for e <= 2, at the start otherwise
		auto LLof = [&](double z) { return msa * msa * N * N / (2 * L * L) * pow(z, frw * (e - 2)); };
		if (s.u.count("logi")) { if (e <= 2) { s["LL"] = LLof(s["zFinl"]); s["i.zi"] = pow(exp(2 * s["i.logi"]) / (2 * s["LL"]), 1 / (2 + frw * (2 - e))); } else { s["i.zi"] = exp(s["i.logi"]) * L / N / msa; s["LL"] = LLof(s["i.zi"]); } }
		else { s["LL"] = LLof(e <= 2 ? s["zFinl"] : s["i.zi"]); s["i.logi"] = .5 * log(2 * s["LL"] * pow(s["i.zi"], 2 + 2 * frw - frw * e)); }
	} else if (s.u.count("logi")) s["i.zi"] = pow(exp(2 * s["i.logi"]) / (2 * s["LL"]), 1 / (2 + frw * (2 - e)));
	s["zInit"] = s["i.zi"];
	if (s["zrs"] < s["zth"]) s["zrs"] = s["zth"] = 1e20;
	if (s["endredmap"] > N) s["endredmap"] = N; if (s["endredmapwkb"] > N) s["endredmapwkb"] = N;
	if (s["zGrid"] == 1) s["logMpi"] = ZERO_RANK;
	s["d.sliceprint"] = s["slicepp"]; s["d.redmap"] = s["endredmap"]; s["d.measdata"] = s["defaultmeasType"]; s["d.strmeas"] = s["strmeas"]; s["d.mask"] = s["spmask"]; s["d.rmask"] = s["rmask"]; s["d.maty"] = s["maty"]; s["d.nrt"] = s["nrt"];
	std::set<double> t; const char *p = s.s["tab"].c_str(); char *q; for (;;) { double d = strtod(p, &q); if (q == p) break; t.insert(d); p = q; } std::string r; for (double d : t) r += vh::fmt("%.17g ", d); s.s["rmask_tab"] = s.s["d.rmask_tab"] = r; s["d.i_rmask"] = t.size();
	bool all = s["fIndex"] < 0; auto put = [&](const char *k, double v, bool given) { if (all || given) s[k] = v; else s[k] = base[k]; };
	static Cosmos C0; base["c.lambda"] = C0.Lambda(); base["c.lz2e"] = C0.LamZ2Exp(); base["c.qcd"] = C0.QcdExp(); base["c.gamma"] = C0.Gamma(); base["c.dectime"] = C0.DecTime(); base["c.pot"] = C0.QcdPot(); base["c.size"] = C0.PhysSize(); base["c.zth"] = C0.ZThRes(); base["c.zrs"] = C0.ZRestore(); base["c.indi3"] = C0.Indi3(); base["c.frw"] = C0.Frw(); base["c.mink"] = C0.Mink(); base["c.uec"] = C0.UeC();
	bool lam = s.u.count("msa") || s.u.count("ll"); put("c.lambda", s["LL"], lam); put("c.lz2e", s.u.count("msa") ? e : 0, lam); put("c.qcd", s["nqcd"], s.u.count("nqcd")); put("c.gamma", s["gamma"], s.u.count("gam")); put("c.dectime", s["dectime"], s.u.count("dec"));
	put("c.pot", (long) s["q"] | (long) s["pq"] | (long) s["damp"] | (long) s["evol"], s.u.count("pot")); put("c.size", L, s.u.count("size")); put("c.zth", s["zth"], s.u.count("zth")); put("c.zrs", s["zrs"], s.u.count("zrs")); put("c.indi3", s["indi3"], s.u.count("i3"));
	put("c.frw", frw, s.u.count("frw")); put("c.mink", s["mink"], s.u.count("mink")); if (s["c.mink"] && (all || s.u.count("mink"))) s["c.frw"] = 0; put("c.uec", s["uec"], s.u.count("uec"));
}
static const Opt *find(const std::string &n) { for (auto &o : T) if (o.name == n) return &o; return nullptr; }
static bool isopt(const std::string &v) { return v.size() && v[0] == '-' && v.size() > 1 && v[1] == '-'; }
static St model(const A &a)
{
	St s = base; for (size_t i = 0; i < a.size() && !s.err; i++) {
		const Opt *o = find(a[i]); if (!o) { s.err = true; break; }
		if (o->need == FLAG) { o->f(s, ""); continue; }
		if (i + 1 >= a.size() || (o->need == OPTIONAL && isopt(a[i + 1]))) { if (o->need == OPTIONAL) o->none(s, ""); else s.err = true; continue; }
		const std::string &v = a[++i]; if (std::find(o->bad.begin(), o->bad.end(), v) != o->bad.end() && !(o->name == "--wkb" && D(v) >= 0)) { s.err = true; break; }
		o->f(s, v);
	}
	finish(s); return s;
}
static std::string join(const A &a) { std::string r; for (auto &x : a) r += (r.empty() ? "" : " ") + (x.size() > 40 ? x.substr(0, 8) + vh::fmt("...(%zu)", x.size()) : x); return r; }
static void one(const A &a, const std::string &key)
{
	St e = model(a); Out o = runReal(a); std::string nm = join(a); vh::eval(nm);
	if (e.err) { if (o.rc != 1) vh::fail(key + ":accepted", "'%s': should end with an error, result %d", nm.c_str(), o.rc); return; }
	if (o.rc != 0) { vh::fail(key + ":refused", "'%s': ended with %d", nm.c_str(), o.rc); return; }
	for (auto &x : o.n) { if (x.first == "i_rmask") continue; double w = e.n[x.first]; if (!(fabs(x.second - w) <= 1e-9 * fabs(w))) { vh::fail(key + ":" + x.first, "'%s': %s is %.12g, should be %.12g", nm.c_str(), x.first.c_str(), x.second, w); return; } }
	for (auto &x : o.s) if (x.second != e.s[x.first]) { vh::fail(key + ":" + x.first, "'%s': %s is '%s', should be '%s'", nm.c_str(), x.first.c_str(), x.second.c_str(), e.s[x.first].c_str()); return; }
}
int main(int argc, char **argv)
{
	// single|pairs|triples part parts
	std::string what = argv[1]; int part = atoi(argv[2]), parts = atoi(argv[3]);
	if (initComms(1, argv, 1, DEV_CPU, ZERO_RANK, VERB_SILENT) < 0) return 1; vh::open(0);
	setenv("AXIONS_OUTPUT", ".", 1); unsetenv("AXIONS_WISDOM"); table();
	// documented defaults
	Out d = runReal({}); if (d.rc) { vh::fail("defaults", "the program refuses an empty command line (%d)", d.rc); vh::quit(); }
	base.n = d.n; base.s = d.s;
	struct { const char *k; double v; } def[] = {{"sizeN", 128}, {"sizeZ", 128}, {"zGrid", 1}, {"dump", 100}, {"zFinl", 1}, {"zInit", .5}, {"i.zi", .5}, {"c.size", 4}, {"c.qcd", 7}, {"c.frw", 1}, {"c.indi3", 1}, {"c.gamma", 0}, {"c.mink", 0}, {"i.kMax", 2}, {"i.kcr", 1}, {"i.siter", 40}, {"i.alpha", .143}, {"i.beta", 1}, {"i.L1_pc", .036}, {"i.normcore", 1}, {"sPrec", FIELD_SINGLE}, {"cDev", DEV_CPU}, {"fTypeP", FIELD_SAXION}, {"pType", PROP_RKN4 | PROP_BASE}, {"lowmem", 0}, {"spectral", 0}, {"aMod", 0}, {"coSwitch2theta", 1}, {"fftplanType", 0}, {"verb", VERB_NORMAL}, {"fIndex", -1}, {"restart_flag", 0}, {"d.printconf", 0}, {"ng0calib", 1.25}, {"rmask", 2}, {"strmeas", 0}, {"d.cummask", -1}, {"a.nMax", -1}, {"wkb2z", -1}, {"p2dmapo", 0}, {"c.pot", V_QCD1_PQ1}, {"i.grav_hyb", 0}, {"i.grav_sat", 0}, {"i.part_vel", 0}};
	for (auto &x : def) if (fabs(base.n[x.k] - x.v) > 1e-12) vh::fail("defaults", "%s is %g by default, documented %g", x.k, base.n[x.k], x.v);
	// model's own fundamental settings
	base["q"] = V_QCD1; base["pq"] = V_PQ1; base["damp"] = base["evol"] = 0; base["frw"] = base.n["c.frw"]; base["lsize"] = base.n["c.size"]; base["LL"] = base.n["c.lambda"]; base["zth"] = base.n["c.zth"]; base["zrs"] = base.n["c.zrs"]; base["indi3"] = 1; base["nqcd"] = 7; base["gamma"] = 0; base["dectime"] = base.n["c.dectime"]; base["msa"] = 1.5; base["uec"] = 0; base["integ"] = 0; base["lap"] = 0; base["lz2e"] = 0; base.s["tab"] = ""; base["logMpi"] = ALL_RANKS; // (one rank: switched to rank 0 only)
	std::vector<A> units; std::vector<std::string> un; std::vector<A> bads;
	for (auto &o : T) { if (o.need != VALUE) units.push_back({o.name}), un.push_back(o.name); for (auto &v : o.good) units.push_back({o.name, v}), un.push_back(o.name); for (auto &v : o.bad) bads.push_back({o.name, v}); if (o.need == VALUE) bads.push_back({o.name}); }
	long c = 0; auto mine = [&]() { return c++ % parts == part; };
	if (what == "single") {
		one({}, "single"); for (auto &u : units) if (mine()) one(u, "single"); for (auto &b : bads) if (mine()) one(b, "error");
		// unknown options alone, before and after every option
		for (auto &x : A{"--nosuch", "size", "-size", "--siz", "--sizee", "--Size", "x", "--", "-"}) { one({x}, "unknown"); for (auto &u : units) { bool opt = find(u[0])->need == OPTIONAL && u.size() == 1; if (mine()) { A a = {x}; a.insert(a.end(), u.begin(), u.end()); one(a, "unknown"); } if (!opt && mine()) { A a = u; a.push_back(x); one(a, "unknown"); } } }
		// a bad one before and after a good one
		for (auto &b : bads) for (auto &u : units) { if (u.size() == 1 && find(u[0])->need == OPTIONAL) continue; if (b[0] == "--wkb" || u[0] == b[0]) continue; if (b.size() == 2 && mine()) { A a = b; a.insert(a.end(), u.begin(), u.end()); one(a, "error"); } if (mine()) { A a = u; a.insert(a.end(), b.begin(), b.end()); one(a, "error"); } }
	} else for (size_t i = 0; i < units.size(); i++) for (size_t j = 0; j < units.size(); j++) { if (un[i] == un[j] || !mine()) continue; A a = units[i]; a.insert(a.end(), units[j].begin(), units[j].end()); one(a, what == "pairs" ? "pair" : "triple");
		if (what == "triples") { a.insert(a.begin(), {"--index", "3"}); one(a, "triple"); a[0] = "--msa"; a[1] = "0.7"; one(a, "triple"); a[0] = "--mink"; a.erase(a.begin() + 1); one(a, "triple"); } }
	vh::quit();
}
