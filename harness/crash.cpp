// P15: crash points of writing a configuration. Every write the process makes to the file is recorded at the system
// call boundary; the file is rebuilt as it is after every prefix of these writes (the last one torn in several places)
// and cut at lengths around every write boundary; the real reader must either report an error or return exactly the stored configuration.
#include "gfield.h"
#include "utils/parse.h"
#include "io/readWrite.h"
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/uio.h>
#include <unistd.h>
#include <string>
#include <vector>
#include <set>
#include <map>
Cosmos createCosmos();
extern bool uQcd, uLambda, uMsa, uI3, uPot, uGamma, uZth, uZrs, uSize, uFR, uMI;
struct W { off_t at; std::string data; off_t trunc; double t; int kind; std::string name, to; }; // kind: 0 write or truncate, 1 rename, 2 unlink
static double now() { struct timespec s; clock_gettime(CLOCK_MONOTONIC, &s); return s.tv_sec + 1e-9 * s.tv_nsec; }
static std::string base; static std::vector<W> ws; static bool rec; static std::string cfg;
static std::string dirn;
static std::string mine(int fd) { if (!rec) return ""; char b[64], p[4096]; snprintf(b, 64, "/proc/self/fd/%d", fd); ssize_t n = readlink(b, p, 4095); if (n < 0) return ""; p[n] = 0; const char *e = strrchr(p, '/'); if (!e || std::string(p, e - p) != dirn || strstr(e, ".log.") || strstr(e, ".locktest")) return ""; return e + 1; }
static std::string inDir(const char *p) { if (!rec) return ""; char *r = realpath(std::string(p).substr(0, std::string(p).rfind('/')).c_str(), nullptr); std::string d = r ? r : ""; free(r); return d == dirn ? strrchr(p, '/') + 1 : ""; }
template <class F> static F real(const char *n) { return (F) dlsym(RTLD_NEXT, n); }
extern "C" {
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { static auto f = real<ssize_t(*)(int, const void *, size_t, off64_t)>("pwrite64"); ssize_t r = f(fd, b, n, o); std::string m = r > 0 ? mine(fd) : ""; if (!m.empty()) ws.push_back({o, std::string((const char *) b, r), -1, now(), 0, m, ""}); return r; }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { static auto f = real<ssize_t(*)(int, const void *, size_t, off_t)>("pwrite"); ssize_t r = f(fd, b, n, o); std::string m = r > 0 ? mine(fd) : ""; if (!m.empty()) ws.push_back({o, std::string((const char *) b, r), -1, now(), 0, m, ""}); return r; }
static void vec(const struct iovec *v, int c, ssize_t r, off_t o, const std::string &m) { std::string s; for (int i = 0; i < c; i++) s.append((const char *) v[i].iov_base, v[i].iov_len); s.resize(r); ws.push_back({o, s, -1, now(), 0, m, ""}); }
ssize_t pwritev(int fd, const struct iovec *v, int c, off_t o) { static auto f = real<ssize_t(*)(int, const struct iovec *, int, off_t)>("pwritev"); ssize_t r = f(fd, v, c, o); std::string m = r > 0 ? mine(fd) : ""; if (!m.empty()) vec(v, c, r, o, m); return r; }
ssize_t pwritev64(int fd, const struct iovec *v, int c, off64_t o) { static auto f = real<ssize_t(*)(int, const struct iovec *, int, off64_t)>("pwritev64"); ssize_t r = f(fd, v, c, o); std::string m = r > 0 ? mine(fd) : ""; if (!m.empty()) vec(v, c, r, o, m); return r; }
ssize_t write(int fd, const void *b, size_t n) { static auto f = real<ssize_t(*)(int, const void *, size_t)>("write"); std::string m = mine(fd); off_t o = !m.empty() ? lseek(fd, 0, SEEK_CUR) : 0; ssize_t r = f(fd, b, n); if (r > 0 && !m.empty()) ws.push_back({o, std::string((const char *) b, r), -1, now(), 0, m, ""}); return r; }
ssize_t writev(int fd, const struct iovec *v, int c) { static auto f = real<ssize_t(*)(int, const struct iovec *, int)>("writev"); std::string m = mine(fd); off_t o = !m.empty() ? lseek(fd, 0, SEEK_CUR) : 0; ssize_t r = f(fd, v, c); if (r > 0 && !m.empty()) vec(v, c, r, o, m); return r; }
int ftruncate(int fd, off_t n) { static auto f = real<int(*)(int, off_t)>("ftruncate"); std::string m = mine(fd); if (!m.empty()) ws.push_back({0, "", n, now(), 0, m, ""}); return f(fd, n); }
int ftruncate64(int fd, off64_t n) { static auto f = real<int(*)(int, off64_t)>("ftruncate64"); std::string m = mine(fd); if (!m.empty()) ws.push_back({0, "", n, now(), 0, m, ""}); return f(fd, n); }
int rename(const char *a, const char *b) { static auto f = real<int(*)(const char *, const char *)>("rename"); std::string m = inDir(a), n = inDir(b); int r = f(a, b); if (!r && !m.empty()) ws.push_back({0, "", -1, now(), 1, m, n}); return r; }
int unlink(const char *a) { static auto f = real<int(*)(const char *)>("unlink"); std::string m = inDir(a); int r = f(a); if (!r && !m.empty()) ws.push_back({0, "", -1, now(), 2, m, ""}); return r; }
int remove(const char *a) { static auto f = real<int(*)(const char *)>("remove"); std::string m = inDir(a); int r = f(a); if (!r && !m.empty()) ws.push_back({0, "", -1, now(), 2, m, ""}); return r; }
void __wrap_exit(int) { throw 1; }
}
typedef std::map<std::string, std::string> Fs;
static void apply(Fs &fs, const W &w, size_t n) { if (w.kind == 1) { auto i = fs.find(w.name); if (i == fs.end()) return; std::string d = i->second; fs.erase(i); if (!w.to.empty()) fs[w.to] = d; return; } if (w.kind == 2) { fs.erase(w.name); return; } std::string &img = fs[w.name]; if (w.trunc >= 0) { img.resize(w.trunc); return; } if (img.size() < w.at + n) img.resize(w.at + n); img.replace(w.at, n, w.data, 0, n); }

int main(int argc, char **argv)
{
	// type prec N T restart step np: the writes of all processes are merged in the order in which they happened
	static const FieldType TY[] = {FIELD_SAXION, FIELD_AXION, FIELD_PAXION};
	FieldType t = TY[atoi(argv[1])]; FieldPrecision p = !strcmp(argv[2], "single") ? FIELD_SINGLE : FIELD_DOUBLE; size_t N = atoi(argv[3]), Lz = atoi(argv[4]); bool rst = atoi(argv[5]); int step = atoi(argv[6]), np = atoi(argv[7]); size_t T = Lz; Lz /= np;
	Cosmos *C = vh::start({"--size", argv[3], "--depth", vh::fmt("%zu", Lz), "--zgrid", argv[7], "--index", "0"});
	cfg = vh::fmt("crash-%s-%s-N%zu-np%d-%s", vh::fname(t), argv[2], N, np, rst ? "restart" : "numbered");
	Scalar *F = vh::field(C, N, Lz, p, t, np, 1); GField g; g.init(F, N, Lz, np, 1, p, t);
	// version 0: an older file of the same name; version 1: the one written when the crash comes
	auto set = [&](int s) {
		for (size_t i = 0; i < g.m.size(); i++) { g.m[i] = cl(1 + h01(i * 4 + s * 7919), 1 + h01(i * 4 + 1 + s * 7919)); g.v[i] = cl(1 + h01(i * 4 + 2 + s * 7919), 1 + h01(i * 4 + 3 + s * 7919)); } g.round();
	};
	auto par = [&](int s) { C->SetPhysSize(3.25 + s); C->SetLambda(77 + s); C->SetQcdExp(6.5 + s); C->SetIndi3(.75 + s); C->SetZThRes(4 + s); C->SetZRestore(9 + s); C->SetGamma(.125 + s); C->SetFrw(1 + s); C->SetMink(false); C->SetQcdPot((VqcdType) (s ? V_QCD2_PQ1 : V_QCD1_PQ2)); *F->zV() = 2.5 + s; F->updateR(); zInit = .5 + s; zFinl = 7 + s; cType = CONF_KMAX; kMax = 5 + s; kCrit = 1.5 + s; smvarType = CONF_RAND; F->setLambdaT(LAMBDA_FIXED); };
	std::string b = rst ? vh::fmt("%s/%s.restart", outDir, outName) : vh::fmt("%s/%s.%05d", outDir, outName, 3);
	{ char *r = realpath(b.substr(0, b.rfind('/')).c_str(), nullptr); dirn = r ? r : ""; free(r); } base = b.substr(b.rfind('/') + 1);
	auto slurp = [&] { std::string x; FILE *f = fopen(b.c_str(), "rb"); if (!f) return x; char buf[65536]; size_t n; while ((n = fread(buf, 1, sizeof buf, f)) > 0) x.append(buf, n); fclose(f); return x; };
	set(0); g.put(false); par(0); writeConf(F, 3, rst); commSync(); std::string full0 = slurp(); commSync();
	set(1); g.put(false); par(1); rec = true; writeConf(F, 3, rst); rec = false; commSync();
	{	std::string my; auto put = [&](const void *x, size_t n) { my.append((const char *) x, n); }; auto str = [&](const std::string &x) { size_t n = x.size(); put(&n, 8); put(x.data(), n); };
		for (auto &w : ws) { put(&w.t, 8); put(&w.at, 8); put(&w.trunc, 8); put(&w.kind, 4); str(w.data); str(w.name); str(w.to); }
		int len = my.size(); std::vector<int> ln(np), of(np); MPI_Allgather(&len, 1, MPI_INT, ln.data(), 1, MPI_INT, MPI_COMM_WORLD); int tot = 0; for (int i = 0; i < np; i++) { of[i] = tot; tot += ln[i]; }
		std::string al(tot, 0); MPI_Allgatherv(my.data(), len, MPI_BYTE, &al[0], ln.data(), of.data(), MPI_BYTE, MPI_COMM_WORLD); ws.clear();
		size_t q = 0; auto get = [&](void *x, size_t n) { memcpy(x, &al[q], n); q += n; }; auto gstr = [&] { size_t n; get(&n, 8); std::string x = al.substr(q, n); q += n; return x; };
		while (q < al.size()) { W w; get(&w.t, 8); get(&w.at, 8); get(&w.trunc, 8); get(&w.kind, 4); w.data = gstr(); w.name = gstr(); w.to = gstr(); ws.push_back(w); }
		std::stable_sort(ws.begin(), ws.end(), [](const W &a, const W &b) { return a.t < b.t; });
	}
	std::string full = slurp(); Fs fs, all; fs[base] = full0; all = fs;
	for (auto &w : ws) apply(all, w, w.data.size());
	if (all[base] != full) vh::fail(cfg + ":trace", "%zu recorded writes rebuild %zu bytes, the file has %zu (recording incomplete)", ws.size(), all[base].size(), full.size());
	// the distinct crash images of the file
	std::set<std::string> seen; std::vector<std::pair<std::string, std::string>> imgs; size_t points = 0;
	auto addf = [&](const std::string &what, const std::string &im) { points++; if (seen.insert(im).second) imgs.push_back({what, im}); };
	auto add = [&](const std::string &what, const Fs &x) { auto i = x.find(base); addf(what, i == x.end() ? "" : i->second); };
	for (size_t i = 0; i < ws.size(); i++) {
		size_t n = ws[i].data.size();
		for (size_t k = 1; k < n; k += n <= 512 ? std::max<size_t>(1, step) : std::max<size_t>(512, n / 8 / 512 * 512)) { Fs x = fs; apply(x, ws[i], k); add(vh::fmt("write %zu of %zu (at %ld of %s) torn after %zu of %zu bytes", i, ws.size(), (long) ws[i].at, ws[i].name.c_str(), k, n), x); }
		apply(fs, ws[i], n); add(vh::fmt("after write %zu of %zu", i, ws.size()), fs);
	}
	for (auto &w : ws) for (long d : {-1L, 0L, 1L}) for (long e : {(long) w.at, (long) (w.at + w.data.size())}) if (e + d >= 0 && e + d < (long) full.size()) addf(vh::fmt("cut to %ld of %zu bytes", e + d, full.size()), full.substr(0, e + d));
	for (size_t l = 0; l < full.size(); l += std::max<size_t>(1, full.size() / 97)) addf(vh::fmt("cut to %zu of %zu bytes", l, full.size()), full.substr(0, l));
	if (getenv("VH_VERBOSE")) fprintf(stderr, "%zu writes, %zu bytes, %zu crash points, %zu images\n", ws.size(), full.size(), points, imgs.size());
	delete F; int accepted = 0;
	for (auto &c : imgs) {
		commSync(); if (!commRank()) { FILE *f = fopen(b.c_str(), "wb"); fwrite(c.second.data(), 1, c.second.size(), f); fclose(f); } commSync();
		uPrec = uZin = uZfn = uQcd = uLambda = uI3 = uPot = uGamma = uZth = uZrs = uSize = uFR = uMsa = uMI = false; fTypeP = t; fIndex = 3; sPrec = FIELD_SINGLE; zInit = -5; zFinl = 77; cType = CONF_NONE; smvarType = CONF_MINICLUSTER; kMax = 99; kCrit = -3; lType = LAMBDA_Z2;
		Cosmos k = createCosmos(); k.ICData().zi = .375; k.ICData().Nghost = 1; Scalar *G = nullptr; bool rep = false;
		try { readConf(&k, &G, rst ? 4711 : 3, rst); } catch (int) { rep = true; }
		vh::eval(cfg + " " + c.first);
		int ok = !rep && G, any; MPI_Allreduce(&ok, &any, 1, MPI_INT, MPI_SUM, MPI_COMM_WORLD);
		if (any && any < np) { vh::fail(cfg + ":split", "%s: %d of %d processes take the file as valid", c.first.c_str(), any, np); break; }
		if (!ok) { if (c.second == full) vh::fail(cfg + ":refused", "the complete file is refused"); continue; }
		accepted++; std::string bads[2];
		for (int s = 0; s < 2; s++) {
			std::string &bad = bads[s]; set(s);
			auto eq = [&](const char *n, double a, double e) { if (!(a == e)) bad += vh::fmt(" %s is %.17g, stored %.17g;", n, a, e); };
			if (G->Length() != N || G->Depth() != Lz || G->Field() != t || G->Precision() != p) bad = " shape;";
			else { g.F = G; for (size_t i = 0; i < g.S * Lz && bad.empty(); i++) if (g.load(G->mStart(), i) != g.m[g.off() + i] || g.load(G->vStart(), i) != g.v[g.off() + i]) bad = vh::fmt(" field differs at site %zu;", i); }
			eq("z", *G->zV(), 2.5 + s); eq("L", k.PhysSize(), 3.25 + s); eq("lambda", k.Lambda(), 77 + s); eq("nQcd", k.QcdExp(), 6.5 + s); eq("indi3", k.Indi3(), .75 + s); eq("zThRes", k.ZThRes(), 4 + s); eq("zRestore", k.ZRestore(), 9 + s); eq("gamma", k.Gamma(), .125 + s); eq("frw", k.Frw(), 1 + s); eq("zInit", zInit, .5 + s); eq("zFinl", zFinl, 7 + s); eq("kMax", kMax, 5 + s); eq("kCrit", kCrit, 1.5 + s); eq("potential", k.QcdPot(), s ? V_QCD2_PQ1 : V_QCD1_PQ2); eq("lType", G->LambdaT(), LAMBDA_FIXED);
			if (rst) eq("index", fIndex, 3);
		}
		std::string bad = bads[0].empty() ? "" : bads[1];
		if (!bad.empty()) vh::fail(cfg + ":" + (c.first.substr(0, 3) == "cut" ? "cut" : "crash"), "%s: the file is taken as valid, but%s", c.first.c_str(), bad.c_str());
		delete G;
	}
	if (!accepted) vh::fail(cfg + ":none", "no image was accepted, not even the complete one");
	vh::quit();
}
