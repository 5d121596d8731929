// P01: folded/unfolded layouts. Breadth-first over operation sequences of the real Folder, against a reference
// model that keeps m, v and m2 in plain lexicographic order.
#include "vh.h"

typedef std::vector<unsigned char> Bytes;

static size_t N, Lz, n2, n3, fs, SH;

static size_t foldIdx(size_t x, size_t y, size_t z) // place of lattice point (x,y,z) in the folded order
{
	size_t h = N / SH;
	return z * n2 + (y % h) * N * SH + x * SH + y / h;
}

struct Model { Bytes m, v, m2; bool f, f2; };

static Bytes folded(const Bytes &a)
{
	Bytes o(a.size());
	for (size_t z = 0; z < Lz; z++) for (size_t y = 0; y < N; y++) for (size_t x = 0; x < N; x++)
		memcpy(&o[foldIdx(x, y, z) * fs], &a[(z * n2 + y * N + x) * fs], fs);
	return o;
}

struct Op { FoldType t; size_t c; std::string n; };

static std::string cfg;

static bool same(const void *a, const Bytes &b) { return memcmp(a, b.data(), b.size()) == 0; }

static bool compare(Scalar *f, Model &M, const std::string &seq)
{
	bool ok = true;
	if (f->Folded() != M.f || f->M2Folded() != M.f2) { vh::fail(cfg + ":flag", "after %s the folded flags are m/v %d m2 %d, should be %d %d", seq.c_str(), f->Folded(), f->M2Folded(), M.f, M.f2); ok = false; }
	if (!same(f->mStart(), M.f ? folded(M.m) : M.m)) { vh::fail(cfg + ":m", "after %s m does not hold the lattice in %s order", seq.c_str(), M.f ? "folded" : "lexicographic"); ok = false; }
	if (!same(f->vStart(), M.f ? folded(M.v) : M.v)) { vh::fail(cfg + ":v", "after %s v does not hold the lattice in %s order", seq.c_str(), M.f ? "folded" : "lexicographic"); ok = false; }
	if (f->m2Cpu() && !same(f->m2Start(), M.f2 ? folded(M.m2) : M.m2)) { vh::fail(cfg + ":m2", "after %s m2 does not hold the lattice in %s order", seq.c_str(), M.f2 ? "folded" : "lexicographic"); ok = false; }
	return ok;
}

static void load(Scalar *f, Model &M)
{
	Bytes a = M.f ? folded(M.m) : M.m, b = M.f ? folded(M.v) : M.v, c = M.f2 ? folded(M.m2) : M.m2;
	memcpy(f->mStart(), a.data(), a.size()); memcpy(f->vStart(), b.data(), b.size());
	if (f->m2Cpu()) memcpy(f->m2Start(), c.data(), c.size());
	f->setFolded(M.f); f->setM2Folded(M.f2);
}

static bool apply(Scalar *f, Model &M, const Op &o, const std::string &seq)
{
	Folder munge(f);
	munge(o.t, o.c);
	bool ok = true;
	switch (o.t) {
		case FOLD_ALL: M.f = true; break;
		case UNFOLD_ALL: M.f = false; break;
		case FOLD_M2: M.f2 = true; break;
		case UNFOLD_M2: M.f2 = false; break;
		case UNFOLD_SLICE:
			if (memcmp(f->mFrontGhost(), &M.m[o.c * n2 * fs], n2 * fs)) { vh::fail(cfg + ":slice-m", "after %s the extracted z=%zu slice of m is wrong", seq.c_str(), o.c); ok = false; }
			if (memcmp(f->mBackGhost(), &M.v[o.c * n2 * fs], n2 * fs)) { vh::fail(cfg + ":slice-v", "after %s the extracted z=%zu slice of v is wrong", seq.c_str(), o.c); ok = false; }
			break;
		case UNFOLD_SLICEYZ:
			for (size_t z = 0; z < Lz && ok; z++) for (size_t y = 0; y < N && ok; y++) {
				if (memcmp((char *) f->mFrontGhost() + (z * N + y) * fs, &M.m[(z * n2 + y * N + o.c) * fs], fs)) { vh::fail(cfg + ":sliceyz-m", "after %s the extracted x=%zu slice of m is wrong at y=%zu z=%zu", seq.c_str(), o.c, y, z); ok = false; }
				else if (memcmp((char *) f->mBackGhost() + (z * N + y) * fs, &M.v[(z * n2 + y * N + o.c) * fs], fs)) { vh::fail(cfg + ":sliceyz-v", "after %s the extracted x=%zu slice of v is wrong at y=%zu z=%zu", seq.c_str(), o.c, y, z); ok = false; }
			}
			break;
		case UNFOLD_SLICEM2:
			if (memcmp(f->m2FrontGhost(), &M.m2[o.c * n2 * fs], n2 * fs)) { vh::fail(cfg + ":slice-m2", "after %s the extracted z=%zu slice of m2 is wrong", seq.c_str(), o.c); ok = false; }
			break;
		default: break;
	}
	return compare(f, M, seq) && ok;
}

static long nstates = 0, ntrans = 0;

static void dfs(Scalar *f, Model M, const std::vector<Op> &ops, int depth, const std::string &seq)
{
	for (auto &o : ops) {
		std::string s = seq + (seq.empty() ? "" : ",") + o.n;
		Model K = M;
		load(f, M);
		bool ok = apply(f, K, o, s);
		ntrans++;
		vh::eval(cfg + ":" + s, true);
		if (depth > 1 && ok) dfs(f, K, ops, depth - 1, s);
	}
}

int main(int argc, char **argv)
{
	// args: prec type N Lz Ng depth zgrid
	FieldPrecision p = !strcmp(argv[1], "single") ? FIELD_SINGLE : FIELD_DOUBLE;
	FieldType t = (FieldType) atoi(argv[2]);
	N = atoi(argv[3]); Lz = atoi(argv[4]);
	size_t Ng = atoi(argv[5]);
	int depth = atoi(argv[6]), zg = atoi(argv[7]);
	bool low = argc > 8 && atoi(argv[8]);
	Cosmos *c = vh::start({"--size", argv[3], "--depth", std::to_string(Lz * zg), "--zgrid", argv[7], "--prec", argv[1], "--index", "0", "--lap", argv[5], "--qcd", "4"});
	Scalar *f;
	if (t == FIELD_NAXION) { f = vh::field(c, N, Lz, p, FIELD_SAXION, zg, Ng, LAMBDA_FIXED, low); f->setField(FIELD_NAXION); }
	else f = vh::field(c, N, Lz, p, t, zg, Ng, LAMBDA_FIXED, low);
	n2 = f->Surf(); n3 = f->Size(); fs = f->DataSize(); SH = f->DataAlign() / fs;
	cfg = vh::fmt("%s-%s-N%zu-Lz%zu-Ng%zu-np%d-t%d", vh::fname(t), vh::pname(p), N, Lz, Ng, zg, omp_get_max_threads());
	if (n2 != N * N || n3 != N * N * Lz || SH == 0) vh::fail(cfg + ":geometry", "Surf %zu Size %zu Shift %zu", n2, n3, SH);
	Model M; M.m.resize(n3 * fs); M.v.resize(n3 * fs); M.m2.resize(n3 * fs); M.f = M.f2 = false;
	for (size_t i = 0; i < n3 * fs; i += 4) { // every lattice element of the three arrays gets its own label
		uint32_t a = 0x10000000u + i * 3 + commRank() * 0x01000000u, b = a + 1, d = a + 2;
		memcpy(&M.m[i], &a, 4); memcpy(&M.v[i], &b, 4); memcpy(&M.m2[i], &d, 4);
	}
	std::vector<Op> ops = {{FOLD_ALL, 0, "fold"}, {UNFOLD_ALL, 0, "unfold"}};
	if (f->m2Cpu()) { ops.push_back({FOLD_M2, 0, "foldM2"}); ops.push_back({UNFOLD_M2, 0, "unfoldM2"}); }
	std::vector<Op> all = ops;
	for (size_t z = 0; z < Lz; z++) all.push_back({UNFOLD_SLICE, z, "slice" + std::to_string(z)});
	if (Lz <= N * Ng) for (size_t x = 0; x < N; x++) all.push_back({UNFOLD_SLICEYZ, x, "sliceYZ" + std::to_string(x)});
	if (f->m2Cpu()) for (size_t z = 0; z < Lz; z++) all.push_back({UNFOLD_SLICEM2, z, "sliceM2_" + std::to_string(z)});
	// every sequence of layout changes up to depth-1, each followed by every operation (all slice positions)
	std::vector<std::pair<Model, std::string>> front = {{M, ""}};
	for (int d = 0; d < depth; d++) {
		std::vector<std::pair<Model, std::string>> nxt;
		for (auto &pr : front) {
			nstates++;
			dfs(f, pr.first, all, 1, pr.second);
			if (d + 1 < depth) for (auto &o : ops) {
				Model K = pr.first;
				std::string s = pr.second + (pr.second.empty() ? "" : ",") + o.n;
				load(f, K);
				if (apply(f, K, o, s)) nxt.push_back({K, s});
			}
		}
		front = nxt;
	}
	// the same history without reloading between steps: all operations chained in one run, both orders
	{
		Model K = M; load(f, K); std::string s = "chain";
		for (int r = 0; r < 2; r++) { for (auto &o : all) { s = "chain.." + o.n; apply(f, K, o, s); vh::eval(cfg + s); } std::reverse(all.begin(), all.end()); }
	}
	vh::counter("model_states", nstates); vh::counter("operations", ntrans);
	vh::quit();
}
