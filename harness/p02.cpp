// P02: halo exchange. Every way of starting and finishing an exchange x every capture/delivery choice of every rank.
#include "vh.h"
#include "vh_mpi.h"
size_t vh_chunk = 2147483584; // message size above which a halo is split, replaced in the copy of the source

typedef uint32_t W;
static int np, me; static size_t N, Lz, Ng, n2, fs, wp; static std::string cfg;

static W label(size_t gz, size_t w, int epoch, int arr) { return (W) ((gz * n2 * fs / 4 + w) * 7 + epoch * 1000003u + arr * 500009u + 11u); }
static void fill(void *base, int epoch, int arr) // plane z of the array (halo planes included) as words
{
	W *b = (W *) base;
	for (size_t z = 0; z < Lz + 2 * Ng; z++) for (size_t w = 0; w < wp; w++)
		b[z * wp + w] = (z < Ng || z >= Lz + Ng) ? 0xabab0000u + (W) z : label((size_t) me * Lz + (z - Ng), w, epoch, arr);
}
static bool verify(void *base, int epoch, int arr, size_t g, const std::string &k, const std::string &what)
{
	W *b = (W *) base; size_t tot = Lz * np;
	for (size_t z = 0; z < Lz + 2 * Ng; z++) for (size_t w = 0; w < wp; w++) {
		W want;
		size_t gz = ((size_t) me * Lz + z + tot * 8 - Ng) % tot;
		bool halo = z < Ng || z >= Lz + Ng;
		bool in = !halo || (z < Ng ? (Ng - z <= g) : (z - Lz - Ng < g));
		want = in ? label(gz, w, epoch, arr) : 0xabab0000u + (W) z;
		if (b[z * wp + w] != want) {
			vh::fail(k, "%s: %s plane %d (halo depth %zu, exchanged %zu) word %zu is %08x, should be %08x%s", what.c_str(), halo ? "halo" : "interior", (int) z - (int) Ng, Ng, g, w, b[z * wp + w], want,
				b[z * wp + w] == 0xdbdbdbdbu ? " (message not delivered)" : "");
			return false;
		}
	}
	return true;
}

int main(int argc, char **argv)
{
	// prec type N Lz Ng np chunk allmodes
	FieldPrecision p = !strcmp(argv[1], "single") ? FIELD_SINGLE : FIELD_DOUBLE;
	FieldType t = (FieldType) atoi(argv[2]);
	N = atoi(argv[3]); Lz = atoi(argv[4]); Ng = atoi(argv[5]); np = atoi(argv[6]);
	size_t chunk = atol(argv[7]); int allmodes = atoi(argv[8]);
	Cosmos *c = vh::start({"--size", argv[3], "--depth", std::to_string(Lz * np), "--zgrid", argv[6], "--prec", argv[1], "--index", "0", "--lap", argv[5], "--qcd", "4"});
	me = commRank();
	Scalar *f = vh::field(c, N, Lz, p, t, np, Ng);
	n2 = f->Surf(); fs = f->DataSize(); wp = n2 * fs / 4;
	if (chunk) vh_chunk = chunk;
	cfg = vh::fmt("%s-%s-N%zu-Lz%zu-Ng%zu-np%d-chunk%zu", vh::fname(t), vh::pname(p), N, Lz, Ng, np, chunk);
	std::vector<FieldIndex> arrs = {FIELD_M, FIELD_M2};
	if (t == FIELD_PAXION) arrs.push_back(FIELD_V);
	auto base = [&](FieldIndex i) -> void * { return i == FIELD_M ? f->mFrontGhost() : i == FIELD_V ? f->vFrontGhost() : f->m2FrontGhost(); };
	const char *protos[] = {"sdrv,wait", "send,recv,wait", "recv,send,wait", "2:sdrv,wait", "2:send,recv,wait", "2:recv,send,wait", "exchange"};
	// capture/delivery choices: 4 bits per rank
	long nm = 1; if (allmodes) { for (int r = 0; r < np; r++) nm *= 16; } else nm = 16 + 15 * np;
	int epoch = 0;
	for (long m = 0; m < nm; m++) {
		unsigned mine;
		if (allmodes) { mine = (m >> (4 * me)) & 15; }
		else if (m < 16) mine = m;                       // the same choice on every rank
		else mine = ((m - 16) / 15 == me) ? 1 + (m - 16) % 15 : 0; // one rank deviates
		vmpi::ctl().on = true; vmpi::ctl().mode = mine;
		for (int pr = 0; pr < 7; pr++) {
			bool two = pr >= 3 && pr < 6;
			// a receive cannot be early when this rank has not sent yet and everybody waits: skip that (MPI would not deliver either)
			for (size_t g = two ? 1 : Ng; g <= Ng; g++) for (auto a : arrs) {
				epoch++;
				for (auto b : arrs) fill(base(b), epoch, (int) b);
				MPI_Barrier(MPI_COMM_WORLD);
				int ng = (two && g == Ng) ? -1 : (int) g;
				auto go = [&](CommOperation o) { if (two) f->sendGhosts2(a, o, ng); else f->sendGhosts(a, o); };
				switch (pr % 3) {
					case 0: if (pr == 6) { f->exchangeGhosts(a); break; } go(COMM_SDRV); break;
					case 1: go(COMM_SEND); go(COMM_RECV); break;
					case 2: go(COMM_RECV); go(COMM_SEND); break;
				}
				if (pr != 6) go(COMM_WAIT);
				std::string what = vh::fmt("%s array %d depth %zu choice %ld (rank %d: %u)", protos[pr], (int) a, g, m, me, mine);
				vh::eval(cfg + ":" + protos[pr] + vh::fmt(":a%d:g%zu:m%ld", (int) a, g, m));
				for (auto b : arrs) {
					if (b == a) verify(base(b), epoch, (int) b, g, cfg + ":" + protos[pr], what);
					else verify(base(b), epoch, (int) b, 0, cfg + ":" + protos[pr] + ":other", what + " (array not exchanged)");
				}
				MPI_Barrier(MPI_COMM_WORLD);
			}
		}
		vmpi::ctl().on = false;
	}
	// exchange of two general slices: forwards only, backwards only, both, any count
	{
		std::vector<W> sb(wp), sf(wp), rb(wp), rf(wp);
		for (unsigned mode = 0; mode < 16; mode++) for (int which = 1; which < 4; which++) for (size_t cnt = 1; cnt <= wp; cnt = cnt * 3 + 1) {
			vmpi::ctl().on = true; vmpi::ctl().mode = mode;
			epoch++;
			for (size_t w = 0; w < wp; w++) { sb[w] = label(me, w, epoch, 1); sf[w] = label(me, w, epoch, 2); rb[w] = rf[w] = 0xcdcdcdcd; }
			MPI_Barrier(MPI_COMM_WORLD);
			void *e = sb.data();
			void *a1 = (which & 1) ? (void *) sb.data() : e, *a2 = (which & 1) ? (void *) rf.data() : e, *a3 = (which & 2) ? (void *) sf.data() : e, *a4 = (which & 2) ? (void *) rb.data() : e;
			f->sendGeneral(COMM_SDRV, cnt * 4, MPI_BYTE, a1, a2, a3, a4);
			f->sendGeneral(COMM_WAIT, cnt * 4, MPI_BYTE, a1, a2, a3, a4);
			vh::eval(cfg + vh::fmt(":general:%d:%zu:%u", which, cnt, mode));
			int fw = (me + 1) % np, bk = (me + np - 1) % np;
			for (size_t w = 0; w < wp; w++) {
				W f1 = (which & 1) && w < cnt ? label(fw, w, epoch, 1) : 0xcdcdcdcd, b1 = (which & 2) && w < cnt ? label(bk, w, epoch, 2) : 0xcdcdcdcd;
				if (rf[w] != f1 || rb[w] != b1) { vh::fail(cfg + ":general", "general exchange %d of %zu words, choice %u: word %zu is %08x/%08x, should be %08x/%08x", which, cnt, mode, w, rf[w], rb[w], f1, b1); break; }
			}
			MPI_Barrier(MPI_COMM_WORLD);
			vmpi::ctl().on = false;
		}
	}
	vh::counter("requests_started", vmpi::ctl().starts);
	vh::counter("late_captures", vmpi::ctl().late);
	vh::counter("early_deliveries_not_possible", vmpi::ctl().missed);
	vh::quit();
}
