// Runs the threads of every OpenMP parallel region as coroutines, one after another between synchronisation points, in
// an order that is a parameter, and checks every memory access of the instrumented code: two accesses of different
// threads between the same two barriers, one a write, without a common lock, conflict. If there is none then all
// interleavings of the region are equivalent to the ones that differ in the order of critical sections and atomics only.
#include "ompsim.h"
#include "vh.h"
#include <ucontext.h>
#include <sys/mman.h>
#include <malloc.h>
#include <dlfcn.h>
#include <unordered_map>
#include <set>
#include <new>

namespace sim {
Ctl ctl;
static constexpr int MAXT = 8;
struct Thr { ucontext_t ctx; char *stk = nullptr; int state = 0; unsigned locks = 0; bool skip = false; };
enum { READY, BARRIER, DONE };
static constexpr size_t SSZ = 64u << 20;
static Thr thr[MAXT];
static ucontext_t back;
static int cur = -1, team = 1, nest = 0, defThreads = 0;
static unsigned epoch = 1, lockOwner[8]; // lock bit -> thread+1
static void (*body)(void *); static void *bodyData;
static __thread bool mainThread = false;
static char *lo = nullptr, *hi = nullptr;
struct Rec { unsigned epoch; unsigned char w, r, lw, lr, ls; };
struct Page { Rec r[4096]; };
static std::unordered_map<uintptr_t, Page *> *pages;
static uintptr_t lastNo = 1; static Page *lastPage;
static bool on = false, inHook = false;
struct Race { void *pc; uintptr_t addr; bool write; };
static std::vector<Race> *found; static std::set<void *> *seen;

static Page *page(uintptr_t n)
{
	if (n == lastNo) return lastPage;
	auto &p = (*pages)[n];
	if (!p) p = (Page *) mmap(nullptr, sizeof(Page), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	lastNo = n; return lastPage = p;
}

static inline void access(void *p, size_t n, bool write, void *pc, unsigned extra = 0)
{
	if (!on || !mainThread || inHook || nest > 1) return;
	char *a = (char *) p;
	if (a >= lo && a < hi) return; // own stack
	inHook = true;
	ctl.accesses++;
	unsigned me = 1u << cur, ls = thr[cur].locks | extra;
	bool race = false;
	for (size_t i = 0; i < n; i++) {
		uintptr_t x = (uintptr_t) (a + i);
		Rec &r = page(x >> 12)->r[x & 4095];
		if (r.epoch != epoch) { r.epoch = epoch; r.w = r.r = r.lw = r.lr = 0; r.ls = 255; }
		if (ls) {
			unsigned common = r.ls & ls;
			if ((write ? (r.w | r.r) : r.w) & ~me) race = true;
			if (!common && (write ? (r.lw | r.lr) : r.lw) & ~me) race = true;
			r.ls = common;
			(write ? r.lw : r.lr) |= me;
		} else {
			if ((write ? (r.w | r.r | r.lw | r.lr) : (r.w | r.lw)) & ~me) race = true;
			(write ? r.w : r.r) |= me;
		}
	}
	if (race) { ctl.races++; if (seen->insert(pc).second) found->push_back({pc, (uintptr_t) p, write}); }
	inHook = false;
}

static void clear(void *p, size_t n) { if (!on || !mainThread || inHook) return; inHook = true; for (size_t i = 0; i < n; i++) { uintptr_t x = (uintptr_t) p + i; page(x >> 12)->r[x & 4095].epoch = 0; } inHook = false; }

static void yield() { int me = cur; swapcontext(&thr[me].ctx, &back); }
static void event() { if (!on || !mainThread || nest > 1) return; if (ctl.events++ == ctl.preemptAt) { ctl.preempted++; thr[cur].skip = true; yield(); } }

static void entry() { body(bodyData); thr[cur].state = DONE; yield(); }

static int next() // the thread to run now, -1: none is ready
{
	for (int pass = 0; pass < 2; pass++) // a preempted thread comes last
		for (int i = 0; i < team; i++) {
			int o = ctl.order, t = o == 0 ? i : o == 1 ? team - 1 - i : (i + o - 1) % team;
			if (thr[t].state == READY && (pass == 1) == thr[t].skip) return t;
		}
	return -1;
}

static void run(void (*fn)(void *), void *data, int nt)
{
	team = nt; body = fn; bodyData = data; nest = 1; ctl.regions++;
	epoch++; ctl.phases++;
	for (int t = 0; t < nt; t++) {
		Thr &h = thr[t];
		if (!h.stk) h.stk = (char *) mmap(nullptr, SSZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		getcontext(&h.ctx); h.ctx.uc_stack.ss_sp = h.stk; h.ctx.uc_stack.ss_size = SSZ; h.ctx.uc_link = nullptr; h.state = READY; h.locks = 0; h.skip = false;
		makecontext(&h.ctx, entry, 0);
	}
	for (;;) {
		int t = next();
		if (t < 0) {
			bool any = false;
			for (int i = 0; i < nt; i++) if (thr[i].state == BARRIER) { thr[i].state = READY; any = true; }
			if (!any) break;
			epoch++; ctl.phases++;
			continue;
		}
		cur = t; lo = thr[t].stk; hi = lo + SSZ; on = true;
		swapcontext(&back, &thr[t].ctx);
		on = false;
		if (thr[t].state == READY) { // preempted, or waiting for a lock: let the others run first
			bool others = false; for (int i = 0; i < nt; i++) if (i != t && thr[i].state == READY && !thr[i].skip) others = true;
			if (!others) { bool all = true; for (int i = 0; i < nt; i++) if (i != t && thr[i].state == READY) all = false; if (all) thr[t].skip = false; else for (int i = 0; i < nt; i++) if (i != t) thr[i].skip = false; }
		}
	}
	cur = -1; nest = 0; team = 1; lo = hi = nullptr;
}

static void acquire(unsigned bit)
{
	if (!on || nest > 1) return;
	event();
	while (lockOwner[bit] && lockOwner[bit] != (unsigned) cur + 1) { thr[cur].skip = true; yield(); }
	lockOwner[bit] = cur + 1; thr[cur].locks |= 1u << bit;
}
static void release(unsigned bit) { if (!on || nest > 1) return; lockOwner[bit] = 0; thr[cur].locks &= ~(1u << bit); event(); }
static unsigned named(void **p) { static std::vector<void **> v; for (size_t i = 0; i < v.size(); i++) if (v[i] == p) return 2 + i; v.push_back(p); return std::min<size_t>(7, 1 + v.size()); }

static void init() __attribute__((constructor));
static void init() { mainThread = true; pages = new std::unordered_map<uintptr_t, Page *>(); found = new std::vector<Race>(); seen = new std::set<void *>(); const char *e = getenv("OMP_NUM_THREADS"); ctl.threads = e ? atoi(e) : 2; if (ctl.threads < 1) ctl.threads = 1; if (ctl.threads > MAXT) ctl.threads = MAXT; }

void drain(const char *where)
{
	for (auto &r : *found) {
		Dl_info d; char cmd[4200], fn[600] = "?", ln[600] = "?", exe[4000] = {0};
		dladdr(r.pc, &d);
		ssize_t k = readlink("/proc/self/exe", exe, sizeof exe - 1); (void) k;
		snprintf(cmd, sizeof cmd, "addr2line -f -C -e %s 0x%lx 2>/dev/null", exe, (unsigned long) r.pc - (unsigned long) d.dli_fbase - 1);
		FILE *f = popen(cmd, "r");
		if (f) { if (!fgets(fn, sizeof fn, f)) fn[0] = 0; if (!fgets(ln, sizeof ln, f)) ln[0] = 0; pclose(f); }
		std::string s = fn, l = ln; while (!s.empty() && s.back() == '\n') s.pop_back(); while (!l.empty() && l.back() == '\n') l.pop_back();
		size_t q = s.find_first_of("(<. "); std::string key = s.substr(0, q == std::string::npos || q == 0 ? s.size() : q);
		vh::fail("race:" + key, "%s: two threads access the same memory without synchronisation, one of them writing (second access, a %s, in %s at %s)", where, r.write ? "write" : "read", s.c_str(), l.c_str());
	}
	found->clear(); seen->clear();
}
}
using namespace sim;

extern "C" {
#define PC __builtin_return_address(0)
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void **, void *) {}
void __tsan_vptr_read(void **) {}
#define RW(n) void __tsan_read##n(void *p) { access(p, n, false, PC); } void __tsan_write##n(void *p) { access(p, n, true, PC); } \
	void __tsan_unaligned_read##n(void *p) { access(p, n, false, PC); } void __tsan_unaligned_write##n(void *p) { access(p, n, true, PC); } \
	void __tsan_volatile_read##n(void *p) { access(p, n, false, PC); } void __tsan_volatile_write##n(void *p) { access(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, unsigned long n) { access(p, n, false, PC); }
void __tsan_write_range(void *p, unsigned long n) { access(p, n, true, PC); }
#define AT(b, T) \
	T __tsan_atomic##b##_load(const volatile T *p, int) { event(); access((void *) p, sizeof(T), false, PC, 1); return *p; } \
	void __tsan_atomic##b##_store(volatile T *p, T v, int) { event(); access((void *) p, sizeof(T), true, PC, 1); *p = v; } \
	T __tsan_atomic##b##_exchange(volatile T *p, T v, int) { event(); access((void *) p, sizeof(T), true, PC, 1); return __atomic_exchange_n(p, v, 5); } \
	T __tsan_atomic##b##_fetch_add(volatile T *p, T v, int) { event(); access((void *) p, sizeof(T), true, PC, 1); return __atomic_fetch_add(p, v, 5); } \
	T __tsan_atomic##b##_fetch_sub(volatile T *p, T v, int) { event(); access((void *) p, sizeof(T), true, PC, 1); return __atomic_fetch_sub(p, v, 5); } \
	T __tsan_atomic##b##_fetch_and(volatile T *p, T v, int) { event(); access((void *) p, sizeof(T), true, PC, 1); return __atomic_fetch_and(p, v, 5); } \
	T __tsan_atomic##b##_fetch_or(volatile T *p, T v, int) { event(); access((void *) p, sizeof(T), true, PC, 1); return __atomic_fetch_or(p, v, 5); } \
	T __tsan_atomic##b##_fetch_xor(volatile T *p, T v, int) { event(); access((void *) p, sizeof(T), true, PC, 1); return __atomic_fetch_xor(p, v, 5); } \
	int __tsan_atomic##b##_compare_exchange_strong(volatile T *p, T *e, T v, int, int) { event(); access((void *) p, sizeof(T), true, PC, 1); return __atomic_compare_exchange_n(p, e, v, 0, 5, 5); } \
	int __tsan_atomic##b##_compare_exchange_weak(volatile T *p, T *e, T v, int, int) { event(); access((void *) p, sizeof(T), true, PC, 1); return __atomic_compare_exchange_n(p, e, v, 0, 5, 5); } \
	T __tsan_atomic##b##_compare_exchange_val(volatile T *p, T e, T v, int, int) { event(); access((void *) p, sizeof(T), true, PC, 1); __atomic_compare_exchange_n(p, &e, v, 0, 5, 5); return e; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

void *__real_memcpy(void *, const void *, size_t); void *__real_memmove(void *, const void *, size_t); void *__real_memset(void *, int, size_t); void __real_free(void *);
void *__wrap_memcpy(void *d, const void *s, size_t n) { access((void *) s, n, false, PC); access(d, n, true, PC); return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { access((void *) s, n, false, PC); access(d, n, true, PC); return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { access(d, n, true, PC); return __real_memset(d, c, n); }
void __wrap_free(void *p) { if (p) clear(p, on ? malloc_usable_size(p) : 0); __real_free(p); }

int omp_get_thread_num() { return mainThread && nest == 1 ? std::max(cur, 0) : 0; }
int omp_get_num_threads() { return mainThread && nest == 1 ? team : 1; }
int omp_get_max_threads() { return defThreads > 0 ? defThreads : ctl.threads; }
void omp_set_num_threads(int n) { defThreads = n; }
int omp_get_num_procs() { return ctl.threads; }
int omp_in_parallel() { return nest > 0; }
int omp_get_level() { return nest; }
void GOMP_parallel(void (*fn)(void *), void *data, unsigned nt, unsigned)
{
	if (!mainThread) { fn(data); return; }
	if (nest) { bool o = on; nest++; fn(data); nest--; on = o; return; } // nested: one thread
	int n = nt ? (int) nt : omp_get_max_threads();
	if (n > MAXT) n = MAXT;
	run(fn, data, n);
}
void GOMP_barrier() { if (!mainThread || nest != 1 || cur < 0) return; thr[cur].state = BARRIER; yield(); }
void GOMP_critical_start() { acquire(1); }
void GOMP_critical_end() { release(1); }
void GOMP_critical_name_start(void **p) { acquire(named(p)); }
void GOMP_critical_name_end(void **p) { release(named(p)); }
void GOMP_atomic_start() { acquire(0); }
void GOMP_atomic_end() { release(0); }
}
static void *take(size_t n) { void *p = malloc(n ? n : 1); if (!p) abort(); clear(p, malloc_usable_size(p)); return p; }
void *operator new(size_t n) { return take(n); }
void *operator new[](size_t n) { return take(n); }
void operator delete(void *p) noexcept { if (p) clear(p, on ? malloc_usable_size(p) : 0); __real_free(p); }
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete(void *p, size_t) noexcept { operator delete(p); }
void operator delete[](void *p, size_t) noexcept { operator delete(p); }
