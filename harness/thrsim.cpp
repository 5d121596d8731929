#include "thrsim.h"
#include <ucontext.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <malloc.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <dlfcn.h>
#include <errno.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cstdint>
#include <vector>
#include <map>
#include <set>
#include <unordered_map>
#include <algorithm>
extern "C" void __real_free(void *);
namespace thr {
static constexpr int MAXT = 7; static constexpr size_t SSZ = 1u << 20;
enum State { READY, LOCK, COND, JOIN, SLEEP, DONE };
struct VC { uint16_t c[MAXT]; };
static void join(VC &a, const VC &b) { for (int i = 0; i < MAXT; i++) a.c[i] = std::max(a.c[i], b.c[i]); }
struct T { ucontext_t ctx; char *stk; int state; void *on; pthread_mutex_t *mtx; bool timed, notified, detached; long wake; VC vc; void *(*fn)(void *); void *arg, *ret; int omp; };
static T th[MAXT]; static int nth = 0, cur = 0; static bool active = false, hook = false;
struct Mx { int owner = -1, count = 0; VC vc = {}; };
static std::map<void *, Mx> *mxs; static std::map<void *, VC> *at;
static long now_ = 1000000; static long spin = 0;
struct Rec { uint8_t wt, any; uint16_t wc, rc[MAXT]; };
struct Page { Rec r[4096]; };
static std::unordered_map<uintptr_t, Page *> *pages; static uintptr_t lastNo = 1; static Page *lastPage;
// shared with the explorer
struct Shared { int n; unsigned char en[20000], ch[20000]; int nf; char key[16][80], text[16][400]; void *pc[16]; long accesses; bool ended; };
static Shared *sh; static std::vector<unsigned char> prefix;

void fail(const char *key, const char *fmt, ...)
{
	if (sh->nf >= 16) return;
	int i = sh->nf; snprintf(sh->key[i], 80, "%s", key); va_list a; va_start(a, fmt); vsnprintf(sh->text[i], 400, fmt, a); va_end(a); sh->pc[i] = nullptr; sh->nf++;
}
static bool enabled(int t)
{
	T &h = th[t];
	switch (h.state) {
		case READY: case SLEEP: return true;
		case LOCK: { auto &m = (*mxs)[h.on]; return m.owner < 0 || m.owner == t; }
		case COND: return (h.notified || h.timed) && (*mxs)[h.mtx].owner < 0;
		case JOIN: return th[(intptr_t) h.on].state == DONE;
	}
	return false;
}
static long wakeAt(int t) { return th[t].state == SLEEP || (th[t].state == COND && !th[t].notified) ? th[t].wake : 0; }
static void point() // the current thread lets the scheduler choose
{
	spin = 0;
	std::vector<int> e; int def = -1;
	for (int t = 0; t < nth; t++) if (enabled(t)) e.push_back(t);
	if (e.empty()) {
		if (th[0].state == DONE) { sh->ended = true; _exit(0); }
		std::string s; for (int t = 0; t < nth; t++) s += "," + std::to_string(th[t].state); fail("deadlock", "no thread can go on (states%s)", s.c_str()); _exit(0);
	}
	std::sort(e.begin(), e.end(), [](int a, int b) { long wa = wakeAt(a), wb = wakeAt(b); if (wa != wb) return wa < wb; bool ca = a == cur, cb = b == cur; if (ca != cb) return ca; return a < b; });
	if (sh->n >= 20000) { fail("endless", "the program does not end"); _exit(0); }
	int c = sh->n < (int) prefix.size() ? prefix[sh->n] : 0; if (c >= (int) e.size()) { fail("replay", "schedule not reproducible"); _exit(0); }
	sh->en[sh->n] = e.size(); sh->ch[sh->n] = c; sh->n++;
	int t = e[c]; now_ = std::max(now_, wakeAt(t));
	if (t != cur) { int me = cur; cur = t; swapcontext(&th[me].ctx, &th[t].ctx); }
}
static void entry() { T &h = th[cur]; h.ret = h.fn(h.arg); th[cur].state = DONE; point(); abort(); }
static void tick() { th[cur].vc.c[cur]++; }
static Page *page(uintptr_t n)
{
	if (n == lastNo) return lastPage;
	auto &p = (*pages)[n]; if (!p) p = (Page *) mmap(nullptr, sizeof(Page), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	lastNo = n; return lastPage = p;
}
static void access(void *p, size_t n, bool w, void *pc)
{
	if (!active || hook) return;
	char *a = (char *) p; T &h = th[cur]; if (h.stk && a >= h.stk && a < h.stk + SSZ) return;
	hook = true; sh->accesses++; bool race = false;
	for (size_t i = 0; i < n; i++) {
		uintptr_t x = (uintptr_t) (a + i); Rec &r = page(x >> 12)->r[x & 4095];
		if (r.any && r.wc && r.wt != cur && r.wc > h.vc.c[r.wt]) race = true;
		if (w && r.any) for (int t = 0; t < nth; t++) if (t != cur && r.rc[t] > h.vc.c[t]) race = true;
		r.any = 1; if (w) { r.wt = cur; r.wc = h.vc.c[cur]; } else r.rc[cur] = h.vc.c[cur];
	}
	if (race && sh->nf < 16) { bool dup = false; for (int i = 0; i < sh->nf; i++) if (sh->pc[i] == pc) dup = true; if (!dup) { fail("race", w ? "write" : "read"); sh->pc[sh->nf - 1] = pc; } }
	hook = false;
	if (++spin > 50000) { th[cur].state = SLEEP; th[cur].wake = now_ + 1; point(); th[cur].state = READY; }
}
static void clear(void *p, size_t n) { if (!active || hook) return; hook = true; for (size_t i = 0; i < n; i++) { uintptr_t x = (uintptr_t) p + i; memset(&page(x >> 12)->r[x & 4095], 0, sizeof(Rec)); } hook = false; }
static void acq(void *p) { if (active) { auto &v = (*at)[p]; join(th[cur].vc, v); } }
static void rel(void *p) { if (active) { join((*at)[p], th[cur].vc); tick(); } }

static int lock(pthread_mutex_t *m, bool tr)
{
	if (!active) return 0;
	hook = true; Mx *x = &(*mxs)[m]; hook = false;
	if (!tr || x->owner < 0) { if (!(x->owner == cur && (m->__data.__kind & 3) == 1)) { th[cur].state = LOCK; th[cur].on = m; if (x->owner == cur) { fail("deadlock", "a thread locks its own mutex again"); _exit(0); } point(); th[cur].state = READY; } }
	else if (x->owner != cur || (m->__data.__kind & 3) != 1) return EBUSY;
	x->owner = cur; x->count++; join(th[cur].vc, x->vc); return 0;
}
static void unlock(pthread_mutex_t *m)
{
	if (!active) return;
	Mx &x = (*mxs)[m]; if (x.owner != cur) { fail("mutex", "a mutex is unlocked by a thread that does not hold it"); return; }
	if (--x.count == 0) { x.owner = -1; x.vc = th[cur].vc; tick(); }
}
static int wait(void *c, pthread_mutex_t *m, long until)
{
	if (!active) return 0;
	T &h = th[cur]; Mx &x = (*mxs)[m]; int k = x.count; x.count = 0; x.owner = -1; x.vc = h.vc; tick();
	h.state = COND; h.on = c; h.mtx = m; h.timed = until >= 0; h.notified = false; h.wake = until; point();
	h.state = READY; x.owner = cur; x.count = k; join(h.vc, x.vc); if (h.notified) acq(c);
	return h.notified ? 0 : ETIMEDOUT;
}
static void notify(void *c, bool all) { if (!active) return; rel(c); for (int t = 0; t < nth; t++) if (th[t].state == COND && th[t].on == c && !th[t].notified) { th[t].notified = true; if (!all) break; } }
static void sleepFor(long us) { if (!active) { return; } th[cur].state = SLEEP; th[cur].wake = now_ + us; point(); th[cur].state = READY; }
void ompId(int i) { th[cur].omp = i; }
void pass(long us) { now_ += us; }
int self() { return cur; }

Stats explore(std::function<void()> body, int bound, long maxRuns, std::function<void(const std::string &, const std::string &, const std::string &)> report)
{
	static Shared *S = (Shared *) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	sh = S; Stats st; long bad = 0; std::vector<std::pair<std::vector<unsigned char>, int>> todo = {{{}, 0}};
	while (!todo.empty()) {
		if (st.runs >= maxRuns) { st.truncated += todo.size(); break; }
		auto job = todo.back(); todo.pop_back(); prefix = job.first; memset(sh, 0, offsetof(Shared, en)); sh->nf = 0; sh->accesses = 0; sh->ended = false;
		fflush(nullptr);
		pid_t pid = fork();
		if (!pid) {
			alarm(30); nth = 1; cur = 0; memset(&th[0], 0, sizeof th[0]); th[0].vc.c[0] = 1; th[0].state = READY;
			mxs = new std::map<void *, Mx>(); at = new std::map<void *, VC>(); pages = new std::unordered_map<uintptr_t, Page *>();
			active = true; body(); active = false; sh->ended = true; _exit(0);
		}
		int ws; waitpid(pid, &ws, 0); st.runs++; st.points += sh->n; st.accesses += sh->accesses;
		std::string sc; for (int i = 0; i < sh->n; i++) if (sh->ch[i]) sc += (sc.empty() ? "" : " ") + std::to_string(i) + ":" + std::to_string(sh->ch[i]);
		if (!WIFEXITED(ws) || WEXITSTATUS(ws) || (!sh->ended && !sh->nf)) report("crash", WIFSIGNALED(ws) ? "killed by signal " + std::to_string(WTERMSIG(ws)) : "ended early", sc);
		for (int i = 0; i < sh->nf; i++) {
			std::string key = sh->key[i], text = sh->text[i];
			static std::map<void *, std::pair<std::string, std::string>> known;
			if (sh->pc[i] && known.count(sh->pc[i])) { key = known[sh->pc[i]].first; text = known[sh->pc[i]].second; }
			else if (sh->pc[i]) {
				Dl_info d; char cmd[700], fn[600] = "?", ln[600] = "?", exe[400] = {0}; dladdr(sh->pc[i], &d); ssize_t k = readlink("/proc/self/exe", exe, sizeof exe - 1); (void) k;
				snprintf(cmd, sizeof cmd, "addr2line -i -f -C -e %s 0x%lx 2>/dev/null", exe, (unsigned long) sh->pc[i] - (unsigned long) d.dli_fbase - 1);
				FILE *f = popen(cmd, "r"); std::string where; bool mine = false; while (f && fgets(fn, sizeof fn, f) && fgets(ln, sizeof ln, f)) { fn[strcspn(fn, "\n")] = ln[strcspn(ln, "\n")] = 0; if (!mine) { where = fn; mine = strstr(ln, "/repo") || strstr(ln, "logger") || strstr(ln, "comms"); text = text + " in " + fn; } } if (f) pclose(f);
				size_t q = where.find_first_of("(<. "); key = "race:" + where.substr(0, q ? q : where.size()); text = "two threads access the same memory without synchronisation, one of them writing (second access: a " + text.substr(0, 250) + ")";
				known[sh->pc[i]] = {key, text};
			}
			report(key, text, sc);
		}
		if (sh->nf && ++bad >= 40) break; // enough
		if (job.second < bound) for (int i = sh->n - 1; i >= (int) prefix.size(); i--) for (int c = 1; c < sh->en[i]; c++) { std::vector<unsigned char> p(sh->ch, sh->ch + i); p.push_back(c); todo.push_back({p, job.second + 1}); }
	}
	return st;
}
}
using namespace thr;
extern "C" {
#define PC __builtin_return_address(0)
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void **p, void *) { access(p, 8, true, PC); }
void __tsan_vptr_read(void **p) { access(p, 8, false, PC); }
#define RW(n) void __tsan_read##n(void *p) { access(p, n, false, PC); } void __tsan_write##n(void *p) { access(p, n, true, PC); } \
	void __tsan_unaligned_read##n(void *p) { access(p, n, false, PC); } void __tsan_unaligned_write##n(void *p) { access(p, n, true, PC); } \
	void __tsan_volatile_read##n(void *p) { access(p, n, false, PC); } void __tsan_volatile_write##n(void *p) { access(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, unsigned long n) { access(p, n, false, PC); }
void __tsan_write_range(void *p, unsigned long n) { access(p, n, true, PC); }
static void ev(void *p) { if (active && !hook) { point(); acq(p); } }
#define AT(b, Ty) \
	Ty __tsan_atomic##b##_load(const volatile Ty *p, int) { ev((void *) p); return *p; } \
	void __tsan_atomic##b##_store(volatile Ty *p, Ty v, int) { ev((void *) p); *p = v; rel((void *) p); } \
	Ty __tsan_atomic##b##_exchange(volatile Ty *p, Ty v, int) { ev((void *) p); rel((void *) p); return __atomic_exchange_n(p, v, 5); } \
	Ty __tsan_atomic##b##_fetch_add(volatile Ty *p, Ty v, int) { ev((void *) p); rel((void *) p); return __atomic_fetch_add(p, v, 5); } \
	Ty __tsan_atomic##b##_fetch_sub(volatile Ty *p, Ty v, int) { ev((void *) p); rel((void *) p); return __atomic_fetch_sub(p, v, 5); } \
	Ty __tsan_atomic##b##_fetch_and(volatile Ty *p, Ty v, int) { ev((void *) p); rel((void *) p); return __atomic_fetch_and(p, v, 5); } \
	Ty __tsan_atomic##b##_fetch_or(volatile Ty *p, Ty v, int) { ev((void *) p); rel((void *) p); return __atomic_fetch_or(p, v, 5); } \
	Ty __tsan_atomic##b##_fetch_xor(volatile Ty *p, Ty v, int) { ev((void *) p); rel((void *) p); return __atomic_fetch_xor(p, v, 5); } \
	int __tsan_atomic##b##_compare_exchange_strong(volatile Ty *p, Ty *e, Ty v, int, int) { ev((void *) p); rel((void *) p); return __atomic_compare_exchange_n(p, e, v, 0, 5, 5); } \
	int __tsan_atomic##b##_compare_exchange_weak(volatile Ty *p, Ty *e, Ty v, int, int) { ev((void *) p); rel((void *) p); return __atomic_compare_exchange_n(p, e, v, 0, 5, 5); } \
	Ty __tsan_atomic##b##_compare_exchange_val(volatile Ty *p, Ty e, Ty v, int, int) { ev((void *) p); rel((void *) p); __atomic_compare_exchange_n(p, &e, v, 0, 5, 5); return e; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
void *__real_memcpy(void *, const void *, size_t); void *__real_memmove(void *, const void *, size_t); void *__real_memset(void *, int, size_t);
void *__wrap_memcpy(void *d, const void *s, size_t n) { access((void *) s, n, false, PC); access(d, n, true, PC); return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { access((void *) s, n, false, PC); access(d, n, true, PC); return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { access(d, n, true, PC); return __real_memset(d, c, n); }
void __wrap_free(void *p) { if (p && active) clear(p, malloc_usable_size(p)); __real_free(p); }

int __cxa_guard_acquire(long long *g) { if (active) acq(g); if (*(char *) g) return 0; return 1; }
void __cxa_guard_release(long long *g) { *(char *) g = 1; if (active) rel(g); }
void __cxa_guard_abort(long long *) {}

int pthread_create(pthread_t *id, const pthread_attr_t *, void *(*fn)(void *), void *arg)
{
	if (!active) abort();
	if (nth == MAXT) { thr::fail("threads", "too many threads"); _exit(0); }
	int t = nth++; T &h = th[t]; memset(&h, 0, sizeof h); h.stk = (char *) mmap(nullptr, SSZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	getcontext(&h.ctx); h.ctx.uc_stack.ss_sp = h.stk; h.ctx.uc_stack.ss_size = SSZ; makecontext(&h.ctx, entry, 0); h.fn = fn; h.arg = arg; h.state = READY; h.vc = th[cur].vc; h.vc.c[t] = 1; tick();
	*id = (pthread_t) (t + 1); point(); return 0;
}
int pthread_join(pthread_t id, void **r) { int t = (int) id - 1; th[cur].state = JOIN; th[cur].on = (void *) (intptr_t) t; point(); th[cur].state = READY; join(th[cur].vc, th[t].vc); if (r) *r = th[t].ret; return 0; }
int pthread_detach(pthread_t id) { th[(int) id - 1].detached = true; return 0; }
pthread_t pthread_self() { return (pthread_t) (cur + 1); }
int pthread_equal(pthread_t a, pthread_t b) { return a == b; }
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { memset(m, 0, sizeof *m); int k = 0; if (a) { pthread_mutexattr_gettype(a, &k); m->__data.__kind = k; } return 0; }
int pthread_mutex_destroy(pthread_mutex_t *m) { if (active) { if (mxs->count(m) && (*mxs)[m].owner >= 0) thr::fail("mutex", "a locked mutex is destroyed"); mxs->erase(m); } return 0; }
int pthread_mutex_lock(pthread_mutex_t *m) { return lock(m, false); }
int pthread_mutex_trylock(pthread_mutex_t *m) { return lock(m, true); }
int pthread_mutex_unlock(pthread_mutex_t *m) { unlock(m); return 0; }
int pthread_cond_init(pthread_cond_t *, const pthread_condattr_t *) { return 0; }
int pthread_cond_destroy(pthread_cond_t *) { return 0; }
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return wait(c, m, -1); }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) { return wait(c, m, std::max(0l, t->tv_sec * 1000000 + t->tv_nsec / 1000)); }
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t, const struct timespec *t) { return wait(c, m, std::max(0l, t->tv_sec * 1000000 + t->tv_nsec / 1000)); }
int pthread_cond_signal(pthread_cond_t *c) { notify(c, false); return 0; }
int pthread_cond_broadcast(pthread_cond_t *c) { notify(c, true); return 0; }
int sched_yield() { if (active) { th[cur].state = SLEEP; th[cur].wake = now_ + 1; point(); th[cur].state = READY; } return 0; }
int nanosleep(const struct timespec *t, struct timespec *) { sleepFor(t->tv_sec * 1000000 + t->tv_nsec / 1000); return 0; }
int clock_nanosleep(clockid_t, int fl, const struct timespec *t, struct timespec *) { long u = t->tv_sec * 1000000 + t->tv_nsec / 1000; sleepFor(fl ? std::max(0l, u - now_) : u); return 0; }
int usleep(useconds_t u) { sleepFor(u); return 0; }
int clock_gettime(clockid_t, struct timespec *t) { now_ += 1; t->tv_sec = now_ / 1000000; t->tv_nsec = now_ % 1000000 * 1000; return 0; }

int omp_get_thread_num() { return active ? th[cur].omp : 0; }
int omp_get_num_threads() { return 1; }
int omp_get_max_threads() { return 1; }
int omp_get_num_procs() { return 1; }
int omp_in_parallel() { return 0; }
void GOMP_parallel(void (*fn)(void *), void *data, unsigned, unsigned) { fn(data); }
void GOMP_barrier() {}
static pthread_mutex_t crit; // all critical sections
void GOMP_critical_start() { lock(&crit, false); }
void GOMP_critical_end() { unlock(&crit); }
static std::map<void **, pthread_mutex_t> *named;
static pthread_mutex_t *nm(void **p) { hook = true; if (!named) named = new std::map<void **, pthread_mutex_t>(); auto &m = (*named)[p]; hook = false; return &m; }
void GOMP_critical_name_start(void **p) { lock(nm(p), false); }
void GOMP_critical_name_end(void **p) { unlock(nm(p)); }
struct OL { int x; };
void omp_init_lock(void *) {}
void omp_destroy_lock(void *) {}
void omp_set_lock(void *p) { lock(nm((void **) p), false); }
void omp_unset_lock(void *p) { unlock(nm((void **) p)); }
}
static void *take(size_t n) { void *p = malloc(n ? n : 1); if (!p) abort(); clear(p, malloc_usable_size(p)); return p; }
void *operator new(size_t n) { return take(n); }
void *operator new[](size_t n) { return take(n); }
void operator delete(void *p) noexcept { if (p && active) clear(p, malloc_usable_size(p)); __real_free(p); }
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete(void *p, size_t) noexcept { operator delete(p); }
void operator delete[](void *p, size_t) noexcept { operator delete(p); }
