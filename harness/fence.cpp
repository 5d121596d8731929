#include "fence.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cerrno>
#include <new>
#include <atomic>
#include <mutex>
#include <signal.h>
#include <unistd.h>
#include <sys/mman.h>
extern "C" { void *__real_malloc(size_t); void __real_free(void *); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); int __real_posix_memalign(void **, size_t, size_t); void *__real_memalign(size_t, size_t); void *__real_aligned_alloc(size_t, size_t);
void __real__Z10alignAllocPPvmm(void **, size_t, size_t); void __real__Z10trackAllocPPvm(void **, size_t); }
namespace fence {
static const size_t ARENA = 1ull << 38, PG = 4096; static const size_t MAXB = 1 << 22; static char *base; static std::atomic<size_t> top{0};
struct Blk { char *lo, *p; size_t size; char *hi; int kind; bool freed; };
static Blk *tab; static std::atomic<size_t> nb{0}; static std::mutex mx; static bool act; static char lab[200] = "start"; static long live, liveBytes, tr[2], trb[2];
struct Err { char key[32], text[300]; }; static Err errs[64]; static std::atomic<int> ne{0}; static struct sigaction old;
static void err(const char *key, const char *what, Blk *b, long off)
{ int i = ne++; if (i >= 64) return; snprintf(errs[i].key, 32, "%s", key); snprintf(errs[i].text, 300, "%s: %s, byte %ld of a block of %zu bytes (%s)", lab, what, off, b ? b->size : 0, !b ? "unknown" : b->kind == 0 ? "aligned" : b->kind == 1 ? "unaligned" : "untracked"); }
static Blk *find(char *a) // last block whose region begins at or before a
{ size_t l = 0, h = nb; while (l < h) { size_t m = (l + h) / 2; if (tab[m].lo <= a) l = m + 1; else h = m; } return l ? &tab[l - 1] : nullptr; }
static void handler(int s, siginfo_t *si, void *)
{
	char *a = (char *) si->si_addr;
	if (base && a >= base && a < base + ARENA) {
		Blk *b = find(a); bool fr = b && b->freed && a < b->hi; mprotect((char *) ((uintptr_t) a & ~(PG - 1)), PG, PROT_READ | PROT_WRITE);
		err(fr ? "freed" : "beyond", fr ? "released memory is used" : "memory beyond a block is used", b, b ? a - b->p : 0); return;
	}
	sigaction(s, &old, nullptr);
}
static void init()
{
	base = (char *) mmap(nullptr, ARENA, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	tab = (Blk *) mmap(nullptr, MAXB * sizeof(Blk), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = handler; sa.sa_flags = SA_SIGINFO | SA_NODEFER; sigaction(SIGSEGV, &sa, &old);
}
static void *get(size_t n, size_t align)
{
	std::lock_guard<std::mutex> l(mx); if (!base) init();
	size_t d = align < 16 ? 16 : align, len = (n + d - 1) / d * d, pages = (len + PG - 1) / PG; if (!pages) pages = 1;
	if (d > PG || nb >= MAXB || top + (pages + 1) * PG > ARENA) return nullptr;
	Blk &b = tab[nb]; b.lo = base + top; b.hi = b.lo + pages * PG; b.p = b.hi - len; b.size = n; b.kind = 2; b.freed = false; top += (pages + 1) * PG;
	mprotect(b.lo, pages * PG, PROT_READ | PROT_WRITE); memset(b.lo, 0xA5, b.p - b.lo); memset(b.p, 0xC3, n); memset(b.p + n, 0xA5, b.hi - b.p - n); nb++; live++; liveBytes += n;
	return b.p;
}
static void slack(Blk &b) { for (char *c = b.lo; c < b.p; c++) if ((unsigned char) *c != 0xA5) { err("before", "memory before a block is written", &b, c - b.p); memset(b.lo, 0xA5, b.p - b.lo); break; } for (char *c = b.p + b.size; c < b.hi; c++) if ((unsigned char) *c != 0xA5) { err("beyond", "memory beyond a block is written", &b, c - b.p); memset(b.p + b.size, 0xA5, b.hi - b.p - b.size); break; } }
bool inside(void *p) { return base && (char *) p >= base && (char *) p < base + ARENA; }
static void put(void *p)
{
	std::lock_guard<std::mutex> l(mx); Blk *b = find((char *) p); if (!b || b->p != p) { err("badfree", "an address that is not the begin of a block is released", b, b ? (char *) p - b->p : 0); return; }
	if (b->freed) { err("twice", "a block is released twice", b, 0); return; }
	slack(*b); b->freed = true; live--; liveBytes -= b->size; if (b->kind < 2) { tr[b->kind] -= b->size; trb[b->kind]--; }
	mprotect(b->lo, b->hi - b->lo, PROT_NONE); madvise(b->lo, b->hi - b->lo, MADV_DONTNEED);
}
size_t size(void *p) { Blk *b = find((char *) p); return b ? b->size : 0; }
bool alive(void *p) { if (!inside(p)) return false; Blk *b = find((char *) p); return b && b->p == p && !b->freed; }
void on(bool o) { act = o; }
void label(const char *w) { snprintf(lab, sizeof lab, "%s", w); }
Stats stats() { return {(long) nb, live, liveBytes}; }
long tracked(int k) { return tr[k]; }
long trackedBlocks(int k) { return trb[k]; }
void check() { std::lock_guard<std::mutex> l(mx); for (size_t i = 0; i < nb; i++) if (!tab[i].freed) slack(tab[i]); }
void errors(void (*f)(const char *, const char *)) { int n = ne; ne = 0; for (int i = 0; i < n && i < 64; i++) f(errs[i].key, errs[i].text); }
static void kind(void *p, int k) { std::lock_guard<std::mutex> l(mx); if (!inside(p)) return; Blk *b = find((char *) p); if (b && b->p == p) { b->kind = k; tr[k] += b->size; trb[k]++; } }
}
using namespace fence;
extern "C" {
void *__wrap_malloc(size_t n) { void *p; return act && (p = get(n, 16)) ? p : __real_malloc(n); }
void *__wrap_calloc(size_t n, size_t s) { void *p; return act && (p = get(n * s, 16)) ? memset(p, 0, n * s) : __real_calloc(n, s); }
void __wrap_free(void *p) { if (inside(p)) put(p); else __real_free(p); }
void *__wrap_realloc(void *p, size_t n) { if (!inside(p)) return __real_realloc(p, n); void *q = __wrap_malloc(n); size_t s = size(p); memcpy(q, p, s < n ? s : n); put(p); return q; }
int __wrap_posix_memalign(void **q, size_t a, size_t n) { if (!act || a < sizeof(void *) || (a & (a - 1))) return __real_posix_memalign(q, a, n); void *p = get(n, a); if (!p) return __real_posix_memalign(q, a, n); *q = p; return 0; }
void *__wrap_memalign(size_t a, size_t n) { void *p; return act && (p = get(n, a)) ? p : __real_memalign(a, n); }
void *__wrap_aligned_alloc(size_t a, size_t n) { void *p; return act && (p = get(n, a)) ? p : __real_aligned_alloc(a, n); }
void __wrap__Z10alignAllocPPvmm(void **p, size_t a, size_t n) { __real__Z10alignAllocPPvmm(p, a, n); if (act) kind(*p, 0); }
void __wrap__Z10trackAllocPPvm(void **p, size_t n) { __real__Z10trackAllocPPvm(p, n); if (act) kind(*p, 1); }
}
void *operator new(size_t n) { void *p = act && n >= 256 ? get(n, 16) : nullptr; if (!p) p = __real_malloc(n); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { if (inside(p)) put(p); else __real_free(p); }
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete(void *p, size_t) noexcept { operator delete(p); }
void operator delete[](void *p, size_t) noexcept { operator delete(p); }
