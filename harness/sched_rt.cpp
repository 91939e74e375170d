// See sched_rt.h.  Compiled without instrumentation; everything here is C-like on purpose: it runs inside the hooks.
#include "sched_rt.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <new>
#include <dlfcn.h>
#include <malloc.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

#define HOOK extern "C" __attribute__((visibility("default")))
extern "C" void* __real_memcpy(void*, const void*, size_t);
extern "C" void* __real_memmove(void*, const void*, size_t);
extern "C" void* __real_memset(void*, int, size_t);
extern "C" int __real_memcmp(const void*, const void*, size_t);

namespace {

enum { MaxThreads = 4, MaxTrace = 4000, OutSize = 4000 };
struct Shared {                    // seen by the exploring process
	volatile int done;
	unsigned long accesses;
	int points;
	sched::Point trace[MaxTrace];
	char error[2000];
	int outLen[MaxThreads];
	char out[MaxThreads][OutSize];
};
Shared* sh = nullptr;

typedef uint16_t Clock;           // advances at releases only; their number is bounded by MaxTrace
struct VC { Clock c[MaxThreads]; };
void join(VC& a, const VC& b) { for (int i = 0; i < MaxThreads; ++i) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }

__thread int me = -1;              // number of the current thread under test, -1 elsewhere
__thread char *stackLo = nullptr, *stackHi = nullptr;
int nthreads = 0;
VC clocks[MaxThreads];
sem_t sems[MaxThreads];
bool finished[MaxThreads];
const void* waitingFor[MaxThreads];
const std::vector<int>* wanted = nullptr;
unsigned long accesses = 0;

[[noreturn]] void fail(const char* fmt, const void* a = nullptr, const char* s = "", const char* s2 = "") {
	if (sh && !sh->error[0]) snprintf(sh->error, sizeof sh->error, fmt, s, s2, a);
	_exit(77);
}
const char* nameOf(const void* p, char* buf, size_t n) {
	Dl_info i;
	if (dladdr(p, &i) && i.dli_sname) snprintf(buf, n, "%s", i.dli_sname);
	else snprintf(buf, n, "?");
	return buf;
}

// ---- shadow memory: for every byte the clocks of each thread's last read and write -------------------------------
struct Cell { Clock w[MaxThreads], r[MaxThreads]; };
enum { PageBits = 8, PageSize = 1 << PageBits, TableSize = 1 << 21 };
struct Page { uintptr_t key; Cell* cells; };
Page* table = nullptr;
char *pool = nullptr, *poolEnd = nullptr;
uintptr_t lastKey = 0; Cell* lastCells = nullptr;

void* reserve(size_t n) {
	void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (p == MAP_FAILED) fail("no memory for the exploration's own data%s%s%p");
	return p;
}
Cell* page(uintptr_t key) {
	if (key == lastKey) return lastCells;
	size_t h = (key * 0x9e3779b97f4a7c15ull) >> 43;
	while (table[h].cells && table[h].key != key) h = (h + 1) & (TableSize - 1);
	if (!table[h].cells) {
		if (pool + sizeof(Cell) * PageSize > poolEnd) fail("too much memory touched for the exploration's own data%s%s%p");
		table[h].key = key;
		table[h].cells = (Cell*)pool;
		pool += sizeof(Cell) * PageSize;
	}
	lastKey = key; lastCells = table[h].cells;
	return lastCells;
}
[[noreturn]] void race(const char* what, const void* addr, const void* pc, int other) {
	char a[300], b[300], m[700];
	nameOf(pc, a, sizeof a); nameOf(addr, b, sizeof b);
	snprintf(m, sizeof m, "data race: thread %d's %s in %s and thread %d's access to %s", me, what, a, other, b);
	fail("%s%s (%p)", addr, m, "");
}
// memory of the threads: never reused, so that reuse is not mistaken for sharing; shadowed by words
enum : size_t { ArenaSize = size_t(1) << 30 };
char *arena[MaxThreads], *arenaAt[MaxThreads], *published[MaxThreads];
Cell* arenaCells[MaxThreads];
inline bool own(const void* p) { return (char*)p >= stackLo && (char*)p < stackHi; }
inline void touch(Cell& c, const VC& my, Clock now, bool write, const void* p, const void* pc) {
	if (write ? c.w[me] == now : (c.r[me] == now || c.w[me] == now)) return;
	for (int u = 0; u < nthreads; ++u) {
		if (u == me) continue;
		if (c.w[u] > my.c[u]) race(write ? "write" : "read", p, pc, u);
		if (write && c.r[u] > my.c[u]) race("write", p, pc, u);
	}
	(write ? c.w : c.r)[me] = now;
}
Cell& cellOf(uintptr_t a) {
	for (int t = 0; t < nthreads; ++t) if ((char*)a - arena[t] < ArenaSize && (char*)a >= arena[t]) return arenaCells[t][((char*)a - arena[t]) >> 3];
	return page(a >> PageBits)[a & (PageSize - 1)];
}
void access(const void* p, size_t n, bool write, const void* pc) {
	if (me < 0 || own(p)) return;
	++accesses;
	VC& my = clocks[me];
	Clock now = my.c[me];
	for (int t = 0; t < nthreads; ++t) {
		size_t o = (char*)p - arena[t];
		if (o >= ArenaSize) continue;
		for (Cell *c = arenaCells[t] + (o >> 3), *e = arenaCells[t] + ((o + n + 7) >> 3); c != e; ++c) touch(*c, my, now, write, p, pc);
		return;
	}
	for (uintptr_t a = (uintptr_t)p; n; ++a, --n) touch(page(a >> PageBits)[a & (PageSize - 1)], my, now, write, (void*)a, pc);
}
// ---- synchronisation objects -------------------------------------------------------------------------------------
struct Sync { const void* addr; VC vc; int owner; bool shared; };
enum { MaxSync = 1 << 16 };
Sync* syncs = nullptr;
int nsync = 0;
Sync* findSync(const void* a) {
	size_t h = ((uintptr_t)a * 0x9e3779b97f4a7c15ull) >> 48;
	while (syncs[h].addr && syncs[h].addr != a) h = (h + 1) & (MaxSync - 1);
	return &syncs[h];
}
Sync& syncOf(const void* a) {
	Sync* s = findSync(a);
	if (!s->addr) {
		if (++nsync > MaxSync / 2) fail("too many synchronisation objects%s%s%p");
		s->addr = a; s->owner = -1;
	}
	return *s;
}

bool enabled(int t) {
	if (finished[t]) return false;
	return !waitingFor[t] || syncOf(waitingFor[t]).owner < 0;
}
/// picks the next thread; returns when the caller is to go on
void point(int what, const void* at = nullptr) {
	unsigned mask = 0;
	for (int t = 0; t < nthreads; ++t) if (enabled(t)) mask |= 1u << t;
	if (!mask) {
		for (int t = 0; t < nthreads; ++t) if (!finished[t]) fail("deadlock%s%s (%p)", waitingFor[t]);
		return;
	}
	int n = sh->points, next;
	if (n >= MaxTrace) fail("too many synchronisations%s%s%p");
	if (n < (int)wanted->size()) next = (*wanted)[n];
	else if (me >= 0 && (mask >> me & 1)) next = me;
	else next = __builtin_ctz(mask);
	if (!(mask >> next & 1)) fail("the schedule cannot be followed: the execution is not deterministic%s%s%p");
	sh->trace[n] = {(unsigned char)mask, (unsigned char)next, (unsigned char)(me < 0 ? 255 : me), (unsigned char)what};
	sh->points = n + 1;
	if (getenv("SCHED_TRACE")) { char b[300]; fprintf(stderr, "  point %d kind %d thread %d -> %d, in %s at %p\n", n, what, me, next, nameOf(at, b, sizeof b), at); }
	if (next == me) return;
	int self = me;
	sem_post(&sems[next]);
	if (self >= 0 && !finished[self]) while (sem_wait(&sems[self])) {}
}
void acquireLock(const void* a) {
	point(1, a);
	for (;;) {
		Sync& s = syncOf(a);
		if (s.owner < 0) { s.owner = me; join(clocks[me], s.vc); return; }
		if (s.owner == me) fail("a thread waits for itself%s%s (%p)", a);
		waitingFor[me] = a;
		point(2);
		waitingFor[me] = nullptr;
	}
}
void releaseLock(const void* a) {
	Sync& s = syncOf(a);
	join(s.vc, clocks[me]);
	++clocks[me].c[me];
	s.owner = -1;
	// no point: what a release enables happens no later at the next acquisition of any thread
	published[me] = arenaAt[me];
}

} // namespace

// ---- allocation --------------------------------------------------------------------------------------------------
namespace {
void* take(size_t n, size_t al = 16) {
	if (me < 0) return al > 16 ? aligned_alloc(al, (n + al - 1) / al * al) : malloc(n ? n : 1);
	char* p = (char*)(((uintptr_t)arenaAt[me] + 16 + al - 1) & ~(uintptr_t)(al - 1));
	((size_t*)p)[-1] = n;
	arenaAt[me] = p + n;
	if (arenaAt[me] > arena[me] + ArenaSize) return nullptr;
	return p;
}
bool inArena(const void* p) {
	for (int t = 0; t < nthreads; ++t) if ((char*)p >= arena[t] && (char*)p < arena[t] + ArenaSize) return true;
	return false;
}
void give(void* p) {
	if (!p) return;
	if (me < 0) { if (!inArena(p)) free(p); return; }
	access(p, inArena(p) ? ((size_t*)p)[-1] : malloc_usable_size(p), true, __builtin_return_address(0));
}
}
void* operator new(size_t n) { void* p = take(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, std::align_val_t a) { void* p = take(n, (size_t)a); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n, std::align_val_t a) { return operator new(n, a); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return take(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return take(n); }
void operator delete(void* p) noexcept { give(p); }
void operator delete[](void* p) noexcept { give(p); }
void operator delete(void* p, size_t) noexcept { give(p); }
void operator delete[](void* p, size_t) noexcept { give(p); }
void operator delete(void* p, std::align_val_t) noexcept { give(p); }
void operator delete[](void* p, std::align_val_t) noexcept { give(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { give(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { give(p); }

extern "C" void* __real_malloc(size_t);
extern "C" void __real_free(void*);
extern "C" void* __wrap_malloc(size_t n) { return me < 0 ? __real_malloc(n) : take(n); }
extern "C" void __wrap_free(void* p) { if (me < 0) { if (p && !inArena(p)) __real_free(p); } else give(p); }
extern "C" void* __wrap_calloc(size_t a, size_t b) { void* p = __wrap_malloc(a * b); if (p) __real_memset(p, 0, a * b); return p; }
extern "C" void* __wrap_realloc(void* p, size_t n) {
	void* q = __wrap_malloc(n);
	if (p && q) {
		size_t o = inArena(p) ? ((size_t*)p)[-1] : malloc_usable_size(p);
		__real_memcpy(q, p, o < n ? o : n);
		__wrap_free(p);
	}
	return q;
}

// ---- hooks of the instrumentation --------------------------------------------------------------------------------
#define PC __builtin_return_address(0)
HOOK void __tsan_init() {}
HOOK void __tsan_func_entry(void*) {}
HOOK void __tsan_func_exit() {}
#define RW(n) \
	HOOK void __tsan_read##n(void* p) { access(p, n, false, PC); } \
	HOOK void __tsan_write##n(void* p) { access(p, n, true, PC); } \
	HOOK void __tsan_volatile_read##n(void* p) { access(p, n, false, PC); } \
	HOOK void __tsan_volatile_write##n(void* p) { access(p, n, true, PC); } \
	HOOK void __tsan_unaligned_read##n(void* p) { access(p, n, false, PC); } \
	HOOK void __tsan_unaligned_write##n(void* p) { access(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
HOOK void __tsan_read_range(void* p, size_t n) { access(p, n, false, PC); }
HOOK void __tsan_write_range(void* p, size_t n) { access(p, n, true, PC); }
HOOK void __tsan_vptr_update(void** p, void* v) { if (*p != v) access(p, 8, true, PC); }
HOOK void __tsan_vptr_read(void** p) { access(p, 8, false, PC); }
HOOK void* __wrap_memcpy(void* d, const void* s, size_t n) { access(s, n, false, PC); access(d, n, true, PC); return __real_memcpy(d, s, n); }
HOOK void* __wrap_memmove(void* d, const void* s, size_t n) { access(s, n, false, PC); access(d, n, true, PC); return __real_memmove(d, s, n); }
HOOK void* __wrap_memset(void* d, int c, size_t n) { access(d, n, true, PC); return __real_memset(d, c, n); }
HOOK int __wrap_memcmp(const void* a, const void* b, size_t n) { access(a, n, false, PC); access(b, n, false, PC); return __real_memcmp(a, b, n); }

// atomics: a point before each one, unless only one thread can have reached the object so far
namespace {
bool acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
bool isGuard(const void* p);
/// load: 1, store: 2, both: 3
void atomicOp(const volatile void* vp, size_t n, int kind, int mo) {
	const void* p = (const void*)vp;
	if (me < 0 || own(p)) return;
	if (kind == 1 && isGuard(p)) { join(clocks[me], syncOf(p).vc); return; }  // what follows a load of 0 is a point itself
	// allocated since this thread last released anything: no other thread can know of it
	bool private_ = (char*)p >= arena[me] && (char*)p >= published[me] && (char*)p < arena[me] + ArenaSize;
	if (private_ && !findSync(p)->shared) return;
	point(4, p);
	Sync& s = syncOf(p);
	s.shared = true;
	// unordered plain accesses of others are races; a plain access by another thread later is seen through the cell
	for (size_t i = 0; i < n; ++i) {
		uintptr_t a = (uintptr_t)p + i;
		Cell& c = cellOf(a);
		for (int u = 0; u < nthreads; ++u)
			if (u != me && (c.w[u] > clocks[me].c[u] || (kind != 1 && c.r[u] > clocks[me].c[u]))) race("atomic operation", p, __builtin_return_address(0), u);
	}
	if ((kind & 1) && acq(mo)) join(clocks[me], s.vc);
	if (kind & 2) {
		if (kind == 2) s.vc = VC();
		if (rel(mo)) { join(s.vc, clocks[me]); ++clocks[me].c[me]; published[me] = arenaAt[me]; }
	}
}
}
#define ATOMICS(B, T) \
	HOOK T __tsan_atomic##B##_load(const volatile T* p, int mo) { atomicOp(p, B / 8, 1, mo); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
	HOOK void __tsan_atomic##B##_store(volatile T* p, T v, int mo) { atomicOp(p, B / 8, 2, mo); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
	HOOK T __tsan_atomic##B##_exchange(volatile T* p, T v, int mo) { atomicOp(p, B / 8, 3, mo); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
	HOOK T __tsan_atomic##B##_fetch_add(volatile T* p, T v, int mo) { atomicOp(p, B / 8, 3, mo); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
	HOOK T __tsan_atomic##B##_fetch_sub(volatile T* p, T v, int mo) { atomicOp(p, B / 8, 3, mo); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
	HOOK T __tsan_atomic##B##_fetch_and(volatile T* p, T v, int mo) { atomicOp(p, B / 8, 3, mo); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
	HOOK T __tsan_atomic##B##_fetch_or(volatile T* p, T v, int mo) { atomicOp(p, B / 8, 3, mo); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
	HOOK T __tsan_atomic##B##_fetch_xor(volatile T* p, T v, int mo) { atomicOp(p, B / 8, 3, mo); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
	HOOK T __tsan_atomic##B##_fetch_nand(volatile T* p, T v, int mo) { atomicOp(p, B / 8, 3, mo); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
	HOOK int __tsan_atomic##B##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int) { atomicOp(p, B / 8, 3, mo); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
	HOOK int __tsan_atomic##B##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int) { atomicOp(p, B / 8, 3, mo); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
	HOOK T __tsan_atomic##B##_compare_exchange_val(volatile T* p, T e, T v, int mo, int) { atomicOp(p, B / 8, 3, mo); __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
ATOMICS(8, uint8_t) ATOMICS(16, uint16_t) ATOMICS(32, uint32_t) ATOMICS(64, uint64_t)
HOOK void __tsan_atomic_thread_fence(int) {}
HOOK void __tsan_atomic_signal_fence(int) {}

// the C++ runtime's own allocations are reused: what was known about their bytes is void
extern "C" void* __real___cxa_allocate_exception(size_t) noexcept;
extern "C" void* __wrap___cxa_allocate_exception(size_t n) noexcept {
	char* p = (char*)__real___cxa_allocate_exception(n);
	if (me >= 0)
		for (size_t i = 0; i < n; ++i) page((uintptr_t)(p + i) >> PageBits)[(uintptr_t)(p + i) & (PageSize - 1)] = Cell();
	return p;
}

// ---- guards of function-local statics ----------------------------------------------------------------------------
namespace { 
const void** guards = nullptr; int nguards = 0;
enum { MaxGuards = 4096 };
bool isGuard(const void* p) {
	// A guard is a zero-initialised 8-byte object whose first byte is loaded; those seen in __cxa_guard_acquire are
	// known, and a load before that acquires nothing.
	for (int i = 0; i < nguards; ++i) if (guards[i] == p) return true;
	Dl_info i;
	if (!dladdr(p, &i) || !i.dli_sname || strncmp(i.dli_sname, "_ZGV", 4)) return false;
	if (nguards < MaxGuards) guards[nguards++] = p;
	return true;
}
void knowGuard(const void* p) {
	for (int i = 0; i < nguards; ++i) if (guards[i] == p) return;
	if (!guards || nguards == MaxGuards) return;
	guards[nguards++] = p;
}
}
HOOK int __cxa_guard_acquire(char* g) {
	if (me < 0) {
		if (*g) return 0;
		if (g[1]) { fprintf(stderr, "recursive initialisation\n"); abort(); }
		g[1] = 1;
		return 1;
	}
	knowGuard(g);
	acquireLock(g);
	if (*g) {
		Sync& s = syncOf(g);
		s.owner = -1;
		return 0;
	}
	return 1;
}
HOOK void __cxa_guard_release(char* g) {
	*g = 1; g[1] = 0;
	if (me >= 0) releaseLock(g);
}
HOOK void __cxa_guard_abort(char* g) {
	g[1] = 0;
	if (me >= 0) releaseLock(g);
}

// ---- mutexes and once-flags, should the library use them ---------------------------------------------------------
HOOK int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { if (me >= 0) acquireLock(m); return 0; }
HOOK int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) {
	if (me < 0) return 0;
	point(1);
	if (syncOf(m).owner >= 0) return 16;
	Sync& s = syncOf(m); s.owner = me; join(clocks[me], s.vc);
	return 0;
}
HOOK int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { if (me >= 0) releaseLock(m); return 0; }
HOOK int __wrap_pthread_once(pthread_once_t* o, void (*f)()) {
	if (me < 0) { if (!*(int*)o) { *(int*)o = 2; f(); } return 0; }
	acquireLock(o);
	if (!*(int*)o) { f(); *(int*)o = 2; }
	releaseLock(o);
	return 0;
}

// ---- one execution -----------------------------------------------------------------------------------------------
namespace {
struct Start { int num; const sched::Body* body; void* arg; char *lo, *hi; };
void* threadMain(void* p) {
	Start& s = *(Start*)p;
	stackLo = s.lo; stackHi = s.hi;
	while (sem_wait(&sems[s.num])) {}
	me = s.num;
	{
		std::string r;
		try { r = (*s.body)(s.arg); }
		catch (const std::exception& e) { r = std::string("exception ") + e.what(); }
		catch (...) { r = "exception"; }
		size_t n = r.size() < OutSize ? r.size() : OutSize;
		sh->outLen[s.num] = (int)n;
		__real_memcpy(sh->out[s.num], r.data(), n);
	}
	finished[s.num] = true;
	point(5);
	me = -1;
	return nullptr;
}
}

sched::Outcome sched::execute(const Setup& setup, const std::vector<Body>& bodies, const std::vector<int>& schedule) {
	static Shared* area = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	area->done = 0; area->points = 0; area->error[0] = 0; area->accesses = 0;
	Outcome o;
	int pid = fork();
	if (pid < 0) { o.error = "fork failed"; return o; }
	if (!pid) {
		sh = area;
		rlimit rl{60, 60};
		setrlimit(RLIMIT_CPU, &rl);
		void* arg = setup ? setup() : nullptr;
		wanted = &schedule;
		nthreads = (int)bodies.size();
		table = (Page*)reserve(sizeof(Page) * TableSize);
		size_t poolSize = size_t(1) << 33;
		pool = (char*)reserve(poolSize); poolEnd = pool + poolSize;
		syncs = (Sync*)reserve(sizeof(Sync) * MaxSync);
		guards = (const void**)reserve(sizeof(void*) * MaxGuards);
		std::vector<Start> st(nthreads);
		std::vector<pthread_t> th(nthreads);
		for (int t = 0; t < nthreads; ++t) {
			arenaAt[t] = arena[t] = (char*)reserve(ArenaSize);
			arenaCells[t] = (Cell*)reserve(ArenaSize / 8 * sizeof(Cell));
			clocks[t].c[t] = 1;
			sem_init(&sems[t], 0, 0);
			size_t ss = 8 << 20;
			char* stk = (char*)reserve(ss);
			st[t] = {t, &bodies[t], arg, stk, stk + ss};
			pthread_attr_t at;
			pthread_attr_init(&at);
			pthread_attr_setstack(&at, stk, ss);
			if (pthread_create(&th[t], &at, threadMain, &st[t])) fail("no threads%s%s%p");
		}
		point(0);
		for (int t = 0; t < nthreads; ++t) pthread_join(th[t], nullptr);
		sh->accesses = accesses;
		sh->done = 1;
		_exit(0);
	}
	int status = 0;
	while (waitpid(pid, &status, 0) < 0) {}
	o.accesses = area->accesses;
	o.trace.assign(area->trace, area->trace + area->points);
	if (area->error[0]) o.error = area->error;
	else if (WIFSIGNALED(status)) o.error = "a thread ends the process with signal " + std::to_string(WTERMSIG(status));
	else if (!area->done) o.error = "the process ends early with status " + std::to_string(WEXITSTATUS(status));
	else for (size_t t = 0; t < bodies.size(); ++t) o.out.push_back(std::string(area->out[t], area->outLen[t]));
	return o;
}
