// Simulator core: heap, shadow memory, happens-before tracking, scheduler, fault injection,
// and the interposed seams (locks, static-init guards, operator new, clocks, file I/O).
// This file is compiled WITHOUT -fsanitize=thread.
#include "runtime.h"

#include <cerrno>
#include <climits>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <cxxabi.h>
#include <dirent.h>
#include <dlfcn.h>
#include <exception>
#include <fcntl.h>
#include <linux/futex.h>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <unistd.h>

extern "C" char __data_start, _end;

namespace sim {

const char* const fault_names[F_KINDS] = {
	"alloc_failure", "thread_stall", "weak_cas_spurious", "open_error", "short_read", "read_eintr", "read_eio",
	"short_write", "write_eintr", "write_error", "disk_full", "clock_backwards", "clock_forwards", "fp_rounding_mode", "client_failure"};

std::uint64_t mix(std::uint64_t a, std::uint64_t b) {
	std::uint64_t z = a * 0x9e3779b97f4a7c15ull + b + 0x7f4a7c159e3779b9ull;
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}

// ======================================================================= heap
// A bump allocator with size classes at a fixed address: addresses are a function of the
// allocation history only. In quarantine mode freed blocks are never handed out again, so a
// late access to one is caught by the shadow flags.
static constexpr std::uintptr_t HEAP_BASE = 0x100000000000ull;
static constexpr std::size_t HEAP_SIZE = 512ull << 20;
static constexpr std::uintptr_t QHEAP_BASE = 0x140000000000ull;
static constexpr std::size_t QHEAP_SIZE = 2048ull << 20;
static constexpr std::uintptr_t SHADOW_BASE = 0x180000000000ull;
static constexpr std::uintptr_t DSHADOW_BASE = 0x1c0000000000ull;
static constexpr std::uintptr_t STACK_BASE = 0x300000000000ull;
static constexpr std::size_t STACK_SIZE = 16ull << 20;

struct Cell {
	std::uint32_t wclk;
	std::uint32_t wpc;
	std::uint32_t rclk[MAXT];
	std::uint32_t rpc;
	std::uint8_t rmask[MAXT];
	std::uint8_t wtid;
	std::uint8_t wmask;
	std::uint8_t flags; // 1 = freed, 2 = redzone
	std::uint8_t pad[3];
};
enum { FL_FREED = 1, FL_RED = 2 };
static_assert(sizeof(Cell) == 48, "");

static std::uintptr_t data_lo, data_hi;

struct Hdr {
	std::uint32_t size; // requested size
	std::uint32_t cls;  // size class or 0xff: no reuse
	std::uint64_t next; // free list / magic
};
static_assert(sizeof(Hdr) == 16, "");
static constexpr std::uint64_t LIVE = 0x4c49564c4956u, DEAD = 0x44454144ull << 32;

struct Arena {
	std::uintptr_t base = 0, cur = 0, end = 0;
	std::uintptr_t freel[128] = {};
};
[[noreturn]] static void memory_exhausted();
static Arena heapA, heapQ;
static bool heap_ready = false;
static volatile int heap_lock = 0;
static bool quarantine = false; // set per run

static void die(const char* m) {
	syscall(SYS_write, 2, m, strlen(m));
	_exit(97);
}

static void map_fixed(std::uintptr_t a, std::size_t n) {
	void* p = mmap((void*)a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
	if (p != (void*)a) die("sim: cannot map region\n");
}

static void heap_init() {
	heap_ready = true;
	map_fixed(HEAP_BASE, HEAP_SIZE);
	map_fixed(QHEAP_BASE, QHEAP_SIZE);
	map_fixed(SHADOW_BASE, HEAP_SIZE / 8 * sizeof(Cell));
	data_lo = (std::uintptr_t)&__data_start & ~7ull;
	data_hi = ((std::uintptr_t)&_end + 7) & ~7ull;
	map_fixed(DSHADOW_BASE, (((data_hi - data_lo) / 8 * sizeof(Cell)) + 8191) & ~4095ull);
	heapA.base = heapA.cur = HEAP_BASE;
	heapA.end = HEAP_BASE + HEAP_SIZE;
	heapQ.base = heapQ.cur = QHEAP_BASE;
	heapQ.end = QHEAP_BASE + QHEAP_SIZE;
}

static inline Cell* cell_of(std::uintptr_t a) {
	if (a - HEAP_BASE < HEAP_SIZE) return (Cell*)SHADOW_BASE + (a - HEAP_BASE) / 8;
	if (a >= data_lo && a < data_hi) return (Cell*)DSHADOW_BASE + (a - data_lo) / 8;
	return nullptr;
}

static inline unsigned class_of(std::size_t n, std::size_t& rounded) {
	if (n <= 1024) {
		unsigned c = unsigned((n + 15) / 16);
		if (c == 0) c = 1;
		rounded = c * 16;
		return c;
	}
	unsigned c = 65;
	rounded = 2048;
	while (rounded < n) {
		rounded *= 2;
		++c;
	}
	return c;
}

// ======================================================================= simulator state
__thread Task* tl_self = nullptr;
static __thread int tl_raw = 0; // >0: inside the runtime itself

Global G;

// Before main() everything is allocated in the tracked heap, because static objects of the
// system under test are created then; afterwards the driver itself uses the untracked heap.
bool driver_mode = false;
static inline bool is_quiet() { return tl_self == nullptr ? (driver_mode || tl_raw > 0) : (tl_self->quiet > 0 || tl_raw > 0); }

static void* arena_alloc(std::size_t n, std::size_t align) {
	while (__sync_lock_test_and_set(&heap_lock, 1)) {}
	if (!heap_ready) heap_init();
	bool q = is_quiet();
	Arena& A = q ? heapQ : heapA;
	std::size_t rounded;
	unsigned c = class_of(n, rounded);
	std::uintptr_t user;
	if (align <= 16 && A.freel[c]) {
		user = A.freel[c];
		Hdr* h = (Hdr*)(user - 16);
		A.freel[c] = h->next & ~DEAD;
		h->size = (std::uint32_t)n;
		h->next = LIVE;
	} else {
		std::uintptr_t p = A.cur + 16;
		if (align > 16) p = (p + align - 1) & ~(align - 1);
		if (p + rounded + 32 > A.end) {
			__sync_lock_release(&heap_lock);
			if (G.in_child) {
				if (!q) memory_exhausted();
				G.res->status = ST_ERROR;
				snprintf(G.res->cls, sizeof G.res->cls, "heap-exhausted");
				_exit(98);
			}
			die("sim: heap exhausted\n");
		}
		user = p;
		Hdr* h = (Hdr*)(user - 16);
		h->size = (std::uint32_t)n;
		h->cls = align > 16 ? 0xff : c;
		h->next = LIVE;
		A.cur = user + rounded;
		if (!q) {
			Cell* hc = cell_of(user - 16);
			hc[0].flags = FL_RED;
			hc[1].flags = FL_RED;
		}
	}
	if (!q) {
		Cell* c0 = cell_of(user);
		std::size_t used = (n + 7) / 8, all = rounded / 8;
		if (G.in_child) memset(c0, 0, used * sizeof(Cell));
		else for (std::size_t i = 0; i < used; ++i) c0[i].flags = 0;
		for (std::size_t i = used; i < all; ++i) c0[i].flags = FL_RED;
	}
	__sync_lock_release(&heap_lock);
	return (void*)user;
}

static void access_range(std::uintptr_t a, std::size_t n, bool w, void* pc, bool isfree);

static void arena_free(void* p, void* pc) {
	if (p == nullptr) return;
	std::uintptr_t u = (std::uintptr_t)p;
	bool main = u - HEAP_BASE < HEAP_SIZE;
	if (!main && !(u - QHEAP_BASE < QHEAP_SIZE)) {
		if (G.in_child) fail("bad-free", "free of a pointer that is not from the heap");
		return;
	}
	Hdr* h = (Hdr*)(u - 16);
	if (h->next != LIVE) {
		if (G.in_child && main) fail("double-free", "block freed twice");
		return;
	}
	if (main && tl_self && tl_self->quiet == 0 && tl_raw == 0 && G.in_child) access_range(u, h->size, true, pc, true);
	while (__sync_lock_test_and_set(&heap_lock, 1)) {}
	std::size_t rounded;
	class_of(h->size ? h->size : 1, rounded);
	Arena& A = main ? heapA : heapQ;
	if (main) {
		Cell* c0 = cell_of(u);
		for (std::size_t i = 0, k = (h->size + 7) / 8; i < k; ++i) c0[i].flags |= FL_FREED;
	}
	if (h->cls == 0xff || (main && quarantine && h->size < (1u << 20))) {
		h->next = DEAD;
		// poison, so uninstrumented readers see garbage instead of plausible data
		if (main && quarantine) memset(p, 0xdb, h->size);
	} else {
		h->next = A.freel[h->cls] | DEAD;
		A.freel[h->cls] = u;
	}
	__sync_lock_release(&heap_lock);
}

// ======================================================================= tracing and verdicts
static inline void hash_in(std::uint64_t v) { G.res->hash = mix(G.res->hash, v); }

static void store_stack() {
	Task* t = tl_self;
	Res* r = G.res;
	r->nstack = 0;
	if (!t) return;
	for (int i = t->cs_n - 1; i >= 0 && r->nstack < 24; --i)
		if (i < Task::CSMAX) r->stack[r->nstack++] = (std::uint32_t)(std::uintptr_t)t->cs[i];
}

[[noreturn]] static void finish_child(int status, const char* cls, const char* msg) {
	Res* r = G.res;
	if (r->status == ST_RUNNING) {
		r->status = status;
		snprintf(r->cls, sizeof r->cls, "%s", cls);
		snprintf(r->msg, sizeof r->msg, "%s", msg);
		Task* t = tl_self;
		r->fail_task = t ? t->id : -1;
		r->fail_op = t ? t->op : -1;
		store_stack();
		r->steps = G.gstep;
		r->simns = G.mono_extra + (std::int64_t)G.gstep * 10;
		r->heap = heapA.cur - heapA.base;
		hash_in(mix(status, G.gstep));
	}
	_exit(0);
}
[[noreturn]] static void memory_exhausted() { finish_child(ST_VIOLATION, "memory-exhausted", "the run used up its memory of 512 MB"); }

void fail(const char* cls, const std::string& msg) { finish_child(ST_VIOLATION, cls, msg.c_str()); }
static void failf(const char* cls, const char* fmt, ...) {
	char b[1024];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(b, sizeof b, fmt, ap);
	va_end(ap);
	finish_child(ST_VIOLATION, cls, b);
}
void harness_error(const std::string& msg) { finish_child(ST_ERROR, "harness", msg.c_str()); }

void observe(std::uint64_t h) { if (G.in_child) hash_in(h); }
void state(std::uint64_t h) {
	if (!G.in_child) return;
	Res* r = G.res;
	if (r->nstates < Res::MAXSTATES) r->states[r->nstates++] = h;
}
void reach(const char* lit) {
	if (!G.in_child) return;
	Res* r = G.res;
	for (int i = 0; i < r->nprobes; ++i)
		if (r->probes[i].name == lit) {
			++r->probes[i].count;
			return;
		}
	if (r->nprobes < Res::MAXPROBES) r->probes[r->nprobes++] = {lit, 1};
}
int self() { return tl_self ? tl_self->id : 0; }
bool verbose() { return G.verbose; }
bool parallel_phase() { return G.parallel; }
void log_line(const std::string& s) {
	if (!G.verbose) return;
	char b[2048];
	Task* t = tl_self;
	int n = snprintf(b, sizeof b, "  [T%d op%d step%llu] %s\n", t ? t->id : 0, t ? t->op : 0, (unsigned long long)(t ? t->step : 0), s.c_str());
	if (n > (int)sizeof b) n = sizeof b;
	syscall(SYS_write, 2, b, (size_t)n);
}

// ======================================================================= scheduler
static void futex_wait(volatile int* a, int v) { syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0); }
static void futex_wake(volatile int* a) { syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

static bool runnable(int i) { return G.tasks[i].state == T_RUN; }

static void set_stop(Task* t) {
	std::uint64_t limit = t->step + 500000;
	std::uint64_t s = limit;
	t->slice_start = t->step;
	t->stop_random = false;
	switch (G.policy) {
	case P_RANDOM:
		if (G.p_access > 0) {
			// geometric distance
			double u = (G.sched.next() >> 11) * (1.0 / 9007199254740992.0);
			double d = __builtin_log(1.0 - u) / __builtin_log(1.0 - G.p_access);
			if (d < 400000) {
				s = t->step + 1 + (std::uint64_t)d;
				t->stop_random = true;
			}
		}
		break;
	case P_PCT:
		if (G.ncp > 0 && G.cp[G.ncp - 1] > G.gstep) {
			std::uint64_t d = G.cp[G.ncp - 1] - G.gstep;
			if (t->step + d < s) s = t->step + d;
		} else if (G.ncp > 0) s = t->step + 1;
		break;
	case P_TRACE: {
		const Switch* e = t->tr_next < t->tr_n ? t->tr[t->tr_next] : nullptr;
		if (e && !e->forced && e->op == t->op && e->step > t->step && e->step < s) s = e->step;
		break;
	}
	default: break;
	}
	t->stop = s;
}

static void record_switch(Task* t, int to, bool forced) {
	Res* r = G.res;
	if (r->nsw < Res::MAXSW) r->sw[r->nsw++] = Switch{(std::uint8_t)t->id, (std::uint8_t)to, (std::uint8_t)forced, t->op, t->step};
	else G.sw_overflow = true;
	std::uint64_t h = mix(mix(t->id * 64 + to, t->op), t->step);
	r->swhash = mix(r->swhash, h);
	hash_in(h);
	++G.nswitch;
	if (!forced && t->in_op) ++r->preempt_in_op;
	if (G.verbose) {
		char b[160];
		int n = snprintf(b, sizeof b, "  -- switch T%d (op %d, step %llu) -> T%d%s\n", t->id, t->op, (unsigned long long)t->step, to, forced ? " (blocked/done)" : "");
		syscall(SYS_write, 2, b, (size_t)n);
	}
}

static void transfer(Task* from, Task* to) {
	G.cur = to->id;
	to->go = 1;
	futex_wake(&to->go);
	while (from->go == 0) futex_wait(&from->go, 0);
	from->go = 0;
}

static int pick_random(Task* t, bool forced) {
	int c[MAXT], n = 0;
	for (int i = 1; i <= G.ntasks; ++i)
		if (i != t->id && runnable(i) && G.tasks[i].stall_until <= G.nswitch) c[n++] = i;
	if (n == 0)
		for (int i = 1; i <= G.ntasks; ++i)
			if (i != t->id && runnable(i)) c[n++] = i;
	if (n == 0) return -1;
	(void)forced;
	return c[G.sched.below(n)];
}
static int pick_prio(Task* t, bool forced) {
	int best = -1;
	for (int i = 1; i <= G.ntasks; ++i) {
		if (!runnable(i)) continue;
		if (forced && i == t->id) continue;
		if (best < 0 || G.prio[i] > G.prio[best]) best = i;
	}
	return best;
}
static int pick_lowest(Task* t) {
	for (int i = 1; i <= G.ntasks; ++i)
		if (i != t->id && runnable(i)) return i;
	return -1;
}

static void trace_skip(Task* t) {
	// drop entries that lie behind the current position
	while (t->tr_next < t->tr_n) {
		const Switch* e = t->tr[t->tr_next];
		if (e->op < t->op || (e->op == t->op && e->step < t->step)) ++t->tr_next;
		else break;
	}
}

static void do_switch(Task* t, int to, bool forced) {
	record_switch(t, to, forced);
	transfer(t, &G.tasks[to]);
	set_stop(t);
}

static void check_caps() {
	if (G.gstep > G.cfg.step_cap) failf("livelock", "no completion within %llu simulated steps", (unsigned long long)G.cfg.step_cap);
}

// Called when the step counter of the running task reaches its stop.
static void slow_point(Task* t) {
	check_caps();
	if (!G.parallel || t->atomic > 0 || !G.cfg.preempt) {
		t->stop = t->step + 500000;
		return;
	}
	switch (G.policy) {
	case P_RANDOM: {
		if (G.sw_overflow || G.res->nsw + 64 >= Res::MAXSW) {
			t->stop = t->step + 500000;
			return;
		}
		bool hit = t->stop_random || t->step - t->slice_start >= 500000;
		if (hit) {
			int to = pick_random(t, false);
			if (to >= 0) {
				if (G.cfg.rate[F_STALL] > 0 && G.sched.chance(G.cfg.rate[F_STALL])) {
					t->stall_until = G.nswitch + 2 + G.sched.below(60);
					++G.res->faults[F_STALL];
				}
				do_switch(t, to, false);
				return;
			}
		}
		set_stop(t);
		return;
	}
	case P_PCT: {
		if (G.ncp > 0 && G.cp[G.ncp - 1] <= G.gstep) {
			--G.ncp;
			G.prio[t->id] = --G.low_prio;
			int to = pick_prio(t, false);
			if (to >= 0 && to != t->id) {
				do_switch(t, to, false);
				return;
			}
		} else if (t->step - t->slice_start >= 500000) {
			// fairness: code that spins must not starve the others
			G.prio[t->id] = --G.low_prio;
			int to = pick_prio(t, false);
			if (to >= 0 && to != t->id) {
				do_switch(t, to, false);
				return;
			}
		}
		set_stop(t);
		return;
	}
	case P_TRACE: {
		trace_skip(t);
		const Switch* e = t->tr_next < t->tr_n ? t->tr[t->tr_next] : nullptr;
		if (e && !e->forced && e->op == t->op && e->step == t->step) {
			++t->tr_next;
			if (e->to != t->id && runnable(e->to)) {
				do_switch(t, e->to, false);
				return;
			}
		}
		set_stop(t);
		return;
	}
	default: t->stop = t->step + 500000; return;
	}
}

static inline void event(Task* t) {
	++G.gstep;
	if (++t->step >= t->stop) slow_point(t);
}

// Synchronisation operations are preferred places to preempt.
static void sync_event(Task* t) {
	++G.gstep;
	++t->step;
	if (G.policy == P_RANDOM && G.parallel && t->atomic == 0 && G.cfg.preempt && !G.sw_overflow && G.res->nsw + 64 < Res::MAXSW && G.p_sync > 0 && G.sched.chance(G.p_sync)) {
		int to = pick_random(t, false);
		if (to >= 0) {
			do_switch(t, to, false);
			return;
		}
	}
	if (t->step >= t->stop) slow_point(t);
}

void yield() {
	if (Task* t = tl_self; t && !is_quiet()) sync_event(t);
}

// The running task cannot continue.
static void block(Task* t) {
	++G.gstep;
	++t->step;
	check_caps();
	int to = -1;
	switch (G.policy) {
	case P_PCT: to = pick_prio(t, true); break;
	case P_TRACE: {
		trace_skip(t);
		const Switch* e = t->tr_next < t->tr_n ? t->tr[t->tr_next] : nullptr;
		if (e && e->forced && e->op == t->op && e->step == t->step) {
			++t->tr_next;
			if (e->to != t->id && e->to != 0 && runnable(e->to)) to = e->to;
		}
		if (to < 0) to = pick_lowest(t);
		break;
	}
	case P_RANDOM: to = pick_random(t, true); break;
	default: to = pick_lowest(t); break;
	}
	if (to < 0) {
		bool all_done = true;
		for (int i = 1; i <= G.ntasks; ++i)
			if (G.tasks[i].state != T_DONE) all_done = false;
		if (all_done && G.parallel) to = 0;
		else {
			char b[512];
			int n = 0;
			for (int i = 0; i <= G.ntasks; ++i)
				if (G.tasks[i].state == T_BLOCKED) n += snprintf(b + n, sizeof b - n, "T%d (op %d) waits for lock %p; ", i, G.tasks[i].op, G.tasks[i].wait);
			failf("deadlock", "no thread can run: %s", n ? b : "?");
		}
	}
	do_switch(t, to, true);
}

static void wake_waiters(void* a) {
	for (int i = 0; i <= G.ntasks; ++i)
		if (G.tasks[i].state == T_BLOCKED && G.tasks[i].wait == a) {
			G.tasks[i].state = T_RUN;
			G.tasks[i].wait = nullptr;
		}
}

// ======================================================================= sync objects
struct Sync {
	void* addr;
	int owner; // -1 none
	int count;
	int readers;
	std::uint32_t vc[MAXT];
	bool used;
};
static constexpr std::size_t NSYNC = 1 << 18;
static Sync* syncs;
static std::size_t nsync;

static Sync* get_sync(void* a, bool create) {
	std::size_t i = mix((std::uint64_t)a, 17) & (NSYNC - 1);
	while (syncs[i].used) {
		if (syncs[i].addr == a) return &syncs[i];
		i = (i + 1) & (NSYNC - 1);
	}
	if (!create) return nullptr;
	if (++nsync > NSYNC * 3 / 4) finish_child(ST_ERROR, "harness", "sync table full");
	syncs[i].used = true;
	syncs[i].addr = a;
	syncs[i].owner = -1;
	return &syncs[i];
}
static inline void acquire(Task* t, Sync* s) {
	if (!G.parallel) return;
	for (int i = 0; i < MAXT; ++i)
		if (s->vc[i] > t->vc[i]) t->vc[i] = s->vc[i];
}
static inline void release(Task* t, Sync* s) {
	if (!G.parallel) return;
	for (int i = 0; i < MAXT; ++i)
		if (t->vc[i] > s->vc[i]) s->vc[i] = t->vc[i];
	++t->vc[t->id];
}

// ======================================================================= memory accesses
static void report_bad(std::uintptr_t a, std::size_t n, bool w, int flags, void* pc, bool isfree) {
	const char* what = (flags & FL_FREED) ? "use-after-free" : "out-of-bounds";
	failf(what, "%s of %zu bytes at %p (pc %p)", isfree ? "free" : w ? "write" : "read", n, (void*)a, pc);
}

static inline void access_cell(Task* t, Cell* c, std::uint8_t mask, bool w, void* pc, std::uintptr_t a, std::size_t n, bool isfree) {
	if (__builtin_expect(c->flags != 0, 0)) report_bad(a, n, w, c->flags, pc, isfree);
	if (!G.track) return;
	int me = t->id;
	std::uint32_t my = t->vc[me];
	if ((c->wmask & mask) && c->wtid != me && c->wclk > t->vc[c->wtid])
		failf("data-race", "%s of %p by T%d (op %d) at pc %p races with a write by T%d at pc 0x%x", isfree ? "free" : w ? "write" : "read", (void*)a, me, t->op, pc, c->wtid, c->wpc);
	if (w) {
		for (int i = 0; i < MAXT; ++i)
			if (i != me && (c->rmask[i] & mask) && c->rclk[i] > t->vc[i])
				failf("data-race", "%s of %p by T%d (op %d) at pc %p races with a read by T%d at pc 0x%x", isfree ? "free" : "write", (void*)a, me, t->op, pc, i, c->rpc);
		if (c->wtid == me && c->wclk == my) c->wmask |= mask;
		else {
			c->wmask = mask;
			c->wtid = me;
			c->wclk = my;
		}
		c->wpc = (std::uint32_t)(std::uintptr_t)pc;
	} else {
		if (c->rclk[me] == my) c->rmask[me] |= mask;
		else {
			c->rmask[me] = mask;
			c->rclk[me] = my;
		}
		c->rpc = (std::uint32_t)(std::uintptr_t)pc;
	}
}

static void access_range(std::uintptr_t a, std::size_t n, bool w, void* pc, bool isfree) {
	Task* t = tl_self;
	std::uintptr_t e = a + n;
	for (std::uintptr_t p = a; p < e;) {
		std::uintptr_t q = p & ~7ull;
		std::uintptr_t lim = q + 8 < e ? q + 8 : e;
		Cell* c = cell_of(q);
		if (!c) return;
		std::uint8_t mask = (std::uint8_t)(((1u << (lim - p)) - 1) << (p - q));
		access_cell(t, c, mask, w, pc, a, n, isfree);
		p = lim;
	}
}

static inline void access(void* p, unsigned n, bool w, void* pc) {
	Task* t = tl_self;
	if (__builtin_expect(t == nullptr, 0) || t->quiet > 0) return;
	std::uintptr_t a = (std::uintptr_t)p;
	Cell* c = cell_of(a);
	if (!c) return;
	event(t);
	unsigned off = a & 7;
	if (off + n <= 8) access_cell(t, c, (std::uint8_t)(((1u << n) - 1) << off), w, pc, a, n, false);
	else access_range(a, n, w, pc, false);
}
static inline void access_n(void* p, std::size_t n, bool w, void* pc) {
	Task* t = tl_self;
	if (t == nullptr || t->quiet > 0 || n == 0) return;
	if (!cell_of((std::uintptr_t)p)) return;
	event(t);
	access_range((std::uintptr_t)p, n, w, pc, false);
}

// ======================================================================= faults
static int total_faults[F_KINDS];
std::uint64_t fault(Fault k) {
	Task* t = tl_self;
	if (!t || !G.in_child || is_quiet() || t->faulty == 0) return 0;
	std::uint32_t idx = t->fidx[k]++;
	std::uint64_t val = 0;
	if (G.policy == P_TRACE) {
		for (int i = 0; i < G.ntf; ++i) {
			const FaultRec& f = G.tf[i];
			if (f.kind == k && f.task == t->id && f.op == t->op && f.idx == idx) {
				val = f.val;
				break;
			}
		}
	} else {
		if (G.cfg.rate[k] <= 0 || G.res->nfl >= G.cfg.max_faults || G.res->nfl >= Res::MAXFL) return 0;
		if (G.faultrng.chance(G.cfg.rate[k])) val = 1 + G.faultrng.below(1u << 30);
	}
	if (val) {
		++G.res->faults[k];
		++t->op_faults;
		++t->op_faults_k[k];
		++total_faults[k];
		if (G.res->nfl < Res::MAXFL) G.res->fl[G.res->nfl++] = FaultRec{(std::uint8_t)k, (std::uint8_t)t->id, t->op, idx, val};
		hash_in(mix(mix(k, t->id), mix(t->op, idx)));
		if (G.verbose) {
			char b[160];
			int n = snprintf(b, sizeof b, "  !! fault %s in T%d (op %d, site %u)\n", fault_names[k], t->id, t->op, idx);
			syscall(SYS_write, 2, b, (size_t)n);
		}
	}
	return val;
}
int faults_in_op() { return tl_self ? tl_self->op_faults : 0; }
int faults_so_far(Fault k) { return total_faults[k]; }
int faults_in_op(Fault k) { return tl_self ? tl_self->op_faults_k[k] : 0; }

Quiet::Quiet() { if (tl_self) ++tl_self->quiet; }
Quiet::~Quiet() { if (tl_self) --tl_self->quiet; }
Faulty::Faulty() { if (tl_self) ++tl_self->faulty; }
Faulty::~Faulty() { if (tl_self) --tl_self->faulty; }
Atomic::Atomic() { if (tl_self) ++tl_self->atomic; }
Atomic::~Atomic() { if (tl_self) --tl_self->atomic; }

// ======================================================================= clock and disk state
std::int64_t mono_now() { return 1'000'000'000'000ll + G.mono_extra + (std::int64_t)G.gstep * 10; }
std::int64_t wall_now() { return 1'600'000'000'000'000'000ll + G.wall_off + mono_now(); }
void advance(std::int64_t ns) { G.mono_extra += ns; }
void step_wall(std::int64_t ns) { G.wall_off += ns; }
const char* scratch() {
	// every run starts with an empty disk: files of the previous run of this worker go when the first one is asked for
	static bool clean = false;
	if (!clean && G.in_child && G.scratch && strncmp(G.scratch, "/tmp/vsim", 9) == 0) {
		clean = true;
		++tl_raw;
		if (DIR* d = opendir(G.scratch)) {
			while (dirent* e = readdir(d)) if (e->d_name[0] != '.') unlinkat(dirfd(d), e->d_name, 0);
			closedir(d);
		}
		--tl_raw;
	}
	return G.scratch;
}
void disk_reset() { G.disk_full = false; }
bool disk_full() { return G.disk_full; }
void set_disk_full(bool b) { G.disk_full = b; }

// ======================================================================= running one simulation
static void sig_handler(int s) {
	const char* n = s == SIGSEGV ? "SIGSEGV" : s == SIGBUS ? "SIGBUS" : s == SIGFPE ? "SIGFPE" : s == SIGILL ? "SIGILL" : s == SIGABRT ? "SIGABRT" : s == SIGXCPU ? "SIGXCPU" : "signal";
	if (s == SIGXCPU) {
		// where the signal arrives is not repeatable, so nothing of it enters the verdict
		G.gstep = 0;
		G.res->hash = mix(G.seed, 0x11fe10c);
		finish_child(ST_VIOLATION, "livelock", "no completion within the CPU limit of one run");
	}
	char b[64];
	snprintf(b, sizeof b, "crashed with %s", n);
	finish_child(ST_VIOLATION, "crash", b);
}
static void install_signals() {
	struct sigaction sa;
	memset(&sa, 0, sizeof sa);
	sa.sa_handler = sig_handler;
	sa.sa_flags = SA_ONSTACK | SA_NODEFER;
	for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGXCPU}) sigaction(s, &sa, nullptr);
}
static char altstacks[MAXT][65536];
static void install_altstack(int i) {
	stack_t st;
	memset(&st, 0, sizeof st);
	st.ss_sp = altstacks[i];
	st.ss_size = sizeof altstacks[i];
	sigaltstack(&st, nullptr);
}
static void on_terminate() {
	std::string m = "std::terminate called";
	if (std::type_info* ti = abi::__cxa_current_exception_type()) {
		m += " with active exception of type ";
		m += ti->name();
	}
	finish_child(ST_VIOLATION, "terminate", m.c_str());
}

static void begin_op(Task* t, int op) {
	t->op = op;
	t->step = 0;
	t->slice_start = 0;
	t->cs_n = 0;
	t->op_faults = 0;
	memset(t->op_faults_k, 0, sizeof t->op_faults_k);
	memset(t->fidx, 0, sizeof t->fidx);
	// operation boundary: always a scheduling point
	if (G.policy == P_RANDOM && G.parallel) {
		if (G.sched.chance(G.p_op) && G.res->nsw + 64 < Res::MAXSW) {
			int to = pick_random(t, false);
			if (to >= 0) {
				t->step = 0;
				do_switch(t, to, false);
			}
		}
	} else if (G.policy == P_TRACE) {
		trace_skip(t);
		const Switch* e = t->tr_next < t->tr_n ? t->tr[t->tr_next] : nullptr;
		if (e && !e->forced && e->op == op && e->step == 0) {
			++t->tr_next;
			if (e->to != t->id && runnable(e->to)) do_switch(t, e->to, false);
		}
	}
	set_stop(t);
}

static void guarded(Task* t, Harness* h, int idx, Rng& r) {
	try {
		h->op(t->id, idx, r);
	} catch (const std::exception& e) {
		std::string m = std::string("operation threw an unexpected exception: ") + e.what();
		++t->quiet;
		fail("exception", m);
	} catch (...) {
		fail("exception", "operation threw an unexpected exception");
	}
}

static void task_body(Task* t) {
	Harness* h = G.harness;
	t->cs_n = 0;
	for (int i = 0; i < G.cfg.nops[t->id]; ++i) {
		if (G.mask && G.mask[t->id][i]) continue;
		begin_op(t, i);
		Rng r(mix(mix(G.seed, 100 + t->id), i));
		t->in_op = true;
		guarded(t, h, i, r);
		t->in_op = false;
		++G.res->ops;
		hash_in(mix(t->id * 1000 + i, t->step));
	}
	begin_op(t, G.cfg.nops[t->id]);
	h->task_end(t->id);
	hash_in(mix(t->id, t->step));
}

static void* trampoline(void* p) {
	Task* t = (Task*)p;
	install_altstack(t->id);
	while (t->go == 0) futex_wait(&t->go, 0);
	t->go = 0;
	tl_self = t;
	set_stop(t);
	task_body(t);
	t->state = T_DONE;
	t->op = INT_MAX - 1;
	t->step = 0;
	for (int i = 0; i < MAXT; ++i)
		if (t->vc[i] > G.tasks[0].vc[i]) G.tasks[0].vc[i] = t->vc[i];
	block(t); // never returns: nobody resumes a finished task
	for (;;) pause();
}

void run_child(const RunSpec& spec, Res* res) {
	++tl_raw;
	memset((void*)&G, 0, sizeof G);
	G.res = res;
	G.in_child = true;
	G.seed = spec.seed;
	G.verbose = spec.verbose;
	G.scratch = spec.scratch;
	G.mask = spec.mask;
	res->status = ST_RUNNING;
	res->hash = spec.seed;
	syncs = (Sync*)mmap(nullptr, NSYNC * sizeof(Sync), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	install_altstack(0);
	install_signals();
	std::set_terminate(on_terminate);
	struct rlimit rl = {15, 30};
	setrlimit(RLIMIT_CPU, &rl);
	struct rlimit core = {0, 0};
	setrlimit(RLIMIT_CORE, &core);

	// --- swarm choices of this run
	Rng c(mix(spec.seed, 1));
	bool faults = c.chance(0.5);
	G.faults_enabled = faults;
	quarantine = c.chance(0.8);
	G.sched = Rng(mix(spec.seed, 2));
	G.faultrng = Rng(mix(spec.seed, 3));
	int pol = (int)c.below(10);
	static const double pa[] = {0.2, 0.05, 0.01, 0.003, 0.001, 0.0003, 0.0};
	static const double ps[] = {0.5, 0.2, 0.1, 0.05, 0.02};
	G.p_access = pa[c.below(7)];
	G.p_sync = ps[c.below(5)];
	G.p_op = c.chance(0.5) ? 0.7 : 0.1;
	int d = 1 + (int)c.below(4);
	static const std::uint64_t ks[] = {300, 1500, 6000, 25000, 100000};
	std::uint64_t k = ks[c.below(5)];
	G.policy = pol < 7 ? P_RANDOM : P_PCT;
	if (pol == 0) { G.p_access = 0; G.p_sync = 0; G.p_op = 0.6; } // operation granularity only
	if (G.policy == P_PCT) {
		G.ncp = d;
		for (int i = 0; i < d; ++i) G.cp[i] = 1 + c.below(k);
		for (int i = 0; i < d; ++i)
			for (int j = i + 1; j < d; ++j)
				if (G.cp[j] > G.cp[i]) { auto x = G.cp[i]; G.cp[i] = G.cp[j]; G.cp[j] = x; }
		for (int i = 1; i < MAXT; ++i) G.prio[i] = 100 + i;
		for (int i = MAXT - 1; i > 1; --i) { int j = 1 + (int)c.below(i); int x = G.prio[i]; G.prio[i] = G.prio[j]; G.prio[j] = x; }
		G.low_prio = 50;
	}

	Task* m = &G.tasks[0];
	m->state = T_RUN;
	m->stop = 500000;
	m->vc[0] = 1;
	tl_self = m;
	--tl_raw;

	{
		Quiet q;
		G.harness = make_harness();
		Config cfg;
		Rng cr(mix(spec.seed, 5));
		G.harness->configure(cr, cfg, faults);
		if (!faults) for (double& r : cfg.rate) r = 0;
		if (faults && cfg.ntasks > 1 && c.chance(0.3)) cfg.rate[F_STALL] = 0.1;
		if (faults && c.chance(0.3)) cfg.rate[F_CAS] = 0.05;
		G.cfg = cfg;
	}
	G.ntasks = G.cfg.ntasks;
	for (int t = 1; t < MAXT; ++t) G.res->nops[t] = t <= G.ntasks ? G.cfg.nops[t] : 0;
	if (spec.trace) {
		G.policy = P_TRACE;
		for (int i = 0; i < spec.nsw; ++i) {
			Task& t = G.tasks[spec.sw[i].task];
			++t.tr_n;
		}
		for (int i = 0; i <= G.ntasks; ++i) {
			Task& t = G.tasks[i];
			t.tr = (const Switch**)mmap(nullptr, (t.tr_n + 1) * sizeof(Switch*), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
			t.tr_n = 0;
		}
		for (int i = 0; i < spec.nsw; ++i) {
			Task& t = G.tasks[spec.sw[i].task];
			t.tr[t.tr_n++] = &spec.sw[i];
		}
		G.tf = spec.fl;
		G.ntf = spec.nfl;
	}
	m->op = -1;
	{
		Rng sr(mix(spec.seed, 4));
		try {
			G.harness->setup(sr);
		} catch (const std::exception& e) {
			++m->quiet;
			fail("exception", std::string("setup threw ") + e.what());
		}
	}

	// --- parallel phase
	if (G.ntasks == 1) {
		// one task: runs in its own thread too, but nothing to interleave
	}
	G.track = G.ntasks > 1 && G.cfg.track_races && G.cfg.preempt;
	for (int i = 1; i <= G.ntasks; ++i) {
		Task& t = G.tasks[i];
		t.id = i;
		t.state = T_RUN;
		memcpy(t.vc, m->vc, sizeof t.vc);
		t.vc[i] = 1;
		pthread_attr_t a;
		pthread_attr_init(&a);
		std::uintptr_t sb = STACK_BASE + i * STACK_SIZE;
		map_fixed(sb, STACK_SIZE);
		pthread_attr_setstack(&a, (void*)sb, STACK_SIZE);
		pthread_t th;
		++tl_raw;
		int rc = pthread_create(&th, &a, trampoline, &t);
		--tl_raw;
		if (rc != 0) harness_error("pthread_create failed");
	}
	++m->vc[0];
	G.parallel = true;
	m->op = 0;
	m->step = 0;
	m->state = T_DONE; // not schedulable while tasks run
	// block() treats "all tasks done" specially and resumes main
	block(m);
	G.parallel = false;
	G.track = false;
	m->state = T_RUN;
	m->op = INT_MAX - 2;
	m->step = 0;
	m->stop = 500000;
	try {
		G.harness->finish();
	} catch (const std::exception& e) {
		++m->quiet;
		fail("exception", std::string("final phase threw ") + e.what());
	}
	finish_child(ST_OK, "", "");
}

} // namespace sim

// ======================================================================= seams: heap
using namespace sim;
#define CALLER __builtin_return_address(0)
#define EXPORT extern "C" __attribute__((visibility("default")))

EXPORT void* malloc(size_t n) noexcept { return arena_alloc(n, 16); }
EXPORT void free(void* p) noexcept { arena_free(p, CALLER); }
EXPORT void* calloc(size_t a, size_t b) noexcept {
	void* p = arena_alloc(a * b, 16);
	memset(p, 0, a * b);
	return p;
}
EXPORT void* realloc(void* p, size_t n) noexcept {
	if (!p) return arena_alloc(n, 16);
	Hdr* h = (Hdr*)((std::uintptr_t)p - 16);
	void* q = arena_alloc(n, 16);
	memcpy(q, p, h->size < n ? h->size : n);
	arena_free(p, CALLER);
	return q;
}
EXPORT void* memalign(size_t al, size_t n) noexcept { return arena_alloc(n, al); }
EXPORT void* aligned_alloc(size_t al, size_t n) noexcept { return arena_alloc(n, al); }
EXPORT int posix_memalign(void** o, size_t al, size_t n) noexcept {
	*o = arena_alloc(n, al);
	return 0;
}
EXPORT size_t malloc_usable_size(void* p) noexcept { return p ? ((Hdr*)((std::uintptr_t)p - 16))->size : 0; }

static void* new_impl(std::size_t n, std::size_t al, bool nothrow) {
	Task* t = tl_self;
	if (t && t->quiet == 0 && G.in_child) {
		if (G.parallel) sync_event(t);
		if (fault(F_ALLOC)) {
			if (nothrow) return nullptr;
			throw std::bad_alloc();
		}
	}
	return arena_alloc(n, al);
}
static void del_impl(void* p, void* pc) {
	Task* t = tl_self;
	if (p && t && t->quiet == 0 && G.in_child && G.parallel) sync_event(t);
	arena_free(p, pc);
}
void* operator new(std::size_t n) { return new_impl(n, 16, false); }
void* operator new[](std::size_t n) { return new_impl(n, 16, false); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return new_impl(n, 16, true); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return new_impl(n, 16, true); }
void* operator new(std::size_t n, std::align_val_t a) { return new_impl(n, (std::size_t)a, false); }
void* operator new[](std::size_t n, std::align_val_t a) { return new_impl(n, (std::size_t)a, false); }
void operator delete(void* p) noexcept { del_impl(p, CALLER); }
void operator delete[](void* p) noexcept { del_impl(p, CALLER); }
void operator delete(void* p, std::size_t) noexcept { del_impl(p, CALLER); }
void operator delete[](void* p, std::size_t) noexcept { del_impl(p, CALLER); }
void operator delete(void* p, std::align_val_t) noexcept { del_impl(p, CALLER); }
void operator delete[](void* p, std::align_val_t) noexcept { del_impl(p, CALLER); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { del_impl(p, CALLER); }
void operator delete[](void* p, std::size_t, std::align_val_t) noexcept { del_impl(p, CALLER); }

// ======================================================================= seams: locks
static inline bool sim_on() { return G.in_child && tl_self && tl_self->quiet == 0 && tl_raw == 0; }

static int lock_impl(pthread_mutex_t* m, bool try_) {
	Task* t = tl_self;
	sync_event(t);
	int kind = m->__data.__kind & 3;
	for (;;) {
		Sync* s = get_sync(m, true);
		if (s->owner < 0) {
			s->owner = t->id;
			s->count = 1;
			acquire(t, s);
			return 0;
		}
		if (s->owner == t->id) {
			if (kind == PTHREAD_MUTEX_RECURSIVE) {
				++s->count;
				return 0;
			}
			if (try_) return EBUSY;
			failf("deadlock", "T%d (op %d) locks a non-recursive mutex it already holds (%p)", t->id, t->op, (void*)m);
		}
		if (try_) return EBUSY;
		++G.res->contended;
		t->state = T_BLOCKED;
		t->wait = m;
		block(t);
	}
}
EXPORT int pthread_mutex_lock(pthread_mutex_t* m) noexcept { return sim_on() ? lock_impl(m, false) : 0; }
EXPORT int pthread_mutex_trylock(pthread_mutex_t* m) noexcept { return sim_on() ? lock_impl(m, true) : 0; }
EXPORT int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec*) noexcept { return sim_on() ? lock_impl(m, false) : 0; }
EXPORT int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const struct timespec*) noexcept { return sim_on() ? lock_impl(m, false) : 0; }
EXPORT int pthread_mutex_unlock(pthread_mutex_t* m) noexcept {
	if (!sim_on()) return 0;
	Task* t = tl_self;
	Sync* s = get_sync(m, true);
	if (s->owner != t->id) {
		failf("lock-misuse", "T%d (op %d) unlocks a mutex it does not hold (%p)", t->id, t->op, (void*)m);
	}
	if (--s->count == 0) {
		release(t, s);
		s->owner = -1;
		wake_waiters(m);
		sync_event(t);
	}
	return 0;
}
EXPORT int pthread_mutex_destroy(pthread_mutex_t* m) noexcept {
	if (sim_on()) {
		Sync* s = get_sync(m, false);
		if (s) s->owner = -1, s->count = 0;
	}
	return 0;
}

// reader-writer locks
EXPORT int pthread_rwlock_rdlock(pthread_rwlock_t* m) noexcept {
	if (!sim_on()) return 0;
	Task* t = tl_self;
	sync_event(t);
	for (;;) {
		Sync* s = get_sync(m, true);
		if (s->owner < 0) {
			++s->readers;
			acquire(t, s);
			return 0;
		}
		if (s->owner == t->id) return EDEADLK;
		++G.res->contended;
		t->state = T_BLOCKED;
		t->wait = m;
		block(t);
	}
}
EXPORT int pthread_rwlock_wrlock(pthread_rwlock_t* m) noexcept {
	if (!sim_on()) return 0;
	Task* t = tl_self;
	sync_event(t);
	for (;;) {
		Sync* s = get_sync(m, true);
		if (s->owner < 0 && s->readers == 0) {
			s->owner = t->id;
			acquire(t, s);
			return 0;
		}
		if (s->owner == t->id) return EDEADLK;
		++G.res->contended;
		t->state = T_BLOCKED;
		t->wait = m;
		block(t);
	}
}
EXPORT int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) noexcept {
	if (!sim_on()) return 0;
	Sync* s = get_sync(m, true);
	if (s->owner >= 0) return EBUSY;
	++s->readers;
	acquire(tl_self, s);
	return 0;
}
EXPORT int pthread_rwlock_trywrlock(pthread_rwlock_t* m) noexcept {
	if (!sim_on()) return 0;
	Sync* s = get_sync(m, true);
	if (s->owner >= 0 || s->readers > 0) return EBUSY;
	s->owner = tl_self->id;
	acquire(tl_self, s);
	return 0;
}
EXPORT int pthread_rwlock_unlock(pthread_rwlock_t* m) noexcept {
	if (!sim_on()) return 0;
	Task* t = tl_self;
	Sync* s = get_sync(m, true);
	release(t, s);
	if (s->owner == t->id) s->owner = -1;
	else if (s->readers > 0) --s->readers;
	wake_waiters(m);
	sync_event(t);
	return 0;
}
// condition variables
EXPORT int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) noexcept {
	if (!sim_on()) return 0;
	Task* t = tl_self;
	Sync* s = get_sync(m, true);
	release(t, s);
	s->owner = -1;
	s->count = 0;
	wake_waiters(m);
	t->state = T_BLOCKED;
	t->wait = c;
	block(t);
	if (Sync* cs = get_sync(c, false)) acquire(t, cs);
	return lock_impl(m, false);
}
EXPORT int pthread_cond_signal(pthread_cond_t* c) noexcept {
	if (!sim_on()) return 0;
	release(tl_self, get_sync(c, true));
	wake_waiters(c); // waking more than one is a legal spurious wake-up
	sync_event(tl_self);
	return 0;
}
EXPORT int pthread_cond_broadcast(pthread_cond_t* c) noexcept { return pthread_cond_signal(c); }
EXPORT int pthread_cond_destroy(pthread_cond_t*) noexcept { return 0; }

EXPORT int pthread_once(pthread_once_t* o, void (*f)()) noexcept {
	volatile int* w = (volatile int*)o;
	if (!sim_on()) {
		if (*w == 0) {
			*w = 2;
			f();
		}
		return 0;
	}
	Task* t = tl_self;
	sync_event(t);
	for (;;) {
		Sync* s = get_sync(o, true);
		if (*w == 2) {
			acquire(t, s);
			return 0;
		}
		if (*w == 0) {
			*w = 1;
			s->owner = t->id;
			f();
			*w = 2;
			s = get_sync(o, true);
			release(t, s);
			s->owner = -1;
			wake_waiters(o);
			return 0;
		}
		if (s->owner == t->id) failf("deadlock", "recursive call_once");
		t->state = T_BLOCKED;
		t->wait = o;
		block(t);
	}
}

// guards of function-local statics
EXPORT int __cxa_guard_acquire(std::uint64_t* g) {
	volatile std::uint8_t* b = (volatile std::uint8_t*)g;
	if (b[0]) return 0;
	if (!sim_on()) {
		b[1] = 1;
		return 1;
	}
	Task* t = tl_self;
	sync_event(t);
	for (;;) {
		Sync* s = get_sync(g, true);
		if (b[0]) {
			acquire(t, s);
			return 0;
		}
		if (!b[1]) {
			b[1] = 1;
			s->owner = t->id;
			return 1;
		}
		if (s->owner == t->id) failf("deadlock", "recursive initialisation of a static");
		++G.res->contended;
		t->state = T_BLOCKED;
		t->wait = g;
		block(t);
	}
}
EXPORT void __cxa_guard_release(std::uint64_t* g) {
	volatile std::uint8_t* b = (volatile std::uint8_t*)g;
	b[0] = 1;
	b[1] = 0;
	if (!sim_on()) return;
	Sync* s = get_sync(g, true);
	release(tl_self, s);
	s->owner = -1;
	wake_waiters(g);
	sync_event(tl_self);
}
EXPORT void __cxa_guard_abort(std::uint64_t* g) {
	volatile std::uint8_t* b = (volatile std::uint8_t*)g;
	b[1] = 0;
	if (!sim_on()) return;
	Sync* s = get_sync(g, true);
	s->owner = -1;
	wake_waiters(g);
}

EXPORT int sched_yield() noexcept {
	if (!sim_on()) return 0;
	Task* t = tl_self;
	if (G.policy == P_PCT) G.prio[t->id] = --G.low_prio;
	t->slice_start = 0;
	++t->step;
	++G.gstep;
	t->stop = t->step;
	t->stop_random = true;
	slow_point(t);
	return 0;
}

// ======================================================================= seams: failure exits
EXPORT void __assert_fail(const char* e, const char* f, unsigned l, const char* fn) noexcept {
	if (G.in_child) {
		if (const char* s = strrchr(f, '/')) f = s + 1;
		failf("assertion", "assertion `%s' failed in %s (%s:%u)", e, fn ? fn : "?", f, l);
	}
	fprintf(stderr, "assertion %s failed at %s:%u\n", e, f, l);
	_exit(96);
}
EXPORT void abort() noexcept {
	if (G.in_child) finish_child(ST_VIOLATION, "abort", "abort() called");
	_exit(95);
}

// ======================================================================= seams: clock
EXPORT int clock_gettime(clockid_t id, struct timespec* ts) noexcept {
	if (!G.in_child || tl_self == nullptr) return (int)syscall(SYS_clock_gettime, id, ts);
	if (sim_on()) {
		G.mono_extra += 50;
		if (std::uint64_t v = fault(F_CLOCK_BACK)) G.wall_off -= (std::int64_t)(v % 7200) * 1'000'000'000ll + (std::int64_t)(v % 999983);
		if (std::uint64_t v = fault(F_CLOCK_FWD)) G.wall_off += (std::int64_t)(v % 7200) * 1'000'000'000ll + (std::int64_t)(v % 999983);
	}
	std::int64_t n = (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) ? wall_now() : mono_now();
	ts->tv_sec = n / 1'000'000'000;
	ts->tv_nsec = n % 1'000'000'000;
	return 0;
}
EXPORT int gettimeofday(struct timeval* tv, void*) noexcept {
	struct timespec ts;
	clock_gettime(CLOCK_REALTIME, &ts);
	tv->tv_sec = ts.tv_sec;
	tv->tv_usec = ts.tv_nsec / 1000;
	return 0;
}
EXPORT time_t time(time_t* o) noexcept {
	struct timespec ts;
	clock_gettime(CLOCK_REALTIME, &ts);
	if (o) *o = ts.tv_sec;
	return ts.tv_sec;
}

// ======================================================================= seams: files
static bool sim_path(const char* p) { return G.in_child && G.scratch && *G.scratch && strncmp(p, G.scratch, strlen(G.scratch)) == 0; }

static FILE* fopen_impl(const char* p, const char* mode, const char* sym) {
	using F = FILE* (*)(const char*, const char*);
	++tl_raw;
	static F real = nullptr;
	if (!real) real = (F)dlsym(RTLD_NEXT, "fopen");
	--tl_raw;
	(void)sym;
	bool s = sim_path(p);
	if (s && sim_on()) {
		if (fault(F_OPEN)) {
			errno = EACCES;
			return nullptr;
		}
	}
	++tl_raw;
	FILE* f = real(p, mode);
	--tl_raw;
	if (s && f) {
		int fd = fileno(f);
		if (fd >= 0 && fd < 1024) G.simfd[fd] = 1;
	}
	return f;
}
EXPORT FILE* fopen(const char* p, const char* mode) { return fopen_impl(p, mode, "fopen"); }
EXPORT FILE* fopen64(const char* p, const char* mode) { return fopen_impl(p, mode, "fopen"); }
EXPORT int fclose(FILE* f) {
	using F = int (*)(FILE*);
	++tl_raw;
	static F real = nullptr;
	if (!real) real = (F)dlsym(RTLD_NEXT, "fclose");
	if (G.in_child) {
		int fd = fileno(f);
		if (fd >= 0 && fd < 1024) G.simfd[fd] = 0;
	}
	int r = real(f);
	--tl_raw;
	return r;
}
static bool is_sim_fd(int fd) { return sim_on() && fd >= 0 && fd < 1024 && G.simfd[fd]; }
EXPORT ssize_t read(int fd, void* b, size_t n) {
	if (is_sim_fd(fd)) {
		sync_event(tl_self);
		if (fault(F_READ_EINTR)) { errno = EINTR; return -1; }
		if (fault(F_READ_EIO)) { errno = EIO; return -1; }
		if (std::uint64_t v = n > 1 ? fault(F_READ_SHORT) : 0) n = 1 + v % (n < 64 ? n : (v % 3 ? 64 : n));
	}
	return syscall(SYS_read, fd, b, n);
}
static ssize_t write_fault(std::size_t n, std::size_t& lim) {
	lim = n;
	sync_event(tl_self);
	if (G.disk_full) {
		++G.res->faults[F_DISK_FULL];
		errno = ENOSPC;
		return -1;
	}
	if (fault(F_DISK_FULL)) { G.disk_full = true; errno = ENOSPC; return -1; }
	if (fault(F_WRITE_EINTR)) { errno = EINTR; return -1; }
	if (std::uint64_t v = fault(F_WRITE_ERR)) { errno = v % 2 ? EIO : ENOSPC; return -1; }
	if (std::uint64_t v = n > 1 ? fault(F_WRITE_SHORT) : 0) lim = 1 + v % (n - 1);
	return 0;
}
EXPORT ssize_t write(int fd, const void* b, size_t n) {
	if (is_sim_fd(fd) && n > 0) {
		std::size_t lim;
		if (write_fault(n, lim) < 0) return -1;
		n = lim;
	}
	return syscall(SYS_write, fd, b, n);
}
EXPORT ssize_t writev(int fd, const struct iovec* v, int c) {
	if (is_sim_fd(fd)) {
		std::size_t tot = 0, lim;
		for (int i = 0; i < c; ++i) tot += v[i].iov_len;
		if (tot > 0) {
			if (write_fault(tot, lim) < 0) return -1;
			std::size_t done = 0;
			for (int i = 0; i < c && done < lim; ++i) {
				std::size_t k = v[i].iov_len < lim - done ? v[i].iov_len : lim - done;
				if (k == 0) continue;
				ssize_t r = syscall(SYS_write, fd, v[i].iov_base, k);
				if (r < 0) return done ? (ssize_t)done : r;
				done += (std::size_t)r;
			}
			return (ssize_t)done;
		}
	}
	return syscall(SYS_writev, fd, v, c);
}

// ======================================================================= seams: instrumentation entry points
EXPORT void __tsan_init() {}
EXPORT void __tsan_func_entry(void* pc) {
	Task* t = tl_self;
	if (!t) return;
	if (t->cs_n < Task::CSMAX) t->cs[t->cs_n] = pc;
	++t->cs_n;
}
EXPORT void __tsan_func_exit() {
	Task* t = tl_self;
	if (t && t->cs_n > 0) --t->cs_n;
}
#define ACC(N) \
	EXPORT void __tsan_read##N(void* p) { access(p, N, false, CALLER); } \
	EXPORT void __tsan_write##N(void* p) { access(p, N, true, CALLER); } \
	EXPORT void __tsan_unaligned_read##N(void* p) { access(p, N, false, CALLER); } \
	EXPORT void __tsan_unaligned_write##N(void* p) { access(p, N, true, CALLER); } \
	EXPORT void __tsan_volatile_read##N(void* p) { access(p, N, false, CALLER); } \
	EXPORT void __tsan_volatile_write##N(void* p) { access(p, N, true, CALLER); }
ACC(1)
ACC(2)
ACC(4)
ACC(8)
ACC(16)
EXPORT void __tsan_read_range(void* p, unsigned long n) { access_n(p, n, false, CALLER); }
EXPORT void __tsan_write_range(void* p, unsigned long n) { access_n(p, n, true, CALLER); }
EXPORT void __tsan_vptr_update(void** p, void* v) {
	if (*p != v) access(p, 8, true, CALLER);
	else access(p, 8, false, CALLER);
}
EXPORT void __tsan_vptr_read(void** p) { access(p, 8, false, CALLER); }

// memcpy & co called from instrumented objects (their symbols are renamed with objcopy)
EXPORT void* __sim_memcpy(void* d, const void* s, size_t n) {
	access_n((void*)s, n, false, CALLER);
	access_n(d, n, true, CALLER);
	return memcpy(d, s, n);
}
EXPORT void* __sim_memmove(void* d, const void* s, size_t n) {
	access_n((void*)s, n, false, CALLER);
	access_n(d, n, true, CALLER);
	return memmove(d, s, n);
}
EXPORT void* __sim_memset(void* d, int c, size_t n) {
	access_n(d, n, true, CALLER);
	return memset(d, c, n);
}
EXPORT int __sim_memcmp(const void* a, const void* b, size_t n) {
	access_n((void*)a, n, false, CALLER);
	access_n((void*)b, n, false, CALLER);
	return memcmp(a, b, n);
}

// atomics: executed one at a time, every one is a scheduling point and a happens-before edge
static inline Sync* atomic_pre(volatile void* p, bool create, void* pc) {
	Task* t = tl_self;
	if (!t || t->quiet > 0 || !G.in_child) return nullptr;
	Cell* c = cell_of((std::uintptr_t)p);
	if (!c) {
		// an atomic on a stack: still a scheduling point
		if (G.parallel) sync_event(t);
		return nullptr;
	}
	if (G.parallel) sync_event(t);
	if (c->flags) report_bad((std::uintptr_t)p, 1, true, c->flags, pc, false);
	if (!G.parallel || !G.track) return nullptr;
	return get_sync((void*)((std::uintptr_t)p & ~7ull), create);
}
#define ATOMICS(N, T) \
	EXPORT T __tsan_atomic##N##_load(const volatile T* a, int) { \
		Sync* s = atomic_pre((volatile void*)a, false, CALLER); \
		T v = __atomic_load_n(a, __ATOMIC_SEQ_CST); \
		if (s) acquire(tl_self, s); \
		return v; \
	} \
	EXPORT void __tsan_atomic##N##_store(volatile T* a, T v, int) { \
		Sync* s = atomic_pre(a, true, CALLER); \
		if (s) release(tl_self, s); \
		__atomic_store_n(a, v, __ATOMIC_SEQ_CST); \
	} \
	RMW(N, T, exchange, __atomic_exchange_n) \
	RMW(N, T, fetch_add, __atomic_fetch_add) \
	RMW(N, T, fetch_sub, __atomic_fetch_sub) \
	RMW(N, T, fetch_and, __atomic_fetch_and) \
	RMW(N, T, fetch_or, __atomic_fetch_or) \
	RMW(N, T, fetch_xor, __atomic_fetch_xor) \
	RMW(N, T, fetch_nand, __atomic_fetch_nand) \
	static bool cas##N(volatile T* a, T* e, T v, bool weak, void* pc) { \
		Sync* s = atomic_pre(a, true, pc); \
		if (weak && fault(F_CAS)) { \
			*e = __atomic_load_n(a, __ATOMIC_SEQ_CST); \
			return false; \
		} \
		if (s) acquire(tl_self, s), release(tl_self, s); \
		return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
	} \
	EXPORT int __tsan_atomic##N##_compare_exchange_strong(volatile T* a, T* e, T v, int, int) { return cas##N(a, e, v, false, CALLER); } \
	EXPORT int __tsan_atomic##N##_compare_exchange_weak(volatile T* a, T* e, T v, int, int) { return cas##N(a, e, v, true, CALLER); } \
	EXPORT T __tsan_atomic##N##_compare_exchange_val(volatile T* a, T e, T v, int, int) { \
		cas##N(a, &e, v, false, CALLER); \
		return e; \
	}
#define RMW(N, T, name, prim) \
	EXPORT T __tsan_atomic##N##_##name(volatile T* a, T v, int) { \
		Sync* s = atomic_pre(a, true, CALLER); \
		if (s) acquire(tl_self, s), release(tl_self, s); \
		return prim(a, v, __ATOMIC_SEQ_CST); \
	}
ATOMICS(8, std::uint8_t)
ATOMICS(16, std::uint16_t)
ATOMICS(32, std::uint32_t)
ATOMICS(64, std::uint64_t)
EXPORT void __tsan_atomic_thread_fence(int) { __sync_synchronize(); }
EXPORT void __tsan_atomic_signal_fence(int) {}
