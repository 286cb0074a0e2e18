#include "core.h"
#include <algorithm>
#include <strings.h>
#include <cerrno>
#include <csetjmp>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <set>
#include <cstring>
#include <ctime>
#include <fcntl.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <termios.h>
#include <unistd.h>
#include <unordered_map>

extern "C" {
extern char __start_libdata[] __attribute__((weak)), __stop_libdata[] __attribute__((weak));
extern char __start_libbss[] __attribute__((weak)), __stop_libbss[] __attribute__((weak));
extern char __start_simtls[] __attribute__((weak)), __stop_simtls[] __attribute__((weak));
}

namespace sim {

const char* fault_name[NF] = { "allocation_failure", "mutex_init_failure", "cond_init_failure",
	"thread_start_failure", "spurious_wakeup", "signal_wakes_other_waiter", "weak_cas_failure",
	"open_failure", "read_failure_or_short", "generator_failure", "tty_get_failure",
	"tty_set_failure", "tty_read_end_or_error", "wall_clock_step", "early_timer", "implementation_failure" };

u64 mix(u64 a, u64 b) { Rng r(a * 0x9e3779b97f4a7c15ull ^ (b + 0x7f4a7c15)); r.next(); return r.next() ^ (b << 1); }
u64 fnv(const void* p, size_t n, u64 h) {
	const u8* b = (const u8*)p;
	for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ull; }
	return h;
}
std::vector<Scenario>& scenarios() { static std::vector<Scenario> v; return v; }
std::map<std::string, u64>& probes() { static std::map<std::string, u64> m; return m; }
void probe(const char* name) { probes()[name]++; }
Io io;

// ------------------------------------------------------------------ state
static int vcn;              // threads made so far in this run
struct VC { u32 c[MAXT]; void clear() { memset(c, 0, sizeof c); }
	void join(const VC& o) { for (int i = 0; i < vcn; i++) if (o.c[i] > c[i]) c[i] = o.c[i]; } };

enum { S_FREE, S_RUN, S_MUTEX, S_COND, S_JOIN, S_SLEEP, S_DONE, S_IDLE };
static const char* st_name[] = { "free", "runnable", "waiting for a mutex", "waiting on a condition",
	"joining", "sleeping", "done", "idle" };

struct Thr {
	int id, st, grp;
	void* sp;
	u64 steps, next_evt, fair_at, acct;
	u32 ford[NF], finj[NF]; int spared;
	std::function<void()> body;
	void* (*fn)(void*); void* arg; void* ret;
	bool joined, detached;
	const void* waiting; int join_tid;
	i64 deadline; bool timed, timedout, mono; u64 wseq;
	u64 woken, blocked, cwaits, sleeps; bool last_woken, idle_all; i64 wake_wall, ready_adv;
	int prio, held;
	VC vc, acqpend, relf;
	std::vector<void*> specific;
	char name[8];
};

struct Blk { u64 addr; u64 size; u8 st; bool harness; u8 tid; void* site; };
struct HB { VC r; int wt; u32 wc; bool written; const char* wwhat; };

enum { STKSZ = 1 << 20, STKFILL = 24 << 10, FAIR = 3000 };
static const u64 STK_BASE = 0x310000000000ull, ARENA = 0x200000000000ull, ARENA_SZ = 1ull << 30,
	SHADOW = 0x300000000000ull;

static struct G {
	bool active = false, replay = false, verbose = false;
	Thr t[MAXT]; int nthr = 0;
	Thr* cur = nullptr;
	void* main_sp = nullptr;
	sigjmp_buf jb;
	Violation v;
	const Prog* p; const Strategy* s; Rng rng;
	std::vector<Decision> dec;
	std::map<u64, i32> rsched[MAXT]; std::map<u64, i32> rfault[NF][MAXT];
	u64 total, cap, hash, shash, switches, stamp, wseq, allocs, alloc_seq;
	u64 nf[NF]; bool faults_on[3]; u32 fmask[3]; bool unlim;
	i64 wall, mono, elapsed; 
	std::vector<u64> changes; int low_prio;
	std::vector<Blk> blk; std::unordered_map<u64, u32> blkmap; u64 top; std::set<u64> syncs;
	std::unordered_map<u64, VC> objvc; std::unordered_map<const void*, HB> hb;
	std::vector<char> sdata, sbss, stls;
	std::vector<void (*)(void*)> keys;
	bool inited = false;
	std::string log;
} g;

static inline void hash(u64 v) { g.hash = (g.hash ^ v) * 1099511628211ull; g.hash ^= g.hash >> 29; }
static inline void shash(u64 v) { g.shash = (g.shash ^ v) * 1099511628211ull; g.shash ^= g.shash >> 29; hash(v); }
bool verbose() { return g.verbose; }
void logf(const char* fmt, ...) {
	if (!g.verbose) return;
	char b[1024]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	printf("  [%6llu] T%d %s\n", (unsigned long long)g.total, g.cur ? g.cur->id : -1, b);
}

extern "C" void sim_ctx_switch(void** save, void* to);
asm(".text\n.globl sim_ctx_switch\n.type sim_ctx_switch,@function\nsim_ctx_switch:\n"
	"pushq %rbp\npushq %rbx\npushq %r12\npushq %r13\npushq %r14\npushq %r15\n"
	"movq %rsp,(%rdi)\nmovq %rsi,%rsp\n"
	"popq %r15\npopq %r14\npopq %r13\npopq %r12\npopq %rbx\npopq %rbp\nret\n"
	".size sim_ctx_switch,.-sim_ctx_switch\n");

[[noreturn]] static void leave() {
	static void* junk;
	sim_ctx_switch(&junk, g.main_sp);
	abort();
}
void fail(const std::string& cls, const char* fmt, ...) {
	char b[2048]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	for (char* q = b; *q; q++) if (*q < ' ' || *q > '~') *q = '?';      // one line of plain text, whatever the code under test produced
	g.v.set = true; g.v.cls = cls; g.v.msg = b;
	hash(fnv(cls.data(), cls.size()));
	hash(fnv(b, strlen(b)));
	if (!g.active || !g.cur) { fprintf(stderr, "sim: fail outside a run: %s: %s\n", cls.c_str(), b); _exit(3); }
	leave();
}

// ------------------------------------------------------------------ heap
static inline bool in_arena(u64 a) { return a - ARENA < ARENA_SZ; }
static inline u8* shadow(u64 a) { return (u8*)(SHADOW + ((a - ARENA) >> 3)); }
enum { SH_RED = 0xfa, SH_FREED = 0xfd };

static std::string where(u64 a) {
	for (size_t i = g.blk.size(); i-- > 0; ) {
		Blk& b = g.blk[i];
		if (a + 32 >= b.addr && a < b.addr + b.size + 32) {
			char s[200];
			snprintf(s, sizeof s, "%lld bytes into a %s block of %llu bytes (block #%zu%s)", (long long)(a - b.addr),
				b.st ? "live" : "freed", (unsigned long long)b.size, i, b.harness ? ", caller storage" : "");
			return s;
		}
	}
	return "no block near";
}
static bool bad_range(u64 a, u64 n, u64* at) {
	if (n == 0) return false;
	u64 e = a + n;
	u64 x = a;
	while (x < e) {
		u8 s = *shadow(x);
		u64 chunk_end = (x & ~7ull) + 8;
		u64 lim = chunk_end < e ? chunk_end : e;
		if (s) {
			if (s >= 8 || ((lim - 1) & 7) >= s) { *at = x; return true; }
		}
		x = lim;
	}
	return false;
}
[[noreturn]] static void bad_access(u64 a, u64 n, bool w, u64 at) {
	u8 s = *shadow(at);
	// find the exact byte
	while (at < a + n) { s = *shadow(at); if (s >= 8 || (s && (at & 7) >= s)) break; at++; }
	bool freed = (s == SH_FREED);
	fail(freed ? "heap-use-after-free" : "heap-out-of-bounds", "%s of %llu bytes, %s", w ? "write" : "read",
		(unsigned long long)n, where(at).c_str());
}
static inline void check(u64 a, u64 n, bool w) {
	if (in_arena(a)) {
		u64 at;
		if (bad_range(a, n, &at)) bad_access(a, n, w, at);
	} else if (a < 65536 && n) {
		fail("null-pointer-access", "%s of %llu bytes at address %llu", w ? "write" : "read", (unsigned long long)n, (unsigned long long)a);
	}
}
bool range_ok(const void* p, size_t n) {
	u64 at, a = (u64)p;
	if (!in_arena(a)) return a >= 65536;
	return !bad_range(a, n, &at);
}

static void* raw_alloc(size_t n, bool harness, void* site, bool right) {
	u64 start = g.top + 32;
	start = (start + 15) & ~15ull;
	u64 pad = 0;
	if (right) pad = (16 - (n & 15)) & 15;  // data ends at a 16-byte boundary
	u64 a = start + pad;
	u64 end = (a + n + 15) & ~15ull;
	if (end + 64 > ARENA + ARENA_SZ) return nullptr;
	g.top = end + 16;
	if (right) {
		// Shadow cannot describe an inaccessible prefix of an 8-byte unit, so the few bytes before stay accessible.
		memset(shadow(start), SH_RED, (end - start) >> 3);
		memset(shadow(a & ~7ull), 0, (end - (a & ~7ull)) >> 3);
	} else {
		memset(shadow(a), SH_RED, (end - a) >> 3);
		memset(shadow(a), 0, n >> 3);
		if (n & 7) *shadow(a + (n & ~7ull)) = n & 7;
	}
	g.blk.push_back(Blk{ a, n, 1, harness, (u8)(g.cur ? g.cur->id : 255), site });
	g.blkmap[a] = g.blk.size() - 1;
	if (!harness || 1) memset((void*)a, (int)g.p->env.fill, n);
	return (void*)a;
}
static const char HFREE[] = "harness free";
static void raw_free(u64 a, const char* what) {
	auto it = g.blkmap.find(a);
	if (it == g.blkmap.end())
		fail("bad-free", "%s of a pointer that is not an allocation: %s", what, in_arena(a) ? where(a).c_str() : "outside the heap");
	Blk& b = g.blk[it->second];
	if (b.harness && what != HFREE) fail("bad-free", "%s of memory that belongs to the caller: a block of %llu bytes", what, (unsigned long long)b.size);
	if (!b.st) fail("double-free", "%s of a block of %llu bytes that was already freed (block #%u)", what, (unsigned long long)b.size, it->second);
	b.st = 0;
	u64 s = b.addr & ~7ull, e = (b.addr + b.size + 7) & ~7ull;
	memset(shadow(s), SH_FREED, (e - s) >> 3);
	if (b.size == 0) *shadow(s) = SH_FREED;
	memset((void*)b.addr, 0xdd, b.size);
}
void* halloc(size_t n) { void* p = raw_alloc(n, true, nullptr, false); if (!p) { fprintf(stderr, "sim: arena exhausted\n"); _exit(3); } return p; }
void* halloc_end(size_t n) { void* p = raw_alloc(n, true, nullptr, true); if (!p) { fprintf(stderr, "sim: arena exhausted\n"); _exit(3); } return p; }
void hfree(void* p) { raw_free((u64)p, HFREE); }
static bool counts(const Blk& b) { return b.st && !b.harness && (!g.cur || !g.cur->grp || g.t[b.tid].grp == g.cur->grp); }
size_t live_blocks() { size_t n = 0; for (auto& b : g.blk) if (counts(b)) n++; return n; }
std::string live_desc() {
	std::string s; int k = 0;
	for (size_t i = 0; i < g.blk.size(); i++) if (counts(g.blk[i])) {
		char t[80]; snprintf(t, sizeof t, "%s#%zu(%llu bytes)", k ? ", " : "", i, (unsigned long long)g.blk[i].size);
		if (k++ < 6) s += t;
	}
	return s;
}
bool is_live(const void* p) { auto it = g.blkmap.find((u64)p); return it != g.blkmap.end() && g.blk[it->second].st; }
size_t block_size(const void* p) { auto it = g.blkmap.find((u64)p); return it == g.blkmap.end() || !g.blk[it->second].st ? 0 : g.blk[it->second].size; }
std::string text_at(const char* s, const char* what) {
	if (!s) fail("no-text", "%s is missing", what);
	if (!in_arena((u64)s)) { if ((u64)s < 65536) fail("no-text", "%s is at %p", what, (const void*)s); return s; }
	size_t n = 0;
	while (range_ok(s + n, 1) && s[n]) n++;
	if (!range_ok(s + n, 1)) fail("unterminated", "%s is not terminated inside its %zu bytes of memory", what, n);
	return std::string(s, n);
}
void check_no_leak(const char* what) {
	size_t n = live_blocks();
	if (n) fail("leak", "%s: %zu block(s) never freed: %s", what, n, live_desc().c_str());
	if (!g.cur->grp && !g.syncs.empty()) fail("leak", "%s: %zu lock(s) or condition(s) never destroyed", what, g.syncs.size());
}
void forget_locks() { g.syncs.clear(); }
u64 alloc_count() { return g.allocs; }
void unlimited_alloc(bool on) { g.unlim = on; }

// ------------------------------------------------------------------ scheduling
static void set_next(Thr* t) {
	u64 n = t->fair_at;
	u64 rem = t->steps + (g.cap > g.total ? g.cap - g.total : 0);
	if (rem < n) n = rem;
	if (g.replay) {
		auto it = g.rsched[t->id].upper_bound(t->steps);
		if (it != g.rsched[t->id].end() && it->first < n) n = it->first;
	} else if (g.s->kind == 0) {
		if (g.s->p_step > 0) {
			// geometric distance to the next preemption
			double u = ((g.rng.next() >> 11) + 1) * (1.0 / 9007199254740993.0);
			u64 d = 1 + (u64)(__builtin_log(u) / __builtin_log1p(-g.s->p_step));
			if (t->steps + d < n) n = t->steps + d;
		}
	} else if (g.s->kind == 1 && !g.changes.empty()) {
		u64 c = g.changes.back();
		u64 d = c > g.total ? c - g.total : 1;
		if (t->steps + d < n) n = t->steps + d;
	}
	t->next_evt = n;
}
static inline void account(Thr* t) { g.total += t->steps - t->acct; t->acct = t->steps; }

static int cyc_next(int from) {
	for (int k = 1; k <= g.nthr; k++) { int i = (from + k) % g.nthr; if (g.t[i].st == S_RUN) return i; }
	return -1;
}
static i64 dl_left(Thr& t) { return t.deadline - (t.mono ? g.mono : g.wall); }
static void pass_time(i64 d) {
	g.wall += d; g.mono += d; g.elapsed += d;
	for (int i = 0; i < g.nthr; i++) if (g.t[i].st == S_RUN || (g.t[i].st == S_MUTEX && !g.t[i].timed)) g.t[i].ready_adv += d;
}
static bool fire_timer() {
	i64 best = INT64_MAX;
	for (int i = 0; i < g.nthr; i++) { Thr& t = g.t[i];
		if ((t.st == S_COND || t.st == S_SLEEP || t.st == S_MUTEX) && t.timed) { i64 l = dl_left(t); if (l < best) best = l; } }
	if (best == INT64_MAX) return false;
	if (best > 0) pass_time(best);
	for (int i = 0; i < g.nthr; i++) { Thr& t = g.t[i];
		if ((t.st == S_COND || t.st == S_SLEEP || t.st == S_MUTEX) && t.timed && dl_left(t) <= 0) {
			t.timedout = true; t.timed = false; t.st = S_RUN; t.waiting = nullptr; t.wake_wall = g.wall;
		} }
	hash(0x71 + (u64)best);
	if (g.verbose) logf("clock advances %lld ns, timer fires", (long long)(best > 0 ? best : 0));
	return true;
}
// Nothing else can run: a thread that waits for that goes on.
static bool wake_idle(bool all) {
	bool any = false;
	for (int i = 0; i < g.nthr; i++) if (g.t[i].st == S_IDLE && (all || !g.t[i].idle_all)) { g.t[i].st = S_RUN; any = true; }
	return any;
}
static bool timers_pending() {
	for (int i = 0; i < g.nthr; i++) { Thr& t = g.t[i]; if ((t.st == S_COND || t.st == S_SLEEP || t.st == S_MUTEX) && t.timed) return true; }
	return false;
}
static u64 nruns; u64 run_number() { return nruns; }
// Thread-local variables: every thread has its own copy of the section at its own address.
static char tlsmem[MAXT][8192] __attribute__((aligned(64)));
extern "C" char* sim_tls_addr(char* a) { return a + ((g.cur ? tlsmem[g.cur->id] : __start_simtls) - __start_simtls); }
static void swap_to(Thr* to) {
	Thr* from = g.cur;
	account(from);
	if (to == from) { set_next(from); return; }
	g.switches++;
	shash(((u64)to->id << 56) ^ ((u64)from->id << 48) ^ from->steps);
	if (g.verbose) logf("-> switch to T%d", to->id);
	g.cur = to;
	to->acct = to->steps;
	to->fair_at = to->steps + FAIR;
	set_next(to);
	int e = errno;
	sim_ctx_switch(&from->sp, to->sp);
	errno = e;
}
[[noreturn]] static void deadlock() {
	std::string s;
	for (int i = 0; i < g.nthr; i++) if (g.t[i].st != S_DONE && g.t[i].st != S_FREE) {
		char b[80]; snprintf(b, sizeof b, "%sT%d %s", s.empty() ? "" : ", ", i, st_name[g.t[i].st]); s += b; }
	fail("deadlock", "no thread can make progress: %s", s.c_str());
}
static int explore_pick(bool blocked) {
	Thr* c = g.cur;
	if (g.s->p_timer > 0 && timers_pending() && g.rng.p(g.s->p_timer)) return TIMER;
	if (g.s->kind == 1) {
		int b = -1;
		for (int i = 0; i < g.nthr; i++) if (g.t[i].st == S_RUN && (b < 0 || g.t[i].prio > g.t[b].prio)) b = i;
		return b;
	}
	int cand[MAXT], n = 0;
	for (int i = 0; i < g.nthr; i++) if (g.t[i].st == S_RUN && (blocked || i != c->id)) cand[n++] = i;
	if (!n) return -1;
	return cand[g.rng.below(n)];
}
static void record(u8 kind, u8 tid, u64 key, i32 val) { g.dec.push_back(Decision{ kind, tid, key, val }); }

// The current thread's step counter was just incremented, so (thread, step) is a fresh key.
static void switch_point(bool blocked, bool want) {
	for (;;) {
		Thr* c = g.cur;
		bool now_blocked = c->st != S_RUN;
		int target = -1;
		if (g.replay) {
			auto it = g.rsched[c->id].find(c->steps);
			if (it != g.rsched[c->id].end()) target = it->second;
		} else if (now_blocked || want) {
			target = explore_pick(now_blocked);
			int dflt = now_blocked ? cyc_next(c->id) : c->id;
			if (target >= 0 && target != dflt) record(K_SCHED, c->id, c->steps, target);
		}
		if (target == TIMER) {
			if (fire_timer()) g.nf[F_TIMER]++;
			c->steps++;
			want = false;
			if (c->st == S_RUN && !blocked) { account(c); set_next(c); return; }
			continue;
		}
		if (target >= 0 && (target >= g.nthr || g.t[target].st != S_RUN)) target = -1;
		if (target < 0) target = now_blocked ? cyc_next(c->id) : c->id;
		if (target < 0) {
			if (!wake_idle(false) && !fire_timer() && !wake_idle(true)) deadlock();
			c->steps++;
			if (c->st == S_RUN) { account(c); set_next(c); return; }
			continue;
		}
		if (target == c->id) {
			account(c);
			if (g.total >= g.cap) fail("no-progress", "step bound of %llu reached", (unsigned long long)g.cap);
			set_next(c);
			return;
		}
		swap_to(&g.t[target]);
		return;
	}
}
static void slow_step() {
	Thr* c = g.cur;
	account(c);
	if (g.total >= g.cap) fail("no-progress", "step bound of %llu reached", (unsigned long long)g.cap);
	if (c->steps >= c->fair_at) {
		// Nobody spins for ever: after a long uninterrupted stretch the next thread runs, or time passes.
		c->fair_at = c->steps + FAIR;
		int n = cyc_next(c->id);
		if (n >= 0 && n != c->id) {
			if (!g.replay && g.s->kind == 1) c->prio = --g.low_prio;
			swap_to(&g.t[n]); return;
		}
		if (timers_pending()) fire_timer();
		set_next(c);
		return;
	}
	if (g.replay) {
		if (g.rsched[c->id].count(c->steps)) { switch_point(false, false); return; }
	} else if (g.s->kind == 0 && g.s->p_step > 0) {
		switch_point(false, true); return;
	} else if (g.s->kind == 1 && !g.changes.empty() && g.total >= g.changes.back()) {
		g.changes.pop_back();
		c->prio = --g.low_prio;
		switch_point(false, true); return;
	}
	set_next(c);
}
static inline void step() {
	Thr* c = g.cur;
	if (!c) return;
	if (++c->steps >= c->next_evt) slow_step();
}
static inline void sync_step() {
	Thr* c = g.cur;
	if (!c) return;
	++c->steps;
	if (!g.replay) {
		if (c->steps >= c->fair_at) { slow_step(); return; }
		if (g.s->kind == 1 || (g.s->p_sync > 0 && g.rng.p(g.s->p_sync))) {
			account(c);
			if (g.total >= g.cap) fail("no-progress", "step bound of %llu reached", (unsigned long long)g.cap);
			switch_point(false, true); return;
		}
	}
	if (c->steps >= c->next_evt) slow_step();
}
void yield() { sync_step(); }
static void block() {   // cur->st says why
	Thr* c = g.cur;
	c->blocked++;
	c->steps++;
	account(c);
	if (g.total >= g.cap) fail("no-progress", "step bound of %llu reached", (unsigned long long)g.cap);
	switch_point(true, true);
}

static int inject(Fault f, int n = 1) {
	Thr* c = g.cur;
	if (!c) return 0;
	bool always = f == F_SPURIOUS || f == F_SIGPICK || f == F_CASWEAK;
	if (!always && (!g.faults_on[c->grp] || c->spared || !(g.fmask[c->grp] >> f & 1))) return 0;
	if (n <= 0) return 0;
	u32 ord = ++c->ford[f];
	int val = 0;
	if (g.replay) {
		auto it = g.rfault[f][c->id].find(ord);
		if (it != g.rfault[f][c->id].end()) val = it->second > n ? n : it->second;
	} else if (f == F_ALLOC && g.s->alloc_mode) {
		u64 k = g.alloc_seq++;
		if (k >= g.s->alloc_at && k < g.s->alloc_at + g.s->alloc_len) val = 1;
	} else if (g.s->fp[f] > 0 && g.rng.p(g.s->fp[f])) {
		val = 1 + (int)g.rng.below(n);
	}
	if (val) {
		if (!g.replay) record(f, c->id, ord, val);
		g.nf[f]++; c->finj[f]++;
		shash(((u64)f << 40) ^ ((u64)c->id << 32) ^ ord ^ ((u64)val << 50));
		if (g.verbose) logf("fault: %s (%d)", fault_name[f], val);
	}
	return val;
}

bool alloc_fails() { return inject(F_ALLOC) != 0; }
bool fault_now(Fault f) { return inject(f) != 0; }

// ------------------------------------------------------------------ threads
static void thread_end() {
	Thr* c = g.cur;
	for (int k = 0; k < (int)c->specific.size() && k < (int)g.keys.size(); k++) if (c->specific[k] && g.keys[k]) { void* v = c->specific[k]; c->specific[k] = nullptr; g.keys[k](v); }
	if (c->held) fail("lock-held", "a thread ended while holding %d lock(s)", c->held);
	if (c->id == 0) leave();
	c->st = S_DONE;
	hash(0xd0 + c->id);
	for (int i = 0; i < g.nthr; i++) if (g.t[i].st == S_JOIN && g.t[i].join_tid == c->id) g.t[i].st = S_RUN;
	c->steps++;
	account(c);
	switch_point(true, true);
	abort();
}
static void thread_entry() {
	Thr* c = g.cur;
	if (c->body) { c->body(); }
	else c->ret = c->fn(c->arg);
	thread_end();
}
static Thr* new_thread() {
	if (g.nthr >= MAXT) return nullptr;
	Thr* t = &g.t[g.nthr];
	int id = g.nthr;
	t->specific.clear();
	t->id = id; t->st = S_RUN; t->grp = g.cur ? g.cur->grp : 0; t->steps = t->acct = 0; t->next_evt = 1; t->fair_at = FAIR;
	t->spared = 0; memset(t->ford, 0, sizeof t->ford); memset(t->finj, 0, sizeof t->finj);
	t->body = nullptr; t->fn = nullptr; t->arg = t->ret = nullptr; t->joined = t->detached = false;
	t->waiting = nullptr; t->join_tid = -1; t->deadline = 0; t->timed = t->timedout = t->mono = false; t->wseq = 0;
	t->woken = t->blocked = t->cwaits = t->sleeps = 0; t->idle_all = false; t->ready_adv = 0; t->last_woken = false; t->wake_wall = 0; t->held = 0;
	t->vc.clear(); t->acqpend.clear(); t->relf.clear();
	if (g.stls.size()) memcpy(tlsmem[id], g.stls.data(), g.stls.size());
	t->prio = g.replay ? 0 : (int)(1000 + g.rng.below(1000000));
	u64 stk = STK_BASE + (u64)id * (STKSZ + 65536) + 65536;
	u64 top = stk + STKSZ;
	memset((void*)(top - STKFILL), (int)g.p->env.fill, STKFILL);
	u64* sp = (u64*)(top - 64);
	*--sp = 0;
	*--sp = (u64)(void*)thread_entry;
	for (int i = 0; i < 6; i++) *--sp = 0;
	t->sp = sp;
	vcn = ++g.nthr;
	if (g.cur) {
		t->vc = g.cur->vc;
		g.cur->vc.c[g.cur->id]++;
	}
	t->vc.c[id] = 1;
	return t;
}
int spawn(std::function<void()> f) {
	Thr* t = new_thread();
	if (!t) { fprintf(stderr, "sim: too many threads\n"); _exit(3); }
	t->body = std::move(f);
	hash(0xc0 + t->id);
	return t->id;
}
int spawn_copy(int n, std::function<void()> f) { int id = spawn(std::move(f)); g.t[id].grp = n; return id; }
int copy_of() { return g.cur ? g.cur->grp : 0; }
static int join_tid(int tid) {
	Thr* t = &g.t[tid];
	while (t->st != S_DONE) {
		g.cur->st = S_JOIN; g.cur->join_tid = tid;
		block();
		g.cur->st = S_RUN;
	}
	t->joined = true;
	g.cur->vc.join(t->vc);
	return 0;
}
void join(int tid) { join_tid(tid); }
static void idle(bool all) {
	Thr* c = g.cur;
	for (;;) {
		bool busy = false;
		for (int i = 0; i < g.nthr; i++) if (&g.t[i] != c && g.t[i].st == S_RUN) busy = true;
		if (all && timers_pending()) busy = true;
		if (!busy) return;
		c->st = S_IDLE; c->idle_all = all;
		block();
		c->st = S_RUN;
	}
}
void quiesce() { idle(false); }
void settle() { idle(true); }
u64 cond_waits() { return g.cur->cwaits; }
u64 sleeps() { return g.cur->sleeps; }
i64 ready_adv() { return g.cur->ready_adv; }
int wait_kind(int tid) { int s = g.t[tid].st; return s == S_MUTEX ? W_LOCK : s == S_COND ? W_COND : s == S_SLEEP ? W_SLEEP : s == S_JOIN ? W_JOIN : s == S_DONE ? W_DONE : W_NONE; }
bool wait_timed(int tid) { return g.t[tid].timed; }
void join_all() { for (int i = 1; i < g.nthr; i++) if (g.t[i].body && !g.t[i].joined && (!g.cur->grp || (g.t[i].grp == g.cur->grp && &g.t[i] != g.cur))) join_tid(i); }
int self() { return g.cur ? g.cur->id : -1; }
// What earlier calls left on the stack must not look like initialised variables of the next.
__attribute__((noinline)) static void scrub() { volatile u8 b[3072]; memset((void*)b, (int)g.p->env.fill, sizeof b); asm volatile("" :: "r"(b) : "memory"); }
u64 now() { scrub(); return ++g.stamp; }
void note(u64 v) { hash(v); }
void faults(bool on) { g.faults_on[g.cur->grp] = on; }
void fault_mask(u32 m) { g.fmask[g.cur->grp] = m; }
NoFaults::NoFaults() { g.cur->spared++; }
NoFaults::~NoFaults() { g.cur->spared--; }
u64 faults_so_far(Fault f) { return g.nf[f]; }
u64 my_faults(Fault f) { scrub(); return g.cur->finj[f]; }
i64 wall_ns() { return g.wall; }
i64 mono_ns() { return g.mono; }
void advance_ns(i64 ns) {
	for (;;) {
		i64 best = INT64_MAX;
		for (int i = 0; i < g.nthr; i++) { Thr& t = g.t[i];
			if ((t.st == S_COND || t.st == S_SLEEP || t.st == S_MUTEX) && t.timed) { i64 l = dl_left(t); if (l < best) best = l; } }
		if (best > ns) break;
		if (best > 0) ns -= best;
		fire_timer();
	}
	pass_time(ns);
}
void set_wall_ns(i64 ns) { g.wall = ns; }
int held_locks() { return g.cur->held; }
bool me_woken() { return g.cur->last_woken; }
u64 waits_woken() { return g.cur->woken; }
u64 blocked_count() { return g.cur->blocked; }
i64 last_wake_wall() { return g.cur->wake_wall; }
int live_threads() { int n = 0; for (int i = 0; i < g.nthr; i++) n += g.t[i].st != S_DONE && g.t[i].st != S_FREE && (!g.cur->grp || g.t[i].grp == g.cur->grp); return n; }
int thread_state_blocked(int tid) { int s = g.t[tid].st; return s != S_RUN && s != S_DONE && s != S_FREE; }
u64 thread_steps(int tid) { return g.t[tid].steps; }
bool thread_done(int tid) { return g.t[tid].st == S_DONE; }

// ------------------------------------------------------------------ happens-before
static VC& ovc(const void* p) { auto it = g.objvc.find((u64)p); if (it == g.objvc.end()) { it = g.objvc.emplace((u64)p, VC()).first; it->second.clear(); } return it->second; }
static void hb_acquire(const void* p) { g.cur->vc.join(ovc(p)); }
static void hb_release(const void* p) { ovc(p).join(g.cur->vc); g.cur->vc.c[g.cur->id]++; }
static void hb_check(HB& h, const char* what, bool w) {
	Thr* c = g.cur;
	if (h.written && h.wt != c->id && h.wc > c->vc.c[h.wt])
		fail("unsynchronised", "%s by T%d is not ordered after %s by T%d", what, c->id, h.wwhat, h.wt);
	if (w) for (int i = 0; i < vcn; i++) if (i != c->id && h.r.c[i] > c->vc.c[i])
		fail("unsynchronised", "%s by T%d is not ordered after an earlier read by T%d", what, c->id, i);
}
static HB& hbk(const void* k) { auto it = g.hb.find(k); if (it == g.hb.end()) { HB h; memset(&h, 0, sizeof h); it = g.hb.emplace(k, h).first; } return it->second; }
void hb_write(const void* k, const char* what) {
	HB& h = hbk(k);
	hb_check(h, what, true);
	h.written = true; h.wt = g.cur->id; h.wc = g.cur->vc.c[g.cur->id]; h.wwhat = what; h.r.clear();
}
void hb_read(const void* k, const char* what) {
	HB& h = hbk(k);
	hb_check(h, what, false);
	h.r.c[g.cur->id] = g.cur->vc.c[g.cur->id];
}
void hb_forget(const void* k) { g.hb.erase(k); }

// ------------------------------------------------------------------ run
static void on_signal(int sig, siginfo_t* si, void*) {
	if (g.active && g.cur) {
		char b[128];
		u64 a = (u64)si->si_addr;
		if (sig == SIGALRM || sig == SIGVTALRM) { g.v.cls = "hang"; snprintf(b, sizeof b, "the library loops without touching memory"); }
		else {
			g.v.cls = "crash";
			if (a >= (u64)STK_BASE && a < STK_BASE + MAXT * (u64)(STKSZ + 65536)) snprintf(b, sizeof b, "signal %d: stack overflow", sig);
			else snprintf(b, sizeof b, "signal %d", sig);
		}
		g.v.set = true; g.v.msg = b;
		hash(fnv(g.v.cls.data(), g.v.cls.size()));
		siglongjmp(g.jb, 1);
	}
	const char m[] = "sim: signal outside a run\n";
	ssize_t r = write(2, m, sizeof m - 1); (void)r;
	_exit(3);
}
static void init_once() {
	if (g.inited) return;
	g.inited = true;
	int fl = MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE;
	if (mmap((void*)ARENA, ARENA_SZ + 4096, PROT_READ | PROT_WRITE, fl, -1, 0) != (void*)ARENA ||
		mmap((void*)SHADOW, ARENA_SZ / 8 + 4096, PROT_READ | PROT_WRITE, fl, -1, 0) != (void*)SHADOW) { perror("sim: mmap"); _exit(3); }
	for (int i = 0; i < MAXT; i++) {
		void* a = (void*)(STK_BASE + (u64)i * (STKSZ + 65536) + 65536);
		if (mmap(a, STKSZ, PROT_READ | PROT_WRITE, fl, -1, 0) != a) { perror("sim: mmap stack"); _exit(3); }
	}
	g.sdata.assign(__start_libdata, __stop_libdata);
	g.sbss.assign(__start_libbss, __stop_libbss);
	g.stls.assign(__start_simtls, __stop_simtls);
	if (g.stls.size() > sizeof tlsmem[0]) { fprintf(stderr, "sim: too many thread-local variables\n"); _exit(3); }
	memset((void*)SHADOW, SH_RED, 1 << 16);
	g.top = ARENA + 4096;
	static char alt[65536];
	stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt;
	sigaltstack(&ss, nullptr);
	struct sigaction sa; memset(&sa, 0, sizeof sa);
	sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
	int sigs[] = { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM, SIGVTALRM };
	for (int s : sigs) sigaction(s, &sa, nullptr);
}
static void reset_heap() {
	// Everything up to the previous top becomes inaccessible again.
	u64 used = g.top + 128 - ARENA;
	memset((void*)SHADOW, SH_RED, (used >> 3) + 16);
	if (used > (8u << 20)) {
		madvise((void*)(ARENA + (8 << 20)), used - (8 << 20), MADV_DONTNEED);
	}
	g.top = ARENA + 4096;
	g.blk.clear(); g.blkmap.clear(); g.syncs.clear();
}
static u64 prog_hash(const Prog& p) {
	u64 h = fnv(&p.env, sizeof p.env);
	h = fnv(p.cfg.data(), p.cfg.size() * 8, h);
	for (auto& t : p.thr) { u64 m = 77; h = fnv(&m, 8, h); for (auto& o : t) { i64 x[4] = { o.code, o.a, o.b, o.c }; h = fnv(x, 32, h); } }
	return h;
}
Result run(const Scenario& sc, const Prog& p, const Strategy* strat, u64 dseed, const std::vector<Decision>* dec, bool vb) {
	init_once();
	static Strategy none;
	g.p = &p; g.s = strat ? strat : &none; g.rng = Rng(dseed); g.replay = dec != nullptr; g.verbose = vb;
	g.dec.clear();
	static bool dirty = false;
	if (dirty) for (int i = 0; i < MAXT; i++) { g.rsched[i].clear(); for (int f = 0; f < NF; f++) g.rfault[f][i].clear(); }
	dirty = dec != nullptr;
	if (dec) for (auto& d : *dec) {
		if (d.tid >= MAXT) continue;
		if (d.kind == K_SCHED) g.rsched[d.tid][d.key] = d.val;
		else if (d.kind < NF) g.rfault[d.kind][d.tid][d.key] = d.val;
	}
	g.v = Violation(); g.total = g.switches = g.stamp = g.wseq = g.allocs = g.alloc_seq = 0;
	g.cap = (u64)p.env.cap; memset(g.nf, 0, sizeof g.nf); for (int i = 0; i < 3; i++) { g.faults_on[i] = false; g.fmask[i] = ~0u; } g.unlim = false;
	g.wall = p.env.wall_sec * 1000000000ll + p.env.wall_nsec; g.mono = p.env.mono_sec * 1000000000ll + p.env.mono_nsec; g.elapsed = 0;
	g.hash = g.shash = 1469598103934665603ull;
	shash(prog_hash(p));
	shash(fnv(sc.name, strlen(sc.name)));
	g.changes.clear(); g.low_prio = 0;
	if (!g.replay && g.s->kind == 1) {
		for (int i = 0; i < g.s->depth; i++) g.changes.push_back(1 + g.rng.below(g.s->horizon));
		std::sort(g.changes.rbegin(), g.changes.rend());
	}
	g.objvc.clear(); g.hb.clear(); g.keys.clear();
	reset_heap();
	memcpy(__start_libdata, g.sdata.data(), g.sdata.size());
	memcpy(__start_libbss, g.sbss.data(), g.sbss.size());
	io = Io();
	vcn = g.nthr = 0; g.cur = nullptr; nruns++;
	Thr* t0 = new_thread();
	t0->body = [&sc, &p]() { sc.body(p); };
	g.active = true;
	if (sigsetjmp(g.jb, 1) == 0) {
		g.cur = t0;
		t0->fair_at = FAIR;
		set_next(t0);
		sim_ctx_switch(&g.main_sp, t0->sp);
	}
	if (g.cur) account(g.cur);
	g.active = false;
	Result r;
	r.threads = g.nthr;
	g.cur = nullptr;
	hash(g.total); hash((u64)g.elapsed);
	r.v = g.v; r.hash = g.hash; r.sched_hash = g.shash; r.steps = g.total; r.switches = g.switches;
	r.sim_ns = (u64)g.elapsed; memcpy(r.faults, g.nf, sizeof g.nf);
	r.dec = g.replay ? *dec : g.dec;
	for (int i = 0; i < g.nthr; i++) if (!g.v.set) g.t[i].body = nullptr;
	return r;
}

// ------------------------------------------------------------------ stand-ins for what the library calls
struct SMutex { u32 magic; u32 rec; u32 owner; u32 pad; i32 kind; };
struct SCond { u32 magic; u32 clock; };
struct SRw { u32 magic; u32 readers; u32 writer; };
enum { M_LIVE = 0x4d4c5658, M_DEAD = 0x4d444544, C_LIVE = 0x43565831, C_DEAD = 0x43444544, R_LIVE = 0x52574c31 };

static SMutex* mtx(pthread_mutex_t* m, const char* op) {
	check((u64)m, sizeof(pthread_mutex_t), true);
	SMutex* s = (SMutex*)m;
	if (s->magic == M_LIVE) return s;
	if (s->magic == 0 && s->owner == 0) { s->magic = M_LIVE; s->rec = 0; return s; }
	if (s->magic == M_DEAD) fail("destroyed-lock-used", "%s on a mutex that was destroyed", op);
	fail("uninitialised-lock-used", "%s on a mutex that was never initialised", op);
}
static SCond* cnd(pthread_cond_t* c, const char* op) {
	check((u64)c, sizeof(pthread_cond_t), true);
	SCond* s = (SCond*)c;
	if (s->magic == C_LIVE) return s;
	if (s->magic == 0) { s->magic = C_LIVE; s->clock = 0; return s; }
	if (s->magic == C_DEAD) fail("destroyed-condition-used", "%s on a condition that was destroyed", op);
	fail("uninitialised-condition-used", "%s on a condition that was never initialised", op);
}
static void wake_mutex_waiters(void* m) {
	for (int i = 0; i < g.nthr; i++) if (g.t[i].st == S_MUTEX && g.t[i].waiting == m) { g.t[i].st = S_RUN; g.t[i].waiting = nullptr; g.t[i].timed = false; }
}
static int mutex_lock_i(pthread_mutex_t* m, bool try_, bool timed, i64 dl) {
	SMutex* s = mtx(m, "lock");
	Thr* c = g.cur;
	if (s->owner == (u32)c->id + 1) {
		if (s->kind == PTHREAD_MUTEX_RECURSIVE) { s->rec++; return 0; }
		if (s->kind == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
		if (try_) return EBUSY;
	}
	while (s->owner) {
		if (try_) return EBUSY;
		c->timedout = false; c->timed = timed; c->mono = false; c->deadline = dl;
		c->st = S_MUTEX; c->waiting = m;
		block();
		c->st = S_RUN;
		if (timed && c->timedout) return ETIMEDOUT;
		s = mtx(m, "lock");
	}
	s->owner = c->id + 1;
	c->held++;
	hb_acquire(m);
	return 0;
}
static int mutex_unlock_i(pthread_mutex_t* m) {
	SMutex* s = mtx(m, "unlock");
	Thr* c = g.cur;
	if (s->owner != (u32)c->id + 1) {
		if (s->kind == PTHREAD_MUTEX_ERRORCHECK) return EPERM;
		fail("bad-unlock", "unlock of a mutex that the thread does not hold");
	}
	if (s->rec) { s->rec--; return 0; }
	hb_release(m);
	s->owner = 0;
	c->held--;
	wake_mutex_waiters(m);
	return 0;
}
} // namespace sim

using namespace sim;
extern "C" {

int sim_pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) {
	check((u64)m, sizeof *m, true);
	if (inject(F_MUTEX_INIT)) return ENOMEM;
	memset(m, 0, sizeof *m);
	SMutex* s = (SMutex*)m;
	s->magic = M_LIVE;
	g.syncs.insert((u64)m);
	if (a) { int k = 0; pthread_mutexattr_gettype(a, &k); s->kind = k; }
	g.objvc.erase((u64)m);
	step();
	return 0;
}
int sim_pthread_mutex_destroy(pthread_mutex_t* m) {
	SMutex* s = mtx(m, "destroy");
	if (s->owner) fail("destroy-locked", "destroy of a mutex that T%u holds", s->owner - 1);
	for (int i = 0; i < g.nthr; i++) if (g.t[i].st == S_MUTEX && g.t[i].waiting == m) fail("destroy-locked", "destroy of a mutex that T%d waits for", i);
	s->magic = M_DEAD;
	g.syncs.erase((u64)m);
	step();
	return 0;
}
int sim_pthread_mutex_lock(pthread_mutex_t* m) { sync_step(); int r = mutex_lock_i(m, false, false, 0); step(); return r; }
int sim_pthread_mutex_trylock(pthread_mutex_t* m) { sync_step(); return mutex_lock_i(m, true, false, 0); }
int sim_pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) {
	sync_step(); check((u64)ts, sizeof *ts, false);
	return mutex_lock_i(m, false, true, ts->tv_sec * 1000000000ll + ts->tv_nsec);
}
int sim_pthread_mutex_unlock(pthread_mutex_t* m) { step(); int r = mutex_unlock_i(m); sync_step(); return r; }

int sim_pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* a) {
	check((u64)c, sizeof *c, true);
	if (inject(F_COND_INIT)) return ENOMEM;
	memset(c, 0, sizeof *c);
	SCond* s = (SCond*)c; s->magic = C_LIVE;
	g.syncs.insert((u64)c);
	if (a) { clockid_t k = 0; pthread_condattr_getclock(a, &k); s->clock = k; }
	step();
	return 0;
}
int sim_pthread_cond_destroy(pthread_cond_t* c) {
	SCond* s = cnd(c, "destroy");
	for (int i = 0; i < g.nthr; i++) if (g.t[i].st == S_COND && g.t[i].waiting == c) fail("destroy-waited", "destroy of a condition that T%d waits on", i);
	s->magic = C_DEAD;
	g.syncs.erase((u64)c);
	step();
	return 0;
}
static int cond_wait_i(pthread_cond_t* c, pthread_mutex_t* m, bool timed, i64 dl, bool mono) {
	SCond* s = cnd(c, "wait"); (void)s;
	Thr* t = g.cur;
	SMutex* sm = mtx(m, "wait");
	if (sm->owner != (u32)t->id + 1) fail("bad-wait", "condition wait without holding the mutex");
	u32 rec = sm->rec; sm->rec = 0;
	t->timedout = false; t->last_woken = false; t->cwaits++;
	mutex_unlock_i(m);
	if (timed && dl <= (mono ? g.mono : g.wall)) {
		t->timedout = true; t->wake_wall = g.wall;
		sync_step();
	} else if (inject(F_SPURIOUS)) {
		t->last_woken = true; t->woken++; t->wake_wall = g.wall;
		sync_step();
	} else {
		t->st = S_COND; t->waiting = c; t->timed = timed; t->deadline = dl; t->mono = mono; t->wseq = ++g.wseq;
		hash(0xe0 + t->id);
		block();
		t->st = S_RUN; t->timed = false;
	}
	mutex_lock_i(m, false, false, 0);
	sm->rec = rec;
	step();
	return t->timedout ? ETIMEDOUT : 0;
}
int sim_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { sync_step(); return cond_wait_i(c, m, false, 0, false); }
int sim_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
	sync_step();
	check((u64)ts, sizeof *ts, false);
	if (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000) return EINVAL;
	i64 dl;
	if (ts->tv_sec > 9000000000ll) dl = INT64_MAX / 2; else if (ts->tv_sec < 0) dl = 0; else dl = ts->tv_sec * 1000000000ll + ts->tv_nsec;
	return cond_wait_i(c, m, true, dl, cnd(c, "wait")->clock == CLOCK_MONOTONIC);
}
int sim_pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t id, const struct timespec* ts) {
	sync_step();
	check((u64)ts, sizeof *ts, false);
	if (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000) return EINVAL;
	return cond_wait_i(c, m, true, ts->tv_sec > 9000000000ll ? INT64_MAX / 2 : ts->tv_sec < 0 ? 0 : ts->tv_sec * 1000000000ll + ts->tv_nsec, id == CLOCK_MONOTONIC);
}
static void wake_cond(Thr* w) { w->st = S_RUN; w->waiting = nullptr; w->timed = false; w->last_woken = true; w->woken++; w->wake_wall = g.wall; hash(0xf0 + w->id); }
int sim_pthread_cond_signal(pthread_cond_t* c) {
	sync_step();
	cnd(c, "signal");
	Thr* w[MAXT + 16]; int n = 0;
	for (int i = 0; i < g.nthr; i++) if (g.t[i].st == S_COND && g.t[i].waiting == c) w[n++] = &g.t[i];
	if (n) {
		std::sort(w, w + n, [](Thr* a, Thr* b) { return a->wseq < b->wseq; });
		int k = n > 1 ? inject(F_SIGPICK, n - 1) : 0;
		wake_cond(w[k]);
	}
	sync_step();
	return 0;
}
int sim_pthread_cond_broadcast(pthread_cond_t* c) {
	sync_step();
	cnd(c, "broadcast");
	for (int i = 0; i < g.nthr; i++) if (g.t[i].st == S_COND && g.t[i].waiting == c) wake_cond(&g.t[i]);
	sync_step();
	return 0;
}
void sim_pthread_exit(void* r) { if (g.cur->body) fail("exit", "the library ended a thread of the caller"); g.cur->ret = r; thread_end(); }
int sim_pthread_create(pthread_t* th, const pthread_attr_t* at, void* (*fn)(void*), void* arg) {
	sync_step();
	check((u64)th, sizeof *th, true);
	if (inject(F_THREAD)) return EAGAIN;
	Thr* t = new_thread();
	if (!t) return EAGAIN;
	t->fn = fn; t->arg = arg;
	if (at) { int d = 0; pthread_attr_getdetachstate(at, &d); t->detached = d == PTHREAD_CREATE_DETACHED; }
	*th = (pthread_t)(0x7000 + t->id);
	hash(0xc0 + t->id);
	sync_step();
	return 0;
}
static int tid_of(pthread_t th, const char* op) {
	long id = (long)th - 0x7000;
	if (id <= 0 || id >= g.nthr || g.t[id].body || g.t[id].joined || g.t[id].detached)
		fail("bad-thread", "%s of something that is not a joinable thread", op);
	return (int)id;
}
int sim_pthread_join(pthread_t th, void** ret) {
	sync_step();
	int id = tid_of(th, "join");
	join_tid(id);
	if (ret) *ret = g.t[id].ret;
	return 0;
}
int sim_pthread_detach(pthread_t th) { sync_step(); int id = tid_of(th, "detach"); g.t[id].detached = true; return 0; }
pthread_t sim_pthread_self(void) { return (pthread_t)(0x7000 + g.cur->id); }
int sim_pthread_setname_np(pthread_t, const char*) { return 0; }
int sim_pthread_once(pthread_once_t* o, void (*fn)(void)) {
	sync_step();
	while (*o == 1) { g.cur->fair_at = g.cur->steps; g.cur->next_evt = 0; step(); }
	if (*o == 2) { hb_acquire(o); return 0; }
	*o = 1; fn(); hb_release(o); *o = 2;
	return 0;
}
static SRw* rwl(pthread_rwlock_t* l) { check((u64)l, sizeof *l, true); return (SRw*)l; }
int sim_pthread_rwlock_init(pthread_rwlock_t* l, const void*) { check((u64)l, sizeof *l, true); memset(l, 0, sizeof *l); ((SRw*)l)->magic = R_LIVE; return 0; }
int sim_pthread_rwlock_destroy(pthread_rwlock_t* l) { rwl(l)->magic = C_DEAD; return 0; }
int sim_pthread_rwlock_rdlock(pthread_rwlock_t* l) {
	sync_step(); SRw* s = rwl(l);
	while (s->writer) { g.cur->st = S_MUTEX; g.cur->waiting = l; g.cur->timed = false; block(); g.cur->st = S_RUN; }
	s->readers++; hb_acquire(l); g.cur->held++; return 0;
}
int sim_pthread_rwlock_wrlock(pthread_rwlock_t* l) {
	sync_step(); SRw* s = rwl(l);
	while (s->writer || s->readers) { g.cur->st = S_MUTEX; g.cur->waiting = l; g.cur->timed = false; block(); g.cur->st = S_RUN; }
	s->writer = g.cur->id + 1; hb_acquire(l); g.cur->held++; return 0;
}
int sim_pthread_rwlock_unlock(pthread_rwlock_t* l) {
	SRw* s = rwl(l);
	if (s->writer == (u32)g.cur->id + 1) s->writer = 0; else if (s->readers) s->readers--; else fail("bad-unlock", "unlock of a lock not held");
	hb_release(l); g.cur->held--; wake_mutex_waiters(l); sync_step(); return 0;
}
int sim_pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { sync_step(); SRw* s = rwl(l); if (s->writer) return EBUSY; s->readers++; hb_acquire(l); g.cur->held++; return 0; }
int sim_pthread_rwlock_trywrlock(pthread_rwlock_t* l) { sync_step(); SRw* s = rwl(l); if (s->writer || s->readers) return EBUSY; s->writer = g.cur->id + 1; hb_acquire(l); g.cur->held++; return 0; }
// Semaphores, barriers and thread-specific values: the library uses none today, another version of it may.
struct SSem { u32 magic, val; };
static SSem* sem(sem_t* p) { check((u64)p, sizeof *p, true); SSem* s = (SSem*)p; if (s->magic != R_LIVE) fail("uninitialised-lock-used", "use of a semaphore that was never initialised or was destroyed"); return s; }
static int sem_wait_i(sem_t* p, bool timed, i64 dl) {
	sync_step(); SSem* s = sem(p); Thr* c = g.cur;
	while (!s->val) {
		if (timed && dl <= g.wall) { errno = ETIMEDOUT; return -1; }
		c->timedout = false; c->timed = timed; c->mono = false; c->deadline = dl; c->st = S_MUTEX; c->waiting = p;
		block();
		c->st = S_RUN; s = sem(p);
		if (timed && c->timedout) { errno = ETIMEDOUT; return -1; }
	}
	s->val--; hb_acquire(p); step(); return 0;
}
int sim_sem_init(sem_t* p, int, unsigned v) { check((u64)p, sizeof *p, true); memset(p, 0, sizeof *p); ((SSem*)p)->magic = R_LIVE; ((SSem*)p)->val = v; g.objvc.erase((u64)p); step(); return 0; }
int sim_sem_destroy(sem_t* p) { sem(p)->magic = C_DEAD; step(); return 0; }
int sim_sem_wait(sem_t* p) { return sem_wait_i(p, false, 0); }
int sim_sem_timedwait(sem_t* p, const struct timespec* ts) { check((u64)ts, sizeof *ts, false); return sem_wait_i(p, true, ts->tv_sec * 1000000000ll + ts->tv_nsec); }
int sim_sem_trywait(sem_t* p) { sync_step(); SSem* s = sem(p); if (!s->val) { errno = EAGAIN; return -1; } s->val--; hb_acquire(p); return 0; }
int sim_sem_post(sem_t* p) { sync_step(); SSem* s = sem(p); hb_release(p); s->val++; wake_mutex_waiters(p); sync_step(); return 0; }
int sim_sem_getvalue(sem_t* p, int* v) { sync_step(); *v = (int)sem(p)->val; return 0; }
struct SBar { u32 magic, need, in, round; };
int sim_pthread_barrier_init(pthread_barrier_t* b, const void*, unsigned n) { check((u64)b, sizeof *b, true); if (!n) return EINVAL; SBar* s = (SBar*)b; s->magic = R_LIVE; s->need = n; s->in = s->round = 0; g.objvc.erase((u64)b); return 0; }
int sim_pthread_barrier_destroy(pthread_barrier_t* b) { check((u64)b, sizeof *b, true); ((SBar*)b)->magic = C_DEAD; return 0; }
int sim_pthread_barrier_wait(pthread_barrier_t* b) {
	sync_step(); check((u64)b, sizeof *b, true); SBar* s = (SBar*)b;
	if (s->magic != R_LIVE) fail("uninitialised-lock-used", "use of a barrier that was never initialised or was destroyed");
	hb_release(b);
	if (++s->in == s->need) { s->in = 0; s->round++; hb_acquire(b); wake_mutex_waiters(b); sync_step(); return PTHREAD_BARRIER_SERIAL_THREAD; }
	u32 r = s->round;
	while (s->round == r) { g.cur->st = S_MUTEX; g.cur->waiting = b; g.cur->timed = false; block(); g.cur->st = S_RUN; }
	hb_acquire(b); return 0;
}
int sim_pthread_key_create(pthread_key_t* k, void (*fn)(void*)) { step(); g.keys.push_back(fn); *k = (pthread_key_t)g.keys.size() - 1; return 0; }
int sim_pthread_key_delete(pthread_key_t k) { step(); if (k < g.keys.size()) g.keys[k] = nullptr; return 0; }
int sim_pthread_setspecific(pthread_key_t k, const void* v) { step(); if (k >= g.keys.size()) return EINVAL; auto& s = g.cur->specific; if (s.size() <= k) s.resize(k + 1); s[k] = (void*)v; return 0; }
void* sim_pthread_getspecific(pthread_key_t k) { step(); auto& s = g.cur->specific; return k < s.size() ? s[k] : nullptr; }
int sim_pthread_spin_init(pthread_spinlock_t* l, int) { check((u64)l, 4, true); *(volatile int*)l = 1; g.objvc.erase((u64)l); return 0; }
int sim_pthread_spin_destroy(pthread_spinlock_t*) { return 0; }
int sim_pthread_spin_lock(pthread_spinlock_t* l) {
	sync_step(); check((u64)l, 4, true);
	while (*(volatile int*)l == 2) { g.cur->st = S_MUTEX; g.cur->waiting = (void*)l; g.cur->timed = false; block(); g.cur->st = S_RUN; }
	*(volatile int*)l = 2; hb_acquire((void*)l); g.cur->held++; return 0;
}
int sim_pthread_spin_trylock(pthread_spinlock_t* l) { sync_step(); check((u64)l, 4, true); if (*(volatile int*)l == 2) return EBUSY; *(volatile int*)l = 2; hb_acquire((void*)l); g.cur->held++; return 0; }
int sim_pthread_spin_unlock(pthread_spinlock_t* l) { check((u64)l, 4, true); hb_release((void*)l); *(volatile int*)l = 1; g.cur->held--; wake_mutex_waiters((void*)l); sync_step(); return 0; }
int sim_sched_yield(void) { sync_step(); g.cur->fair_at = g.cur->steps; g.cur->next_evt = 0; step(); return 0; }

static void sleep_ns(i64 ns) {
	Thr* t = g.cur;
	t->sleeps++;
	t->st = S_SLEEP; t->timed = true; t->mono = true; t->deadline = g.mono + ns; t->waiting = nullptr;
	block();
	t->st = S_RUN; t->timed = false;
}
int sim_nanosleep(const struct timespec* a, struct timespec* rem) { sync_step(); sleep_ns(a->tv_sec * 1000000000ll + a->tv_nsec); if (rem) rem->tv_sec = rem->tv_nsec = 0; return 0; }
int sim_clock_nanosleep(clockid_t id, int fl, const struct timespec* a, struct timespec*) {
	sync_step();
	i64 ns = a->tv_sec * 1000000000ll + a->tv_nsec;
	if (fl & TIMER_ABSTIME) ns -= id == CLOCK_REALTIME ? g.wall : g.mono;
	if (ns > 0) sleep_ns(ns);
	return 0;
}
int sim_usleep(unsigned us) { sync_step(); sleep_ns((i64)us * 1000); return 0; }
unsigned sim_sleep(unsigned s) { sync_step(); sleep_ns((i64)s * 1000000000ll); return 0; }

static void tick() { i64 k = g.p->env.tick; g.wall += k; g.mono += k; g.elapsed += k; }
int sim_clock_gettime(clockid_t id, struct timespec* ts) {
	step();
	check((u64)ts, sizeof *ts, true);
	i64 v = id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE ? g.wall : g.mono;
	ts->tv_sec = v / 1000000000; ts->tv_nsec = v % 1000000000;
	tick();
	if (g.cur && inject(F_WALLJUMP, 4)) { /* handled by the scenario through set_wall_ns; a step forward here */ g.wall += 1000000ll * (1 + g.total % 7777); }
	return 0;
}
int sim_gettimeofday(struct timeval* tv, void*) { step(); check((u64)tv, sizeof *tv, true); tv->tv_sec = g.wall / 1000000000; tv->tv_usec = (g.wall % 1000000000) / 1000; tick(); return 0; }
int sim_timespec_get(struct timespec* ts, int base) { if (base != TIME_UTC) return 0; sim_clock_gettime(CLOCK_REALTIME, ts); return base; }
time_t sim_time(time_t* t) { time_t v = g.wall / 1000000000; if (t) *t = v; return v; }

// ------------------------------------------------------------------ memory
void* sim_malloc(size_t n) {
	step();
	g.allocs++;
	if (n > (size_t)g.p->env.maxalloc && !g.unlim) { if (g.verbose) logf("request of %zu bytes finds no memory", n); errno = ENOMEM; return nullptr; }
	if (inject(F_ALLOC)) { errno = ENOMEM; return nullptr; }
	void* p = raw_alloc(n, false, __builtin_return_address(0), false);
	if (!p) errno = ENOMEM;
	return p;
}
void* sim_calloc(size_t a, size_t b) {
	size_t n;
	if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
	void* p = sim_malloc(n);
	if (p) memset(p, 0, n);
	return p;
}
void sim_free(void* p) { step(); if (p) raw_free((u64)p, "free"); }
void* sim_realloc(void* p, size_t n) {
	if (!p) return sim_malloc(n);
	auto it = g.blkmap.find((u64)p);
	if (it == g.blkmap.end()) fail("bad-free", "realloc of a pointer that is not an allocation");
	if (!g.blk[it->second].st) fail("heap-use-after-free", "realloc of a freed block");
	if (g.blk[it->second].harness) fail("bad-free", "realloc of memory that belongs to the caller");
	u64 old = g.blk[it->second].size;
	void* q = sim_malloc(n);
	if (!q) return nullptr;
	memcpy(q, p, old < n ? old : n);
	raw_free((u64)p, "realloc");
	return q;
}
void* sim_valloc(size_t n) { return sim_malloc(n); }
void* sim_aligned_alloc(size_t, size_t n) { return sim_malloc(n); }
void* sim_reallocarray(void* p, size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) return nullptr; return sim_realloc(p, n); }
int sim_posix_memalign(void** o, size_t, size_t n) { void* p = sim_malloc(n); if (!p) return ENOMEM; *o = p; return 0; }

static size_t cstrlen(const char* s) {
	if (!in_arena((u64)s)) { if ((u64)s < 65536) check((u64)s, 1, false); return strlen(s); }
	size_t n = 0;
	for (;; n++) { check((u64)s + n, 1, false); if (!s[n]) return n; }
}
static size_t cstrnlen(const char* s, size_t m) {
	size_t n = 0;
	for (; n < m; n++) { check((u64)s + n, 1, false); if (!s[n]) return n; }
	return n;
}
char* sim_strdup(const char* s) { size_t n = cstrlen(s); char* p = (char*)sim_malloc(n + 1); if (p) { memcpy(p, s, n + 1); } return p; }
char* sim_strndup(const char* s, size_t m) { size_t n = cstrnlen(s, m); char* p = (char*)sim_malloc(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
size_t sim_strlen(const char* s) { step(); return cstrlen(s); }
size_t sim_strnlen(const char* s, size_t m) { step(); return cstrnlen(s, m); }
void* sim_memcpy(void* d, const void* s, size_t n) {
	step();
	check((u64)s, n, false); check((u64)d, n, true);
	if (n && (u64)d != (u64)s && (u64)d < (u64)s + n && (u64)s < (u64)d + n) fail("overlapping-copy", "memcpy of %zu bytes between overlapping ranges", n);
	// Copy in pieces, so that an unprotected copy can be torn.
	size_t half = n > 1 ? ((n / 2) & ~(size_t)3) : 0;
	if (half && n <= 256) { memcpy(d, s, half); step(); check((u64)s, n, false); check((u64)d, n, true); memcpy((u8*)d + half, (const u8*)s + half, n - half); }
	else memcpy(d, s, n);
	step();
	return d;
}
void* sim_memmove(void* d, const void* s, size_t n) { step(); check((u64)s, n, false); check((u64)d, n, true); memmove(d, s, n); step(); return d; }
void* sim_memset(void* d, int c, size_t n) { step(); check((u64)d, n, true); memset(d, c, n); return d; }
int sim_memcmp(const void* a, const void* b, size_t n) { step(); check((u64)a, n, false); check((u64)b, n, false); return memcmp(a, b, n); }
int sim_bcmp(const void* a, const void* b, size_t n) { return sim_memcmp(a, b, n); }
void sim_bzero(void* d, size_t n) { sim_memset(d, 0, n); }
void sim_bcopy(const void* s, void* d, size_t n) { sim_memmove(d, s, n); }
void* sim_mempcpy(void* d, const void* s, size_t n) { sim_memcpy(d, s, n); return (char*)d + n; }
void* sim_memmem(const void* a, size_t n, const void* b, size_t m) { step(); check((u64)a, n, false); check((u64)b, m, false); return (void*)memmem(a, n, b, m); }
void* sim_memchr(const void* a, int c, size_t n) { step(); check((u64)a, n, false); return (void*)memchr(a, c, n); }
char* sim_strcpy(char* d, const char* s) { step(); size_t n = cstrlen(s); check((u64)d, n + 1, true); memcpy(d, s, n + 1); return d; }
char* sim_stpcpy(char* d, const char* s) { step(); size_t n = cstrlen(s); check((u64)d, n + 1, true); memcpy(d, s, n + 1); return d + n; }
char* sim_strncpy(char* d, const char* s, size_t m) { step(); size_t n = cstrnlen(s, m); check((u64)d, m, true); memcpy(d, s, n); memset(d + n, 0, m - n); return d; }
char* sim_strcat(char* d, const char* s) { size_t a = cstrlen(d); sim_strcpy(d + a, s); return d; }
char* sim_strncat(char* d, const char* s, size_t m) { size_t a = cstrlen(d), n = cstrnlen(s, m); check((u64)d + a, n + 1, true); memcpy(d + a, s, n); d[a + n] = 0; return d; }
int sim_strcmp(const char* a, const char* b) { step(); cstrlen(a); cstrlen(b); return strcmp(a, b); }
int sim_strncmp(const char* a, const char* b, size_t n) { step(); cstrnlen(a, n); cstrnlen(b, n); return strncmp(a, b, n); }
int sim_strncasecmp(const char* a, const char* b, size_t n) { step(); cstrnlen(a, n); cstrnlen(b, n); return strncasecmp(a, b, n); }
int sim_strcasecmp(const char* a, const char* b) { step(); cstrlen(a); cstrlen(b); return strcasecmp(a, b); }
char* sim_strchr(const char* s, int c) { step(); cstrlen(s); return (char*)strchr(s, c); }
char* sim_strrchr(const char* s, int c) { step(); cstrlen(s); return (char*)strrchr(s, c); }
char* sim_strstr(const char* s, const char* t) { step(); cstrlen(s); cstrlen(t); return (char*)strstr(s, t); }

static int fmt_to(char* d, size_t n, bool bounded, const char* f, va_list ap) {
	step();
	char small[1024]; std::string large; char* tmp = small;
	va_list again; va_copy(again, ap);
	int k = vsnprintf(small, sizeof small, f, ap);
	if (k >= (int)sizeof small) { large.resize((size_t)k + 1); tmp = &large[0]; vsnprintf(tmp, (size_t)k + 1, f, again); }
	va_end(again);
	if (k < 0) return k;
	size_t w = (size_t)k;
	if (bounded) { if (n == 0) return k; if (w > n - 1) w = n - 1; }
	check((u64)d, w + 1, true);
	memcpy(d, tmp, w); d[w] = 0;
	return k;
}
int sim_snprintf(char* d, size_t n, const char* f, ...) { va_list ap; va_start(ap, f); int r = fmt_to(d, n, true, f, ap); va_end(ap); return r; }
int sim_sprintf(char* d, const char* f, ...) { va_list ap; va_start(ap, f); int r = fmt_to(d, 0, false, f, ap); va_end(ap); return r; }
int sim_vsnprintf(char* d, size_t n, const char* f, va_list ap) { return fmt_to(d, n, true, f, ap); }
int sim_vsprintf(char* d, const char* f, va_list ap) { return fmt_to(d, 0, false, f, ap); }
int sim_vasprintf(char** d, const char* f, va_list ap) {
	va_list again; va_copy(again, ap); int k = vsnprintf(nullptr, 0, f, again); va_end(again);
	if (k < 0 || !(*d = (char*)sim_malloc((size_t)k + 1))) return -1;
	return fmt_to(*d, (size_t)k + 1, true, f, ap);
}
int sim_asprintf(char** d, const char* f, ...) { va_list ap; va_start(ap, f); int r = sim_vasprintf(d, f, ap); va_end(ap); return r; }
// What the library prints is kept, wherever it goes; nothing reaches the real terminal.
int sim_vfprintf(FILE*, const char* f, va_list ap) { char b[1024]; int r = vsnprintf(b, sizeof b, f, ap); io.output += b; step(); return r; }
int sim_vprintf(const char* f, va_list ap) { return sim_vfprintf(stdout, f, ap); }
int sim_printf(const char* f, ...) { va_list ap; va_start(ap, f); int r = sim_vfprintf(stdout, f, ap); va_end(ap); return r; }
int sim_fprintf(FILE* o, const char* f, ...) { va_list ap; va_start(ap, f); int r = sim_vfprintf(o, f, ap); va_end(ap); return r; }
int sim_puts(const char* s) { io.output += s; io.output += '\n'; step(); return 1; }
int sim_putchar(int c) { io.output += (char)c; step(); return c; }
int sim_fputs(const char* s, FILE*) { io.output += s; step(); return 1; }
int sim_fputc(int c, FILE*) { io.output += (char)c; step(); return c; }
int sim_putc(int c, FILE* o) { return sim_fputc(c, o); }
size_t sim_fwrite(const void* b, size_t z, size_t n, FILE*) { check((u64)b, z * n, false); io.output.append((const char*)b, z * n); step(); return n; }
ssize_t sim_write(int fd, const void* b, size_t n) { if (fd != 1 && fd != 2) { errno = EBADF; return -1; } check((u64)b, n, false); io.output.append((const char*)b, n); step(); return (ssize_t)n; }
void sim_perror(const char*) { step(); }
int sim_fflush(FILE*) { step(); return 0; }
void sim___stack_chk_fail(void) { fail("stack-smashed", "a local array was written out of bounds"); }
void sim_abort(void) { fail("abort", "the library aborted"); }
void sim___assert_fail(const char* e, const char*, unsigned, const char*) { fail("assert", "assertion failed: %s", e); }
void sim_exit(int) { fail("exit", "the library ended the process"); }

// ------------------------------------------------------------------ entropy
static u64 entropy_ctr_next() { return mix((u64)g.p->env.entropy, (u64)io.produced.size() + (io.reads << 20) + 0x1234); }
// One byte of the generator's output. Stream 1: any four consecutive bytes tell their position, values 0x80-0xef never
// occur. Streams 2 and 3: every other 64-bit word is the same.
static u8 entropy_byte(u64 k) {
	if (io.stream == 1) { u64 n = k / 3; return k % 3 == 0 ? (u8)(0xf0 | (n >> 14 & 15)) : k % 3 == 1 ? (u8)(n >> 7 & 127) : (u8)(n & 127); }
	u64 w = k / 8;
	if (io.stream >= 2 && (w & 1) == (u64)(io.stream & 1)) w = 0x77777777;
	return (u8)(mix((u64)g.p->env.entropy, w) >> (8 * (k % 8)));
}
static void produce(u8* b, size_t n, bool track) {
	for (size_t i = 0; i < n; i++) {
		u8 v;
		if (io.zero_fill > 0) v = 0;
		else if (track) v = entropy_byte(io.produced.size());
		else if (io.stream == 1) v = (u8)(0xc0 | (i & 15));
		else v = (u8)(entropy_ctr_next() >> ((i % 8) * 8));
		b[i] = v;
		if (track) io.produced.push_back(v);
	}
	if (io.zero_fill > 0) io.zero_fill--;
}
int sim_open64(const char* path, int, ...) {
	sync_step();
	if (strcmp(path, "/dev/urandom") && strcmp(path, "/dev/random")) { errno = ENOENT; return -1; }
	if (inject(F_OPEN)) { errno = EMFILE; return -1; }
	io.opens++;
	// The lowest number that is free, which is 0 in a process that closed its standard input.
	size_t fd = g.p->env.entropy % 5 ? 3 + g.p->env.entropy % 7 : 0;
	while (fd < io.fds.size() && io.fds[fd]) fd++;
	if (fd >= io.fds.size()) io.fds.resize(fd + 1);
	io.fds[fd] = true;
	return (int)fd;
}
static bool open_fd(int fd) { return fd >= 0 && (size_t)fd < io.fds.size() && io.fds[(size_t)fd]; }
int sim_open(const char* path, int fl, ...) { return sim_open64(path, fl); }
ssize_t sim_read(int fd, void* b, size_t n) {
	sync_step();
	if (fd < 0) { errno = EBADF; return -1; }
	if (fd == 0 && !open_fd(0)) {         // the terminal: at most one line
		io.reads_done++;
		if (io.tty && (io.lflag & ECHO)) io.echo_during_read = true;
		check((u64)b, n, true);
		if (inject(F_TTYREAD, 1)) { errno = EIO; return -1; }
		size_t k = 0;
		while (k < n && io.in_pos < io.input.size()) { char c = io.input[io.in_pos++]; ((char*)b)[k++] = c; if (c == '\n') break; }
		return (ssize_t)k;
	}
	if (!open_fd(fd)) { errno = EBADF; fail("bad-descriptor", "read from a descriptor that is not open"); }
	check((u64)b, n, true);
	io.reads++;
	if (!io.os_want) io.os_want = n;
	int f = inject(F_READ, 3);
	if (f == 1) { errno = EINTR; return -1; }
	if (f == 2) { size_t k = n / 2; produce((u8*)b, k, false); return (ssize_t)k; }
	if (f == 3) return 0;
	produce((u8*)b, n, false);
	return (ssize_t)n;
}
int sim_close(int fd) {
	sync_step();
	if (fd < 0) { errno = EBADF; return -1; }
	if (!open_fd(fd)) { errno = EBADF; fail("bad-descriptor", "close of a descriptor that is not open"); }
	io.closes++;
	io.fds[(size_t)fd] = false;
	return 0;
}
// Only sources of randomness can be opened; a stream is told apart by its address.
static char stream_base[4096];
static int stream_fd(void* f) { long k = (char*)f - stream_base; if (k <= 0 || k >= (long)sizeof stream_base) fail("bad-descriptor", "use of a stream that is not open"); return (int)k - 1; }
void* sim_fopen(const char* path, const char*) { int fd = sim_open64(path, 0); return fd < 0 ? nullptr : stream_base + fd + 1; }
void* sim_fopen64(const char* path, const char* m) { return sim_fopen(path, m); }
size_t sim_fread(void* b, size_t sz, size_t n, void* f) { int fd = stream_fd(f); ssize_t k = sim_read(fd, b, sz * n); return k <= 0 || !sz ? 0 : (size_t)k / sz; }
int sim_fclose(void* f) { return sim_close(stream_fd(f)); }
ssize_t sim_getrandom(void* b, size_t n, unsigned) {
	sync_step(); check((u64)b, n, true);
	if (!io.os_want) io.os_want = n;
	if (inject(F_READ, 1)) { errno = EINTR; return -1; }
	produce((u8*)b, n, false); return (ssize_t)n;
}
void sim_RAND_seed(const void* b, int n) { sync_step(); if (n < 0) fail("bad-seed", "the generator was seeded with %d bytes", n); check((u64)b, (u64)n, false); io.seeds++; io.seeded_bytes += n; }
void sim_RAND_add(const void* b, int n, double) { sim_RAND_seed(b, n); }
int sim_RAND_bytes(unsigned char* b, int n) {
	sync_step(); check((u64)b, (u64)n, true);
	io.rand_calls++;
	int f = inject(F_RAND, 2);
	if (f) { io.rand_fail++; if (f == 2) memset(b, 0x9d, (size_t)n); return 0; }      // the buffer's contents are undefined then
	produce(b, (size_t)n, true);
	step();
	return 1;
}

// ------------------------------------------------------------------ terminal
int sim_tcgetattr(int fd, struct termios* t) {
	step(); check((u64)t, sizeof *t, true);
	io.tty_gets++;
	if (fd != 0 || !io.tty) { errno = ENOTTY; return -1; }
	if (inject(F_TTYGET)) { errno = EIO; return -1; }
	memset(t, 0, sizeof *t);
	t->c_lflag = io.lflag; t->c_iflag = TTY_COOKIE;
	return 0;
}
int sim_tcsetattr(int fd, int, const struct termios* t) {
	step(); check((u64)t, sizeof *t, false);
	if (fd != 0 || !io.tty) { errno = ENOTTY; return -1; }
	if (inject(F_TTYSET)) { errno = EINTR; return -1; }
	io.tty_sets++;
	if (t->c_iflag != TTY_COOKIE) io.garbage_set = true;
	io.lflag = t->c_lflag;
	return 0;
}
char* sim_fgets(char* s, int n, FILE*) {
	step();
	io.reads_done++;
	if (io.tty && (io.lflag & ECHO)) io.echo_during_read = true;
	check((u64)s, n > 0 ? (u64)n : 1, true);
	if (n <= 0) return nullptr;
	if (n == 1) { s[0] = 0; return s; }
	int f = inject(F_TTYREAD, 2);
	size_t avail = io.input.size() - io.in_pos;
	int k = 0;
	while (k < n - 1 && avail) {
		char c = io.input[io.in_pos++]; avail--;
		if (f == 2 && k >= 3) { s[k] = 0; errno = EIO; return nullptr; }   // error after part of the line
		s[k++] = c;
		if (c == '\n') break;
	}
	if (f == 1 || (k == 0)) return nullptr;
	s[k] = 0;
	return s;
}

// One character at a time, for readers that do without fgets.
int sim_fgetc(FILE*) {
	step();
	io.reads_done++;
	if (io.tty && (io.lflag & ECHO)) io.echo_during_read = true;
	if (inject(F_TTYREAD, 1)) { errno = EIO; return EOF; }
	return io.in_pos < io.input.size() ? (unsigned char)io.input[io.in_pos++] : EOF;
}
int sim_getc(FILE* f) { return sim_fgetc(f); }
int sim_getchar(void) { return sim_fgetc(stdin); }
ssize_t sim_getdelim(char** l, size_t* n, int d, FILE* f) {
	std::string s;
	for (int c; (c = sim_fgetc(f)) != EOF;) { s += (char)c; if (c == d) break; }
	if (s.empty()) return -1;
	if (!*l || *n < s.size() + 1) { char* p = (char*)sim_realloc(*l, s.size() + 1); if (!p) return -1; *l = p; *n = s.size() + 1; }
	check((u64)*l, s.size() + 1, true);
	memcpy(*l, s.c_str(), s.size() + 1);
	return (ssize_t)s.size();
}
ssize_t sim_getline(char** l, size_t* n, FILE* f) { return sim_getdelim(l, n, '\n', f); }
int sim_feof(FILE*) { step(); return io.in_pos >= io.input.size(); }
int sim_isatty(int fd) { step(); return fd == 0 && io.tty; }

// ------------------------------------------------------------------ instrumentation callbacks
void __tsan_init(void) {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit(void) {}
#define ACC(n) \
	void __tsan_read##n(void* a) { step(); check((u64)a, n, false); } \
	void __tsan_write##n(void* a) { step(); check((u64)a, n, true); } \
	void __tsan_unaligned_read##n(void* a) { step(); check((u64)a, n, false); } \
	void __tsan_unaligned_write##n(void* a) { step(); check((u64)a, n, true); } \
	void __tsan_volatile_read##n(void* a) { step(); check((u64)a, n, false); } \
	void __tsan_volatile_write##n(void* a) { step(); check((u64)a, n, true); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void* a, size_t n) { step(); check((u64)a, n, false); }
void __tsan_write_range(void* a, size_t n) { step(); check((u64)a, n, true); }

static inline bool acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static inline bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static void at_load(const volatile void* a, int mo) {
	if (!g.cur) return;
	VC& o = ovc((const void*)a);
	if (acq(mo)) g.cur->vc.join(o); else g.cur->acqpend.join(o);
}
static void at_store(const volatile void* a, int mo, bool rmw) {
	if (!g.cur) return;
	VC& o = ovc((const void*)a);
	if (!rmw) o.clear();
	if (rel(mo)) { o.join(g.cur->vc); g.cur->vc.c[g.cur->id]++; }
	else o.join(g.cur->relf);
}
#define ATOMIC(bits, T) \
	T __tsan_atomic##bits##_load(const volatile T* a, int mo) { sync_step(); check((u64)a, sizeof(T), false); at_load(a, mo); return *a; } \
	void __tsan_atomic##bits##_store(volatile T* a, T v, int mo) { sync_step(); check((u64)a, sizeof(T), true); at_store(a, mo, false); *a = v; } \
	T __tsan_atomic##bits##_exchange(volatile T* a, T v, int mo) { sync_step(); check((u64)a, sizeof(T), true); at_load(a, mo); at_store(a, mo, true); T o = *a; *a = v; return o; } \
	T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int mo) { sync_step(); check((u64)a, sizeof(T), true); at_load(a, mo); at_store(a, mo, true); T o = *a; *a = o + v; return o; } \
	T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int mo) { sync_step(); check((u64)a, sizeof(T), true); at_load(a, mo); at_store(a, mo, true); T o = *a; *a = o - v; return o; } \
	T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int mo) { sync_step(); check((u64)a, sizeof(T), true); at_load(a, mo); at_store(a, mo, true); T o = *a; *a = o & v; return o; } \
	T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int mo) { sync_step(); check((u64)a, sizeof(T), true); at_load(a, mo); at_store(a, mo, true); T o = *a; *a = o | v; return o; } \
	T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int mo) { sync_step(); check((u64)a, sizeof(T), true); at_load(a, mo); at_store(a, mo, true); T o = *a; *a = o ^ v; return o; } \
	T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int mo) { sync_step(); check((u64)a, sizeof(T), true); at_load(a, mo); at_store(a, mo, true); T o = *a; *a = ~(o & v); return o; } \
	int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) { sync_step(); check((u64)a, sizeof(T), true); \
		T o = *a; if (o == *c) { at_load(a, mo); at_store(a, mo, true); *a = v; return 1; } at_load(a, fmo); *c = o; return 0; } \
	int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) { sync_step(); check((u64)a, sizeof(T), true); \
		T o = *a; if (o == *c && !inject(F_CASWEAK)) { at_load(a, mo); at_store(a, mo, true); *a = v; return 1; } at_load(a, fmo); *c = o; return 0; } \
	T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) { __tsan_atomic##bits##_compare_exchange_strong(a, &c, v, mo, fmo); return c; }
ATOMIC(8, u8) ATOMIC(16, u16) ATOMIC(32, u32) ATOMIC(64, u64)
void __tsan_atomic_thread_fence(int mo) {
	sync_step();
	if (!g.cur) return;
	if (acq(mo)) g.cur->vc.join(g.cur->acqpend);
	if (rel(mo)) { g.cur->relf = g.cur->vc; g.cur->vc.c[g.cur->id]++; }
}
void __tsan_atomic_signal_fence(int) {}

} // extern "C"
