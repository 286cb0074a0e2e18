// C07..C10: thread pool, buffer pool, monitor.
#include "common.h"
#include "glue.h"
#include <aerospike/as_thread_pool.h>
#include <aerospike/as_buffer_pool.h>
#include <set>

namespace {

// ------------------------------------------------------------------ thread pool
enum { T_SUBMIT, T_NEST, T_SLEEP, T_NODATA };
const char* tp_op(int c) { static const char* n[] = { "submit", "submit_resubmitting", "submit_slow", "submit_without_data" }; return c >= 0 && c < 4 ? n[c] : "?"; }
enum { P_THREADS, P_DESTROYERS, P_TWICE, P_BURST, P_FAULT, P_FINI, P_N };

struct Pool;
struct Task { Pool* p; int id; int kind; int runs; int started; bool accepted, maybe; int rc; u64 tag; };
struct Pool {
	as_thread_pool* tp;
	std::deque<Task> tasks;
	std::set<int> harness;
	int finis = 0; u32 started = 0; bool shutdown = false, over = false;
	std::set<int> fini_by;
	int bare = 0, bare_maybe = 0, bare_runs = 0;      // tasks without data of their own
} *curs[3];
#define cur curs[copy_of()]

void task_fn(void* d); void odd_task_fn(void* d); void bare_fn(void* d);
// Submit a task; every submission's outcome is recorded.
void submit(Pool& P, int kind) {
	if (kind == T_NODATA) {
		u64 f0 = my_faults(F_ALLOC);
		int rc = as_thread_pool_queue_task(P.tp, bare_fn, nullptr);
		if (rc == 0) (P.shutdown ? P.bare_maybe : P.bare)++;
		else if (!P.shutdown && my_faults(F_ALLOC) == f0) CHECK(P.started == 0 || P.over, "refused", "a running pool refused a task with %d", rc);
		note(0x600 + rc);
		return;
	}
	P.tasks.push_back(Task{ &P, (int)P.tasks.size(), kind, 0, 0, false, false, 0, 0x7a5c0000ull + P.tasks.size() });
	Task& t = P.tasks.back();
	hb_write(&t, "the submitter's preparation of a task");
	u64 f0 = my_faults(F_ALLOC);
	int rc = as_thread_pool_queue_task(P.tp, t.id & 1 ? odd_task_fn : task_fn, &t);
	t.rc = rc;
	if (P.shutdown) t.maybe = true;      // shutdown had begun before acceptance was reported
	else t.accepted = rc == 0;
	note(0x700 + rc);
	logf("task %d submitted: %d", t.id, rc);
	if (rc != 0 && !t.maybe && my_faults(F_ALLOC) == f0) CHECK(P.started == 0 || P.over, "refused", "a running pool refused a task with %d", rc);
}
void run_task(Task* t, int odd) {
	void* d = t;
	CHECK(d && t->tag == 0x7a5c0000ull + (u64)t->id, "wrong-data", "a task was run with data that is not its own");
	CHECK((t->id & 1) == odd, "wrong-data", "a task's data was given to the function of another task");
	Pool& P = *t->p;
	CHECK(!P.over, "ran-late", "task %d ran after shutdown had returned", t->id);
	CHECK(!P.harness.count(self()), "wrong-thread", "task %d ran on the caller's thread", t->id);
	CHECK(&P == cur, "wrong-thread", "task %d ran on a thread of another pool", t->id);
	hb_read(t, "the task");
	CHECK(++t->started == 1, "ran-twice", "task %d was started %d times", t->id, t->started);
	logf("task %d runs", t->id);
	yield();
	if (t->kind == T_NEST) submit(P, T_SUBMIT);
	if (t->kind == T_SLEEP) { for (int i = 0; i < 5; i++) yield(); }
	hb_write(t, "the task's result");
	t->runs++;
	note(0x900 + t->id);
}
void task_fn(void* d) { run_task((Task*)d, 0); }
void odd_task_fn(void* d) { run_task((Task*)d, 1); }
void bare_fn(void* d) {
	CHECK(!d, "wrong-data", "a task without data was run with data");
	Pool& P = *cur;
	CHECK(!P.over, "ran-late", "a task ran after shutdown had returned");
	CHECK(!P.harness.count(self()), "wrong-thread", "a task ran on the caller's thread");
	yield(); P.bare_runs++;
}
void fini_cb() {
	cur->finis++;
	CHECK(!cur->over, "ran-late", "the finish callback ran after shutdown had returned");
	CHECK(cur->fini_by.insert(self()).second, "fini-twice", "the finish callback ran twice on one thread");
	yield();
}
void body_tp(const Prog& p) {
	static Pool* leaks[3]; Pool*& leak = leaks[copy_of()]; delete leak; leak = new Pool(); Pool& P = *leak; cur = &P;
	P.harness.insert(self());
	P.tp = (as_thread_pool*)halloc(sizeof(as_thread_pool));
	u32 n = (u32)p.cfg[P_THREADS];
	bool faulty = p.cfg[P_FAULT];
	faults(faulty);
	u64 f0 = my_faults(F_THREAD) + my_faults(F_ALLOC) + my_faults(F_MUTEX_INIT) + my_faults(F_COND_INIT);
	int rc = as_thread_pool_init(P.tp, n);
	bool hurt = my_faults(F_THREAD) + my_faults(F_ALLOC) + my_faults(F_MUTEX_INIT) + my_faults(F_COND_INIT) != f0;
	u32 started = (u32)live_threads() - 1;
	P.started = started;
	logf("init(%u) = %d, %u threads started", n, rc, started);
	note(0x100 + (u64)rc);
	if (!hurt) CHECK(rc == 0 && started == n, "not-started", "starting %u threads gave %d with %u running", n, rc, started);
	else { probe("start was hit by a fault"); if (started < n) CHECK(rc != 0, "not-reported", "%u of %u threads started but success was reported", started, n); if (started && started < n) probe("pool started partly"); }
	if (p.cfg[P_FINI] && started) P.tp->fini_fn = fini_cb;
	if (p.cfg[P_BURST]) for (int i = 0; i < p.cfg[P_BURST]; i++) submit(P, T_SUBMIT);
	std::vector<int> subs;
	for (auto& ops : p.thr) {
		const std::vector<Op>* o = &ops;
		int id = spawn([&P, o] { for (auto& op : *o) submit(P, op.code); });
		P.harness.insert(id); subs.push_back(id);
	}
	for (int id : subs) join(id);
	if (n == 0 || started == 0) for (auto& t : P.tasks) CHECK(t.rc != 0, "accepted", "a pool without threads accepted a task");
	P.shutdown = true;
	// Tasks that are still running may submit more from here on; those may or may not run.
	int nd = (int)p.cfg[P_DESTROYERS];
	if (nd <= 1) { CHECK(as_thread_pool_destroy(P.tp) == 0, "shutdown-failed", "shutdown reported failure"); if (p.cfg[P_TWICE]) CHECK(as_thread_pool_destroy(P.tp) == 0, "shutdown-failed", "second shutdown reported failure"); }
	else {
		std::vector<int> ds;
		for (int i = 0; i < nd; i++) { int id = spawn([&P] { CHECK(as_thread_pool_destroy(P.tp) == 0, "shutdown-failed", "concurrent shutdown reported failure"); }); P.harness.insert(id); ds.push_back(id); }
		for (int id : ds) join(id);
		probe("concurrent shutdown");
	}
	P.over = true;
	faults(false);
	CHECK(live_threads() == 1, "thread-left", "%d pool thread(s) still exist after shutdown", live_threads() - 1);
	for (auto& t : P.tasks) {
		if (t.accepted) {
			CHECK(t.runs == 1, "task-lost", "accepted task %d had been run %d times when shutdown returned", t.id, t.runs);
			hb_read(&t, "use of a task's result after shutdown");
		} else if (t.maybe && t.rc == 0) CHECK(t.runs <= 1, "ran-twice", "task %d ran %d times", t.id, t.runs);
		else CHECK(t.runs == 0, "ran-refused", "a refused task was run");
	}
	CHECK(P.bare_runs >= P.bare, "task-lost", "%d of %d accepted tasks without data had been run when shutdown returned", P.bare_runs, P.bare);
	CHECK(P.bare_runs <= P.bare + P.bare_maybe, "ran-twice", "%d tasks without data were accepted and %d ran", P.bare + P.bare_maybe, P.bare_runs);
	if (n == 0 || started == 0) CHECK(!P.bare, "accepted", "a pool without threads accepted a task");
	if (p.cfg[P_FINI]) CHECK(P.finis == (int)started, "fini-count", "the finish callback ran %d times for %u threads", P.finis, started);
	size_t k = P.tasks.size();
	submit(P, T_SUBMIT);
	CHECK(P.tasks[k].rc != 0, "accepted", "a pool that was shut down accepted a task");
	check_no_leak("after shutting down the pool");
}
void gen_tp(Rng& r, Prog& p, Strategy& s, bool faulty) {
	gen_env(r, p.env);
	p.cfg.assign(P_N, 0);
	p.cfg[P_THREADS] = r.one_in(12) ? 0 : r.one_in(30) ? 5 + (i64)r.below(16) : 1 + (i64)r.below(4);
	p.cfg[P_DESTROYERS] = r.one_in(3) ? 2 + (i64)r.below(2) : 1;
	p.cfg[P_TWICE] = r.one_in(2);
	p.cfg[P_BURST] = r.one_in(faulty ? 4 : 20) ? 50 + (i64)r.below(90) : 0;
	if (r.one_in(400)) p.cfg[P_THREADS] = r.pick<i64>({ 31, 32, 33, 34, 63, 64, 65, 80 });
	if (r.one_in(400)) p.cfg[P_BURST] = r.pick<i64>({ 127, 128, 129, 255, 256, 257, 300, 520, 1030 });
	p.cfg[P_FAULT] = faulty; p.cfg[P_FINI] = !r.one_in(4);
	int ns = (int)r.below(4);
	for (int t = 0; t < ns; t++) {
		std::vector<Op> o; int n = 1 + (int)r.below(4);
		for (int i = 0; i < n; i++) o.push_back(Op{ (i32)(r.one_in(8) ? T_NODATA : r.pick({ T_SUBMIT, T_SUBMIT, T_NEST, T_SLEEP })), 0, 0, 0 });
		p.thr.push_back(o);
	}
	gen_sched(r, s, 800, true);
	if (r.one_in(2)) gen_spurious(r, s);
	if (faulty) {
		if (!r.one_in(3)) gen_oom(r, s, p.cfg[P_BURST] ? 6 : 4);
		if (r.one_in(2)) s.fp[F_THREAD] = r.pick<double>({ 0.2, 0.5, 0.9, 1.0 });
		if (r.one_in(5)) s.fp[F_MUTEX_INIT] = s.fp[F_COND_INIT] = 0.4;
	}
	p.env.cap = 4000000;
}
void gen_c07(Rng& r, Prog& p, Strategy& s) { gen_tp(r, p, s, false); }
void gen_few(Rng& r, Prog& p, Strategy& s) { gen_tp(r, p, s, false); p.cfg[P_THREADS] = std::min<i64>(p.cfg[P_THREADS], 20); }
void gen_c08(Rng& r, Prog& p, Strategy& s) { gen_tp(r, p, s, true); }
void gen_few_partial(Rng& r, Prog& p, Strategy& s) { gen_tp(r, p, s, true); p.cfg[P_THREADS] = std::min<i64>(p.cfg[P_THREADS], 20); }

// ------------------------------------------------------------------ buffer pool
enum { B_TAKE, B_GIVE, B_GIVE_LIMIT, B_DROP, B_USE, B_NOPS, B_REMOVE };
const char* bp_op(int c) { static const char* n[] = { "pop", "push", "push_limit", "drop", "use" }; return c >= 0 && c < B_NOPS ? n[c] : "?"; }
enum { BK_HDR, BK_SIZE, BK_MAX, BK_FAULT, BK_N };
struct BEv { int code; u64 call, ret; i64 arg; int rc; bool fault; int thr; };
struct BModel {
	i64 idle = 0;
	std::string key() const { return std::string((const char*)&idle, 8); }
	bool apply(const BEv& e) {
		switch (e.code) {
		case B_TAKE:
			if (e.rc == 2 || e.rc == -1) return true;
			if (e.rc == 0) return idle-- > 0;
			if (e.rc == 1) return idle == 0;
			return false;
		case B_GIVE: if (e.rc == 0) { idle++; return true; } return e.rc == -2 || (e.rc == -1 && e.fault);
		case B_GIVE_LIMIT: if (e.rc == 0) { if (idle >= e.arg) return false; idle++; return true; } return e.rc == -2 || (e.rc == -1 && (e.fault || idle >= e.arg));
		case B_DROP: { i64 k = e.arg < idle ? e.arg : idle; if (e.rc != k) return false; idle -= k; return true; }
		case B_REMOVE: return idle-- > 0;
		}
		return false;
	}
};
void body_bp(const Prog& p) {
	struct Held { u8* d; u32 cap; u8 pat; };
	as_buffer_pool* pool = (as_buffer_pool*)halloc(sizeof(as_buffer_pool));
	u32 hdr = (u32)p.cfg[BK_HDR], bsz = (u32)p.cfg[BK_SIZE];
	bool faulty = p.cfg[BK_FAULT];
	faults(faulty);
	u64 f0 = my_faults(F_ALLOC) + my_faults(F_MUTEX_INIT) + my_faults(F_COND_INIT);
	int rc = as_buffer_pool_init(pool, hdr, bsz);
	if (rc != 0) {
		faults(false);
		CHECK(my_faults(F_ALLOC) + my_faults(F_MUTEX_INIT) + my_faults(F_COND_INIT) != f0, "spurious-failure", "creating the pool failed though nothing was short");
		check_no_leak("after creating the pool failed");
		return;
	}
	std::vector<BEv> h; std::set<void*> owned; 
	u8 next_pat = 1;
	auto put = [&](Held& b, int code, i64 lim) {
		BEv e{ code, 0, 0, lim, 0, false, self() };
		for (u32 i = 0; i < hdr + b.cap; i++) CHECK(b.d[i] == b.pat, "buffer-shared", "a held buffer was changed by somebody else");
		hb_write(b.d, "the holder's use of a buffer");
		owned.erase(b.d);
		u64 f = my_faults(F_ALLOC);
		e.call = now();
		e.rc = code == B_GIVE ? as_buffer_pool_push(pool, b.d, b.cap) : as_buffer_pool_push_limit(pool, b.d, b.cap, (u32)lim);
		e.ret = now();
		e.fault = my_faults(F_ALLOC) != f;
		logf("%s(cap %u, limit %lld) = %d", bp_op(code), b.cap, (long long)lim, e.rc);
		note(0x300 + e.rc);
		if ((u64)b.cap + hdr > bsz) { CHECK(e.rc == -2, "wrong-result", "handing back an oversized buffer gave %d", e.rc); }
		else CHECK(e.rc != -2, "wrong-result", "handing back a regular buffer was taken for an oversized one");
		if (e.rc != 0) CHECK(!is_live(b.d), "buffer-leaked", "a buffer refused with %d was not freed", e.rc);
		h.push_back(e);
	};
	for (auto& ops : p.thr) {
		const std::vector<Op>* o = &ops;
		spawn([&, o] {
			std::vector<Held> mine;
			for (auto& op : *o) {
				if (op.code == B_TAKE) {
					BEv e{ B_TAKE, 0, 0, op.a, 0, false, self() };
					as_buffer_result* res = (as_buffer_result*)halloc(sizeof(as_buffer_result));
					u64 f = my_faults(F_ALLOC);
					e.call = now();
					e.rc = as_buffer_pool_pop(pool, (u32)op.a, res);
					e.ret = now();
					e.fault = my_faults(F_ALLOC) != f || (u64)op.a + hdr > (u64)p.env.maxalloc;
					logf("pop(%lld) = %d", (long long)op.a, e.rc);
					note(0x200 + e.rc);
					h.push_back(e);
					if ((u64)(u32)op.a + hdr > bsz) CHECK(e.rc == 2 || (e.rc == -1 && e.fault), "wrong-result", "taking an oversized buffer gave %d", e.rc);
					else CHECK(e.rc == 0 || e.rc == 1 || (e.rc == -1 && e.fault), "wrong-result", "taking a buffer gave %d", e.rc);
					if (e.rc < 0) continue;
					Held b{ (u8*)res->data, res->capacity, next_pat++ };
					CHECK(is_live(b.d), "bad-buffer", "taking a buffer gave memory that is not allocated");
					CHECK(b.cap >= (u32)op.a, "too-small", "a request for %lld bytes got a buffer of %u", (long long)op.a, b.cap);
					CHECK(block_size(b.d) >= (size_t)hdr + b.cap, "too-small", "a buffer with header %u and capacity %u has only %zu bytes", hdr, b.cap, block_size(b.d));
					CHECK(owned.insert(b.d).second, "buffer-shared", "a buffer was handed to two holders");
					hb_write(b.d, "taking a buffer");
					memset(b.d, b.pat, hdr + b.cap);
					mine.push_back(b);
					if (e.rc == 0) probe("buffer reused");
				} else if (op.code == B_USE) {
					for (auto& b : mine) { bool ok = range_ok(b.d, hdr + b.cap); for (u32 i = 0; ok && i < hdr + b.cap; i++) ok = b.d[i] == b.pat; CHECK(ok, "buffer-shared", "a held buffer was changed by somebody else"); }
					yield();
				} else if (op.code == B_DROP) {
					BEv e{ B_DROP, 0, 0, op.a, 0, false, self() };
					e.call = now(); e.rc = as_buffer_pool_drop_buffers(pool, (int)op.a); e.ret = now();
					logf("drop(%lld) = %d", (long long)op.a, e.rc);
					h.push_back(e);
				} else if (!mine.empty()) {
					Held b = mine[(size_t)op.a % mine.size()]; mine.erase(mine.begin() + (size_t)op.a % mine.size());
					CHECK(range_ok(b.d, hdr + b.cap), "buffer-shared", "a held buffer was freed by somebody else");
					put(b, op.code, p.cfg[BK_MAX]);
				}
			}
			for (auto& b : mine) { CHECK(range_ok(b.d, hdr + b.cap), "buffer-shared", "a held buffer was freed by somebody else"); put(b, B_GIVE_LIMIT, p.cfg[BK_MAX]); }
		});
	}
	join_all();
	faults(false);
	// Dropping several buffers is not one atomic step: when it overlaps other calls only
	// its single removals are ordered against them.
	std::vector<BEv> g;
	for (auto& e : h) {
		bool overlap = false;
		for (auto& o : h) if (&o != &e && o.call < e.ret && e.call < o.ret) overlap = true;
		if (e.code != B_DROP || !overlap) g.push_back(e);
		else { CHECK(e.rc <= e.arg, "wrong-result", "dropping %lld buffers dropped %d", (long long)e.arg, e.rc); for (int i = 0; i < e.rc; i++) { BEv x = e; x.code = B_REMOVE; g.push_back(x); } }
	}
	Lin<BEv, BModel> lin(g);
	if (!lin.ok(BModel())) {
		std::string s;
		std::sort(h.begin(), h.end(), [](const BEv& a, const BEv& b) { return a.call < b.call; });
		for (auto& e : h) { char b[100]; snprintf(b, sizeof b, "T%d %s(%lld)@%llu-%llu=%d; ", e.thr, bp_op(e.code), (long long)e.arg, (unsigned long long)e.call, (unsigned long long)e.ret, e.rc); s += b; }
		fail("not-linearizable", "no order of the calls explains the results: %s", s.c_str());
	}
	as_buffer_pool_destroy(pool);
	check_no_leak("after destroying the buffer pool");
}
void gen_c09(Rng& r, Prog& p, Strategy& s) {
	gen_env(r, p.env);
	p.cfg.assign(BK_N, 0);
	p.cfg[BK_HDR] = r.pick<i64>({ 0, 8, 16, 24 });
	p.cfg[BK_SIZE] = p.cfg[BK_HDR] + r.pick<i64>({ 1, 16, 64, 100 });
	p.cfg[BK_MAX] = r.pick<i64>({ 0, 1, 2, 3, 100 });
	bool large = r.one_in(100);
	if (large) {
		p.cfg[BK_HDR] = r.pick<i64>({ 0, 8, 64, 255, 256, 300, 1000, 4096, 65536 });
		p.cfg[BK_SIZE] = p.cfg[BK_HDR] + r.pick<i64>({ 1, 255, 256, 4096, 65535, 65536, 70000 });
	}
	p.cfg[BK_FAULT] = r.one_in(3);
	int nt = r.one_in(5) ? 1 : 2 + (int)r.below(3), total = 0;
	i64 room = p.cfg[BK_SIZE] - p.cfg[BK_HDR];
	for (int t = 0; t < nt; t++) {
		std::vector<Op> o; int n = 2 + (int)r.below(5);
		for (int i = 0; i < n && total < 18; i++, total++) {
			switch (r.below(8)) {
			case 0: case 1: case 2: o.push_back(Op{ B_TAKE, r.one_in(4) ? room + r.pick<i64>({ 0, 1, 50 }) : (i64)r.below(room + 1), 0, 0 }); break;
			case 3: case 4: o.push_back(Op{ B_GIVE, (i64)r.below(4), 0, 0 }); break;
			case 5: o.push_back(Op{ B_GIVE_LIMIT, (i64)r.below(4), 0, 0 }); break;
			case 6: o.push_back(Op{ B_USE, 0, 0, 0 }); break;
			default: o.push_back(Op{ B_DROP, (i64)r.below(4), 0, 0 });
			}
		}
		p.thr.push_back(o);
	}
	gen_sched(r, s, 500);
	if (p.cfg[BK_FAULT]) { gen_oom(r, s, 10); if (r.one_in(5)) s.fp[F_MUTEX_INIT] = s.fp[F_COND_INIT] = 0.4; }
	p.env.cap = 400000;
	// Requests that no buffer can satisfy, and ones beyond the sizes that fit in fewer bits.
	if (large || r.one_in(30)) for (auto& o : p.thr) for (auto& op : o) if (op.code == B_TAKE && r.one_in(3))
		op.a = r.pick<i64>({ 255, 256, 65535, 65536, 70000, (1 << 20) - 1, (1 << 20) + 3, 0x7fffffff, 0x80000000ll, 0xffffffffll, 0xfffffff0ll, 0xffffffffll - p.cfg[BK_HDR], 0xffffffffll - p.cfg[BK_HDR] + 1 });
	for (auto& o : p.thr) for (auto& op : o) op.a &= 0xffffffffll;
}
// Many idle buffers: the pool's own queue has to grow, also when that fails.
void body_bp_many(const Prog& p) {
	u32 hdr = (u32)p.cfg[4];
	as_buffer_pool* pool = (as_buffer_pool*)halloc(sizeof(as_buffer_pool));
	CHECK(as_buffer_pool_init(pool, hdr, hdr + 24) == 0, "spurious-failure", "creating the pool failed");
	i64 n = p.cfg[0], lim = p.cfg[1];
	if (n > 250) probe("more than 250 idle buffers");
	std::vector<void*> b;
	as_buffer_result* res = (as_buffer_result*)halloc(sizeof(as_buffer_result));
	for (i64 i = 0; i < n; i++) { CHECK(as_buffer_pool_pop(pool, 10, res) == 1, "wrong-result", "an empty pool did not make a new buffer"); b.push_back(res->data); }
	faults(p.cfg[2]);
	i64 idle = 0;
	for (i64 i = 0; i < n; i++) {
		u64 f = my_faults(F_ALLOC);
		int rc = lim ? as_buffer_pool_push_limit(pool, b[i], 24, (u32)lim) : as_buffer_pool_push(pool, b[i], 24);
		bool fault = my_faults(F_ALLOC) != f;
		if (rc == 0) { CHECK(!lim || idle < lim, "too-many-idle", "more than %lld idle buffers were kept", (long long)lim); idle++; }
		else { CHECK(rc == -1 && (fault || (lim && idle >= lim)), "wrong-result", "handing back a buffer gave %d with %lld idle", rc, (long long)idle); CHECK(!is_live(b[i]), "buffer-leaked", "a refused buffer was not freed"); if (fault) probe("pool could not keep a buffer"); }
		note(rc);
	}
	faults(false);
	int d = as_buffer_pool_drop_buffers(pool, (int)p.cfg[3]);
	i64 want = p.cfg[3] < idle ? p.cfg[3] : idle;
	CHECK(d == want, "wrong-result", "dropping %lld of %lld idle buffers dropped %d", (long long)p.cfg[3], (long long)idle, d);
	idle -= d;
	std::set<void*> seen;
	for (i64 i = 0; i < idle / 2; i++) { CHECK(as_buffer_pool_pop(pool, 24, res) == 0, "wrong-result", "an idle buffer was not reused"); CHECK(seen.insert(res->data).second && is_live(res->data), "buffer-shared", "a buffer was handed out twice"); as_buffer_pool_push(pool, res->data, 24); seen.erase(res->data); }
	as_buffer_pool_destroy(pool);
	check_no_leak("after destroying the buffer pool");
}
void gen_c09b(Rng& r, Prog& p, Strategy& s) {
	gen_env(r, p.env);
	p.cfg = { 50 + (i64)r.below(100), r.one_in(2) ? 0 : r.pick<i64>({ 10, 63, 64, 65, 100 }), r.one_in(2), (i64)r.below(160), r.pick<i64>({ 0, 8, 8, 24 }) };
	if (r.one_in(40)) {
		p.cfg[0] = r.pick<i64>({ 255, 256, 257, 300, 520, 1030 });
		p.cfg[1] = r.one_in(3) ? 0 : r.pick<i64>({ 127, 128, 254, 255, 256, 257, 300, 512, 1024, 65536, 0xffffffffll });
		p.cfg[3] = r.pick<i64>({ 127, 128, 200, 255, 256, 257, 500, 1024, 0x7fffffff });
	}
	p.thr.push_back({});
	gen_oom(r, s, 3);
	p.env.cap = 2000000;
}

// ------------------------------------------------------------------ monitor
enum { M_ROUND };
const char* mon_op(int) { return "round"; }
void body_mon(const Prog& p) {
	as_monitor* m = (as_monitor*)halloc(sizeof(as_monitor));
	x_mon_init(m);
	static char keys[3][64]; char* key = keys[copy_of()];
	// Waiters in other threads take turns on the same monitor when there are several programs.
	for (auto& ops : p.thr) {
		int wt = spawn([&] {
			for (size_t i = 0; i < ops.size(); i++) {
				const Op& op = ops[i];
				bool last = &ops == &p.thr.back() && i + 1 == ops.size();
				bool given = false, returned = false;
				hb_forget(&key[i % 64]);
				x_mon_begin(m);
				int nt = 0;
				if (op.a == 1) { hb_write(&key[i % 64], "the notifier's preparation"); given = true; x_mon_notify(m); }
				else nt = spawn([&given, &returned, m, i, op, key] {
					for (i64 k = 0; k < op.b; k++) yield();
					hb_write(&key[i % 64], "the notifier's preparation");
					CHECK(!returned, "returned-early", "the wait ended before the notification");
					given = true;
					x_mon_notify(m);
				});
				for (i64 k = 0; k < op.c; k++) yield();
				x_mon_wait(m);
				returned = true;
				CHECK(given, "returned-early", "the wait ended before the notification was given");
				hb_read(&key[i % 64], "use of the notifier's data after the wait");
				CHECK(held_locks() == 0, "lock-held", "the wait returned holding the monitor's lock");
				if (waits_woken()) probe("waiter slept");
				if (last) { x_mon_destroy(m); memset(m, 0xdd, sizeof *m); hfree(m); probe("destroyed right after the wait"); }
				if (nt) join(nt);
			}
		});
		join(wt);
	}
	check_no_leak("after the monitor was destroyed");
}
void gen_c10(Rng& r, Prog& p, Strategy& s) {
	gen_env(r, p.env);
	int nt = 1 + (int)r.below(2), rounds = 0;
	for (int t = 0; t < nt; t++) {
		std::vector<Op> o; int n = 1 + (int)r.below(3);
		for (int i = 0; i < n && rounds < 5; i++, rounds++) o.push_back(Op{ M_ROUND, r.one_in(5) ? 1 : 0, (i64)r.below(6), (i64)r.below(6) });
		p.thr.push_back(o);
	}
	gen_sched(r, s, 100);
	if (r.one_in(2)) gen_spurious(r, s);
	p.env.cap = 200000;
}

Reg r1({ "thread_pool", "C07", 8, gen_c07, body_tp, tp_op });
Reg r9({ "two_thread_pools_partial", "C08", 1, gen_two<gen_few_partial>, body_two<body_tp>, tp_op });
Reg r2({ "thread_pool_partial", "C08", 8, gen_c08, body_tp, tp_op });
Reg r3({ "buffer_pool", "C09", 16, gen_c09, body_bp, bp_op });
Reg r4({ "buffer_pool_many", "C09", 4, gen_c09b, body_bp_many, bp_op });
Reg r8({ "two_monitors", "C10", 1, gen_two<gen_c10>, body_two<body_mon>, mon_op });
Reg r5({ "monitor", "C10", 8, gen_c10, body_mon, mon_op });
Reg r6({ "two_thread_pools", "C07", 1, gen_two<gen_few>, body_two<body_tp>, tp_op });
Reg r7({ "two_buffer_pools", "C09", 1, gen_two<gen_c09>, body_two<body_bp>, bp_op });
} // namespace
