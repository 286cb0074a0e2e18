// Shared by the scenarios: generators of environments and exploration strategies, linearizability.
#pragma once
#include "core.h"
#include <algorithm>
#include <cstring>
#include <deque>
#include <unordered_set>

using namespace sim;

// Environment: contents of fresh memory, instants of the clocks (often just around a full second).
inline void gen_env(Rng& r, Env& e) {
	e.fill = r.pick<i64>({ 0x00, 0xa5, 0xff, 0x01, 0x5a });
	e.entropy = (i64)(r.next() >> 8);
	e.wall_sec = r.pick<i64>({ 0, 1, 1700000000, 2147483647, 2147483648ll, 4294967295ll }) ;
	if (r.one_in(2)) e.wall_sec = 1700000000 + (i64)r.below(100000000);
	switch (r.below(5)) {
	case 0: e.wall_nsec = 0; break;
	case 1: e.wall_nsec = 999999999; break;
	case 2: e.wall_nsec = (i64)r.below(1000) * 1000000; break;
	case 3: e.wall_nsec = 1000000000 - 1 - (i64)r.below(3000000); break;
	default: e.wall_nsec = (i64)r.below(1000000000); break;
	}
	e.mono_sec = r.pick<i64>({ 0, 1, 1000, 4294967, 9999999 });
	e.mono_nsec = r.one_in(2) ? (i64)r.below(1000000000) : (r.one_in(2) ? 0 : 999999999);
	e.tick = r.one_in(4) ? r.pick<i64>({ 1, 37, 1000 }) : 0;
}
// How interleavings are drawn. size: rough number of accesses in a run.
inline void gen_sched(Rng& r, Strategy& s, u64 size, bool timers = false) {
	s.kind = (int)r.below(3);
	if (s.kind == 0) {
		s.p_step = r.pick<double>({ 0.3, 0.1, 0.03, 0.01, 0.003 });
		s.p_sync = r.pick<double>({ 0, 0.1, 0.5 });
	} else if (s.kind == 1) {
		s.depth = (int)r.below(6);
		s.horizon = size / 4 + r.below(size * 2) + 10;
	} else {
		s.p_sync = r.pick<double>({ 0.05, 0.2, 0.5, 0.9 });
	}
	if (timers) s.p_timer = r.pick<double>({ 0, 0, 0.002, 0.02, 0.1 });
	s.fp[F_SIGPICK] = r.pick<double>({ 0, 0.5 });
	s.fp[F_CASWEAK] = r.pick<double>({ 0, 0.2 });
}
inline void gen_spurious(Rng& r, Strategy& s) { s.fp[F_SPURIOUS] = r.pick<double>({ 0, 0.05, 0.3 }); }
// Allocation failures: one, a stretch, everything from some point on, or at random.
inline void gen_oom(Rng& r, Strategy& s, u64 expect) {
	switch (r.below(5)) {
	case 0: s.fp[F_ALLOC] = r.pick<double>({ 0.02, 0.1, 0.3, 0.6 }); break;
	case 1: s.alloc_mode = 1; s.alloc_at = r.below(expect); s.alloc_len = 1; break;
	case 2: s.alloc_mode = 1; s.alloc_at = r.below(expect); s.alloc_len = 1 + r.below(3); break;
	case 3: s.alloc_mode = 1; s.alloc_at = r.below(expect); s.alloc_len = 1u << 30; break;
	default: s.alloc_mode = 1; s.alloc_at = r.below(expect / 4 + 1); s.alloc_len = 1; break;
	}
}

// Two independent copies of a scenario at the same time: what one does must not show in the other.
// Data for a callback that runs on the calling thread: sometimes none is passed, and the callback must get just that.
struct Lent { void* ctx = nullptr; void* passed = nullptr; };
inline Lent lents[MAXT];
inline void* lend(void* ctx, bool bare) { lents[self()] = Lent{ ctx, bare ? nullptr : ctx }; return bare ? nullptr : ctx; }
template <class T> T* borrow(void* u) { Lent& l = lents[self()]; CHECK(u == l.passed, "wrong-data", "a callback got data that is not its caller's"); return (T*)l.ctx; }
template <void (*Gen)(Rng&, Prog&, Strategy&)> void gen_two(Rng& r, Prog& p, Strategy& s) {
	Prog q; Strategy t;
	Gen(r, p, s);
	do { q = Prog(); t = Strategy(); Gen(r, q, t); } while (p.thr.size() + q.thr.size() > 60);
	size_t ops = 0;
	std::vector<i64> cfg{ (i64)p.cfg.size(), (i64)p.thr.size() };
	cfg.insert(cfg.end(), p.cfg.begin(), p.cfg.end()); cfg.insert(cfg.end(), q.cfg.begin(), q.cfg.end());
	if (p.thr.size() + q.thr.size() <= 2) { for (auto& o : p.thr) ops += o.size(); for (auto& o : q.thr) ops += o.size(); gen_sched(r, s, 60 * ops + 60); }
	p.cfg = cfg; p.thr.insert(p.thr.end(), q.thr.begin(), q.thr.end());
	p.env.cap += q.env.cap; p.env.maxalloc = std::min(p.env.maxalloc, q.env.maxalloc);
}
template <void (*Body)(const Prog&)> void body_two(const Prog& p) {
	static Prog one[2];
	long nc = (long)p.cfg[0], nt = (long)p.cfg[1];
	for (int k = 0; k < 2; k++) one[k].env = p.env;
	one[0].cfg.assign(p.cfg.begin() + 2, p.cfg.begin() + 2 + nc); one[1].cfg.assign(p.cfg.begin() + 2 + nc, p.cfg.end());
	one[0].thr.assign(p.thr.begin(), p.thr.begin() + nt); one[1].thr.assign(p.thr.begin() + nt, p.thr.end());
	for (int k = 0; k < 2; k++) spawn_copy(k + 1, [k] { Body(one[k]); });
	join_all();
	check_no_leak("after two independent programs");
}

// Linearizability: is there an order of the completed calls, consistent with real time, that the model accepts?
// Model: copyable; bool apply(const Ev&) (false: the recorded result is impossible here); std::string key() const.
// Ev has members call, ret.
template <class Ev, class Model> struct Lin {
	const std::vector<Ev>& h;
	std::unordered_set<std::string> seen;
	std::vector<int> order;
	u64 nodes = 0; bool gave_up = false;
	explicit Lin(const std::vector<Ev>& hh) : h(hh) {}
	bool dfs(u64 done, const Model& m) {
		size_t n = h.size();
		if (done == (n == 64 ? ~0ull : (1ull << n) - 1)) return true;
		if (++nodes > 400000) { gave_up = true; return true; }
		std::string k = m.key(); k.append((const char*)&done, 8);
		if (!seen.insert(k).second) return false;
		u64 minret = ~0ull;
		for (size_t i = 0; i < n; i++) if (!(done >> i & 1) && h[i].ret < minret) minret = h[i].ret;
		std::vector<int> c;
		for (size_t i = 0; i < n; i++) if (!(done >> i & 1) && h[i].call < minret) c.push_back((int)i);
		std::sort(c.begin(), c.end(), [&](int a, int b) { return h[a].ret < h[b].ret; });
		for (int i : c) {
			Model x = m;
			if (!x.apply(h[i])) continue;
			if (dfs(done | 1ull << i, x)) { order.push_back(i); return true; }
		}
		return false;
	}
	bool ok(const Model& init) { return h.size() > 60 || dfs(0, init); }
};
