// C23: clocks. C24: password prompt. C25: logging.
#include "common.h"
#include "glue_misc.h"
#include <aerospike/as_password.h>
#include <stdarg.h>
#include <termios.h>

namespace {

// ------------------------------------------------------------------ C23
enum { READ, DEADLINE_MS, DEADLINE_TS, TS_OF_MS, CONVERT, TTL, ADVANCE, STEP_WALL, C23_NOPS };
const char* c23_op(int c) { static const char* n[] = { "read", "deadline_ms", "deadline_ts", "timespec_of_ms", "convert", "ttl", "advance", "step_wall_clock" }; return c >= 0 && c < C23_NOPS ? n[c] : "?"; }
const i64 G = 1000000000, EPOCH = 1262304000;
u64 wall_steps;
void clock_op(const Op& op) {
	u64 st0 = wall_steps;      // a step of the wall clock by another thread during a call voids the bounds
	// The clock moves between the bounds taken before and after the call.
	switch (op.code) {
	case READ: {
		i64 w0 = wall_ns(), m0 = mono_ns();
		u64 v = x_clock_read((int)op.a);
		i64 w1 = wall_ns(), m1 = mono_ns();
		auto of = [&](i64 w, i64 m) -> u64 {
			switch (op.a) {
			case CK_NS: return (u64)m;
			case CK_US: return (u64)(m / 1000);
			case CK_MS: return (u64)(m / 1000000);
			case CK_S: return (u64)(m / G);
			case CK_ABS_MS: return (u64)(w / 1000000);
			case CK_CL_MS: return (u64)(w / 1000000 - EPOCH * 1000);
			case CK_CL_S: return (u64)(w / G - EPOCH);
			default: return (u64)(u32)(w / G - EPOCH);
			}
		};
		u64 lo = of(w0, m0), hi = of(w1, m1);
		if (wall_steps != st0 && op.a >= CK_ABS_MS) break;
		static const char* nm[] = { "nanosecond", "microsecond", "millisecond", "second", "wall-clock millisecond", "epoch millisecond", "epoch second", "32-bit epoch second" };
		CHECK(v >= lo && v <= hi, "wrong-reading", "the %s reading is %llu when the clock says %llu to %llu", nm[op.a], (unsigned long long)v, (unsigned long long)lo, (unsigned long long)hi);
		note(v);
		break; }
	case DEADLINE_MS: case DEADLINE_TS: {
		timespec* d = (timespec*)halloc(sizeof(timespec)), *o = (timespec*)halloc(sizeof(timespec));
		memset(o, 0x5a, sizeof *o);
		i64 dur = op.code == DEADLINE_MS ? op.a * 1000000 : op.a * G + op.b;
		d->tv_sec = op.a; d->tv_nsec = op.b;
		i64 w0 = wall_ns();
		if (op.code == DEADLINE_MS) x_clock_deadline_ms((int)op.a, o); else x_clock_deadline_ts(d, o);
		i64 w1 = wall_ns();
		CHECK(o->tv_nsec >= 0 && o->tv_nsec < G, "not-normalised", "at second %lld and nanosecond %lld, now plus %lld ns has %ld nanoseconds", (long long)(w0 / G), (long long)(w0 % G), (long long)dur, o->tv_nsec);
		i64 t = o->tv_sec * G + o->tv_nsec;
		if (wall_steps == st0) CHECK(t >= w0 + dur && t <= w1 + dur, "wrong-deadline", "at %lld ns a deadline %lld ns ahead is %lld", (long long)w0, (long long)dur, (long long)t);
		if (o->tv_nsec < 1000000 && dur % G) probe("deadline carried into the next second");
		note((u64)t);
		hfree(d); hfree(o);
		break; }
	case TS_OF_MS: {
		timespec* o = (timespec*)halloc(sizeof(timespec)); memset(o, 0x5a, sizeof *o);
		x_clock_ts_of_ms((int)op.a, o);
		CHECK(o->tv_nsec >= 0 && o->tv_nsec < G && o->tv_sec * G + o->tv_nsec == op.a * 1000000, "wrong-conversion", "%lld ms became %ld s and %ld ns", (long long)op.a, (long)o->tv_sec, o->tv_nsec);
		hfree(o);
		break; }
	case CONVERT: {
		u64 in = (u64)op.b, v = x_clock_convert((int)op.a, in), E = (u64)EPOCH * (u64)G, x = 0;
		u64 f = in > E ? in - E : 0;
		switch (op.a) {
		case CV_CLNS: x = f; break; case CV_CLUS: x = f / 1000; break; case CV_CLMS: x = f / 1000000; break; case CV_CLS: x = f / (u64)G; break;
		case CV_UNS: x = E + in; break; case CV_UUS: x = E + in * 1000; break; case CV_UMS: x = E + in * 1000000; break; case CV_US: x = E + in * (u64)G; break;
		}
		CHECK(v == x, "wrong-conversion", "conversion %d of %llu gave %llu, not %llu", (int)op.a, (unsigned long long)in, (unsigned long long)v, (unsigned long long)x);
		break; }
	case TTL: {
		u64 s0 = (u64)(wall_ns() / G - EPOCH);
		u32 vt = op.b ? (u32)((i64)s0 + op.a) : (u32)op.a;
		i64 w0 = wall_ns();
		u32 t = x_clock_ttl(vt);
		i64 w1 = wall_ns();
		auto of = [&](i64 w) -> u32 { if (!vt) return ~0u; u32 n = (u32)(w / G - EPOCH); return vt > n ? vt - n : 1; };
		if (wall_steps == st0) CHECK(t <= of(w0) && t >= of(w1), "wrong-conversion", "expiration %u at %llu gave a time to live of %u", vt, (unsigned long long)s0, t);
		break; }
	case ADVANCE: advance_ns(op.a); break;
	case STEP_WALL: wall_steps++; set_wall_ns(std::max((i64)EPOCH * G, wall_ns() + op.a)); break;
	}
}
void c23_body(const Prog& p) {
	wall_steps = 0;
	for (size_t k = 0; k < p.thr.size(); k++) spawn([&, k] { for (auto& op : p.thr[k]) { clock_op(op); } });
	join_all();
	// Readings at one instant agree, and none goes back.
	u64 ns = x_clock_read(CK_NS);
	if (p.env.tick == 0) {
		CHECK(x_clock_read(CK_US) == ns / 1000 && x_clock_read(CK_MS) == ns / 1000000 && x_clock_read(CK_S) == ns / (u64)G, "wrong-reading", "readings at one instant disagree");
		CHECK(x_clock_read(CK_ABS_MS) == x_clock_read(CK_CL_MS) + (u64)EPOCH * 1000 && x_clock_read(CK_CL_MS) / 1000 == x_clock_read(CK_CL_S), "wrong-reading", "readings at one instant disagree");
	}
	CHECK(x_clock_read(CK_NS) >= ns, "went-back", "the monotonic clock went back");
}
void c23_gen(Rng& r, Prog& p, Strategy& s) {
	gen_env(r, p.env);
	if (p.env.wall_sec < EPOCH) p.env.wall_sec = EPOCH + (r.one_in(2) ? (i64)r.below(3) : (i64)r.below(4000000000ull));
	p.env.tick = r.one_in(2) ? 0 : r.pick<i64>({ 1, 37, 1000, 999999, 1000000 });
	int nt = r.one_in(3) ? 2 : 1;
	for (int t = 0; t < nt; t++) {
		std::vector<Op> o;
		int n = 1 + (int)r.below(12);
		for (int i = 0; i < n; i++) {
			int c = (int)r.below(C23_NOPS);
			Op op{ c, 0, 0, 0 };
			auto ms = [&]() -> i64 { return r.one_in(3) ? r.pick<i64>({ 0, 1, 999, 1000, 1001, 1999, 2000, INT32_MAX, INT32_MAX - 1 }) : r.one_in(2) ? (i64)r.below(3000) : (i64)r.below(INT32_MAX); };
			switch (c) {
			case READ: op.a = (i64)r.below(CK_NREAD); break;
			case DEADLINE_MS: case TS_OF_MS: op.a = ms(); break;
			case DEADLINE_TS: op.a = r.pick<i64>({ 0, 0, 1, 59, 86400, 1000000000 }); op.b = r.one_in(3) ? r.pick<i64>({ 0, 1, 999999999, 500000000 }) : (i64)r.below(1000000000); break;
			case CONVERT: {
				op.a = (i64)r.below(CV_N);
				u64 e = (u64)EPOCH * (u64)G;
				op.b = r.one_in(3) ? (i64)(e + (u64)r.range(-3, 3)) : r.one_in(2) ? (i64)(r.next() >> r.below(64)) : (i64)(e + (r.next() >> (4 + r.below(56))));
				break; }
			case TTL: op.b = (i64)r.below(2); op.a = op.b ? r.range(-3, 3) : r.pick<i64>({ 0, 1, 2, 4294967295ll, 4294967294ll, (i64)(u32)r.next() }); break;
			case ADVANCE: op.a = r.one_in(2) ? r.pick<i64>({ 1, 999, 1000, 999999, 1000000, 999999999, 1000000000 }) : (i64)r.below(5000000000ull); break;
			case STEP_WALL: op.a = r.range(-5000000000ll, 5000000000ll); break;
			}
			o.push_back(op);
		}
		p.thr.push_back(o);
	}
	gen_sched(r, s, 60);
}
Reg r1({ "clocks", "C23", 1, c23_gen, c23_body, c23_op });

// ------------------------------------------------------------------ C24
enum { ACQUIRE, ACQUIRE_GIVEN, HASH, HASH_GIVEN, C24_NOPS };
const char* c24_op(int c) { static const char* n[] = { "acquire", "acquire_given", "prompt_hash", "prompt_hash_given" }; return c >= 0 && c < C24_NOPS ? n[c] : "?"; }
// The program's threads are lines: a is the kind of character, b the count, c whether a newline ends the line.
std::string line(const Op& o) {
	std::string s;
	for (i64 i = 0; i < o.b; i++) s += o.a == 0 ? (char)('a' + i % 26) : o.a == 1 ? (char)(128 + i % 128) : o.a == 2 ? (i % 5 == 2 ? (char)0 : 'x') : o.a == 3 ? (char)0 : o.a == 4 ? '\r' : ' ';
	if (o.c) s += '\n';
	return s;
}
// What reading a line into a buffer of n bytes and cutting the newline yields, as a C string.
std::string expect(const std::string& in, size_t n) {
	std::string s;
	for (char c : in) { if (s.size() + 1 >= n) break; s += c; if (c == '\n') break; }
	s = std::string(s.c_str());
	if (!s.empty() && s.back() == '\n') s.pop_back();
	return s;
}
void c24_body(const Prog& p) {
	for (auto& op : p.thr[0]) io.input += line(op);
	io.tty = p.cfg[0];
	io.lflag = io.lflag0 = (u32)(p.cfg[1] | ECHO);
	i64 what = p.cfg[2]; int size = (int)p.cfg[3];
	for (int round = 0; round < (int)p.cfg[4]; round++) {
		u64 t0 = my_faults(F_TTYGET) + my_faults(F_TTYSET), r0 = my_faults(F_TTYREAD);
		std::string rest = io.input.substr(io.in_pos), given;
		u64 done0 = io.reads_done, gets0 = io.tty_gets;
		io.echo_during_read = false;
		bool prompted = what == ACQUIRE || what == HASH;
		if (!prompted) for (int i = 0; i < 1 + (int)p.cfg[5]; i++) given += (char)('A' + i % 26);
		char* src = nullptr;
		if (!prompted || p.cfg[6]) { src = (char*)halloc_end(given.size() + 1); memcpy(src, given.c_str(), given.size() + 1); }
		if (what == ACQUIRE || what == ACQUIRE_GIVEN) {
			char* b = (char*)halloc_end((size_t)size);
			memset(b, 0x7e, (size_t)size);
			faults(true); as_password_acquire(b, src, size); faults(false);
			CHECK(memchr(b, 0, (size_t)size), "not-terminated", "the password in %d bytes is not terminated", size);
			std::string got(b), want = prompted ? expect(rest, (size_t)size) : given.substr(0, (size_t)size - 1);
			if (my_faults(F_TTYREAD) == r0) CHECK(got == want, "wrong-password", "a line of %zu bytes read into %d gave %zu bytes instead of %zu", rest.size(), size, got.size(), want.size());
			note(fnv(got.data(), got.size()));
			hfree(b);
		} else {
			char* h = (char*)halloc_end(AS_PASSWORD_HASH_SIZE), *h2 = (char*)halloc_end(AS_PASSWORD_HASH_SIZE);
			memset(h, 0, AS_PASSWORD_HASH_SIZE); memset(h2, 0, AS_PASSWORD_HASH_SIZE);
			faults(true); bool ok = as_password_prompt_hash(src, h); faults(false);
			CHECK(ok, "no-hash", "hashing the password failed");
			CHECK(memchr(h, 0, AS_PASSWORD_HASH_SIZE), "not-terminated", "the hash is not terminated");
			std::string want = prompted ? expect(rest, AS_PASSWORD_HASH_SIZE) : given.substr(0, AS_PASSWORD_HASH_SIZE - 1);
			if (my_faults(F_TTYREAD) == r0) {
				as_password_get_constant_hash(want.c_str(), h2);
				CHECK(!strcmp(h, h2), "wrong-password", "the hash is not that of the typed line");
			}
			hfree(h); hfree(h2);
		}
		if (src) hfree(src);
		bool trouble = my_faults(F_TTYGET) + my_faults(F_TTYSET) > t0;
		if (prompted) CHECK(io.reads_done > done0 || size == 1, "not-prompted", "the password was not read");
		else CHECK(io.reads_done == done0 && io.tty_gets == gets0, "prompted", "a prompt appeared though a password was given");
		CHECK(!io.garbage_set, "garbage-settings", "the terminal was given settings that were never read from it");
		if (io.tty && !trouble) {
			CHECK(!io.echo_during_read, "echoed", "the password was echoed while it was typed");
			CHECK(io.lflag & ECHO, "echo-off", "echo is off after the prompt");
		}
		if (!trouble) CHECK((io.lflag & ~(u32)ECHO) == (io.lflag0 & ~(u32)ECHO), "settings-changed", "other terminal settings were changed");
	}
	check_no_leak("after the prompt");
}
void c24_gen_common(Rng& r, Prog& p, Strategy& s, bool hash) {
	gen_env(r, p.env);
	std::vector<Op> in;
	int n = (int)r.below(4);
	for (int i = 0; i < n; i++) in.push_back({ 0, (i64)r.below(6), r.one_in(4) ? r.pick<i64>({ 62, 63, 64, 65, 200 }) : r.one_in(4) ? 0 : (i64)r.below(20), (i64)!r.one_in(4) });
	if (hash) for (auto& o : in) if (o.a == 1) o.a = 0;
	p.thr.push_back(in);
	i64 size = r.one_in(3) ? r.pick<i64>({ 1, 2, 3, 63, 64, 65 }) : 1 + (i64)r.below(30);
	p.cfg = { !r.one_in(6), r.pick<i64>({ 0, ICANON | ISIG, ISIG, ~0ll & 0xffffffff }), hash ? r.pick<i64>({ HASH, HASH, HASH_GIVEN }) : r.pick<i64>({ ACQUIRE, ACQUIRE, ACQUIRE, ACQUIRE_GIVEN }), size, hash ? 1 : 1 + (i64)r.below(3), r.one_in(3) ? r.pick<i64>({ 0, 1, 61, 62, 63, 64, 100 }) : (i64)r.below(30), (i64)r.below(2) };
	if (r.one_in(30)) {      // long lines, large buffers
		auto big = [&] { return r.one_in(4) ? r.pick<i64>({ 5000, 65535, 65536, 70000 }) : r.pick<i64>({ 126, 127, 128, 254, 255, 256, 257, 1022, 1023, 1024, 1025, 2048, 4095, 4096, 4097 }); };
		i64 b = big();
		if (!hash) p.cfg[3] = r.one_in(4) ? size : b + (i64)r.below(5) - 2;
		p.cfg[5] = r.one_in(4) ? big() : b - 3 + (i64)r.below(5);
		for (auto& o : p.thr[0]) if (r.one_in(2)) o.b = r.one_in(4) ? big() : b - 3 + (i64)r.below(5);
		p.env.cap = std::max<i64>(p.env.cap, 4000000);
	}
	gen_sched(r, s, 40);
	if (r.one_in(2)) {
		s.fp[F_TTYGET] = r.pick<double>({ 0, 0.3, 1 });
		s.fp[F_TTYSET] = r.pick<double>({ 0, 0, 0.3, 1 });
		s.fp[F_TTYREAD] = r.pick<double>({ 0, 0, 0.5 });
	}
}
void c24_gen(Rng& r, Prog& p, Strategy& s) { c24_gen_common(r, p, s, false); }
void c24_gen_hash(Rng& r, Prog& p, Strategy& s) { c24_gen_common(r, p, s, true); p.env.cap = 400000000; }
const char* c24_line(int) { return "line of input"; }
Reg r2({ "prompt", "C24", 5000, c24_gen, c24_body, c24_line });
Reg r3({ "prompt_hash", "C24", 1, c24_gen_hash, c24_body, c24_line });

// ------------------------------------------------------------------ C25
enum { LOG, SET, LEVEL, ENABLED, C25_NOPS };
const char* c25_op(int c) { static const char* n[] = { "log", "set_callback", "set_level", "enabled" }; return c >= 0 && c < C25_NOPS ? n[c] : "?"; }
struct Msg { int id, level; u64 call, ret; int hits = 0, by = -1; };
struct Setting { i64 v; u64 call, ret; };
struct Log { std::map<int, Msg> m; std::vector<Setting> cb, lv; int inside[16] = { 0 }; };
Log* L;
void took(int cb, as_log_level level, const char* func, const char* file, uint32_t ln, const char* fmt, va_list ap) {
	int id = va_arg(ap, int); const char* text = va_arg(ap, const char*);
	auto it = L->m.find(id);
	CHECK(it != L->m.end() && !strcmp(text, "text"), "wrong-message", "a callback was given a message nobody sent");
	CHECK(!strcmp(fmt, "%d %s") && !strcmp(func, "x_log") && strstr(file, "glue_misc.c") && ln > 0, "wrong-message", "the arguments of the message are not those of the call");
	Msg& m = it->second;
	CHECK(m.ret == 0, "late", "message %d was delivered after its call returned", id);
	CHECK((int)level == m.level, "wrong-level", "message %d of level %d was delivered with level %d", id, m.level, (int)level);
	CHECK(m.hits++ == 0, "delivered-twice", "message %d was delivered twice", id);
	m.by = cb;
	yield();
	logf("callback %d got message %d of level %d", cb, id, (int)level);
}
#define CB(k) bool cb##k(as_log_level l, const char* fn, const char* fl, uint32_t ln, const char* fmt, ...) { va_list ap; va_start(ap, fmt); took(k, l, fn, fl, ln, fmt, ap); va_end(ap); return true; }
CB(1) CB(2) CB(3)
as_log_callback cbs[] = { nullptr, cb1, cb2, cb3 };
// Could the setting have had value v at some moment of [call, ret]?
bool possible(const std::vector<Setting>& s, i64 v, u64 call, u64 ret) {
	for (auto& a : s) {
		if (a.v != v || a.call > ret) continue;
		bool gone = false;
		for (auto& b : s) if (b.call > a.ret && b.ret < call && b.ret) gone = true;
		if (!gone) return true;
	}
	return false;
}
void c25_body(const Prog& p) {
	Log l; L = &l;
	int id = 0;
	x_log_set(cbs[p.cfg[0]]); x_log_level((as_log_level)p.cfg[1]);
	l.cb.push_back({ p.cfg[0], 0, 1 }); l.lv.push_back({ p.cfg[1], 0, 1 });
	now(); now();
	l.cb.reserve(200); l.lv.reserve(200);
	std::vector<Msg> en;
	for (size_t k = 0; k < p.thr.size(); k++) spawn([&, k] {
		for (auto& op : p.thr[k]) switch (op.code) {
		case LOG: {
			int i = ++id; Msg& m = l.m[i]; m.id = i; m.level = (int)op.a; m.ret = 0; m.call = now();
			u64 b0 = blocked_count();
			x_log((int)op.a, i, "text");
			CHECK(blocked_count() == b0, "blocked", "logging a message blocked");
			m.ret = now();
			break; }
		case SET: { size_t n = l.cb.size(); l.cb.push_back({ op.a, now(), 0 }); x_log_set(cbs[op.a]); l.cb[n].ret = now(); break; }
		case LEVEL: { size_t n = l.lv.size(); l.lv.push_back({ op.a, now(), 0 }); x_log_level((as_log_level)op.a); l.lv[n].ret = now(); break; }
		case ENABLED: { Msg m; m.level = (int)op.a; m.call = now(); m.hits = x_log_enabled((int)op.a); m.ret = now(); en.push_back(m); break; }
		}
	});
	join_all();
	auto judge = [&](const Msg& m, bool hit, bool error_always, const char* what) {
		bool some_low = false, some_high = false, none = possible(l.cb, 0, m.call, m.ret);
		for (i64 v = 0; v < 5; v++) if (possible(l.lv, v, m.call, m.ret)) { if (v >= m.level) some_high = true; else some_low = true; }
		if (error_always && m.level == 0) some_high = true;
		if (hit) CHECK(some_high, "above-level", "%s of level %d though the level in force was lower all the time", what, m.level);
		else CHECK(none || some_low, "lost", "no %s of level %d though a callback and a sufficient level were in force all the time", what, m.level);
	};
	for (auto& e : l.m) {
		Msg& m = e.second;
		note((u64)m.by * 7 + (u64)m.id);
		if (m.hits) CHECK(possible(l.cb, m.by, m.call, m.ret), "wrong-callback", "message %d reached callback %d, which was not installed at any moment of the call", m.id, m.by);
		judge(m, m.hits, true, "message was delivered");
	}
	for (auto& m : en) judge(m, m.hits, false, "'enabled' answer");
	static const char* names[] = { "ERROR", "WARN", "INFO", "DEBUG", "TRACE" };
	for (int i = 0; i < 5; i++) CHECK(!strcmp(x_log_level_name(i), names[i]), "wrong-level", "level %d is called %s", i, x_log_level_name(i));
}
void c25_gen(Rng& r, Prog& p, Strategy& s) {
	gen_env(r, p.env);
	p.cfg = { (i64)r.below(4), (i64)r.below(5) };
	int nl = 1 + (int)r.below(3), nr = (int)r.below(3);
	for (int t = 0; t < nl + nr; t++) {
		std::vector<Op> o;
		int n = 1 + (int)r.below(5);
		for (int i = 0; i < n; i++) {
			if (t < nl) o.push_back({ r.one_in(8) ? ENABLED : LOG, (i64)r.below(5), 0, 0 });
			else if (r.one_in(3)) o.push_back({ LEVEL, (i64)r.below(5), 0, 0 });
			else o.push_back({ SET, (i64)r.below(4), 0, 0 });
		}
		p.thr.push_back(o);
	}
	gen_sched(r, s, 40);
}
Reg r4({ "logging", "C25", 1, c25_gen, c25_body, c25_op });
} // namespace
