// C16: the shared generator. C17: the generators of the threads.
#include "common.h"
#include "glue_misc.h"
#include <aerospike/as_password.h>
#include <citrusleaf/cf_random.h>

namespace {

// ------------------------------------------------------------------ C16
enum { BUF, R64, R32, C16_NOPS };
const char* c16_op(int c) { static const char* n[] = { "get_rand_buf", "get_rand64", "get_rand32" }; return c >= 0 && c < C16_NOPS ? n[c] : "?"; }
struct Got { std::string bytes; int thread; };
// Position of the bytes in the recognisable stream, or -1.
i64 locate(const std::string& b) {
	if (b.size() < 4) return -1;
	auto at = [&](size_t i) { return (u64)(u8)b[i]; };
	i64 pos;
	if (at(0) >= 0xf0) pos = 3 * (i64)((at(0) & 15) << 14 | at(1) << 7 | at(2));
	else if (at(1) >= 0xf0) pos = 3 * (i64)((at(1) & 15) << 14 | at(2) << 7 | at(3)) - 1;
	else { u64 low = at(0) << 7 | at(1), hi = at(2) & 15, n = hi << 14 | low; if (low == 16383) n -= 1 << 14; pos = 3 * (i64)n + 1; }
	if (pos < 0 || (u64)pos + b.size() > io.produced.size() || memcmp(&io.produced[(size_t)pos], b.data(), b.size())) return -1;
	return pos;
}
bool occurs(const std::string& b) { return std::search(io.produced.begin(), io.produced.end(), b.begin(), b.end(), [](u8 x, char y) { return x == (u8)y; }) != io.produced.end(); }
u64 trouble() { return my_faults(F_OPEN) + my_faults(F_READ) + my_faults(F_RAND); }
void request(const Op& op, std::vector<Got>& out) {
	u64 f0 = trouble();
	std::string b; bool ok = true; int n = 0;
	faults(true);
	switch (op.code) {
	case BUF: {
		n = (int)op.a;
		u8* p = (u8*)halloc_end(n > 0 ? (size_t)n : 1);
		memset(p, 0x9d, n > 0 ? (size_t)n : 1);
		int rc = cf_get_rand_buf(p, n);
		faults(false);
		CHECK(rc == 0 || rc == -1, "wrong-result", "a request for %d bytes returned %d", n, rc);
		ok = rc == 0;
		if (ok) CHECK(n >= 0, "wrong-result", "a request for %d bytes succeeded", n);
		if (ok) b.assign((char*)p, (size_t)n);
		hfree(p);
		if (n < 0 || n >= 8192) { if (!ok) f0 = ~0ull; }      // more than the generator holds: may be refused
		break; }
	case R64: { u64 v = cf_get_rand64(); faults(false); n = 8; ok = v != 0; b.assign((char*)&v, 8); break; }
	case R32: { u32 v = cf_get_rand32(); faults(false); n = 4; b.assign((char*)&v, 4); ok = v != 0; break; }
	}
	logf("%s %d: %s", c16_op(op.code), n, ok ? "filled" : "failed");
	CHECK(held_locks() == 0, "lock-kept", "%s returned without releasing the generator's lock", c16_op(op.code));
	if (!ok) { CHECK(trouble() > f0 || f0 == ~0ull, "spurious-failure", "%s of %d bytes failed though entropy was available", c16_op(op.code), n); probe("request failed"); return; }
	if (b.empty()) return;
	CHECK(io.seeded_bytes > 0 && io.seeded_bytes >= io.os_want, "not-seeded", "%s of %d bytes succeeded though the generator was given only %llu of the %llu bytes asked of the operating system", c16_op(op.code), n, (unsigned long long)io.seeded_bytes, (unsigned long long)io.os_want);
	// The words are numbers: their bytes may come in either order.
	std::string c(b.rbegin(), b.rend());
	bool ends = b.size() >= 4 ? locate(b) >= 0 || (op.code != BUF && locate(c) >= 0) : occurs(b);
	if (!ends) {
		size_t i = 0; while (i < b.size() && (u8)b[i] != 0x9d) i++;
		if (i < b.size()) fail("not-filled", "%s of %d bytes succeeded but byte %zu holds no entropy", c16_op(op.code), n, i);
		fail("not-entropy", "%s of %d bytes handed out bytes the generator did not produce in this order", c16_op(op.code), n);
	}
	note(fnv(b.data(), b.size()));
	out.push_back({ b, self() });
}
void c16_body(const Prog& p) {
	io.stream = 1;
	std::vector<std::vector<Got>> hs(p.thr.size() + 1);
	for (size_t k = 0; k < p.thr.size(); k++) spawn([&, k] { for (auto& op : p.thr[k]) request(op, hs[k]); });
	join_all();
	// Entropy is available again.
	faults(false);
	for (int i = 0; i < 2; i++) {
		u8* b = (u8*)halloc_end(16); memset(b, 0x9d, 16);
		CHECK(cf_get_rand_buf(b, 16) == 0, "no-recovery", "a request fails though entropy is available again");
		std::string s((char*)b, 16);
		CHECK(locate(s) >= 0, "not-entropy", "after a failure of the entropy source bytes were handed out that the generator did not produce");
		hs.back().push_back({ s, 0 });
		hfree(b);
	}
	CHECK(io.opens == io.closes, "descriptor-leak", "%llu descriptors were opened and %llu closed", (unsigned long long)io.opens, (unsigned long long)io.closes);
	std::vector<int> owner(io.produced.size(), -1);
	u64 total = 0; int id = 0;
	for (auto& v : hs) for (auto& x : v) {
		id++;
		total += x.bytes.size();
		i64 at = locate(x.bytes);
		if (at < 0) { std::string c(x.bytes.rbegin(), x.bytes.rend()); at = locate(c); }
		if (at < 0) continue;
		for (size_t i = 0; i < x.bytes.size(); i++) {
			CHECK(owner[(size_t)at + i] < 0, "shared-bytes", "byte %llu of the entropy was handed to two requests", (unsigned long long)at + i);
			owner[(size_t)at + i] = id;
		}
	}
	CHECK(total <= io.produced.size(), "shared-bytes", "%llu bytes were handed out of %zu", (unsigned long long)total, io.produced.size());
	if (io.rand_calls > 2) probe("buffer refilled repeatedly");
	check_no_leak("after random requests");
}
void c16_gen(Rng& r, Prog& p, Strategy& s) {
	gen_env(r, p.env);
	int nt = 1 + (int)r.below(4); if (nt == 1 && r.one_in(2)) nt = 3;
	int style = (int)r.below(3);
	for (int t = 0; t < nt; t++) {
		std::vector<Op> o;
		int n = 1 + (int)r.below(style == 2 ? 12 : 5);
		for (int i = 0; i < n; i++) {
			i64 len;
			switch (style == 0 ? r.below(2) : style == 1 ? 2 + r.below(4) : r.below(6)) {
			case 0: len = (i64)r.below(40); break;
			case 1: len = r.pick<i64>({ 0, 1, 2, 3, 4, 7, 8, 9, 16, 64 }); break;
			case 2: len = 2048 + (i64)r.below(2100); break;
			case 3: len = 8192 - (i64)r.below(20) - 1; break;
			case 4: len = r.pick<i64>({ 8191, 8192, 8193, 10000, 100000, 4096, 8184, 8188, -1, -8, INT32_MIN, INT32_MAX }); break;
			default: len = (i64)r.below(8192); break;
			}
			if (len > 100000 && len != INT32_MAX) len = 100000;
			if (len == INT32_MAX) len = 1 << 20;
			o.push_back({ r.one_in(3) ? r.pick({ R64, R32 }) : BUF, len, 0, 0 });
		}
		p.thr.push_back(o);
	}
	gen_sched(r, s, 100);
	if (!r.one_in(3)) {
		s.fp[F_OPEN] = r.pick<double>({ 0, 0.2, 0.7 });
		s.fp[F_READ] = r.pick<double>({ 0, 0.2, 0.7 });
		s.fp[F_RAND] = r.pick<double>({ 0, 0.2, 0.6 });
	}
	p.env.cap = 400000;
}
Reg r1({ "entropy_requests", "C16", 1, c16_gen, c16_body, c16_op });

// ------------------------------------------------------------------ C17
enum { G64, G32, GBYTES, GSTR, OWN_INIT, OWN_BYTES, OWN_STR, SALT, C17_NOPS };
const char* c17_op(int c) { static const char* n[] = { "get_uint64", "get_uint32", "get_bytes", "get_str", "init", "next_bytes", "next_str", "password_salt" }; return c >= 0 && c < C17_NOPS ? n[c] : "?"; }
bool alnum(char c) { return (c >= '0' && c <= '9') || (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z'); }
// Fill a buffer from the given generator (null: the thread's own).
std::string fill(as_random* g, u32 n, bool str, u8 pre) {
	u8* b = (u8*)halloc_end(n + str + (n + str == 0));
	memset(b, pre, n + str);
	if (str) { if (g) as_random_next_str(g, (char*)b, n); else x_rnd_get_str((char*)b, n); }
	else { if (g) as_random_next_bytes(g, b, n); else x_rnd_get_bytes(b, n); }
	std::string s((char*)b, n + str);
	hfree(b);
	return s;
}
void check_fill(as_random* shadow, as_random* own, u32 n, bool str) {
	as_random* two = (as_random*)halloc(sizeof(as_random)); *two = *shadow;
	std::string a = fill(own, n, str, 0x00), b = fill(shadow, n, str, 0xff), c = fill(two, n, str, 0x7f);
	if (str) {
		CHECK(a[n] == 0 && b[n] == 0, "not-terminated", "a random string of %u characters is not terminated", n);
		for (u32 i = 0; i < n; i++) CHECK(alnum(a[i]), "wrong-character", "character %u of a random string of %u is 0x%02x", i, n, (u8)a[i]);
	}
	CHECK(b == c, "not-filled", "of %u random bytes some were not written", n);
	CHECK(a == b, "disturbed", "a thread's random %s is not that of its own seed", str ? "string" : "bytes");
	if (!str && n >= 64) { std::map<u8, int> k; for (char x : a) k[(u8)x]++; for (auto& e : k) CHECK(e.second < (int)n / 2, "degenerate", "%d of %u random bytes are 0x%02x", e.second, n, e.first); }
	CHECK(memcmp(two, shadow, sizeof *two) == 0, "not-deterministic", "equal generators differ after the same request");
	hfree(two);
	note(fnv(a.data(), a.size()));
}
// The base64 of password hashes.
std::string encode(const std::string& raw) {
	static const char* abc = "./ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789";
	std::string s; u32 acc = 0; int bits = 0;
	for (char c : raw) { acc = acc << 8 | (u8)c; bits += 8; while (bits >= 6) { bits -= 6; s += abc[acc >> bits & 63]; } }
	if (bits) s += abc[acc << (6 - bits) & 63];
	return s;
}
void not_stuck(const as_random& g0, const char* what) {
	as_random* g = (as_random*)halloc(sizeof(as_random)); *g = g0;
	u64 v[6]; for (u64& x : v) x = x_rnd_next64(g);
	CHECK(!(v[2] == v[3] && v[3] == v[4] && v[4] == v[5]), "stuck", "%s produces 0x%llx for ever", what, (unsigned long long)v[5]);
	hfree(g);
}
struct Stream { as_random* where; u64 v[3]; bool fallback; int thread; };
void c17_body(const Prog& p) {
	io.stream = (int)p.cfg[0];
	if (p.cfg[1]) io.zero_fill = (int)p.cfg[1];
	std::vector<Stream> streams;
	auto enroll = [&](as_random* g, bool fallback) {
		as_random* c = (as_random*)halloc(sizeof(as_random)); *c = *g;
		Stream s; s.where = g; s.fallback = fallback; s.thread = self();
		for (u64& x : s.v) x = x_rnd_next64(c);
		streams.push_back(s);
		hfree(c);
	};
	for (size_t k = 0; k < p.thr.size(); k++) spawn([&, k] {
		as_random* shadow = (as_random*)halloc(sizeof(as_random)), *own = nullptr;
		faults(true);
		as_random* mine = as_random_instance();
		faults(false);
		bool bad = my_faults(F_OPEN) + my_faults(F_READ) + my_faults(F_RAND) > 0;
		*shadow = *mine;
		not_stuck(*mine, "a thread's generator");
		enroll(mine, bad);
		for (auto& op : p.thr[k]) {
			switch (op.code) {
			case G64: { u64 a = x_rnd_get64(), b = x_rnd_next64(shadow); CHECK(a == b, "disturbed", "a thread's next random number is not that of its own seed"); note(a); break; }
			case G32: { u32 a = x_rnd_get32(), b = x_rnd_next32(shadow); CHECK(a == b, "disturbed", "a thread's next random number is not that of its own seed"); note(a); break; }
			case GBYTES: check_fill(shadow, nullptr, (u32)op.a, false); break;
			case GSTR: check_fill(shadow, nullptr, (u32)op.a, true); break;
			case SALT: {
				char* b = (char*)halloc_end(AS_PASSWORD_HASH_SIZE); memset(b, 0x5a, AS_PASSWORD_HASH_SIZE);
				bool ok = as_password_gen_salt(b);
				CHECK(ok, "no-salt", "a password salt could not be made");
				std::string got = text_at(b, "a password salt"), raw = fill(shadow, 16, false, 0);
				CHECK(got == "$2a$10$" + encode(raw), "disturbed", "a password salt is not made of the thread's next random bytes");
				hfree(b); note(fnv(got.data(), got.size()));
				break; }
			case OWN_INIT: {
				if (own) hfree(own);
				own = (as_random*)halloc(sizeof(as_random));
				u64 f0 = my_faults(F_OPEN) + my_faults(F_READ) + my_faults(F_RAND);
				faults(true); as_random_init(own); faults(false);
				bool bad2 = my_faults(F_OPEN) + my_faults(F_READ) + my_faults(F_RAND) > f0;
				not_stuck(*own, "a generator");
				enroll(own, bad2);
				break; }
			case OWN_BYTES: case OWN_STR: {
				if (!own) break;
				as_random* c = (as_random*)halloc(sizeof(as_random)); *c = *own;
				check_fill(c, own, (u32)op.a, op.code == OWN_STR);
				hfree(c);
				break; }
			}
			if (op.code != OWN_INIT) CHECK(as_random_instance() == mine, "moved", "a thread's generator changed place");
		}
		if (own) hfree(own);
		hfree(shadow);
	});
	join_all();
	bool repeats = p.cfg[1] != 0;
	for (size_t i = 0; i < streams.size(); i++) for (size_t j = 0; j < i; j++) {
		Stream& a = streams[i]; Stream& b = streams[j];
		if (repeats) continue;
		if (a.fallback && b.fallback && (a.where == b.where || io.stream)) continue;
		CHECK(memcmp(a.v, b.v, sizeof a.v) != 0, "same-stream", "two generators produce the same stream though entropy did not repeat");
	}
	CHECK(io.opens == io.closes, "descriptor-leak", "%llu descriptors were opened and %llu closed", (unsigned long long)io.opens, (unsigned long long)io.closes);
	check_no_leak("after using the generators");
}
void c17_gen(Rng& r, Prog& p, Strategy& s) {
	gen_env(r, p.env);
	p.cfg = { r.pick<i64>({ 0, 0, 0, 0, 0, 2, 3 }), r.one_in(8) ? 1 + (i64)r.below(2) : 0 };
	if (p.cfg[1]) p.cfg[0] = 0;
	bool half = p.cfg[0] != 0;      // every other word of the entropy repeats: one thread, so that each generator gets one of each
	int nt = half ? 1 : r.one_in(300) ? r.pick({ 9, 17, 33, 40 }) : 1 + (int)r.below(4);
	for (int t = 0; t < nt; t++) {
		std::vector<Op> o;
		if (half) o.push_back({ OWN_INIT, 0, 0, 0 });
		int n = (int)r.below(7);
		for (int i = 0; i < n; i++) {
			i64 len = r.one_in(3) ? r.pick<i64>({ 0, 1, 7, 8, 9, 15, 16, 17, 64, 128 }) : (i64)r.below(40);
			if (r.one_in(400)) len = r.pick<i64>({ 255, 256, 257, 264, 1000, 1024, 2049, 4095, 4096, 4097, 8200 });
			if (r.one_in(8000)) len = r.pick<i64>({ 32768, 65535, 65536, 65537, 70001, 131080 });
			o.push_back({ (int)r.below(C17_NOPS), len, 0, 0 });
		}
		p.thr.push_back(o);
	}
	gen_sched(r, s, nt > 4 ? 2000 : 200);
	if (!half && r.one_in(2)) {
		s.fp[F_OPEN] = r.pick<double>({ 0, 0.3, 1 });
		s.fp[F_READ] = r.pick<double>({ 0, 0.3, 1 });
		s.fp[F_RAND] = r.pick<double>({ 0, 0.3, 1 });
	}
	p.env.cap = 8000000;
}
Reg r2({ "thread_generators", "C17", 1, c17_gen, c17_body, c17_op });
} // namespace
