// C13, C14: atomic operations and spin locks.
#include "common.h"
#include "glue_atomic.h"

namespace {

const char* at_op(int c) {
	static const char* n[] = { "load", "load_acq", "load_seq", "store", "store_rls", "store_seq", "faa", "faa_acq", "faa_rls", "faa_seq", "aaf", "aaf_acq", "aaf_rls", "aaf_seq",
		"add", "incr", "incr_rls", "decr", "decr_rls", "fas", "fas_acq", "fas_rls", "fas_seq", "cas", "cas_rlx", "cas_acq", "cas_rls", "cas_seq", "setmax", "load+fence_acq", "fence_rls+store", "load+fence_seq", "fence_seq+store" };
	return c >= 0 && c < AO_NOPS ? n[c] : "?";
}
const char* at_type[] = { "uint64", "int64", "uint32", "int32", "uint16", "int16", "uint8", "int8", "ptr", "double", "float", "bool" };
int width(int t) { static const int w[] = { 8, 8, 4, 4, 2, 2, 1, 1, 8, 8, 4, 1 }; return w[t]; }
u64 mask(int t) { int w = width(t); return w == 8 ? ~0ull : (1ull << (8 * w)) - 1; }
bool full_type(int t) { return t <= AT_I16; }
bool have(int op, int t) {
	if (op == AO_SETMAX) return t == AT_U64 || t == AT_U32;
	if (full_type(t)) return true;
	switch (op) {
	case AO_LOAD: case AO_STORE: return true;
	case AO_LOAD_ACQ: case AO_STORE_RLS: return t != AT_DBL && t != AT_FLT;
	case AO_CAS: return t != AT_BOOL;
	case AO_FAS: return t == AT_PTR || t == AT_DBL || t == AT_FLT;
	}
	return false;
}
struct AEv { int op, type; u64 a, b, b2, r; u64 call, ret; };
struct AModel {
	u64 v;
	bool apply(const AEv& e) {
		u64 m = mask(e.type), a = e.a & m, o = v;
		switch (e.op) {
		case AO_LOAD: case AO_LOAD_ACQ: case AO_LOAD_SEQ: case AO_FENCED_LOAD: case AO_SEQFENCED_LOAD: return e.r == v;
		case AO_STORE: case AO_STORE_RLS: case AO_STORE_SEQ: case AO_FENCED_STORE: case AO_SEQFENCED_STORE: v = a; return true;
		case AO_FAA: case AO_FAA_ACQ: case AO_FAA_RLS: case AO_FAA_SEQ: v = (v + a) & m; return e.r == o;
		case AO_AAF: case AO_AAF_ACQ: case AO_AAF_RLS: case AO_AAF_SEQ: v = (v + a) & m; return e.r == v;
		case AO_ADD: v = (v + a) & m; return true;
		case AO_INCR: case AO_INCR_RLS: v = (v + 1) & m; return true;
		case AO_DECR: case AO_DECR_RLS: v = (v - 1) & m; return true;
		case AO_FAS: case AO_FAS_ACQ: case AO_FAS_RLS: case AO_FAS_SEQ: v = a; return e.r == o;
		case AO_CAS: case AO_CAS_RLX: case AO_CAS_ACQ: case AO_CAS_RLS: case AO_CAS_SEQ: {
			bool hit = v == (e.b & m);
			if (hit) v = a;
			if (e.op != AO_CAS && !hit && (e.b2 & m) != o) return false;
			if (e.op != AO_CAS && hit && (e.b2 & m) != (e.b & m)) return false;
			return (e.r != 0) == hit; }
		case AO_SETMAX: if (a > v) { v = a; return e.r == 1; } return e.r == 0;
		}
		return false;
	}
	std::string key() const { return std::string((const char*)&v, 8); }
};
u64 value(Rng& r, int t) {
	u64 m = mask(t);
	if (t == AT_BOOL) return r.below(2);
	if (t == AT_DBL || t == AT_FLT) {      // no NaNs, and the two zeros are different values here
		double d = r.pick<double>({ 0.0, 1.5, -2.25, 1e30, 3.0, -0.0 });
		if (t == AT_DBL) { u64 u; memcpy(&u, &d, 8); return u; }
		float f = (float)d; u32 u; memcpy(&u, &f, 4); return u;
	}
	return r.pick<u64>({ 0, 1, 2, 3, m, m - 1, m >> 1, (m >> 1) + 1, 0x0102030405060708ull & m, 0xfefefefefefefefeull & m, 256 & m, 0x10000 & m, 0x100000000ull & m, 0x80ull, 0xff });
}
void body_atomic(const Prog& p) {
	int type = (int)p.cfg[0]; int w = width(type);
	u8* block = (u8*)halloc(24);
	memset(block, 0xc3, 24);
	u8* t = block + 8;
	u64 init = (u64)p.cfg[1];
	memcpy(t, &init, (size_t)w);
	std::vector<AEv> h;
	for (size_t k = 0; k < p.thr.size(); k++) spawn([&p, &h, k, t, type] {
		for (auto& op : p.thr[k]) {
			AEv e{ op.code, type, (u64)op.a, (u64)op.b, (u64)op.b, 0, 0, 0 };
			int has = 0;
			e.call = now();
			e.r = x_atomic(op.code, type, t, e.a, &e.b2, &has);
			e.ret = now();
			if (!has) fail("missing", "the library has no %s for %s", at_op(op.code), at_type[type]);
			logf("%s_%s(%llx, %llx) = %llx", at_op(op.code), at_type[type], (long long)e.a, (long long)e.b, (long long)e.r);
			note(e.r);
			h.push_back(e);
		}
	});
	join_all();
	u64 last = 0; memcpy(&last, t, (size_t)w);
	AEv f{ AO_LOAD, type, 0, 0, 0, last, now(), 0 }; f.ret = now();
	h.push_back(f);
	for (int i = 0; i < 24; i++) if (i < 8 || i >= 8 + w) CHECK(block[i] == 0xc3, "wrote-beside", "a byte beside the target of an atomic operation changed");
	Lin<AEv, AModel> lin(h);
	AModel m{ init & mask(type) };
	if (!lin.ok(m)) {
		std::string s;
		for (auto& e : h) { char b[160]; snprintf(b, sizeof b, " %s(%llx,%llx)=%llx", at_op(e.op), (long long)e.a, (long long)e.b, (long long)e.r); s += b; }
		fail("not-indivisible", "no order of the calls on a %s starting at %llx gives these results:%s", at_type[type], (long long)init, s.c_str());
	}
}
void gen_atomic(Rng& r, Prog& p, Strategy& s) {
	gen_env(r, p.env);
	int type = (int)r.below(AT_NTYPES);
	p.cfg = { type, (i64)value(r, type) };
	std::vector<int> ops;
	for (int i = 0; i < AO_NOPS; i++) if (have(i, type)) ops.push_back(i);
	if (r.one_in(2)) { std::vector<int> few; int n = 1 + (int)r.below(3); for (int i = 0; i < n; i++) few.push_back(ops[r.below(ops.size())]); ops = few; }
	std::vector<u64> vals; for (int i = 0; i < 4; i++) vals.push_back(value(r, type));
	vals.push_back((u64)p.cfg[1]);
	int nt = 1 + (int)r.below(4);
	for (int t = 0; t < nt; t++) {
		std::vector<Op> o; int n = 1 + (int)r.below(nt == 1 ? 12 : 4);
		for (int i = 0; i < n; i++) o.push_back(Op{ ops[r.below(ops.size())], (i64)vals[r.below(vals.size())], (i64)vals[r.below(vals.size())], 0 });
		p.thr.push_back(o);
	}
	gen_sched(r, s, 40);
	p.env.cap = 200000;
}

// Ordering: what a thread wrote before a releasing operation is visible after an acquiring one that saw it.
bool releases(int op) { switch (op) { case AO_STORE_RLS: case AO_STORE_SEQ: case AO_FAA_RLS: case AO_FAA_SEQ: case AO_AAF_RLS: case AO_AAF_SEQ: case AO_INCR_RLS: case AO_DECR_RLS: case AO_FAS_RLS: case AO_FAS_SEQ: case AO_CAS_RLS: case AO_CAS_SEQ: case AO_FENCED_STORE: case AO_SEQFENCED_STORE: return true; } return false; }
bool acquires(int op) { switch (op) { case AO_LOAD_ACQ: case AO_LOAD_SEQ: case AO_FAA_ACQ: case AO_FAA_SEQ: case AO_AAF_ACQ: case AO_AAF_SEQ: case AO_FAS_ACQ: case AO_FAS_SEQ: case AO_CAS_ACQ: case AO_CAS_SEQ: case AO_FENCED_LOAD: case AO_SEQFENCED_LOAD: return true; } return false; }
int hbk[4];
void body_order(const Prog& p) {
	// cfg: type, releasing op, acquiring op. The target starts at 0; the releasing operation makes it something else.
	int type = (int)p.cfg[0], rel = (int)p.cfg[1], acq = (int)p.cfg[2];
	u8* t = (u8*)halloc(8); memset(t, 0, 8);
	spawn([&] {
		for (int i = 0; i < (int)p.cfg[3]; i++) yield();
		hb_write(&hbk[0], "what a thread wrote before a releasing operation");
		u64 b = 0; int has; u64 one = 1;
		x_atomic(rel, type, t, one, &b, &has);
	});
	spawn([&] {
		for (int k = 0; k < 2000; k++) {
			u64 b = 0, r; int has;
			bool saw;
			switch (acq) {
			case AO_LOAD_ACQ: case AO_LOAD_SEQ: case AO_FENCED_LOAD: case AO_SEQFENCED_LOAD: saw = x_atomic(acq, type, t, 0, &b, &has) != 0; break;
			case AO_FAA_ACQ: case AO_FAA_SEQ: case AO_AAF_ACQ: case AO_AAF_SEQ: saw = x_atomic(acq, type, t, 0, &b, &has) != 0; break;
			case AO_FAS_ACQ: case AO_FAS_SEQ: saw = x_atomic(acq, type, t, 0, &b, &has) != 0; break;
			default: b = rel == AO_DECR_RLS ? mask(type) : 1; saw = x_atomic(acq, type, t, 7, &b, &has) != 0;
			}
			if (saw) { hb_read(&hbk[0], "the same data after the acquiring operation"); probe("handed over"); return; }
			yield();
		}
	});
	join_all();
}
void gen_order(Rng& r, Prog& p, Strategy& s) {
	gen_env(r, p.env);
	int type;
	do type = (int)r.below(AT_NTYPES); while (!have(AO_STORE_RLS, type));
	int rel, acq;
	do rel = (int)r.below(AO_NOPS); while (!releases(rel) || !have(rel, type));
	do acq = (int)r.below(AO_NOPS); while (!acquires(acq) || !have(acq, type));
	p.cfg = { type, rel, acq, (i64)r.below(4) };
	p.thr.resize(2);
	gen_sched(r, s, 40);
	p.env.cap = 400000;
}

// ------------------------------------------------------------------ C14: spin locks
enum { P_LOCK, P_READ };
const char* lk_op(int c) { return c == P_LOCK ? "lock_write" : "lock_read"; }
struct Guard { int writers = 0, readers = 0; u64 value[2] = { 0, 0 }; };
void body_locks(const Prog& p) {
	bool sw = p.cfg[0];
	as_spinlock* s = (as_spinlock*)halloc(sizeof(as_spinlock)); as_swlock* w = (as_swlock*)halloc(sizeof(as_swlock));
	if (sw) x_sw_init(w); else x_spin_init(s);
	Guard g; u64 total = 0, maxr = 0;
	for (size_t k = 0; k < p.thr.size(); k++) spawn([&, k] {
		for (auto& op : p.thr[k]) {
			bool write = op.code == P_LOCK || !sw;
			if (!sw) x_spin_lock(s); else if (write) x_sw_write_lock(w); else x_sw_read_lock(w);
			note((u64)self() * 2 + write);
			if (write) {
				CHECK(g.writers == 0 && g.readers == 0, "not-exclusive", "a thread got the lock while %s", g.writers ? "another one holds it" : "a reader holds it");
				g.writers = 1;
				hb_write(&hbk[1], "a write under the lock");
				u64 v = g.value[0];
				for (i64 i = 0; i <= op.a; i++) yield();
				CHECK(g.value[0] == v && g.value[1] == v && g.readers == 0, "not-exclusive", "data changed under the lock");
				g.value[0] = g.value[1] = v + 1; total++;
				g.writers = 0;
			} else {
				CHECK(g.writers == 0, "not-exclusive", "a reader got the lock while the writer holds it");
				g.readers++;
				maxr = std::max<u64>(maxr, (u64)g.readers);
				hb_read(&hbk[1], "a read under the lock");
				u64 v = g.value[0];
				for (i64 i = 0; i <= op.a; i++) yield();
				CHECK(g.value[0] == v && g.value[1] == v && g.writers == 0, "not-exclusive", "data changed under a read lock");
				g.readers--;
			}
			if (!sw) x_spin_unlock(s); else if (write) x_sw_write_unlock(w); else x_sw_read_unlock(w);
			for (i64 i = 0; i < op.b; i++) yield();
		}
	});
	join_all();
	if (maxr > 1) probe("readers shared the lock");
	CHECK(g.value[0] == total, "not-exclusive", "%llu of %llu writes under the lock survived", (unsigned long long)g.value[0], (unsigned long long)total);
	// The lock is free again.
	if (!sw) { x_spin_lock(s); x_spin_unlock(s); } else { x_sw_write_lock(w); x_sw_write_unlock(w); x_sw_read_lock(w); x_sw_read_lock(w); x_sw_read_unlock(w); x_sw_read_unlock(w); }
}
void gen_locks(Rng& r, Prog& p, Strategy& s) {
	gen_env(r, p.env);
	bool sw = !r.one_in(3);
	p.cfg = { sw };
	int nt = r.one_in(300) ? r.pick({ 9, 17, 18, 33, 34, 65, 70 }) : 2 + (int)r.below(3);
	for (int t = 0; t < nt; t++) {
		std::vector<Op> o; int n = 1 + (int)r.below(nt > 4 ? 2 : 4);
		for (int i = 0; i < n; i++) o.push_back(Op{ sw ? (t == 0 ? (r.one_in(8) ? P_READ : P_LOCK) : P_READ) : P_LOCK, (i64)r.below(3), (i64)r.below(3), 0 });
		p.thr.push_back(o);
	}
	gen_sched(r, s, 120);
	p.env.cap = nt > 4 ? 60000000 : 3000000;
}

// Readers share: a reader that holds the lock does not keep another one out. Progress: a writer that asks gets the
// lock though readers keep coming, and readers get it though the writer keeps coming.
void body_share(const Prog& p) {
	as_swlock* w = (as_swlock*)halloc(sizeof(as_swlock));
	x_sw_init(w);
	int in = 0; bool stop = false; int n = (int)p.cfg[0];
	if (p.cfg[1] == 0) {
		// Every reader waits inside for all the others.
		for (int k = 0; k < n; k++) spawn([&] { i64 deep = p.cfg[4]; for (i64 i = 0; i < deep; i++) x_sw_read_lock(w); in++; while (in < n) yield(); CHECK(!stop, "not-exclusive", "the writer got in while readers hold the lock"); for (i64 i = 0; i < deep; i++) { CHECK(!stop, "not-exclusive", "the writer got in while a reader holds the lock"); x_sw_read_unlock(w); } });
		if (p.cfg[3] > 1) spawn([&] { while (in < n) yield(); x_sw_write_lock(w); stop = true; x_sw_write_unlock(w); });
		join_all();
		probe("all readers inside at once");
	} else {
		// Readers that overlap without a gap: the writer must still get in. They stop only when it has.
		for (int k = 0; k < n; k++) spawn([&] { while (!stop) { x_sw_read_lock(w); for (i64 i = 0; i < p.cfg[2]; i++) yield(); x_sw_read_unlock(w); } });
		spawn([&] { for (i64 i = 0; i < p.cfg[3]; i++) { x_sw_write_lock(w); yield(); x_sw_write_unlock(w); yield(); } stop = true; });
		join_all();
		probe("writer got in among readers");
	}
}
void gen_share(Rng& r, Prog& p, Strategy& s) {
	gen_env(r, p.env);
	p.cfg = { 2 + (i64)r.below(3), (i64)r.below(2), (i64)r.below(6), 1 + (i64)r.below(3), 1 };
	if (r.one_in(200)) p.cfg[0] = r.pick<i64>({ 8, 9, 16, 17, 32, 33, 64, 65, 80 });
	if (r.one_in(200)) { p.cfg[0] = 1; p.cfg[1] = 0; p.cfg[4] = r.pick<i64>({ 31, 127, 128, 129, 255, 256, 257, 1000, 4096, 32767, 32768, 65535, 65536, 70000 }); }
	gen_sched(r, s, 120);
	p.env.cap = p.cfg[0] > 4 ? 100000000 : 6000000;
}
const char* no_op(int) { return "?"; }

Reg r1({ "atomics", "C13", 4, gen_atomic, body_atomic, at_op });
Reg r2({ "ordering", "C13", 1, gen_order, body_order, no_op });
Reg r3({ "locks", "C14", 6, gen_locks, body_locks, lk_op });
Reg r4({ "sharing", "C14", 1, gen_share, body_share, no_op });
} // namespace
