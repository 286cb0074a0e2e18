// C01..C06: both queue families against plain lists.
#include "common.h"
#include "glue.h"

namespace {

enum { CF, MT, AQ };
enum { PUSH, PUSH_LIMIT, PUSH_INDEX, PUSH_UNIQUE, PUSH_HEAD, PUSH_HEAD_LIMIT, PEEK, POP, POP_TAIL, SIZE, EMPTY,
	REDUCE, REDUCE_REV, REDUCE_POP, DELETE, DELETE_ALL, DRAIN, INCR, DECR, CHURN, FILL, TAKE, NOPS };
const char* opname(int c) {
	static const char* n[] = { "push", "push_limit", "push_index", "push_unique", "push_head", "push_head_limit", "peek",
		"pop", "pop_tail", "size", "empty", "reduce", "reduce_reverse", "reduce_pop", "delete", "delete_all", "drain", "incr_total", "decr_total", "churn", "fill", "take" };
	return c >= 0 && c < NOPS ? n[c] : "?";
}
// Configuration slots.
enum { K_FAM, K_ESZ, K_CAP, K_PRE, K_AGE, K_UNIQ, K_KIND, K_SAFE, K_FAULT, K_PUSH, K_ENC, K_N };

struct Ev {
	int code; i64 a, b, c;
	u64 call = 0, ret = 0;
	int rc = 0, val = -1;
	std::vector<int> seen;
	bool fault = false, multi = false;
	int thr = 0;
};

// How an element shows its number: in every byte, or in one byte (the last, or one in the middle) among equal ones.
int enc_modes[3];
#define enc_mode enc_modes[copy_of()]
size_t enc_at(size_t n) { return enc_mode == 1 ? n - 1 : n / 2; }
u8 enc_byte(size_t i, size_t n, int id) { return enc_mode == 0 ? (u8)(id + (int)i * 37) : i == enc_at(n) ? (u8)(id - 1) : enc_mode == 1 ? 0 : (u8)(i * 37); }
void enc(u8* b, size_t n, int id) { for (size_t i = 0; i < n; i++) b[i] = enc_byte(i, n, id); }
int dec(const u8* b, size_t n) { int id = enc_mode == 0 ? b[0] : (u8)(b[enc_at(n)] + 1); for (size_t i = 0; i < n; i++) if (b[i] != enc_byte(i, n, id)) return -1; return id; }

char hbkeys[3][256];
#define hbkey hbkeys[copy_of()]

struct Q {
	int fam = CF; size_t esz = 8; u32 cap = 4; bool uniq = false, safe = true; int kind = 0;
	cf_queue* cf = nullptr; as_queue_mt* mt = nullptr; as_queue* aq = nullptr;
	void got(int id) { if (uniq && id >= 0) hb_read(&hbkey[id & 255], "use of an element by its receiver"); }
	void giving(int id) { if (uniq) hb_write(&hbkey[id & 255], "the producer's preparation of an element"); }
};
struct Cb { Q* q; Ev* e; int best; };
int reduce_cb(void* buf, void* ud) {
	Cb* c = borrow<Cb>(ud);
	CHECK(range_ok(buf, c->q->esz), "bad-element", "%s callback got an element outside the queue's storage", opname(c->e->code));
	int id = dec((u8*)buf, c->q->esz);
	c->e->seen.push_back(id);
	c->q->got(id);
	yield();
	CHECK(dec((u8*)buf, c->q->esz) == id, "not-linearizable", "element changed while the %s callback looked at it", opname(c->e->code));
	switch (c->e->b) {
	case 1: return id == c->e->a ? -1 : 0;
	case 2: return id == c->e->a ? -2 : 0;
	case 3: if (id > c->best) { c->best = id; return -2; } return 0;
	default: return 0;
	}
}
// Carry out one call and record its result.
void call(Q& q, Ev& e) {
	// Elements travel through checked memory, so that copying too much is noticed.
	u8* io_ = (u8*)halloc(q.esz);
	u64 f0 = my_faults(F_ALLOC), w0 = cond_waits();
	Cb cb{ &q, &e, -1 };
	e.thr = self();
	bool push = e.code <= PUSH_HEAD_LIMIT;
	if (push) { enc(io_, q.esz, (int)e.a); q.giving((int)e.a); }
	if (e.code == DELETE) enc(io_, q.esz, (int)e.a);
	int wait = 0;
	if (e.code == POP || e.code == POP_TAIL) wait = (int)e.b; else if (e.code == REDUCE_POP) wait = (int)e.c;
	e.call = now();
	bool got = false;
	if (q.fam == CF) switch (e.code) {
	case PUSH: e.rc = cf_queue_push(q.cf, io_); break;
	case PUSH_LIMIT: e.rc = cf_queue_push_limit(q.cf, io_, (u32)e.b); break;
	case PUSH_INDEX: e.rc = cf_queue_push_index(q.cf, io_, (u32)e.b); break;
	case PUSH_UNIQUE: e.rc = cf_queue_push_unique(q.cf, io_); break;
	case PUSH_HEAD: e.rc = cf_queue_push_head(q.cf, io_); break;
	case PEEK: e.rc = cf_queue_peek(q.cf, io_); got = e.rc == CF_QUEUE_OK; break;
	case POP: e.rc = cf_queue_pop(q.cf, io_, wait); got = e.rc == CF_QUEUE_OK; break;
	case SIZE: e.rc = (int)x_cf_queue_sz(q.cf); break;
	case REDUCE: e.rc = cf_queue_reduce(q.cf, reduce_cb, lend(&cb, (e.a + e.b) % 4 == 0)); break;
	case REDUCE_REV: e.rc = cf_queue_reduce_reverse(q.cf, reduce_cb, lend(&cb, (e.a + e.b) % 4 == 0)); break;
	case REDUCE_POP: e.rc = cf_queue_reduce_pop(q.cf, io_, wait, reduce_cb, lend(&cb, (e.a + e.b) % 4 == 0)); got = e.rc == CF_QUEUE_OK; break;
	case DELETE: e.rc = cf_queue_delete(q.cf, io_, e.b != 0); break;
	case DELETE_ALL: e.rc = cf_queue_delete_all(q.cf); break;
	}
	else if (q.fam == MT) switch (e.code) {
	case PUSH: e.rc = x_aqm_push(q.mt, io_); break;
	case PUSH_LIMIT: e.rc = x_aqm_push_limit(q.mt, io_); break;
	case PUSH_HEAD: e.rc = x_aqm_push_head(q.mt, io_); break;
	case PUSH_HEAD_LIMIT: e.rc = x_aqm_push_head_limit(q.mt, io_); break;
	case POP: e.rc = as_queue_mt_pop(q.mt, io_, wait); got = e.rc; break;
	case POP_TAIL: e.rc = as_queue_mt_pop_tail(q.mt, io_, wait); got = e.rc; break;
	case SIZE: e.rc = (int)x_aqm_size(q.mt); break;
	case EMPTY: e.rc = x_aqm_empty(q.mt); break;
	}
	else switch (e.code) {
	case PUSH: e.rc = as_queue_push(q.aq, io_); break;
	case PUSH_LIMIT: e.rc = as_queue_push_limit(q.aq, io_); break;
	case PUSH_HEAD: e.rc = as_queue_push_head(q.aq, io_); break;
	case PUSH_HEAD_LIMIT: e.rc = as_queue_push_head_limit(q.aq, io_); break;
	case POP: e.rc = x_aq_pop(q.aq, io_); got = e.rc; break;
	case POP_TAIL: e.rc = x_aq_pop_tail(q.aq, io_); got = e.rc; break;
	case SIZE: e.rc = (int)x_aq_size(q.aq); break;
	case EMPTY: e.rc = x_aq_empty(q.aq); break;
	case INCR: e.rc = x_aq_incr_total(q.aq); break;
	case DECR: x_aq_decr_total(q.aq); e.rc = 0; break;
	}
	e.ret = now();
	e.fault = my_faults(F_ALLOC) != f0;
	CHECK(held_locks() == 0, "lock-held", "%s returned holding the queue's lock", opname(e.code));
	if (wait == 0) CHECK(cond_waits() == w0, "blocked-nowait", "%s without waiting went to sleep", opname(e.code));
	if (got) {
		e.val = dec(io_, q.esz);
		CHECK(e.val >= 0, "torn-element", "%s delivered an element that nobody pushed", opname(e.code));
		q.got(e.val);
	}
	hfree(io_);
	note((u64)e.code << 32 ^ (u64)(u32)e.rc ^ (u64)(u32)e.val << 16);
	logf("%s(%lld,%lld,%lld) = %d, element %d%s", opname(e.code), (long long)e.a, (long long)e.b, (long long)e.c, e.rc, e.val, e.fault ? " [allocation failed]" : "");
}

// The specification: a list.
struct Model {
	int fam = CF; u32 cap = 0; u32 total = 0; bool safe = true;
	std::vector<u8> l;
	std::string key() const { std::string s((const char*)l.data(), l.size()); s.push_back((char)cap); s.push_back((char)(cap >> 8)); return s; }
	void grow() { if (l.size() >= cap) cap *= 2; }
	bool apply(const Ev& e) {
		u8 v = (u8)e.a;
		size_t n = l.size();
		if (fam == CF) {
			if (e.fault && ((e.code <= PUSH_HEAD && e.code != PUSH_LIMIT && e.rc == CF_QUEUE_ERR) || (e.code == PUSH_LIMIT && !e.rc))) return true;
			switch (e.code) {
			case PUSH: l.push_back(v); return e.rc == CF_QUEUE_OK;
			case PUSH_LIMIT: if (n >= (u32)e.b) return !e.rc; l.push_back(v); return e.rc == 1;
			case PUSH_INDEX: if ((u32)e.b >= n) l.push_back(v); else l.insert(l.begin() + (u32)e.b, v); return e.rc == CF_QUEUE_OK;
			case PUSH_UNIQUE: if (std::count(l.begin(), l.end(), v)) return e.rc == -2; l.push_back(v); return e.rc == CF_QUEUE_OK;
			case PUSH_HEAD: l.insert(l.begin(), v); return e.rc == CF_QUEUE_OK;
			case PEEK: if (!n) return e.rc == CF_QUEUE_EMPTY; return e.rc == CF_QUEUE_OK && e.val == l[0];
			case POP:
				if (!n) return e.rc == CF_QUEUE_EMPTY && (e.b >= 0 || !safe);
				if (e.rc != CF_QUEUE_OK || e.val != l[0]) return false;
				l.erase(l.begin()); return true;
			case SIZE: return e.rc == (int)n;
			case REDUCE: case REDUCE_REV: {
				if (e.rc != CF_QUEUE_OK) return false;
				size_t k = 0;
				for (size_t j = 0; j < n; j++) {
					size_t i = e.code == REDUCE ? j : n - 1 - j;
					if (k >= e.seen.size() || e.seen[k] != l[i]) return false;
					k++;
					if (e.b == 1 && l[i] == e.a) break;
					if (e.b == 2 && l[i] == e.a) { l.erase(l.begin() + i); break; }
				}
				return k == e.seen.size();
			}
			case REDUCE_POP: {
				if (!n) return e.rc == CF_QUEUE_EMPTY && e.seen.empty() && (e.c >= 0 || !safe);
				size_t k = 0, best = 0; int bv = -1;
				for (size_t i = 0; i < n; i++) {
					if (k >= e.seen.size() || e.seen[k] != l[i]) return false;
					k++;
					if (e.b == 1 && l[i] == e.a) { best = i; break; }
					if (e.b == 2 && l[i] == e.a) best = i;
					if (e.b == 3 && l[i] > bv) { bv = l[i]; best = i; }
				}
				if (k != e.seen.size() || e.rc != CF_QUEUE_OK || e.val != l[best]) return false;
				l.erase(l.begin() + best);
				return true;
			}
			case DELETE: {
				size_t k = 0;
				for (size_t i = 0; i < l.size(); ) { if (l[i] == v) { k++; l.erase(l.begin() + i); if (e.b) break; } else i++; }
				return e.rc == (k ? CF_QUEUE_OK : CF_QUEUE_EMPTY);
			}
			case DELETE_ALL: l.clear(); return e.rc == (n ? CF_QUEUE_OK : CF_QUEUE_EMPTY);
			}
		} else switch (e.code) {
			case PUSH: if (e.fault && !e.rc) return true; grow(); l.push_back(v); return e.rc == 1;
			case PUSH_HEAD: if (e.fault && !e.rc) return true; grow(); l.insert(l.begin(), v); return e.rc == 1;
			case PUSH_LIMIT: if (n >= cap) return !e.rc; l.push_back(v); return e.rc == 1;
			case PUSH_HEAD_LIMIT: if (n >= cap) return !e.rc; l.insert(l.begin(), v); return e.rc == 1;
			case POP: if (!n) return !e.rc && (e.b >= 0 || fam == AQ); if (!e.rc || e.val != l[0]) return false; l.erase(l.begin()); return true;
			case POP_TAIL: if (!n) return !e.rc && (e.b >= 0 || fam == AQ); if (!e.rc || e.val != l[n - 1]) return false; l.pop_back(); return true;
			case SIZE: return e.rc == (int)n;
			case EMPTY: return e.rc == (n == 0);
			case INCR: if (total < cap) { total++; return e.rc == 1; } return !e.rc;
			case DECR: total--; return true;
		}
		if (e.code == DRAIN) {
			if (e.seen.size() != n) return false;
			for (size_t i = 0; i < n; i++) if (e.seen[i] != l[i]) return false;
			l.clear();
			return true;
		}
		return false;
	}
};

std::string show(const std::vector<int>& v) { std::string s = "["; for (int x : v) s += (s.size() > 1 ? "," : "") + std::to_string(x); return s + "]"; }
std::string history(const std::vector<Ev>& h) {
	std::string s;
	std::vector<const Ev*> o; for (auto& e : h) o.push_back(&e);
	std::sort(o.begin(), o.end(), [](const Ev* a, const Ev* b) { return a->call < b->call; });
	for (auto* e : o) {
		char b[160];
		snprintf(b, sizeof b, "T%d %s(%lld,%lld,%lld)@%llu-%llu=%d/%d", e->thr, opname(e->code), (long long)e->a, (long long)e->b, (long long)e->c,
			(unsigned long long)e->call, (unsigned long long)e->ret, e->rc, e->val);
		s += b;
		if (!e->seen.empty()) s += show(e->seen);
		s += "; ";
		if (s.size() > 1700) { s += "..."; break; }
	}
	return s;
}

u32 qsize(Q& q) { return q.fam == CF ? x_cf_queue_sz(q.cf) : q.fam == MT ? x_aqm_size(q.mt) : x_aq_size(q.aq); }

// Let the queue look as if very many elements had passed through it: move both offsets forward by whole laps, to just
// before the next power of two at which they could go wrong. Only for a queue that is seen to keep running offsets.
template <class O, class C> void laps(O& rd, O& wr, C cap, u32 dist) {
	for (u64 t : { 1ull << 30, 1ull << 31, 1ull << 32 }) {
		u64 target = t - 1 - dist;
		if (wr >= t) continue;
		if (wr > target) return;
		u64 n = (target - wr) / cap;
		rd += (O)(n * cap); wr += (O)(n * cap);
		if (t > 1ull << 30) probe("aged queue beyond two to the thirtieth");
		return;
	}
}
template <class T> auto age_cf(T* q, u32 dist, int) -> decltype((void)q->read_offset, (void)q->write_offset, (void)q->alloc_sz, true) {
	NoFaults nf;
	T* t = (T*)halloc(sizeof(T)); u32* x = (u32*)halloc(4); *x = 1;
	CHECK(cf_queue_init(t, 4, 2, false), "spurious-failure", "creating the queue failed though nothing was short");
	cf_queue_push(t, x);
	for (int i = 0; i < 5; i++) { cf_queue_push(t, x); cf_queue_pop(t, x, 0); }
	bool ok = t->write_offset == 6 && t->read_offset == 5 && t->alloc_sz == 2;
	cf_queue_destroy(t); hfree(t); hfree(x);
	if (ok) laps(q->read_offset, q->write_offset, q->alloc_sz, dist);
	return ok;
}
template <class T> bool age_cf(T*, u32, long) { return false; }
template <class T> auto age_aq(T* q, u32 dist, int) -> decltype((void)q->head, (void)q->tail, (void)q->capacity, true) {
	NoFaults nf;
	T* t = (T*)halloc(sizeof(T)); u32* x = (u32*)halloc(4); *x = 1;
	CHECK(as_queue_init(t, 4, 2), "spurious-failure", "creating the queue failed though nothing was short");
	as_queue_push(t, x);
	for (int i = 0; i < 5; i++) { as_queue_push(t, x); x_aq_pop(t, x); }
	bool ok = t->tail == 6 && t->head == 5 && t->capacity == 2;
	as_queue_destroy(t); hfree(t); hfree(x);
	if (ok) laps(q->head, q->tail, q->capacity, dist);
	return ok;
}
template <class T> bool age_aq(T*, u32, long) { return false; }
void age(Q& q, u32 dist) {
	if (qsize(q) == 0) return;
	bool ok = q.fam == CF ? age_cf(q.cf, dist, 0) : q.fam == MT ? age_aq(&q.mt->queue, dist, 0) : age_aq(q.aq, dist, 0);
	if (ok) probe("aged queue");
}

// Create the configured queue and hand it to the body.
struct Ctx { Q* q; std::function<void()>* f; };
void run_ctx(void* p) { (*((Ctx*)p)->f)(); }
bool with_queue(Q& q, bool faulty, std::function<void()> f) {
	u64 f0 = my_faults(F_ALLOC) + my_faults(F_MUTEX_INIT) + my_faults(F_COND_INIT);
	bool ok = true;
	std::function<void()> g2 = [&] { f(); };
	if (q.fam == CF) {
		if (q.kind == 0) { q.cf = (cf_queue*)halloc(sizeof(cf_queue)); faults(faulty); ok = cf_queue_init(q.cf, q.esz, q.cap, q.safe); faults(false); }
		else { faults(faulty); q.cf = cf_queue_create(q.esz, q.safe); faults(false); ok = q.cf; q.cap = CF_QUEUE_ALLOCSZ; }
		if (ok) { g2(); cf_queue_destroy(q.cf); }
	} else if (q.fam == MT) {
		if (q.kind == 0) { q.mt = (as_queue_mt*)halloc(sizeof(as_queue_mt)); faults(faulty); ok = as_queue_mt_init(q.mt, (u32)q.esz, q.cap); faults(false); if (ok) { g2(); x_aqm_destroy(q.mt); } }
		else if (q.kind == 1) { faults(faulty); q.mt = as_queue_mt_create((u32)q.esz, q.cap); faults(false); ok = q.mt; if (ok) { g2(); x_aqm_destroy(q.mt); } }
		else { q.mt = (as_queue_mt*)halloc(sizeof(as_queue_mt)); Ctx c{ &q, &g2 }; x_aqm_inita(q.mt, (u32)q.esz, q.cap, run_ctx, &c); x_aqm_destroy(q.mt); }
	} else {
		if (q.kind == 0) { q.aq = (as_queue*)halloc(sizeof(as_queue)); faults(faulty); ok = as_queue_init(q.aq, (u32)q.esz, q.cap); faults(false); if (ok) { g2(); as_queue_destroy(q.aq); } }
		else if (q.kind == 1) { faults(faulty); q.aq = as_queue_create((u32)q.esz, q.cap); faults(false); ok = q.aq; if (ok) { g2(); as_queue_destroy(q.aq); } }
		else { q.aq = (as_queue*)halloc(sizeof(as_queue)); Ctx c{ &q, &g2 }; x_aq_inita(q.aq, (u32)q.esz, q.cap, run_ctx, &c); as_queue_destroy(q.aq); }
	}
	if (!ok) {
		probe("creation refused");
		CHECK(my_faults(F_ALLOC) + my_faults(F_MUTEX_INIT) + my_faults(F_COND_INIT) > f0 || (u64)q.cap * q.esz > 48u << 20, "spurious-failure", "creating the queue failed though nothing was short");
	}
	check_no_leak(ok ? "after destroying the queue" : "after creating the queue failed");
	return ok;
}
Q make_q(const Prog& p) {
	Q q; q.fam = (int)p.cfg[K_FAM]; q.esz = (size_t)p.cfg[K_ESZ]; q.cap = (u32)p.cfg[K_CAP]; q.uniq = p.cfg[K_UNIQ]; q.kind = (int)p.cfg[K_KIND]; q.safe = p.cfg[K_SAFE];
	enc_mode = (int)p.cfg[K_ENC];
	return q;
}
void drain(Q& q, std::vector<Ev>& h) {
	Ev d{ DRAIN, 0, 0, 0 }; d.call = now(); d.thr = self();
	u32 n = qsize(q);
	for (;;) {
		Ev e{ POP, 0, 0, 0 };
		call(q, e);
		if (e.val < 0) break;
		d.seen.push_back(e.val);
		CHECK(d.seen.size() <= 20000, "size-mismatch", "draining the queue does not end");
	}
	CHECK(n == d.seen.size(), "size-mismatch", "size said %u but %zu elements were there", n, d.seen.size());
	CHECK(qsize(q) == 0, "size-mismatch", "size is %u after draining", qsize(q));
	d.ret = now();
	h.push_back(d);
}

// ---- concurrent: threads run their programs, every forever-pop is eventually fed, then linearizability is decided.
void body_conc(const Prog& p) {
	Q q = make_q(p);
	bool faulty = p.cfg[K_FAULT];
	with_queue(q, faulty, [&] {
		Model m; m.fam = q.fam; m.cap = q.cap; m.safe = q.safe;
		for (int i = 0; i < p.cfg[K_PRE]; i++) {
			Ev e{ PUSH, q.uniq ? 230 + i : 1 + i % 3, 0, 0 }; call(q, e);
			CHECK(m.apply(e), "not-linearizable", "filling the queue failed");
		}
		if (p.cfg[K_AGE]) age(q, (u32)p.cfg[K_AGE] - 1);
		std::vector<Ev> h; h.reserve(64);
		std::vector<int> ids;
		faults(faulty);
		for (auto& ops : p.thr) {
			const std::vector<Op>* o = &ops;
			ids.push_back(spawn([&q, &h, o] {
				for (auto& op : *o) { Ev e{ op.code, op.a, op.b, op.c }; call(q, e); h.push_back(e); }
			}));
		}
		int rescue = 100;
		for (;;) {
			quiesce();
			bool all = true, timed = false;
			for (int t : ids) {
				int w = wait_kind(t);
				if (w == W_DONE) continue;
				all = false;
				CHECK(w == W_COND, "blocked", "T%d is stuck inside a queue call that must not wait", t);
				if (wait_timed(t)) timed = true;
			}
			if (all) break;
			{ NoFaults nf; u32 n = qsize(q); CHECK(n == 0, "stranded", "%u element(s) are queued but a consumer stays asleep", n); }
			if (timed) { settle(); continue; }
			probe("consumers waiting without limit were fed by the main thread");
			NoFaults nf;
			Ev e{ PUSH, q.uniq ? rescue++ : 2, 0, 0 }; call(q, e); h.push_back(e);
		}
		join_all();
		faults(false);
		drain(q, h);
		// A size taken while several elements are being deleted may count some of them.
		for (size_t i = 0; i < h.size(); ) {
			bool drop = false;
			if (q.fam == CF && h[i].code == SIZE)
				for (auto& d : h) if ((d.code == DELETE_ALL || (d.code == DELETE && !d.b)) && d.call < h[i].ret && h[i].call < d.ret) drop = true;
			if (drop) h.erase(h.begin() + i); else i++;
		}
		Lin<Ev, Model> lin(h);
		if (!lin.ok(m)) fail("not-linearizable", "no order of the calls explains the results: %s", history(h).c_str());
		if (lin.gave_up) probe("linearizability search cut short");
		bool grew = false; for (auto& e : h) if (e.fault) grew = true;
		if (grew) {
			probe("growth failed in a concurrent run");
			Model m2; m2.fam = q.fam; m2.cap = 1u << 20;
			for (int i = 0; i < 2 * (int)p.cfg[K_CAP] + 3; i++) { Ev e{ PUSH, i % 200, 0, 0 }; call(q, e); CHECK(m2.apply(e), "cannot-grow-later", "push failed though memory is available again"); }
			std::vector<Ev> h2; drain(q, h2);
			CHECK(m2.apply(h2[0]), "lost-element", "after recovering, the queue held %s", show(h2[0].seen).c_str());
		}
	});
}
int pick_wait(Rng& r) { switch (r.below(4)) { case 0: return -1; case 1: return r.pick({ 1, 3, 10, 999, 1000 }); default: return 0; } }
void gen_cfg(Rng& r, Prog& p, int fam, int kinds) {
	p.cfg.assign(K_N, 0);
	p.cfg[K_FAM] = fam;
	p.cfg[K_ESZ] = r.pick<i64>({ 1, 3, 4, 8, 8, 16, 24, 40 });
	if (r.one_in(20)) p.cfg[K_ESZ] = r.pick<i64>({ 64, 72, 129, 300 });
	p.cfg[K_ENC] = r.one_in(2) ? 0 : 1 + (i64)r.below(2);
	p.cfg[K_CAP] = r.pick<i64>({ 1, 2, 2, 3, 4, 5, 8 });
	p.cfg[K_PRE] = r.one_in(2) ? 0 : (i64)r.below((u64)p.cfg[K_CAP] + 2);
	p.cfg[K_AGE] = p.cfg[K_PRE] && r.one_in(6) ? 1 + (i64)r.below(8) : 0;
	p.cfg[K_UNIQ] = r.one_in(2);
	p.cfg[K_KIND] = (i64)r.below(kinds);
	p.cfg[K_SAFE] = 1;
}
Op gen_op(Rng& r, int fam, bool uniq, int& next, bool limit_heavy) {
	i64 v = uniq ? next++ : 1 + (i64)r.below(3);
	i64 t = uniq ? 1 + (i64)r.below(next + 2) : 1 + (i64)r.below(3);
	if (fam == CF) {
		switch (r.below(20)) {
		case 0: case 1: case 2: case 3: return Op{ PUSH, v, 0, 0 };
		case 4: return Op{ PUSH_LIMIT, v, (i64)r.below(6), 0 };
		case 5: case 6: return Op{ PUSH_INDEX, v, (i64)r.below(7), 0 };
		case 7: return Op{ PUSH_UNIQUE, uniq ? (r.one_in(3) ? v : v) : v, 0, 0 };
		case 8: return Op{ PUSH_HEAD, v, 0, 0 };
		case 9: return Op{ PEEK, 0, 0, 0 };
		case 10: case 11: case 12: return Op{ POP, 0, pick_wait(r), 0 };
		case 13: return Op{ SIZE, 0, 0, 0 };
		case 14: return Op{ REDUCE, t, (i64)r.below(3), 0 };
		case 15: return Op{ REDUCE_REV, t, (i64)r.below(3), 0 };
		case 16: return Op{ REDUCE_POP, t, (i64)r.below(4), pick_wait(r) };
		case 17: case 18: return Op{ DELETE, t, (i64)r.below(2), 0 };
		default: return Op{ r.one_in(2) ? DELETE_ALL : POP, 0, 0, 0 };
		}
	}
	switch (r.below(limit_heavy ? 16 : 12)) {
	case 0: case 1: return Op{ PUSH, v, 0, 0 };
	case 2: return Op{ PUSH_HEAD, v, 0, 0 };
	case 3: case 12: return Op{ PUSH_LIMIT, v, 0, 0 };
	case 4: case 13: return Op{ PUSH_HEAD_LIMIT, v, 0, 0 };
	case 5: case 6: case 7: return Op{ POP, 0, pick_wait(r), 0 };
	case 8: case 9: return Op{ POP_TAIL, 0, pick_wait(r), 0 };
	case 10: return Op{ SIZE, 0, 0, 0 };
	case 11: return Op{ EMPTY, 0, 0, 0 };
	default: return Op{ PUSH_LIMIT, v, 0, 0 };
	}
}
void gen_conc(Rng& r, Prog& p, Strategy& s, int fam) {
	gen_env(r, p.env);
	gen_cfg(r, p, fam, fam == CF ? 2 : 3);
	int nt = 2 + (int)r.below(3), next = 1, total = 0;
	bool lh = r.one_in(3);
	for (int t = 0; t < nt; t++) {
		std::vector<Op> o;
		int n = 1 + (int)r.below(nt == 2 ? 6 : 4);
		for (int i = 0; i < n && total < 14; i++, total++) o.push_back(gen_op(r, fam, p.cfg[K_UNIQ], next, lh));
		p.thr.push_back(o);
	}
	gen_sched(r, s, 600, true);
	if (r.one_in(2)) gen_spurious(r, s);
	p.env.cap = 400000;
	if (r.one_in(200)) {
		// A long queue, full or nearly so, with a front that is not at the beginning of its storage.
		p.cfg[K_UNIQ] = 0; p.cfg[K_AGE] = 0;
		p.cfg[K_CAP] = r.pick<i64>({ 64, 128, 255, 256, 257, 300, 513 });
		p.cfg[K_PRE] = p.cfg[K_CAP] - (i64)r.below(3);
		for (auto& o : p.thr) for (auto& op : o) {
			if (fam == CF && op.code == PUSH_INDEX) op.b = (i64)r.below((u64)p.cfg[K_CAP] + 3);
			if (fam == CF && op.code == PUSH_LIMIT) op.b = p.cfg[K_CAP] - 2 + (i64)r.below(6);
		}
		p.env.cap = 2000000;
	}
}
void gen_c01(Rng& r, Prog& p, Strategy& s) { gen_conc(r, p, s, CF); }
void gen_c02(Rng& r, Prog& p, Strategy& s) { gen_conc(r, p, s, MT); }

// ---- C03: producers and consumers only.
void gen_c03(Rng& r, Prog& p, Strategy& s) {
	gen_env(r, p.env);
	int fam = (int)r.below(2);
	gen_cfg(r, p, fam, fam == CF ? 2 : 3);
	int nc = 1 + (int)r.below(4), np = 1 + (int)r.below(3), next = 1;
	bool crowd = r.one_in(60);
	if (crowd) nc = r.pick<int>({ 6, 9, 12, 17, 34 });
	bool uniq = p.cfg[K_UNIQ] = 1;
	p.cfg[K_PRE] = r.one_in(4) ? (i64)r.below(2) : 0; p.cfg[K_AGE] = 0;
	bool any_forever = r.one_in(2);
	for (int i = 0; i < nc; i++) {
		std::vector<Op> o;
		int n = crowd ? 1 : 1 + (int)r.below(3);
		for (int k = 0; k < n; k++) {
			i64 w = any_forever ? -1 : r.one_in(2) ? -1 : r.pick({ 1, 5, 0, 20 });
			if (fam == CF) o.push_back(r.one_in(4) ? Op{ REDUCE_POP, 1 + (i64)r.below(8), (i64)r.below(4), w } : Op{ POP, 0, w, 0 });
			else o.push_back(Op{ r.one_in(3) ? POP_TAIL : POP, 0, w, 0 });
		}
		p.thr.push_back(o);
	}
	for (int i = 0; i < np; i++) {
		std::vector<Op> o;
		int n = 1 + (int)r.below(3);
		for (int k = 0; k < n; k++) {
			i64 v = uniq ? next++ : 1;
			int c = (int)r.below(8);
			if (fam == CF) {
				if (c == 0) o.push_back(Op{ PUSH_LIMIT, v, 1 + (i64)r.below(4), 0 });
				else if (c == 1) o.push_back(Op{ PUSH_INDEX, v, (i64)r.below(3), 0 });
				else if (c == 2) o.push_back(Op{ PUSH_UNIQUE, v, 0, 0 });
				else if (c == 3) o.push_back(Op{ PUSH_HEAD, v, 0, 0 });
				else if (c == 4 && r.one_in(2)) o.push_back(Op{ DELETE, 1 + (i64)r.below(6), 1, 0 });
				else if (c == 5 && r.one_in(2)) o.push_back(Op{ REDUCE, 1 + (i64)r.below(6), (i64)r.below(3), 0 });
				else o.push_back(Op{ PUSH, v, 0, 0 });
			} else {
				if (c == 0) o.push_back(Op{ PUSH_LIMIT, v, 0, 0 });
				else if (c == 1) o.push_back(Op{ PUSH_HEAD, v, 0, 0 });
				else if (c == 2) o.push_back(Op{ PUSH_HEAD_LIMIT, v, 0, 0 });
				else o.push_back(Op{ PUSH, v, 0, 0 });
			}
		}
		p.thr.push_back(o);
	}
	gen_sched(r, s, 500, true);
	if (r.one_in(2)) gen_spurious(r, s);
	p.env.cap = 400000;
}

// ---- C04: time limits.
void body_time(const Prog& p) {
	Q q = make_q(p);
	with_queue(q, false, [&] {
		auto timed = [&](const Op& op) {
			Ev e{ op.code, op.a, op.b, op.c };
			i64 w = op.code == REDUCE_POP ? op.c : op.b;
			i64 t0 = wall_ns(), r0 = ready_adv(); u64 k0 = waits_woken(), cw = cond_waits(), sl = sleeps();
			call(q, e);
			i64 t1 = wall_ns(), idle = (t1 - t0) - (ready_adv() - r0);
			bool woken = waits_woken() != k0;
			bool empty = e.val < 0;
			logf("waited %lld ns for %lld ms, %s%s", (long long)(t1 - t0), (long long)w, empty ? "nothing" : "element", woken ? ", woken" : "");
			if (w < 0) { CHECK(!empty, "gave-up", "a pop told to wait without limit (%lld) returned with nothing", (long long)w); return; }
			if (w == 0) { CHECK(cond_waits() == cw && sleeps() == sl, "blocked-nowait", "a pop without waiting went to sleep"); return; }
			i64 ns = w * 1000000;
			if (empty) {
				if (woken) probe("timed pop woken without element");
				if (q.fam == CF || !woken)
					CHECK(t1 - t0 >= ns, "gave-up-early", "a pop with a limit of %lld ms gave up after %lld ns, called at second fraction %lld%s", (long long)w, (long long)(t1 - t0), (long long)(t0 % 1000000000), woken ? ", woken in between" : "");
				probe("timed pop expired");
				if (t0 % 1000000000 + ns % 1000000000 == 1000000000) probe("deadline fell exactly on a full second");
			}
			CHECK(idle <= ns + 1000000, "gave-up-late", "a pop with a limit of %lld ms slept for %lld ns, called at second fraction %lld", (long long)w, (long long)idle, (long long)(t0 % 1000000000));
		};
		std::vector<int> ids;
		for (auto& ops : p.thr) {
			const std::vector<Op>* o = &ops;
			ids.push_back(spawn([&, o] {
				for (auto& op : *o) {
					if (op.code == CHURN) { advance_ns(op.a); yield(); continue; }
					if (op.code == POP || op.code == POP_TAIL || op.code == REDUCE_POP) timed(op);
					else { Ev e{ op.code, op.a, op.b, op.c }; call(q, e); }
				}
			}));
		}
		for (;;) {
			settle();
			bool all = true;
			for (int t : ids) if (wait_kind(t) != W_DONE) { all = false; CHECK(wait_kind(t) == W_COND, "blocked", "T%d is stuck inside a queue call", t); }
			if (all) break;
			Ev e{ PUSH, 7, 0, 0 }; call(q, e);
		}
		join_all();
		std::vector<Ev> h; drain(q, h);
	});
}
void gen_c04(Rng& r, Prog& p, Strategy& s) {
	gen_env(r, p.env);
	int fam = (int)r.below(2);
	gen_cfg(r, p, fam, fam == CF ? 2 : 3);
	p.cfg[K_PRE] = p.cfg[K_AGE] = p.cfg[K_UNIQ] = 0;
	i64 w = r.pick<i64>({ 1, 2, 10, 100, 999, 1000, 1001, 1500, 30000, 86400000 });
	if (r.one_in(3)) w = 1 + (i64)r.below(5000);
	if (r.one_in(60)) w = r.pick<i64>({ 2147483, 2147484, 4294968, 2147483646, 2147483647 });
	if (r.one_in(3)) {
		// The deadline falls on, just before or just after a full second.
		i64 frac = (1000000000 - (w * 1000000) % 1000000000) % 1000000000;
		i64 d = r.pick<i64>({ 0, 0, 1, -1, 1000, -1000 });
		p.env.wall_nsec = ((frac + d) % 1000000000 + 1000000000) % 1000000000; p.env.tick = 0;
	}
	int nw = 1 + (int)r.below(2), np = (int)r.below(3);
	auto pop = [&](i64 ww) { return fam == CF ? (r.one_in(3) ? Op{ REDUCE_POP, 1, (i64)r.below(4), ww } : Op{ POP, 0, ww, 0 }) : Op{ r.one_in(3) ? POP_TAIL : POP, 0, ww, 0 }; };
	for (int t = 0; t < nw; t++) {
		std::vector<Op> o;
		int n = 1 + (int)r.below(2);
		for (int i = 0; i < n; i++) {
			i64 ww = i == 0 && t == 0 ? w : r.one_in(6) ? 0 : r.one_in(6) ? (fam == CF ? r.pick<i64>({ -1, -2, -1000 }) : -1) : 1 + (i64)r.below(3000);
			o.push_back(pop(ww));
		}
		p.thr.push_back(o);
	}
	for (int t = 0; t < np; t++) {
		std::vector<Op> o;
		int n = 1 + (int)r.below(4);
		for (int i = 0; i < n; i++) {
			int c = (int)r.below(6);
			if (c < 3) o.push_back(Op{ PUSH, 1 + (i64)r.below(3), 0, 0 });
			else if (c < 5) o.push_back(pop(0));
			else o.push_back(Op{ CHURN, (i64)r.below(3000000), 0, 0 });
		}
		p.thr.push_back(o);
	}
	gen_sched(r, s, 300, true);
	if (r.one_in(2)) gen_spurious(r, s);
	p.env.cap = 300000;
}

// ---- C05/C06: one thread, long programs, every result compared at once.
void body_seq(const Prog& p) {
	Q q = make_q(p);
	bool faulty = p.cfg[K_FAULT];
	with_queue(q, faulty, [&] {
		Model m; m.fam = q.fam; m.cap = q.cap; m.safe = q.safe;
		std::vector<Ev> tail;
		auto step = [&](Ev e) {
			call(q, e);
			std::string before(m.l.begin(), m.l.end());
			tail.push_back(e); if (tail.size() > 12) tail.erase(tail.begin());
			if (!m.apply(e)) {
				std::vector<int> l(before.begin(), before.end());
				for (auto& x : l) x &= 255;
				if (l.size() > 60) l.resize(60);
				fail(e.fault ? "wrong-result-after-failure" : "wrong-result", "%s(%lld,%lld) gave %d/%d %s on a queue holding %s", opname(e.code), (long long)e.a, (long long)e.b, e.rc, e.val, show(e.seen).c_str(), show(l).c_str());
			}
			if (e.fault) probe("allocation failed inside an operation");
			u32 n = qsize(q);
			CHECK(n == m.l.size(), "size-mismatch", "size is %u with %zu elements queued, after %s", n, m.l.size(), opname(e.code));
		};
		// The kind of push that fills and churns; index and limit are large enough to mean "at the end".
		int kind = (int)p.cfg[K_PUSH];
		auto push = [&](i64 v) {
			if (kind == PUSH_UNIQUE) { for (int k = 0; k < 256 && std::count(m.l.begin(), m.l.end(), (u8)v); k++) v = (v + 1) % 250; }
			step(Ev{ kind, v, kind == PUSH_LIMIT || kind == PUSH_INDEX ? 1000000 : 0, 0 });
		};
		for (int i = 0; i < p.cfg[K_PRE]; i++) push(100 + i % 100);
		if (p.cfg[K_AGE]) age(q, (u32)p.cfg[K_AGE] - 1);
		faults(faulty);
		for (auto& op : p.thr[0]) {
			if (op.code == CHURN) {   // pass elements through a queue that never gets empty
				if (m.l.empty()) push(op.a);
				for (i64 i = 0; i < op.b; i++) { push((op.a + i) % 200); step(Ev{ q.fam != CF && (kind == PUSH_HEAD || kind == PUSH_HEAD_LIMIT) && p.cfg[K_AGE] % 2 ? POP_TAIL : POP, 0, 0, 0 }); }
				if (m.l.size() && op.c) age(q, (u32)op.c - 1);
			} else if (op.code == FILL) {
				for (i64 i = 0; i < op.b; i++) step(Ev{ (int)op.c, (op.a + i) % 251, op.c == PUSH_INDEX ? (i64)m.l.size() * (i % 5) / 4 : 1000000, 0 });
				if (m.l.size() > 250) probe("more than 250 elements queued");
			} else if (op.code == TAKE) {
				for (i64 i = 0; i < op.b; i++) step(Ev{ (int)op.c, 0, 0, 0 });
			} else step(Ev{ op.code, op.a, op.b, op.c });
		}
		faults(false);
		if (q.fam == CF) step(Ev{ REDUCE, 0, 0, 0 });
		if (faulty && faults_so_far(F_ALLOC)) {
			u32 n = (u32)m.l.size();
			for (u32 i = 0; i < m.cap - n + 2 && i < 300; i++) step(Ev{ PUSH, i % 200, 0, 0 });
			if (q.fam == CF) step(Ev{ REDUCE, 0, 0, 0 });
		}
		std::vector<Ev> h; drain(q, h);
		CHECK(m.apply(h[0]), "lost-element", "the queue finally held %s", show(h[0].seen).c_str());
	});
}
void gen_seq(Rng& r, Prog& p, Strategy& s, bool faulty) {
	gen_env(r, p.env);
	int fam = (int)r.below(3);
	gen_cfg(r, p, fam, fam == CF ? 2 : 3);
	if (fam == CF && r.one_in(3)) p.cfg[K_SAFE] = 0;
	if (r.one_in(2)) p.cfg[K_CAP] = r.pick<i64>({ 6, 7, 9, 16, 17, 33, 70 });
	p.cfg[K_UNIQ] = 0; p.cfg[K_FAULT] = faulty;
	bool created = fam == CF && p.cfg[K_KIND] == 1;
	if (created) p.cfg[K_PRE] = 40 + (i64)r.below(30);
	if (p.cfg[K_PRE] && r.one_in(3)) p.cfg[K_AGE] = 1 + (i64)r.below(20);
	std::vector<Op> o;
	p.cfg[K_PUSH] = PUSH;
	if (r.one_in(4)) p.cfg[K_PUSH] = fam == CF ? r.pick({ PUSH_LIMIT, PUSH_INDEX, PUSH_UNIQUE, PUSH_HEAD }) : r.pick({ PUSH_LIMIT, PUSH_HEAD, PUSH_HEAD_LIMIT });
	if (!faulty && r.one_in(6)) {
		// A life of nothing but one kind of push and pops, across every threshold.
		if (!p.cfg[K_PRE]) p.cfg[K_PRE] = 1 + (i64)r.below(3);
		p.cfg[K_AGE] = 1 + (i64)r.below(4);
		int n = 4 + (int)r.below(6);
		for (int i = 0; i < n; i++) {
			o.push_back(Op{ CHURN, (i64)r.below(200), (i64)r.below(12), 1 + (i64)r.below(6) });
			if (r.one_in(3)) o.push_back(Op{ r.pick<int>({ SIZE, POP, (int)p.cfg[K_PUSH] }), (i64)r.below(100) + 100, p.cfg[K_PUSH] == PUSH_LIMIT || p.cfg[K_PUSH] == PUSH_INDEX ? 1000000 : 0, 0 });
			if (fam == CF && r.one_in(3)) o.push_back(Op{ r.pick({ REDUCE, REDUCE_REV }), 0, 0, 0 });
		}
		p.thr.push_back(o);
		p.env.cap = 4000000;
		return;
	}
	if (r.one_in(200)) {
		// Many elements, so that the queue grows many times, from different places in its storage.
		i64 big = r.pick<i64>({ 127, 200, 255, 300, 511, 600, 1030 });
		if (r.one_in(4)) big = r.pick<i64>({ 2050, 4100 });
		if (r.one_in(3)) p.cfg[K_CAP] = r.pick<i64>({ 100, 128, 255, 256, 257, 1000 });
		p.cfg[K_PUSH] = PUSH; p.cfg[K_AGE] = p.cfg[K_AGE] % 3;
		int k = 2 + (int)r.below(5);
		auto kind = [&] { return fam == CF ? r.pick<int>({ PUSH, PUSH, PUSH_LIMIT, PUSH_INDEX, PUSH_HEAD }) : r.pick<int>({ PUSH, PUSH, PUSH_LIMIT, PUSH_HEAD, PUSH_HEAD_LIMIT }); };
		for (int i = 0; i < k; i++) {
			if (r.one_in(2)) o.push_back(Op{ TAKE, 0, (i64)r.below(80), fam != CF && r.one_in(2) ? POP_TAIL : POP });
			o.push_back(Op{ FILL, (i64)r.below(200), big / k + (i64)r.below(40), kind() });
			if (fam == CF && r.one_in(3)) o.push_back(Op{ r.pick({ DELETE, REDUCE_POP }), (i64)r.below(200), (i64)r.below(2), 0 });
			if (fam == CF && r.one_in(6)) o.push_back(Op{ r.pick({ PUSH_UNIQUE, REDUCE, REDUCE_REV }), (i64)r.below(256), 0, 0 });
		}
		p.thr.push_back(o);
		if (faulty) gen_oom(r, s, 14);
		p.env.cap = 40000000;
		return;
	}
	int n = 5 + (int)r.below(faulty ? 40 : 120);
	bool uniq = r.one_in(2); int next = 1, bias = 0;
	for (int i = 0; i < n; i++) {
		if (i % 10 == 0) bias = (int)r.below(4);
		if (bias == 1 && r.one_in(2)) { o.push_back(Op{ r.one_in(3) ? PUSH_HEAD : PUSH, uniq ? next++ % 200 : 1 + (i64)r.below(4), 0, 0 }); continue; }
		if (bias == 2 && r.one_in(2)) { o.push_back(Op{ fam != CF && r.one_in(3) ? POP_TAIL : POP, 0, 0, 0 }); continue; }
		if (bias == 3 && r.one_in(8)) { o.push_back(Op{ CHURN, (i64)r.below(200), (i64)r.below(20), r.one_in(2) ? 0 : 1 + (i64)r.below(8) }); continue; }
		if (fam == AQ && r.one_in(8)) { o.push_back(Op{ r.one_in(3) ? DECR : INCR, 0, 0, 0 }); continue; }
		Op x = gen_op(r, fam, uniq, next, false);
		if (next > 200) next = 1;
		if (x.code == PUSH_LIMIT || x.code == PUSH_INDEX) x.b = (i64)r.below(24);
		if (x.code == POP || x.code == POP_TAIL) x.b = 0;
		if (x.code == REDUCE_POP) x.c = 0;
		if (x.code == DELETE_ALL && !r.one_in(4)) x.code = POP;
		o.push_back(x);
	}
	p.thr.push_back(o);
	if (faulty && r.one_in(100)) {
		// No memory can be large enough.
		p.cfg[K_CAP] = r.pick<i64>({ 0x80000000ll, 0x40000000ll, 0x20000000ll, 0x10000000ll, 0x10000001ll, 0xffffffffll, 0x55555556ll });
		p.cfg[K_ESZ] = r.pick<i64>({ 2, 3, 4, 8, 16, 24, 40 });
		p.cfg[K_KIND] = fam == CF ? 0 : (i64)r.below(2); p.cfg[K_PRE] = p.cfg[K_AGE] = 0;
		p.thr[0].resize(3);
		return;
	}
	if (faulty) {
		gen_oom(r, s, 12);
		if (r.one_in(4)) s.fp[F_MUTEX_INIT] = s.fp[F_COND_INIT] = 0.5;
	}
	p.env.cap = 4000000;
}
void gen_c06(Rng& r, Prog& p, Strategy& s) { gen_seq(r, p, s, false); }
void gen_c05_seq(Rng& r, Prog& p, Strategy& s) { gen_seq(r, p, s, true); }
void gen_c05_conc(Rng& r, Prog& p, Strategy& s) {
	gen_conc(r, p, s, (int)r.below(2));
	p.cfg[K_FAULT] = 1; p.cfg[K_CAP] = 1 + (i64)r.below(3);
	if (p.cfg[K_KIND] == 1 && p.cfg[K_FAM] == CF) p.cfg[K_KIND] = 0;
	gen_oom(r, s, 6);
	if (r.one_in(6)) s.fp[F_MUTEX_INIT] = s.fp[F_COND_INIT] = 0.5;
}

Reg r1({ "cf_queue_conc", "C01", 6, gen_c01, body_conc, opname });
Reg r2({ "as_queue_mt_conc", "C02", 6, gen_c02, body_conc, opname });
Reg r3({ "queue_wait", "C03", 6, gen_c03, body_conc, opname });
Reg r13({ "two_queues_time", "C04", 1, gen_two<gen_c04>, body_two<body_time>, opname });
Reg r4({ "queue_time", "C04", 6, gen_c04, body_time, opname });
Reg r5({ "queue_oom_seq", "C05", 12, gen_c05_seq, body_seq, opname });
Reg r6({ "queue_oom_conc", "C05", 6, gen_c05_conc, body_conc, opname });
Reg r7({ "queue_age", "C06", 8, gen_c06, body_seq, opname });
Reg r8({ "two_cf_queues", "C01", 1, gen_two<gen_c01>, body_two<body_conc>, opname });
Reg r9({ "two_as_queue_mts", "C02", 1, gen_two<gen_c02>, body_two<body_conc>, opname });
Reg r10({ "two_queues_wait", "C03", 1, gen_two<gen_c03>, body_two<body_conc>, opname });
Reg r11({ "two_queues_oom", "C05", 1, gen_two<gen_c05_seq>, body_two<body_seq>, opname });
Reg r12({ "two_queues_age", "C06", 1, gen_two<gen_c06>, body_two<body_seq>, opname });
} // namespace