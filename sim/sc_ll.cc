// C15: the linked list.
#include "common.h"
#include <citrusleaf/cf_ll.h>

namespace {

enum { APPEND, PREPEND, BEFORE, AFTER, DELETE, REDUCE, REDUCE_DEL, REDUCE_STOP, INSERT_ORDERED, INSERT_BAIL, SIZE, SEARCH, INDEX, ITER, NOPS };
const char* ll_op(int c) { static const char* n[] = { "append", "prepend", "insert_before", "insert_after", "delete", "reduce", "reduce_delete", "reduce_stop", "insert_reduce", "insert_reduce_bail", "size", "search", "index", "iterate" }; return c >= 0 && c < NOPS ? n[c] : "?"; }

struct El { cf_ll_element e; int id; int in; };
// Elements: id % 3 == 0 may be deleted by a deleting reduce, 1 by their owner, 2 stay (or are deleted by nobody else).
struct LEv { int op; int id; i64 a, b; int rc; std::vector<int> seen; u64 call, ret; };
bool dead(int id, i64 sel) { return id % 3 == 0 && (sel == 0 || id % 2 == (int)(sel & 1)); }
struct LModel {
	std::vector<int> v;
	bool apply(const LEv& e) {
		std::vector<int> o = v; bool fwd = !(e.b & 1);
		if (!fwd) std::reverse(o.begin(), o.end());
		auto at = [&](int id) { return std::find(v.begin(), v.end(), id); };
		switch (e.op) {
		case APPEND: v.push_back(e.id); return true;
		case PREPEND: v.insert(v.begin(), e.id); return true;
		case BEFORE: { auto i = at((int)e.a); if (i == v.end()) return false; v.insert(i, e.id); return true; }
		case AFTER: { auto i = at((int)e.a); if (i == v.end()) return false; v.insert(i + 1, e.id); return true; }
		case DELETE: { auto i = at(e.id); if (i == v.end()) return false; v.erase(i); return true; }
		case REDUCE: return e.seen == o && e.rc == 0;
		case REDUCE_DEL: { if (e.seen != o) return false; std::vector<int> n; for (int x : v) if (!dead(x, e.a)) n.push_back(x); v = n; return e.rc == 0 || e.rc == CF_LL_REDUCE_DELETE; }
		case REDUCE_STOP: {      // stops at the a-th element with a code of its own
			if ((size_t)e.a < o.size()) { o.resize((size_t)e.a + 1); return e.seen == o && e.rc == -7; }
			return e.seen == o && e.rc == 0; }
		case INSERT_ORDERED: {
			size_t k = 0;
			while (k < o.size() && !(fwd ? o[k] > e.id : o[k] < e.id)) k++;
			std::vector<int> s(o.begin(), o.begin() + (long)std::min(o.size(), k + 1));
			if (k == o.size()) s.push_back(-1);
			if (e.seen != s || e.rc != 0) return false;
			o.insert(o.begin() + (long)k, e.id);
			if (!fwd) std::reverse(o.begin(), o.end());
			v = o;
			return true; }
		case INSERT_BAIL: {
			if ((size_t)e.a < o.size()) { o.resize((size_t)e.a + 1); return e.seen == o && e.rc == -9; }
			o.push_back(-1);
			return e.seen == o && e.rc == -9; }
		case SIZE: return e.rc == (int)v.size();
		case SEARCH: return e.rc == (at((int)e.a) == v.end() ? -1 : (int)e.a);
		case INDEX: { i64 n = (i64)v.size(), i = e.a < 0 ? n + e.a : e.a; return e.rc == (i >= 0 && i < n ? v[(size_t)i] : -1); }
		case ITER: return e.seen == o;
		}
		return false;
	}
	std::string key() const { return std::string((const char*)v.data(), v.size() * sizeof(int)); }
};
int hbks[3][8192];
#define hbk hbks[copy_of()]
struct St {
	std::map<cf_ll_element*, int> addr; std::vector<bool> added;
	cf_ll* l; std::vector<El*> el; std::vector<int> destroyed; bool free_in_dtor = false, has_dtor = true; int in_cb = 0; bool locked = true;
};
St* Ss[3];
#define S Ss[copy_of()]
int id_of(cf_ll_element* e) { if (!e) return -1; CHECK(range_ok(e, sizeof(El)), "freed-member", "the list refers to memory of a member that is gone"); return ((El*)e)->id; }
void dtor(cf_ll_element* e) {
	int id = id_of(e);
	CHECK(S->destroyed[(size_t)id]++ == 0, "destroyed-twice", "the destructor ran twice for member %d", id);
	hb_read(&hbk[id], "destruction of a member");
	yield();
	if (S->free_in_dtor) { hfree(e); S->el[(size_t)id] = nullptr; }
}
struct Cb { LEv* e; };
void enter() { if (S->locked) CHECK(S->in_cb++ == 0, "not-exclusive", "callbacks of two calls on one list run at once"); }
void leave() { if (S->locked) S->in_cb--; }
int cb(cf_ll_element* x, void* u) {
	LEv* e = borrow<Cb>(u)->e;
	enter();
	int id = id_of(x);
	if (id >= 0) hb_read(&hbk[id], "a look at a member");
	e->seen.push_back(id);
	yield();
	leave();
	bool fwd = !(e->b & 1);
	switch (e->op) {
	case REDUCE_DEL: return dead(id, e->a) ? CF_LL_REDUCE_DELETE : 0;
	case REDUCE_STOP: return (i64)e->seen.size() == e->a + 1 ? -7 : 0;
	case INSERT_ORDERED: return id < 0 || (fwd ? id > e->id : id < e->id) ? CF_LL_REDUCE_INSERT : 0;
	case INSERT_BAIL: return id < 0 || (i64)e->seen.size() == e->a + 1 ? -9 : 0;
	}
	return 0;
}
int find_cb(cf_ll_element* x, void* u) { enter(); int id = id_of(x); yield(); leave(); return id == ((El*)u)->id ? CF_LL_REDUCE_MATCHED : CF_LL_REDUCE_NOT_MATCHED; }

void call(St& s, LEv& e) {
	Cb c{ &e };
	El* x = e.id >= 0 ? s.el[(size_t)e.id] : nullptr;
	e.call = now();
	switch (e.op) {
	case APPEND: case PREPEND: case BEFORE: case AFTER: case INSERT_ORDERED: hb_write(&hbk[e.id], "preparation of a member by its inserter"); break;
	}
	switch (e.op) {
	case APPEND: cf_ll_append(s.l, &x->e); break;
	case PREPEND: cf_ll_prepend(s.l, &x->e); break;
	case BEFORE: cf_ll_insert_before(s.l, &s.el[(size_t)e.a]->e, &x->e); break;
	case AFTER: cf_ll_insert_after(s.l, &s.el[(size_t)e.a]->e, &x->e); break;
	case DELETE: { int d = s.destroyed[(size_t)e.id]; cf_ll_delete(s.l, &x->e); CHECK(s.destroyed[(size_t)e.id] == d + (s.has_dtor ? 1 : 0), "not-destroyed", "deleting member %d did not run its destructor", e.id); break; }
	case REDUCE: case REDUCE_DEL: case REDUCE_STOP: e.rc = cf_ll_reduce(s.l, !(e.b & 1), cb, lend(&c, e.a % 4 == 0)); break;
	case INSERT_ORDERED: e.rc = cf_ll_insert_reduce(s.l, &x->e, !(e.b & 1), cb, lend(&c, e.a % 4 == 0)); break;
	case INSERT_BAIL: e.rc = cf_ll_insert_reduce(s.l, &x->e, !(e.b & 1), cb, lend(&c, e.a % 4 == 0)); break;
	case SIZE: e.rc = (int)cf_ll_size(s.l); break;
	case SEARCH: { El* key = (El*)halloc(sizeof(El)); key->id = (int)e.a; cf_ll_element* r = cf_ll_search(s.l, &key->e, !(e.b & 1), find_cb); e.rc = r ? s.addr[r] : -1; hfree(key); break; }
	case INDEX: e.rc = id_of(cf_ll_index(s.l, (int)e.a)); break;
	case ITER: {
		faults(true);
		cf_ll_iterator* it = cf_ll_getIterator(s.l, !(e.b & 1));
		faults(false);
		if (!it) { CHECK(my_faults(F_ALLOC), "spurious-failure", "an iterator could not be made though memory was plentiful"); e.op = -1; break; }
		for (int k = 0; k < 9000; k++) { cf_ll_element* n = cf_ll_getNext(it); if (!n) break; e.seen.push_back(id_of(n)); }
		cf_ll_releaseIterator(it);
		break; }
	}
	e.ret = now();
	note((u64)e.rc * 31 + (u64)e.op); for (int i : e.seen) note((u64)i);
	CHECK(held_locks() == 0, "lock-kept", "%s returned without releasing the list's lock", ll_op(e.op));
}
void body(const Prog& p) {
	St s; S = &s;
	s.locked = p.cfg[0]; s.free_in_dtor = p.cfg[1]; s.has_dtor = p.cfg[2];
	s.l = (cf_ll*)halloc(sizeof(cf_ll));
	CHECK(cf_ll_init(s.l, s.has_dtor ? dtor : nullptr, s.locked) == 0, "spurious-failure", "a list could not be initialised");
	int n = (int)p.cfg[3], pre = (int)p.cfg[4];
	for (int i = 0; i < n; i++) { El* e = (El*)halloc(sizeof(El)); e->id = i; s.el.push_back(e); s.addr[&e->e] = i; s.added.push_back(i < pre); s.destroyed.push_back(0); }
	std::vector<LEv> h;
	LModel m0;
	for (int i = 0; i < pre; i++) { hb_write(&hbk[i], "preparation of a member"); cf_ll_append(s.l, &s.el[(size_t)i]->e); m0.v.push_back(i); }
	std::vector<std::vector<LEv>> hs(p.thr.size());
	for (size_t k = 0; k < p.thr.size(); k++) spawn([&, k] {
		for (auto& op : p.thr[k]) {
			LEv e{ op.code, (int)op.a, op.b, op.c, 0, {}, 0, 0 };
			if (e.op == DELETE && !s.added[(size_t)e.id]) continue;      // its insertion was shrunk away
			call(s, e);
			if (e.op >= 0 && e.id >= 0 && e.op != INSERT_BAIL) s.added[(size_t)e.id] = true;
			if (e.op >= 0) hs[k].push_back(e);
			logf("%s(%d, %lld, %lld) = %d", ll_op(op.code), e.id, (long long)e.a, (long long)e.b, e.rc);
		}
	});
	join_all();
	for (auto& x : hs) h.insert(h.end(), x.begin(), x.end());
	// Both directions, by reduction and by following the links.
	for (int d = 0; d < 2; d++) {
		LEv e{ REDUCE, -1, 0, d, 0, {}, 0, 0 }; call(s, e); h.push_back(e);
		LEv f{ ITER, -1, 0, d, 0, {}, now(), 0 };
		cf_ll_element* x = d ? cf_ll_get_tail(s.l) : cf_ll_get_head(s.l);
		for (int k = 0; x && k < 9000; k++) { f.seen.push_back(id_of(x)); x = d ? cf_ll_get_prev(x) : cf_ll_get_next(x); }
		f.ret = now(); h.push_back(f);
	}
	{ LEv e{ SIZE, -1, 0, 0, 0, {}, 0, 0 }; call(s, e); h.push_back(e); }
	std::vector<int> left = h[h.size() - 5].seen;
	Lin<LEv, LModel> lin(h);
	if (!lin.ok(m0)) {
		std::string t;
		for (auto& e : h) { t += " "; t += ll_op(e.op); t += "(" + std::to_string(e.id) + "," + std::to_string(e.a) + "," + std::to_string(e.b) + ")=" + std::to_string(e.rc); if (e.seen.size()) { t += "["; for (int i : e.seen) t += std::to_string(i) + " "; t += "]"; } }
		fail("not-linearizable", "no order of the calls on a list of %d explains:%s", pre, t.c_str());
	}
	if (lin.gave_up) probe("linearizability search gave up");
	for (int i = 0; i < n; i++) {
		bool removed = false, member = std::find(left.begin(), left.end(), i) != left.end(), added = i < pre;
		for (auto& e : h) if (e.id == i && (e.op == APPEND || e.op == PREPEND || e.op == BEFORE || e.op == AFTER || e.op == INSERT_ORDERED)) added = true;
		removed = added && !member;
		if (s.has_dtor) CHECK(s.destroyed[(size_t)i] == (removed ? 1 : 0), "destroyed-wrong", "the destructor ran %d times for member %d, which was %s", s.destroyed[(size_t)i], i, removed ? "removed" : added ? "kept" : "never inserted");
	}
	// Empty the list.
	for (int i : left) if (s.el[(size_t)i]) cf_ll_delete(s.l, &s.el[(size_t)i]->e);
	CHECK(cf_ll_size(s.l) == 0 && !cf_ll_get_head(s.l) && !cf_ll_get_tail(s.l), "wrong-size", "the list is not empty after all members were deleted");
	cf_ll_delete(s.l, (cf_ll_element*)halloc(sizeof(El)));      // does nothing on an empty list
	CHECK(cf_ll_size(s.l) == 0, "wrong-size", "deleting from an empty list changed its size");
	forget_locks();
	check_no_leak("after emptying the list");
}
void gen(Rng& r, Prog& p, Strategy& s) {
	gen_env(r, p.env);
	int nt = 1 + (int)r.below(4); if (nt == 1 && r.one_in(2)) nt = 2;
	int pre = r.one_in(1500) ? r.pick({ 99, 100, 101, 127, 128, 129, 255, 256, 257, 300, 511, 513, 1000, 1025, 2050, 4100 }) : r.one_in(25) ? 7 + (int)r.below(60) : r.pick({ 0, 1, 3, 3, 4, 6 });
	bool locked = nt > 1 || r.one_in(2);
	p.cfg = { locked, (i64)r.below(2), !r.one_in(4), 0, pre };
	if (!p.cfg[2]) p.cfg[1] = 0;
	int next = pre;
	for (int t = 0; t < nt; t++) {
		std::vector<Op> o; std::vector<int> mine;
		if (nt == 1) for (int i = 0; i < pre; i++) if (i % 3 == 1) mine.push_back(i);
		int n = 1 + (int)r.below(nt == 1 ? (r.one_in(8) ? 40 : 14) : nt == 2 ? 6 : 4);
		for (int i = 0; i < n; i++) {
			int c = (int)r.below(nt == 1 ? NOPS : INDEX);
			if (r.one_in(3)) c = r.pick({ APPEND, PREPEND, INSERT_ORDERED, DELETE, REDUCE_DEL });
			Op op{ c, -1, 0, 0 };
			int pin = pre > 2 ? 2 + 3 * (int)r.below((u64)((pre - 3) / 3 + 1)) : -1;      // a member nobody deletes
			switch (c) {
			case BEFORE: case AFTER: if (pin < 0) { op.code = APPEND; op.a = next++; break; } op.a = next++; op.b = pin; break;
			case APPEND: case PREPEND: op.a = next++; break;
			case INSERT_ORDERED: op.a = next++; op.c = (i64)r.below(2); break;
			case DELETE: {
				if (mine.empty()) { op.code = SIZE; break; }
				size_t k = r.below(mine.size()); op.a = mine[k]; mine.erase(mine.begin() + (long)k); break; }
			case REDUCE_DEL: op.b = (i64)r.below(3); op.c = (i64)r.below(2); break;
			case REDUCE_STOP: case INSERT_BAIL: if (c == INSERT_BAIL) op.a = next++; op.b = (i64)r.below(pre > 6 && r.one_in(2) ? (u64)pre : 5); op.c = (i64)r.below(2); break;
			case REDUCE: case ITER: op.c = (i64)r.below(2); break;
			case SEARCH: op.b = (i64)r.below((u64)next + 1); op.c = (i64)r.below(2); break;
			case INDEX: op.b = r.range(-6, 6); if (pre > 6 && r.one_in(2)) op.b = r.range(-pre - 2, pre + 2); break;
			}
			if (op.a >= 0 && op.a % 3 == 1 && (op.code == APPEND || op.code == PREPEND || op.code == BEFORE || op.code == AFTER || op.code == INSERT_ORDERED)) mine.push_back((int)op.a);
			o.push_back(op);
		}
		p.thr.push_back(o);
	}
	// INSERT_BAIL elements never become members.
	p.cfg[3] = next;
	gen_sched(r, s, 150);
	s.fp[F_ALLOC] = r.pick<double>({ 0, 0, 0.3 });
	p.env.cap = pre > 90 ? 8000000 : 400000;
}
Reg r1({ "linked_list", "C15", 8, gen, body, ll_op });
Reg r2({ "two_linked_lists", "C15", 1, gen_two<gen>, body_two<body>, ll_op });
} // namespace
