// C11, C12: reference-counted values, blocks and results.
#include "common.h"
#include "glue.h"
#include <aerospike/as_val.h>
#include <aerospike/as_arraylist.h>
#include <aerospike/as_orderedmap.h>
#include <aerospike/as_boolean.h>
#include <aerospike/as_bytes.h>
#include <aerospike/as_double.h>
#include <aerospike/as_geojson.h>
#include <aerospike/as_integer.h>
#include <aerospike/as_nil.h>
#include <aerospike/as_pair.h>
#include <aerospike/as_rec.h>
#include <aerospike/as_string.h>
#include <aerospike/as_msgpack.h>
#include <aerospike/as_msgpack_ext.h>
#include <aerospike/as_result.h>
#include <aerospike/as_aerospike.h>
#include <citrusleaf/alloc.h>

namespace {

// ------------------------------------------------------------------ C11
enum { V_INT, V_DOUBLE, V_STR, V_STRBUF, V_BYTES, V_GEO, V_BOOL, V_REC, V_INT_STACK, V_STR_STACK, V_LIST, V_MAP, V_PAIR, V_DECODED,
	V_NIL, V_TRUE, V_FALSE, V_WILD, V_INF, V_KINDS };
enum { O_RESERVE, O_RELEASE, O_READ, O_LIST, O_SUBLIST, O_MAP, O_PAIR, O_ELEMENT, O_REPLACE, O_CONCAT, O_MAPSET, O_CMP, O_NOPS };
const char* val_op(int c) { static const char* n[] = { "reserve", "release", "read", "in_list", "in_sublist", "in_map", "in_pair", "take_element", "replace_in_list", "concat", "map_overwrite", "compare" }; return c >= 0 && c < O_NOPS ? n[c] : "?"; }

struct Val { as_val* v; int kind; std::string text; u32 hash; bool heap; bool constant; int destroyed; int told_last; bool shared; };
struct RecData { Val* owner; u64 magic; };
struct World { std::deque<Val> vals; char keys[16]; } *Ws[3];
#define W Ws[copy_of()]
int idx(const Val& v) { for (size_t i = 0; i < W->vals.size(); i++) if (&W->vals[i] == &v) return (int)i; return 0; }
bool rec_destroy(as_rec* r) {
	RecData* d = (RecData*)r->data;
	CHECK(d && range_ok(d, sizeof *d) && d->magic == 0x5ec0, "destroyed-twice", "a record's destructor ran on data that is gone");
	Val* o = d->owner;
	CHECK(++o->destroyed == 1, "destroyed-twice", "the destructor of a value ran %d times", o->destroyed);
	hb_write(&W->keys[idx(*o)], "destruction of a value");
	yield();
	d->magic = 0;
	cf_free(d);
	return true;
}
uint32_t rec_hash(const as_rec* r) { RecData* d = (RecData*)r->data; CHECK(range_ok(d, sizeof *d) && d->magic == 0x5ec0, "destroyed-early", "a value was destroyed while held"); return 77; }
as_rec_hooks rec_hooks_make() { as_rec_hooks h; memset(&h, 0, sizeof h); h.destroy = rec_destroy; h.hashcode = rec_hash; return h; }
const as_rec_hooks rec_hooks = rec_hooks_make();

std::string text_of(as_val* v) {
	char* s = as_val_val_tostring(v);
	CHECK(s && is_live(s), "unreadable", "a held value cannot be read");
	std::string r = text_at(s, "the text of a value"); cf_free(s); return r;
}
void intact(Val& x) {
	if (x.heap) CHECK(is_live(x.v), "destroyed-early", "a value was freed while held");
	if (x.destroyed) fail("destroyed-early", "a value was destroyed while held");
	hb_read(&W->keys[idx(x)], "use of a value");
	std::string t = text_of(x.v);
	CHECK(t == x.text, "changed", "a held value reads \"%s\" instead of \"%s\"", t.c_str(), x.text.c_str());
	CHECK(as_val_val_hashcode(x.v) == x.hash, "changed", "the hash of a held value changed");
}
void release(Val& x) {
	hb_read(&W->keys[idx(x)], "use of a value");
	as_val* r = as_val_val_destroy(x.v);
	if (x.constant) { CHECK(r == x.v || r == nullptr, "wrong-result", "releasing a constant gave another value"); return; }
	if (r == nullptr) CHECK(++x.told_last == 1, "last-twice", "two releasers were told they were the last");
	else CHECK(r == x.v, "wrong-result", "releasing a value gave a different one");
}
void make(int kind, int i, Rng& r, World& w) {
	w.vals.push_back(Val{ nullptr, kind, "", 0, true, false, 0, 0, false });
	Val& x = w.vals.back();
	auto old = [&]() -> as_val* {      // an earlier value, shared
		if (i == 0 || r.one_in(3)) return (as_val*)as_integer_new((i64)r.below(1000));
		Val& o = w.vals[r.below((u64)i)]; o.shared = true;
		return as_val_val_reserve(o.v);
	};
	char b[32]; snprintf(b, sizeof b, "text-%d", i);
	switch (kind) {
	case V_INT: x.v = (as_val*)as_integer_new(100 + i); break;
	case V_DOUBLE: x.v = (as_val*)as_double_new(1.5 + i); break;
	case V_STR: x.v = (as_val*)as_string_new_strdup(b); break;
	case V_STRBUF: { char* p = (char*)cf_malloc(32); strcpy(p, b); x.v = (as_val*)as_string_new(p, true); break; }
	case V_BYTES: { u8* p = (u8*)cf_malloc(5); memset(p, i, 5); x.v = (as_val*)as_bytes_new_wrap(p, 5, true); break; }
	case V_GEO: x.v = (as_val*)as_geojson_new_strdup(b); break;
	case V_BOOL: x.v = (as_val*)as_boolean_new(i & 1); break;
	case V_REC: { RecData* d = (RecData*)cf_malloc(sizeof(RecData)); d->owner = &x; d->magic = 0x5ec0; x.v = (as_val*)as_rec_new(d, &rec_hooks); break; }
	case V_INT_STACK: x.v = (as_val*)as_integer_init((as_integer*)halloc(sizeof(as_integer)), 200 + i); break;
	case V_STR_STACK: { char* p = (char*)cf_malloc(32); strcpy(p, b); x.v = (as_val*)as_string_init((as_string*)halloc(sizeof(as_string)), p, true); break; }
	case V_LIST: case V_DECODED: {
		as_arraylist* l = as_arraylist_new((u32)r.below(3), 1 + (u32)r.below(3)); int n = (int)r.below(4);
		if (kind == V_LIST && r.one_in(5000)) { n = r.pick({ 40, 70, 130, 260, 300, 1030, 2100 }); probe("value with very many elements"); }
		for (int k = 0; k < n; k++) as_arraylist_append(l, kind == V_LIST ? old() : r.one_in(2) ? (as_val*)as_integer_new(k) : r.one_in(2) ? (as_val*)as_string_new_strdup(b) : (as_val*)as_boolean_new(true));
		x.v = (as_val*)l;
		if (kind == V_DECODED) {
			as_packer pk; memset(&pk, 0, sizeof pk); pk.buffer = (unsigned char*)halloc(256); pk.capacity = 256;
			CHECK(as_pack_val(&pk, (as_val*)l) == 0, "setup", "packing failed");
			as_val_val_destroy((as_val*)l);
			as_unpacker up; up.buffer = pk.buffer; up.offset = 0; up.length = pk.offset;
			CHECK(as_unpack_val(&up, &x.v) == 0, "setup", "unpacking failed");
			hfree(pk.buffer);
		}
		break; }
	case V_MAP: {
		as_orderedmap* m = as_orderedmap_new(4); int n = (int)r.below(4); bool large = r.one_in(5000);
		if (large) n = r.pick({ 40, 70, 130, 260, 300, 600 });
		for (int k = 0; k < n; k++) as_orderedmap_set(m, (as_val*)as_integer_new(large ? k * 37 % 601 : (i64)r.below(3)), old());
		x.v = (as_val*)m; break; }
	case V_PAIR: { as_val* a = old(); x.v = (as_val*)as_pair_new(a, old()); break; }
	case V_NIL: x.v = (as_val*)&as_nil; x.constant = true; break;
	case V_TRUE: x.v = (as_val*)&as_true; x.constant = true; break;
	case V_FALSE: x.v = (as_val*)&as_false; x.constant = true; break;
	case V_WILD: x.v = (as_val*)&as_cmp_wildcard; x.constant = true; break;
	case V_INF: x.v = (as_val*)&as_cmp_inf; x.constant = true; break;
	}
	x.heap = !x.constant && kind != V_INT_STACK && kind != V_STR_STACK;
	x.text = text_of(x.v); x.hash = as_val_val_hashcode(x.v);
}
struct ConstCopy { as_val nil, wild, inf; as_boolean t, f; };
void snap(ConstCopy& c) { memset(&c, 0, sizeof c); c.nil = as_nil; c.wild = as_cmp_wildcard; c.inf = as_cmp_inf; c.t = as_true; c.f = as_false; }

void val_thread(const std::vector<Op>& ops, std::vector<int> h) {
	World& w = *W;
	int n = (int)w.vals.size();
	auto pick = [&](i64 a) { for (int k = 0; k < n; k++) { int i = (int)((a + k) % n); if (h[i] > 0) return i; } return -1; };
	for (auto& op : ops) {
		int i = pick(op.a), j = pick(op.b);
		if (i < 0) break;
		Val &x = w.vals[i], &y = w.vals[j];
		logf("%s value %d", val_op(op.code), i);
		note(0x1000 + op.code * 16 + i);
		auto ref = [&](Val& v) { v.shared = true; as_val* p = as_val_val_reserve(v.v); CHECK(p == v.v, "wrong-result", "reserving a value gave another one"); return p; };
		switch (op.code) {
		case O_RESERVE: CHECK(as_val_val_reserve(x.v) == x.v, "wrong-result", "reserving a value gave another one"); h[i]++;
			if (op.c >= 8) { for (i64 k = 8; k < op.c; k++) as_val_val_reserve(x.v); h[i] += (int)op.c - 8; probe("very many references to one value"); }
			break;
		case O_RELEASE: h[i]--; release(x); break;
		case O_READ: intact(x); break;
		case O_LIST: {
			as_arraylist* l = as_arraylist_new(1, 1);
			as_arraylist_append(l, ref(x)); as_arraylist_prepend(l, ref(y));
			if (op.c & 1) as_arraylist_remove(l, 0);
			intact(x);
			as_val_val_destroy((as_val*)l);
			intact(y);
			break; }
		case O_SUBLIST: {
			as_arraylist* l = as_arraylist_new(3, 2);
			as_arraylist_append(l, ref(x)); as_arraylist_append(l, ref(y)); as_arraylist_append(l, ref(x));
			as_arraylist* s = op.c % 3 == 0 ? as_arraylist_take(l, 2) : op.c % 3 == 1 ? as_arraylist_drop(l, 1) : as_arraylist_tail(l);
			if (op.c & 4) { as_val_val_destroy((as_val*)s); intact(x); as_val_val_destroy((as_val*)l); }
			else { as_val_val_destroy((as_val*)l); intact(x); u32 sz = as_arraylist_size(s); for (u32 k = 0; k < sz; k++) { as_val* e = as_arraylist_get(s, k); CHECK(e == x.v || e == y.v, "wrong-element", "a sublist holds something that was not in the list"); } as_val_val_destroy((as_val*)s); }
			intact(y);
			break; }
		case O_MAP: case O_MAPSET: {
			as_orderedmap* m = as_orderedmap_new(2);
			as_orderedmap_set(m, (as_val*)as_integer_new(1), ref(x));
			as_orderedmap_set(m, (as_val*)as_integer_new(op.code == O_MAP ? 2 : 1), ref(y));
			intact(x);
			if (op.c & 1) { as_integer* k = as_integer_new(1); as_orderedmap_remove(m, (as_val*)k); as_val_val_destroy((as_val*)k); intact(x); }
			as_val_val_destroy((as_val*)m);
			intact(y);
			break; }
		case O_PAIR: { as_pair* p = as_pair_new(ref(x), ref(y)); intact(x); as_val_val_destroy((as_val*)p); intact(y); break; }
		case O_ELEMENT: {       // keep an element longer than its container
			as_val* e = nullptr;
			if (x.kind == V_LIST || x.kind == V_DECODED) { if (as_arraylist_size((as_arraylist*)x.v)) e = as_arraylist_get((as_arraylist*)x.v, (u32)op.b % as_arraylist_size((as_arraylist*)x.v)); }
			else if (x.kind == V_MAP) { as_integer* k = as_integer_new(op.b % 3); e = as_orderedmap_get((as_orderedmap*)x.v, (as_val*)k); as_val_val_destroy((as_val*)k); }
			else if (x.kind == V_PAIR) e = ((as_pair*)x.v)->_1;
			if (!e) break;
			std::string t = text_of(e);
			as_val_val_reserve(e);
			h[i]--; release(x);
			std::string t2 = text_of(e);
			CHECK(t == t2, "changed", "an element taken from a container changed from \"%s\" to \"%s\"", t.c_str(), t2.c_str());
			as_val_val_destroy(e);
			break; }
		case O_REPLACE: {
			as_arraylist* l = as_arraylist_new(2, 2);
			as_arraylist_append(l, ref(x)); as_arraylist_set(l, 0, ref(y)); intact(x); as_arraylist_set(l, 1, ref(x)); as_arraylist_trim(l, op.c & 1);
			as_val_val_destroy((as_val*)l);
			intact(y);
			break; }
		case O_CONCAT: {
			as_arraylist *l = as_arraylist_new(1, 1), *l2 = as_arraylist_new(2, 1);
			as_arraylist_append(l, ref(x)); as_arraylist_append(l2, ref(y)); as_arraylist_append(l2, ref(x));
			as_arraylist_concat(l, l2);
			as_val_val_destroy((as_val*)(op.c & 1 ? l : l2)); intact(x); intact(y); as_val_val_destroy((as_val*)(op.c & 1 ? l2 : l));
			break; }
		case O_CMP: CHECK(as_val_cmp(x.v, x.v) == MSGPACK_COMPARE_EQUAL || x.kind >= V_REC, "changed", "a held value does not equal itself"); break;
		}
	}
	for (int i = 0; i < n; i++) while (h[i]-- > 0) { if (h[i] < 8 || h[i] % 64 == 0) intact(w.vals[i]); release(w.vals[i]); }
}
void body_val(const Prog& p) {
	World w; W = &w;
	Rng r((u64)p.cfg[0]);
	ConstCopy before, after; snap(before);
	for (size_t i = 1; i < p.cfg.size(); i++) make((int)p.cfg[i], (int)i - 1, r, w);
	for (auto& ops : p.thr) {
		std::vector<int> h;
		for (auto& v : w.vals) { as_val_val_reserve(v.v); h.push_back(1); }
		const std::vector<Op>* o = &ops;
		spawn([o, h] { val_thread(*o, h); });
	}
	for (auto& v : w.vals) { release(v); yield(); }
	join_all();
	snap(after);
	CHECK(!memcmp(&before, &after, sizeof before), "constant-changed", "a shared constant was modified");
	for (auto& v : w.vals) if (!v.constant) {
		if (v.heap) CHECK(!is_live(v.v), "leaked", "a value of kind %d outlives its last holder", v.kind);
		if (v.kind == V_REC) CHECK(v.destroyed == 1, "not-destroyed", "the destructor of a value ran %d times", v.destroyed);
		if (!v.shared) CHECK(v.told_last == 1, "last-never", "%d releasers were told they were the last", v.told_last);
	}
	check_no_leak("after the last release of every value");
}
void gen_c11(Rng& r, Prog& p, Strategy& s) {
	gen_env(r, p.env);
	p.cfg.push_back((i64)(r.next() >> 1));
	int nv = 1 + (int)r.below(5);
	for (int i = 0; i < nv; i++) p.cfg.push_back(r.one_in(4) ? V_REC : r.one_in(4) ? (i64)(V_LIST + r.below(4)) : (i64)r.below(V_KINDS));
	int nt = 1 + (int)r.below(4);
	for (int t = 0; t < nt; t++) {
		std::vector<Op> o; int n = (int)r.below(6);
		for (int i = 0; i < n; i++) o.push_back(Op{ (i32)(r.one_in(2) ? r.pick({ O_RESERVE, O_RELEASE, O_READ }) : (int)r.below(O_NOPS)), (i64)r.below(5), (i64)r.below(5), (i64)r.below(8) });
		p.thr.push_back(o);
	}
	gen_sched(r, s, 1000);
	p.env.cap = 20000000;
	if (r.one_in(400)) for (auto& o : p.thr) for (auto& op : o) if (op.code == O_RESERVE && r.one_in(2)) op.c = r.pick<i64>({ 38, 70, 140, 262, 300, 530, 1040, 4110 });
}

// A big map shared by readers; some of its entries came in out of order.
enum { R_FOREACH, R_ITER, R_GET, R_SIZE, R_PACK, R_CMP, R_NOPS };
const char* mr_op(int c) { static const char* n[] = { "foreach", "iterate", "get", "size", "serialize", "compare" }; return c >= 0 && c < R_NOPS ? n[c] : "?"; }
struct MapWalk { i64 prev; u32 n; };
bool map_walk(const as_val* k, const as_val* v, void* u) {
	MapWalk* w = (MapWalk*)u;
	CHECK(range_ok(k, sizeof(as_integer)) && range_ok(v, sizeof(as_integer)), "destroyed-early", "an entry of a shared map is gone");
	i64 x = as_integer_get((as_integer*)k);
	CHECK(x > w->prev, "out-of-order", "a shared map is walked out of order (%lld after %lld)", (long long)x, (long long)w->prev);
	CHECK(as_integer_get((as_integer*)v) == x * 3, "wrong-value", "a shared map holds a wrong value");
	w->prev = x; w->n++;
	return true;
}
void body_mr(const Prog& p) {
	u32 n = (u32)p.cfg[0], late = (u32)p.cfg[1];
	as_orderedmap* m = as_orderedmap_new((u32)p.cfg[2]);
	auto set = [&](i64 k) { CHECK(as_orderedmap_set(m, (as_val*)as_integer_new(k), (as_val*)as_integer_new(k * 3)) == 0, "setup", "setting failed"); };
	for (u32 i = 0; i < n; i++) set((i64)i * 2);
	for (u32 i = 0; i < late; i++) set((i64)i * 2 + 1);
	u32 total = n + late;
	for (auto& ops : p.thr) {
		const std::vector<Op>* o = &ops;
		as_val_val_reserve((as_val*)m);
		spawn([=] {
			for (auto& op : *o) {
				MapWalk w{ -1, 0 };
				switch (op.code) {
				case R_FOREACH: CHECK(as_orderedmap_foreach(m, map_walk, &w), "failed", "walking a shared map failed"); CHECK(w.n == total, "lost", "walking a shared map gave %u of %u entries", w.n, total); break;
				case R_ITER: {
					as_orderedmap_iterator* it = as_orderedmap_iterator_new(m);
					CHECK(it, "failed", "iterating a shared map failed");
					while (as_orderedmap_iterator_has_next(it)) { as_pair* pr = (as_pair*)as_orderedmap_iterator_next(it); map_walk(pr->_1, pr->_2, &w); }
					as_orderedmap_iterator_destroy(it);
					CHECK(w.n == total, "lost", "iterating a shared map gave %u of %u entries", w.n, total); break; }
				case R_GET: { as_integer* k = (as_integer*)as_integer_new(op.a % (i64)(2 * n)); as_val* v = as_orderedmap_get(m, (as_val*)k); i64 x = op.a % (i64)(2 * n); bool in = x % 2 == 0 || x / 2 < (i64)late; CHECK((v != nullptr) == in, "lost", "key %lld of a shared map is %s", (long long)x, in ? "missing" : "unexpectedly there"); if (v) CHECK(as_integer_get((as_integer*)v) == x * 3, "wrong-value", "a shared map gives a wrong value"); as_val_val_destroy((as_val*)k); break; }
				case R_SIZE: CHECK(as_orderedmap_size(m) == total, "lost", "size of a shared map is %u instead of %u", as_orderedmap_size(m), total); break;
				case R_PACK: CHECK(x_pack_size((as_val*)m) > total, "failed", "a shared map cannot be serialized"); break;
				case R_CMP: CHECK(as_val_cmp((as_val*)m, (as_val*)m) == MSGPACK_COMPARE_EQUAL, "wrong-value", "a shared map does not equal itself"); break;
				}
			}
			as_val_val_destroy((as_val*)m);
		});
	}
	as_val_val_destroy((as_val*)m);
	join_all();
	check_no_leak("after the last release of a shared map");
}
void gen_mr(Rng& r, Prog& p, Strategy& s) {
	gen_env(r, p.env);
	p.cfg = { 1000 + (i64)r.below(30), r.one_in(6) ? 0 : 1 + (i64)r.below(8), r.pick<i64>({ 4, 1040, 2000 }) };
	int nt = 2 + (int)r.below(2);
	for (int t = 0; t < nt; t++) { std::vector<Op> o; int n = 1 + (int)r.below(2); for (int i = 0; i < n; i++) o.push_back(Op{ (i32)r.below(R_NOPS), (i64)r.below(100), 0, 0 }); p.thr.push_back(o); }
	gen_sched(r, s, 400000);
	p.env.cap = 8000000;
}

// ------------------------------------------------------------------ C12
enum { B_RESERVE, B_RELEASE, B_USE, B_RELFREE, B_NOPS };
const char* rc_op(int c) { static const char* n[] = { "reserve", "release", "use", "release_and_free" }; return c >= 0 && c < B_NOPS ? n[c] : "?"; }
struct CEv { int code; u64 call, ret; i64 rc; int thr; };
struct CModel {
	i64 n = 1; bool exact = true;
	std::string key() const { return std::string((const char*)&n, 8); }
	bool apply(const CEv& e) { if (n <= 0) return false; if (e.code == B_RESERVE) n++; else n--; return e.rc == n; }
};
// A plain block.
void body_rc(const Prog& p) {
	size_t sz = (size_t)p.cfg[0];
	static char all_keys[3][MAXT]; char* keys = all_keys[copy_of()];
	for (int i = 0; i < MAXT; i++) hb_forget(&keys[i]);
	std::vector<int> who{ self() };
	faults(p.cfg[2]);
	u64 f = my_faults(F_ALLOC);
	bool wrapped = p.cfg[1];
	u8* b = wrapped ? (u8*)as_aerospike_new(nullptr, nullptr) : (u8*)cf_rc_alloc(sz);
	if (wrapped) sz = sizeof(as_aerospike);
	faults(false);
	if (!b) { CHECK(my_faults(F_ALLOC) != f, "spurious-failure", "allocating a counted block failed though memory was plentiful"); check_no_leak("after a failed allocation"); return; }
	CHECK(range_ok(b, sz), "too-small", "a counted block of %zu bytes is smaller than asked for", sz);
	std::vector<CEv> h; bool gone = false;
	if (!wrapped) memset(b, 0x42, sz);
	auto reserve = [&] { CEv e{ B_RESERVE, 0, 0, 0, self() }; CHECK(!gone, "freed-early", "a held block was freed"); e.call = now(); e.rc = cf_rc_reserve(b); e.ret = now(); h.push_back(e); note(e.rc); CHECK(e.rc >= 2, "wrong-count", "reserving a held block gave count %lld", (long long)e.rc); };
	auto release = [&](bool and_free) {
		bool whole = range_ok(b, sz);
		if (!wrapped) { for (size_t i = 0; whole && i < sz; i++) whole = b[i] == 0x42; CHECK(whole, "freed-early", "a held block was freed or changed"); }
		hb_write(&keys[self()], "the holder's last write before releasing");
		CEv e{ B_RELEASE, 0, 0, 0, self() };
		e.call = now();
		e.rc = and_free ? cf_rc_releaseandfree(b) : cf_rc_release(b);
		e.ret = now();
		h.push_back(e); note(e.rc);
		logf("release = %lld", (long long)e.rc);
		if (e.rc == 0) {
			CHECK(!gone, "last-twice", "two releasers were told they were the last");
			gone = true;
			if (and_free) CHECK(!range_ok(b, 1), "not-freed", "the last release did not free the block");
			else {
				for (int t : who) hb_read(&keys[t], "the last releaser's use of what others wrote");
				CHECK(range_ok(b, sz), "freed-early", "a block was freed by a plain release");
				cf_rc_free(b);
				CHECK(!range_ok(b, 1), "not-freed", "freeing a block did not free it");
			}
		}
	};
	bool relfree = wrapped;
	// References that one thread takes, more than fit in few bits, while nobody else is there.
	i64 many = p.cfg[3];
	for (i64 i = 0; i < many; i++) { i64 rc = cf_rc_reserve(b); CHECK(rc == i + 2, "wrong-count", "reserving a block with %lld references gave count %lld", (long long)i + 1, (long long)rc); }
	for (auto& ops : p.thr) {
		reserve();
		const std::vector<Op>* o = &ops;
		who.push_back(spawn([&, o] {
			int mine = 1;
			for (auto& op : *o) {
				if (!mine) break;
				if (op.code == B_RESERVE) { reserve(); mine++; }
				else if (op.code == B_USE) { CHECK(range_ok(b, sz), "freed-early", "a held block was freed"); yield(); }
				else { mine--; release(op.code == B_RELFREE || relfree); }
			}
			while (mine-- > 0) release(o->size() % 2 || relfree);
		}));
	}
	release(p.cfg[0] % 2 || relfree);
	join_all();
	Lin<CEv, CModel> lin(h);
	CModel init; init.n += many;
	CHECK(lin.ok(init), "wrong-count", "the counts returned match no order of the calls");
	if (many) {
		probe("very many references to one block");
		CHECK(!gone && range_ok(b, sz), "freed-early", "a held block was freed");
		for (i64 i = many - 1; i > 0; i--) { i64 rc = i % 2 ? cf_rc_release(b) : cf_rc_releaseandfree(b); CHECK(rc == i && range_ok(b, sz), "wrong-count", "releasing a block with %lld references gave count %lld", (long long)i + 1, (long long)rc); }
		release(p.cfg[0] % 2 || relfree);
	}
	CHECK(gone, "last-never", "no releaser was told it was the last");
	check_no_leak("after the last release");
}
void gen_c12(Rng& r, Prog& p, Strategy& s) {
	gen_env(r, p.env);
	p.cfg = { (i64)r.pick({ 0, 1, 2, 8, 40, 100 }), r.one_in(5), r.one_in(4), 0 };
	if (r.one_in(300)) p.cfg[0] = r.pick<i64>({ 255, 256, 4095, 65535, 65536, 100000 });
	if (r.one_in(400)) p.cfg[3] = r.pick<i64>({ 31, 63, 126, 127, 254, 255, 256, 300, 1024, 4097 });
	if (r.one_in(20000)) p.cfg[3] = 65600;
	int nt = 1 + (int)r.below(4);
	for (int t = 0; t < nt; t++) { std::vector<Op> o; int n = (int)r.below(5); for (int i = 0; i < n; i++) o.push_back(Op{ (i32)r.below(B_NOPS), 0, 0, 0 }); p.thr.push_back(o); }
	gen_sched(r, s, 60);
	if (p.cfg[2]) s.fp[F_ALLOC] = 0.5;
	p.env.cap = 2000000;
}
// A result with a value.
void body_result(const Prog& p) {
	World w; W = &w;
	Rng r(7);
	for (auto& k : w.keys) hb_forget(&k);
	make(V_REC, 0, r, w); as_val* v0 = w.vals[0].v;
	bool ok = p.cfg[0] & 1, faulty = p.cfg[1];
	faults(faulty);
	u64 f = my_faults(F_ALLOC);
	as_result* res;
	bool heap = true;
	switch (p.cfg[2]) {
	case 0: res = ok ? as_success_new(v0) : as_failure_new(v0); break;
	case 1: res = as_result_new(); if (res) { CHECK(as_result_value(res) == nullptr, "changed", "a new result has a value"); if (ok) as_result_setsuccess(res, v0); else as_result_setfailure(res, v0); } break;
	case 2: heap = false; res = (as_result*)halloc(sizeof(as_result)); memset(res, 0xb7, sizeof *res); if (ok) as_success_init(res, v0); else as_failure_init(res, v0); break;
	default:
		heap = false; res = (as_result*)halloc(sizeof(as_result)); memset(res, 0xb7, sizeof *res);
		CHECK(as_result_init(res) == res && as_result_value(res) == nullptr, "changed", "an initialised result has a value");
		if (ok) as_result_setsuccess(res, v0); else as_result_setfailure(res, v0);
	}
	faults(false);
	// The value may be the second one: the first is released when it is replaced.
	if (res && p.cfg[3]) {
		make(V_REC, 1, r, w);
		Val& u = w.vals[1];
		as_val_reserve(v0);
		for (int i = 0; i < 2; i++) {
			Val& in = i ? w.vals[0] : u;
			bool yes = i ? ok : ok ^ (p.cfg[3] > 1);
			CHECK((yes ? as_result_setsuccess(res, in.v) : as_result_setfailure(res, in.v)) == res, "wrong-result", "setting a result gave another one");
			CHECK(u.destroyed == i && w.vals[0].destroyed == 0, "not-destroyed", "the replaced value of a result was destroyed %d times", i ? u.destroyed : w.vals[0].destroyed);
		}
	}
	Val& v = w.vals[0];
	if (!res) {
		CHECK(my_faults(F_ALLOC) != f, "spurious-failure", "creating a result failed though memory was plentiful");
		CHECK(v.destroyed == 0, "destroyed-early", "a result that was not created destroyed the value");
		release(v); check_no_leak("after failing to create a result"); return;
	}
	for (auto& ops : p.thr) {
		const std::vector<Op>* o = &ops;
		as_result_reserve(res);
		spawn([&, o] {
			int mine = 1;
			auto use = [&] {
				if (heap) CHECK(is_live(res), "freed-early", "a held result was freed");
				CHECK(v.destroyed == 0, "destroyed-early", "the value of a held result was destroyed");
				CHECK(as_result_value(res) == v.v && res->is_success == ok, "changed", "a held result changed");
				hb_read(&w.keys[0], "use of a result's value");
				intact(v);
			};
			for (auto& op : *o) {
				if (!mine) break;
				if (op.code == B_RESERVE) { CHECK(as_result_reserve(res) == res, "wrong-result", "reserving a result gave another one"); mine++; }
				else if (op.code == B_USE) use();
				else { use(); mine--; as_result_destroy(res); }
			}
			while (mine > 0) { use(); mine--; as_result_destroy(res); }
		});
	}
	for (i64 i = 0; i < p.cfg[4]; i++) CHECK(as_result_reserve(res) == res, "wrong-result", "reserving a result gave another one");
	for (i64 i = 0; i < p.cfg[4]; i++) { as_result_destroy(res); CHECK((!heap || is_live(res)) && v.destroyed == 0, "freed-early", "a held result was freed or its value destroyed"); }
	hb_read(&w.keys[0], "use of a result's value");
	as_result_destroy(res);
	join_all();
	CHECK(v.destroyed == 1, "not-destroyed", "the value of a released result was destroyed %d times", v.destroyed);
	if (heap) CHECK(!is_live(res), "leaked", "a result outlives its last release");
	check_no_leak("after the last release of a result");
}
void gen_result(Rng& r, Prog& p, Strategy& s) {
	gen_c12(r, p, s);
	p.cfg = { (i64)r.below(2), r.one_in(4), (i64)r.below(4), r.one_in(3) ? 1 + (i64)r.below(2) : 0, p.cfg[3] };
	if (p.cfg[1]) s.fp[F_ALLOC] = 0.5;
	gen_sched(r, s, 400);
}

Reg r1({ "values", "C11", 300, gen_c11, body_val, val_op });
Reg r2({ "map_readers", "C11", 1, gen_mr, body_mr, mr_op });
Reg r5({ "two_counted_blocks", "C12", 1, gen_two<gen_c12>, body_two<body_rc>, rc_op });
Reg r6({ "two_results", "C12", 1, gen_two<gen_result>, body_two<body_result>, rc_op });
Reg r3({ "counted_block", "C12", 6, gen_c12, body_rc, rc_op });
Reg r4({ "result", "C12", 6, gen_result, body_result, rc_op });
} // namespace
