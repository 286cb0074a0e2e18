// C18..C20: containers and buffers when memory runs out.
#include "common.h"
#include "glue.h"
#include <aerospike/as_arraylist_iterator.h>
#include <aerospike/as_list_iterator.h>
#include <aerospike/as_map_iterator.h>
#include <aerospike/as_boolean.h>
#include <aerospike/as_double.h>
#include <aerospike/as_integer.h>
#include <aerospike/as_nil.h>
#include <aerospike/as_orderedmap.h>
#include <aerospike/as_pair.h>
#include <aerospike/as_string.h>
#include <aerospike/as_stringmap.h>
#include <citrusleaf/alloc.h>

extern "C" void* sim_alloca(size_t n) { return halloc_end(n); }

namespace {

u64 af() { return my_faults(F_ALLOC); }

// ------------------------------------------------------------------ C19: array list
enum { L_SET, L_INSERT, L_APPEND, L_PREPEND, L_REMOVE, L_TRIM, L_CONCAT, L_SELFCAT, L_HEAD, L_TAIL, L_DROP, L_TAKE, L_GET, L_ITER, L_FOREACH, L_FILL, L_NOPS };
// An index, sometimes as large as can be.
u32 far_index(const Op& op, size_t n) { return (op.c >> 6) % 8 == 5 && op.b % 2 ? op.b % 3 ? UINT32_MAX : op.b & 4 ? 0x7fffffffu : 0x80000000u : (u32)((size_t)op.a % n); }
const char* list_op(int c) { static const char* n[] = { "set", "insert", "append", "prepend", "remove", "trim", "concat", "concat_self", "head", "tail", "drop", "take", "get", "iterate", "foreach", "fill" }; return c >= 0 && c < L_NOPS ? n[c] : "?"; }
enum { Y_VAL, Y_INT, Y_DBL, Y_STR, Y_NULL, Y_N };
enum { T_INT, T_DBL, T_STR, T_BYT, T_LIST, T_MAP, T_N };      // types of the values made by the harness
struct Tracked { as_val* v; int held; int kind; };      // value made by the harness; "held": references the model says exist
struct Elem { as_val* p; int type; i64 i; int t; };   // type Y_*; t: index of a tracked value
struct Lists {
	std::vector<Tracked> tr;
	i64 serial = 1;
	std::vector<std::pair<as_arraylist*, std::vector<Elem>>> ls;
	std::vector<bool> fixed;
};
as_val* make_value(int kind, i64 id) {
	NoFaults nf;
	char b[24]; snprintf(b, sizeof b, "%lld", (long long)id);
	switch (kind) {
	case T_DBL: return (as_val*)as_double_new((double)id);
	case T_STR: return (as_val*)as_string_new_strdup(b);
	case T_BYT: { as_bytes* y = as_bytes_new(8); as_bytes_append(y, (u8*)&id, 8); return (as_val*)y; }
	case T_LIST: return (as_val*)as_arraylist_new(1, 1);
	case T_MAP: return (as_val*)as_orderedmap_new(1);
	default: return (as_val*)as_integer_new(id);
	}
}
// The typed ways of storing a value: the same for the list and for the general interface.
#define TYPED(FN, ...) (kind == T_INT ? FN##_integer(__VA_ARGS__, (as_integer*)v) : kind == T_DBL ? FN##_as_double(__VA_ARGS__, (as_double*)v) : kind == T_STR ? FN##_string(__VA_ARGS__, (as_string*)v) : kind == T_BYT ? FN##_bytes(__VA_ARGS__, (as_bytes*)v) : kind == T_LIST ? FN##_list(__VA_ARGS__, (as_list*)v) : FN##_map(__VA_ARGS__, (as_map*)v))
#define GET_TYPED(FN, ...) (kind == T_INT ? (void*)FN##_integer(__VA_ARGS__) : kind == T_DBL ? (void*)FN##_as_double(__VA_ARGS__) : kind == T_STR ? (void*)FN##_string(__VA_ARGS__) : kind == T_BYT ? (void*)FN##_bytes(__VA_ARGS__) : kind == T_LIST ? (void*)FN##_list(__VA_ARGS__) : (void*)FN##_map(__VA_ARGS__))
void list_typed(Lists& L, as_arraylist* l, u32 i, as_val* v) {
	as_list* ll = (as_list*)l;
	as_val_t t = (as_val_t)as_val_type(v);
	for (int kind = 0; kind < T_N; kind++) {
		static const as_val_t ts[] = { AS_INTEGER, AS_DOUBLE, AS_STRING, AS_BYTES, AS_LIST, AS_MAP };
		void* a = GET_TYPED(as_arraylist_get, l, i); void* b = GET_TYPED(as_list_get, ll, i);
		CHECK(a == (ts[kind] == t ? v : nullptr) && a == b, "wrong-element", "reading element %u by its type gives %s", i, a || b ? "a wrong value" : "nothing");
	}
	i64 n = t == AS_INTEGER ? ((as_integer*)v)->value : 0; double d = t == AS_DOUBLE ? ((as_double*)v)->value : 0; char* c = t == AS_STRING ? ((as_string*)v)->value : nullptr;
	CHECK(as_arraylist_get_int64(l, i) == n && as_list_get_int64(ll, i) == n, "wrong-element", "element %u reads as a wrong integer", i);
	CHECK(as_arraylist_get_double(l, i) == d && as_list_get_double(ll, i) == d, "wrong-element", "element %u reads as a wrong number", i);
	CHECK(as_arraylist_get_str(l, i) == c && as_list_get_str(ll, i) == c, "wrong-element", "element %u reads as a wrong string", i);
}
void list_check(Lists& L, size_t k) {
	as_arraylist* l = L.ls[k].first; auto& m = L.ls[k].second;
	CHECK(as_arraylist_size(l) == m.size(), "wrong-size", "the list has %u elements instead of %zu", as_arraylist_size(l), m.size());
	for (size_t i = 0; i < m.size(); i++) {
		as_val* v = as_arraylist_get(l, (u32)i);
		Elem& e = m[i];
		if (e.type == Y_NULL) CHECK(v == (as_val*)&as_nil, "wrong-element", "element %zu should be nil", i);
		else if (e.p) CHECK(v == e.p, "wrong-element", "element %zu is not the value stored there", i);
		else {
			CHECK(v && range_ok(v, sizeof(as_integer)), "wrong-element", "element %zu is not there", i);
			if (e.type == Y_INT) CHECK(as_val_type(v) == AS_INTEGER && as_arraylist_get_int64(l, (u32)i) == e.i, "wrong-element", "element %zu is not the integer stored", i);
			if (e.type == Y_DBL) CHECK(as_val_type(v) == AS_DOUBLE && as_arraylist_get_double(l, (u32)i) == (double)e.i, "wrong-element", "element %zu is not the number stored", i);
			if (e.type == Y_STR) { char* s; CHECK(as_val_type(v) == AS_STRING && (s = as_arraylist_get_str(l, (u32)i)) && range_ok(s, 1) && atoll(s) == e.i, "wrong-element", "element %zu is not the string stored", i); }
			e.p = v;
		}
	}
	CHECK(as_arraylist_get(l, (u32)m.size()) == nullptr, "wrong-element", "reading behind the end gives a value");
	for (auto& t : L.tr) CHECK(range_ok(t.v, sizeof(as_val)) && t.v->count == (u32)(1 + t.held), "wrong-references", "a value in lists has %u references instead of %d", t.v->count, 1 + t.held);
}
void unref(Lists& L, const Elem& e) { if (e.type == Y_VAL) L.tr[(size_t)e.t].held--; }
void addref(Lists& L, const Elem& e) { if (e.type == Y_VAL) L.tr[(size_t)e.t].held++; }
struct LWalk { std::vector<as_val*> got; size_t stop_at = 0; };
bool lwalk(as_val* v, void* u) { LWalk* w = borrow<LWalk>(u); w->got.push_back(v); return w->got.size() != w->stop_at; }

void body_list(const Prog& p) {
	Lists L;
	bool faulty = p.cfg[0];
	auto make = [&](i64 kind, i64 cap, i64 block) -> bool {
		as_arraylist* l; bool fx = false;
		u64 f = af();
		faults(faulty);
		switch (kind) {
		case 0: l = as_arraylist_new((u32)cap, (u32)block); fx = block == 0; break;
		case 1: l = (as_arraylist*)halloc(sizeof(as_arraylist)); if (!as_arraylist_init(l, (u32)cap, (u32)block)) l = nullptr; fx = block == 0; break;
		default: l = (as_arraylist*)halloc(sizeof(as_arraylist)); x_al_inita(l, (u32)cap); fx = true;
		}
		faults(false);
		if (!l) { CHECK(af() != f, "spurious-failure", "creating a list failed though memory was plentiful"); probe("list creation failed"); return false; }
		L.ls.push_back({ l, {} }); L.fixed.push_back(fx);
		list_check(L, L.ls.size() - 1);
		return true;
	};
	std::vector<i64> caps;
	for (int k = 0; k < 2; k++) { if (!make(p.cfg[1 + k * 3], p.cfg[2 + k * 3], p.cfg[3 + k * 3])) { L.ls.push_back({ as_arraylist_new((u32)p.cfg[2 + k * 3], p.cfg.size() > 7 ? (u32)p.cfg[3 + k * 3] : 4), {} }); L.fixed.push_back(false); caps.push_back(0); } else caps.push_back(p.cfg[2 + k * 3]); }
	for (auto& op : p.thr[0]) {
		size_t k = (size_t)op.c & 1;
		as_arraylist* l = L.ls[k].first; auto m = L.ls[k].second;      // copy: becomes the new state on success
		size_t n = m.size();
		int ty = (int)((op.c >> 1) % Y_N); bool viahook = (op.c >> 5) & 1;
		bool far = (op.code == L_SET || op.code == L_INSERT) && op.a == 39;      // indexes no list can reach
		as_list* ll = (as_list*)l;
		int rc = 0; bool want_fail = false, grows = false; size_t newn = n;
		as_arraylist* made = nullptr; std::vector<Elem> mm; bool makes = false;
		u64 f = af();
		auto fresh = [&]() -> Elem {
			i64 id = L.serial++;
			if (ty != Y_VAL) return Elem{ nullptr, ty, id, 0 };
			size_t t;
			if (L.tr.empty() || (op.c >> 6) & 1) { int kind = (int)((op.c >> 7) % T_N); L.tr.push_back({ make_value(kind, id), 0, kind }); t = L.tr.size() - 1; } else t = (size_t)(op.b + 1) % L.tr.size();
			return Elem{ L.tr[t].v, Y_VAL, id, (int)t };
		};
		char str[24];
		switch (op.code) {
		case L_SET: case L_INSERT: case L_APPEND: case L_PREPEND: {
			size_t ix = op.code == L_APPEND ? n : op.code == L_PREPEND ? 0 : (size_t)op.a % (n + 4);
			if (op.code == L_SET && n && (op.b & 3)) ix = (size_t)op.a % n;
			if (far) ix = 0xffffffffu - (size_t)op.a % 3 * 0x40000000u;
			Elem e = fresh();
			snprintf(str, sizeof str, "%lld", (long long)e.i);
			if (far) newn = ix + 1;
			else if (op.code == L_SET) { if (ix < n) { unref(L, m[ix]); m[ix] = e; } else { while (m.size() < ix) m.push_back(Elem{ nullptr, Y_NULL, 0, 0 }); m.push_back(e); } }
			else { while (m.size() < ix) m.push_back(Elem{ nullptr, Y_NULL, 0, 0 }); m.insert(m.begin() + (long)ix, e); }
			if (!far) newn = m.size();
			if (e.type == Y_VAL) { as_val_val_reserve(e.p); addref(L, e); }
			u32 i = (u32)ix; as_val* v = e.p;
			bool typed = ty == Y_VAL && (op.c >> 10) & 1; int kind = typed ? L.tr[(size_t)e.t].kind : 0;
			faults(faulty);
			if (typed) {
				if (op.code == L_SET) rc = viahook ? TYPED(as_list_set, ll, i) : TYPED(as_arraylist_set, l, i);
				if (op.code == L_INSERT) rc = viahook ? TYPED(as_list_insert, ll, i) : TYPED(as_arraylist_insert, l, i);
				if (op.code == L_APPEND) rc = viahook ? TYPED(as_list_append, ll) : TYPED(as_arraylist_append, l);
				if (op.code == L_PREPEND) rc = viahook ? TYPED(as_list_prepend, ll) : TYPED(as_arraylist_prepend, l);
			} else {
			if (op.code == L_SET) rc = ty == Y_INT ? (viahook ? as_list_set_int64(ll, i, e.i) : as_arraylist_set_int64(l, i, e.i)) : ty == Y_DBL ? (viahook ? as_list_set_double(ll, i, (double)e.i) : as_arraylist_set_double(l, i, (double)e.i)) : ty == Y_STR ? (viahook ? as_list_set_str(ll, i, str) : as_arraylist_set_str(l, i, str)) : viahook ? as_list_set(ll, i, v) : as_arraylist_set(l, i, v);
			if (op.code == L_INSERT) rc = ty == Y_INT ? (viahook ? as_list_insert_int64(ll, i, e.i) : as_arraylist_insert_int64(l, i, e.i)) : ty == Y_DBL ? (viahook ? as_list_insert_double(ll, i, (double)e.i) : as_arraylist_insert_double(l, i, (double)e.i)) : ty == Y_STR ? (viahook ? as_list_insert_str(ll, i, str) : as_arraylist_insert_str(l, i, str)) : viahook ? as_list_insert(ll, i, v) : as_arraylist_insert(l, i, v);
			if (op.code == L_APPEND) rc = ty == Y_INT ? (viahook ? as_list_append_int64(ll, e.i) : as_arraylist_append_int64(l, e.i)) : ty == Y_DBL ? (viahook ? as_list_append_double(ll, (double)e.i) : as_arraylist_append_double(l, (double)e.i)) : ty == Y_STR ? (viahook ? as_list_append_str(ll, str) : as_arraylist_append_str(l, str)) : viahook ? as_list_append(ll, v) : as_arraylist_append(l, v);
			if (op.code == L_PREPEND) rc = ty == Y_INT ? (viahook ? as_list_prepend_int64(ll, e.i) : as_arraylist_prepend_int64(l, e.i)) : ty == Y_DBL ? (viahook ? as_list_prepend_double(ll, (double)e.i) : as_arraylist_prepend_double(l, (double)e.i)) : ty == Y_STR ? (viahook ? as_list_prepend_str(ll, str) : as_arraylist_prepend_str(l, str)) : viahook ? as_list_prepend(ll, v) : as_arraylist_prepend(l, v);
			}
			faults(false);
			grows = true;
			if (rc != 0) {
				if (e.type == Y_VAL) { as_val_val_destroy(v); unref(L, e); }      // a refused value stays with the caller
				if (op.code == L_SET && ix < n) { addref(L, L.ls[k].second[ix]); }
			}
			break; }
		case L_FILL: {      // many elements at once, some of them shared
			grows = true; faults(faulty);
			for (i64 i = 0; i < op.a && rc == 0; i++) {
				Elem e{ nullptr, Y_INT, L.serial++, 0 };
				if (op.b && !L.tr.empty() && i % 7 == 0) { int t = (int)((size_t)i % L.tr.size()); e = Elem{ L.tr[(size_t)t].v, Y_VAL, e.i, t }; as_val_val_reserve(e.p); addref(L, e); rc = as_arraylist_append(l, e.p); if (rc) { as_val_val_destroy(e.p); unref(L, e); } }
				else rc = viahook ? as_list_append_int64(ll, e.i) : as_arraylist_append_int64(l, e.i);
				newn = m.size() + 1;
				if (rc == 0) m.push_back(e);
			}
			faults(false);
			L.ls[k].second = m; n = m.size();
			break; }
		case L_REMOVE: { u32 i = far_index(op, n + 2); want_fail = i >= n; if (!want_fail) { unref(L, m[i]); m.erase(m.begin() + i); } faults(faulty); rc = viahook ? as_list_remove(ll, i) : as_arraylist_remove(l, i); faults(false); if (want_fail) CHECK(rc != 0, "wrong-result", "removing element %u of %zu succeeded", i, n); break; }
		case L_TRIM: { u32 i = far_index(op, n + 2); want_fail = i >= n; if (!want_fail) { for (size_t q = i; q < n; q++) unref(L, m[q]); m.resize(i); } faults(faulty); rc = viahook ? as_list_trim(ll, i) : as_arraylist_trim(l, i); faults(false); if (want_fail) CHECK(rc != 0, "wrong-result", "trimming at %u of %zu succeeded", i, n); break; }
		case L_CONCAT: case L_SELFCAT: {
			auto& src = op.code == L_CONCAT ? L.ls[1 - k] : L.ls[k];
			if (n + src.second.size() > (p.cfg.size() > 7 ? (size_t)p.cfg[7] : 400)) break;
			auto add = src.second;
			for (auto& e : add) { m.push_back(e); addref(L, e); }
			newn = m.size(); grows = true;
			faults(faulty); rc = viahook ? as_list_concat(ll, (as_list*)src.first) : as_arraylist_concat(l, src.first); faults(false);
			if (rc != 0) for (auto& e : add) unref(L, e);
			break; }
		case L_HEAD: { as_val* v = viahook ? as_list_head(ll) : as_arraylist_head(l); if (n) CHECK(v == as_arraylist_get(l, 0), "wrong-element", "head is not the first element"); else CHECK(v == nullptr, "wrong-element", "the head of an empty list is a value"); break; }
		case L_TAIL: case L_DROP: case L_TAKE: {
			u32 i = far_index(op, n + 2);
			faults(faulty);
			if (op.code == L_TAIL) { made = viahook ? (as_arraylist*)as_list_tail(ll) : as_arraylist_tail(l); if (n) mm.assign(m.begin() + 1, m.end()); }
			if (op.code == L_DROP) { made = viahook ? (as_arraylist*)as_list_drop(ll, i) : as_arraylist_drop(l, i); if (i < n) mm.assign(m.begin() + i, m.end()); }
			if (op.code == L_TAKE) { made = viahook ? (as_arraylist*)as_list_take(ll, i) : as_arraylist_take(l, i); mm.assign(m.begin(), m.begin() + (long)std::min<size_t>(i, n)); }
			faults(false);
			makes = true;
			if (!made) { CHECK(af() != f || (op.code == L_TAIL && n == 0), "spurious-failure", "making a part of a list failed though memory was plentiful"); if (af() != f) probe("sublist failed"); }
			break; }
		case L_GET: { u32 i = far_index(op, n + 3); as_val* v = viahook ? as_list_get(ll, i) : as_arraylist_get(l, i); CHECK((v != nullptr) == (i < n), "wrong-element", "element %u of %zu is %s", i, n, v ? "there" : "missing");
			if (v) list_typed(L, l, i, v);
			else CHECK(!as_list_get_integer(ll, i) && !as_arraylist_get_integer(l, i) && as_list_get_int64(ll, i) == 0 && !as_arraylist_get_str(l, i) && as_arraylist_get_double(l, i) == 0, "wrong-element", "reading behind the end by type gives a value");
			CHECK(as_list_size(ll) == n, "wrong-size", "the list has %u elements instead of %zu", as_list_size(ll), n);
			break; }
		case L_ITER: {
			faults(faulty);
			as_arraylist_iterator* it; bool heap = op.b & 1;
			if (heap) it = viahook ? (as_arraylist_iterator*)as_list_iterator_new(ll) : as_arraylist_iterator_new(l); else { void* mem = halloc(sizeof(as_list_iterator)); it = viahook ? (as_arraylist_iterator*)as_list_iterator_init((as_list_iterator*)mem, ll) : as_arraylist_iterator_init((as_arraylist_iterator*)mem, l); }
			faults(false);
			as_iterator* gi = (as_iterator*)it; bool gen = viahook;
			if (!it) { CHECK(af() != f, "spurious-failure", "an iterator could not be made though memory was plentiful"); break; }
			for (size_t i = 0; i < n; i++) { CHECK(gen ? as_iterator_has_next(gi) : as_arraylist_iterator_has_next(it), "wrong-element", "iteration ends after %zu of %zu elements", i, n); CHECK((gen ? as_iterator_next(gi) : as_arraylist_iterator_next(it)) == as_arraylist_get(l, (u32)i), "wrong-element", "iteration gives a wrong element at %zu", i); }
			CHECK(gen ? !as_iterator_has_next(gi) && !as_iterator_next(gi) : !as_arraylist_iterator_has_next(it) && !as_arraylist_iterator_next(it), "wrong-element", "iteration goes on behind the end");
			if (gen) as_iterator_destroy(gi); else as_arraylist_iterator_destroy(it);
			if (!heap) hfree(it);
			break; }
		case L_FOREACH: {
			if (n && op.b & 1) {      // stopped by the callback
				LWalk w; w.stop_at = 1 + (size_t)op.a % n;
				bool ok = viahook ? as_list_foreach(ll, lwalk, lend(&w, op.a % 3 == 0)) : as_arraylist_foreach(l, lwalk, lend(&w, op.a % 3 == 0));
				CHECK(w.got.size() == w.stop_at, "wrong-size", "walking a list went on for %zu elements after the callback stopped it at %zu", w.got.size() - w.stop_at, w.stop_at);
				if (w.stop_at < n) CHECK(!ok, "wrong-result", "walking a list reports success though the callback stopped it");
				break;
			}
			LWalk w; CHECK(viahook ? as_list_foreach(ll, lwalk, lend(&w, op.a % 3 == 0)) : as_arraylist_foreach(l, lwalk, lend(&w, op.a % 3 == 0)), "wrong-result", "walking a list failed"); CHECK(w.got.size() == n, "wrong-size", "walking a list gave %zu of %zu elements", w.got.size(), n); for (size_t i = 0; i < n; i++) CHECK(w.got[i] == as_arraylist_get(l, (u32)i), "wrong-element", "walking a list gives a wrong element at %zu", i); break; }
		}
		// A list that would grow by more than the memory there is cannot grow.
		bool fault = af() != f || far || std::max(p.cfg[3], p.cfg[6]) > 1000000;
		if (far) CHECK(rc != 0, "wrong-result", "an element at %zu of a list was accepted", newn - 1);
		logf("list %zu: %s(%lld) type %d, size %zu -> rc %d%s", k, list_op(op.code), (long long)op.a, ty, n, rc, fault ? " (allocation failed)" : "");
		note(0x100 + (u64)rc * 7 + (u64)op.code);
		if (grows && rc != 0) {
			bool full = L.fixed[k] && newn > (size_t)caps[k];
			CHECK(fault || full, "spurious-failure", "%s failed with %d though memory was plentiful", list_op(op.code), rc);
			if (fault) probe("list operation failed for lack of memory"); else probe("fixed list full");
		} else if (!want_fail && rc != 0) fail("spurious-failure", "%s failed with %d", list_op(op.code), rc);
		else if (!want_fail) L.ls[k].second = m;
		if (grows && rc == 0 && L.fixed[k]) CHECK(newn <= (size_t)caps[k], "overfull", "a list of fixed size %lld took %zu elements", (long long)caps[k], newn);
		if (made) for (auto& e : mm) addref(L, e);
		list_check(L, k);
		if (makes && made) {
			L.ls.push_back({ made, mm }); L.fixed.push_back(false);
			list_check(L, L.ls.size() - 1);
			if (op.b & 1) {      // the original goes first in half of the cases
				for (auto& e : mm) unref(L, e);
				as_val_val_destroy((as_val*)made);
				L.ls.pop_back(); L.fixed.pop_back();
				list_check(L, k);
			} else if (L.ls.size() > 6) { for (auto& e : L.ls[2].second) unref(L, e); as_val_val_destroy((as_val*)L.ls[2].first); L.ls.erase(L.ls.begin() + 2); L.fixed.erase(L.fixed.begin() + 2); list_check(L, k); }
		}
	}
	for (size_t k = 0; k < L.ls.size(); k++) list_check(L, k);
	for (size_t k = 0; k < L.ls.size(); k++) { as_val_val_destroy((as_val*)L.ls[k].first); for (auto& e : L.ls[k].second) unref(L, e); for (auto& t : L.tr) CHECK(range_ok(t.v, sizeof(as_val)) && t.v->count == (u32)(1 + t.held), "wrong-references", "destroying a list left a wrong reference count"); }
	for (auto& t : L.tr) { CHECK(as_val_val_destroy(t.v) == nullptr, "wrong-references", "a value outlives all lists"); }
	check_no_leak("after destroying all lists");
}
void gen_list(Rng& r, Prog& p, Strategy& s) {
	gen_env(r, p.env);
	bool faulty = r.one_in(2);
	p.cfg.push_back(faulty);
	for (int k = 0; k < 2; k++) { p.cfg.push_back((i64)r.below(3)); p.cfg.push_back(r.one_in(20) ? (i64)r.below(200) : r.pick<i64>({ 0, 1, 2, 3, 8, 20 })); p.cfg.push_back(r.one_in(20) ? r.pick<i64>({ 31, 64, 100, 1000, 0x20000001ll, 0xffffffffll }) : r.pick<i64>({ 0, 1, 1, 2, 3, 10 })); }
	std::vector<Op> o; int n = 3 + (int)r.below(r.one_in(25) ? 150 : 25); int bias = (int)r.below(3);
	for (int i = 0; i < n; i++) {
		int c = bias == 0 ? (int)r.below(L_NOPS) : r.one_in(2) ? r.pick({ L_APPEND, L_INSERT, L_PREPEND, L_SET }) : (int)r.below(L_NOPS);
		o.push_back(Op{ c, (i64)r.below(40), (i64)r.below(8), (i64)r.below(2048) });
	}
	p.env.cap = 4000000;
	if (r.one_in(1500)) {      // long lists; the longest grow in large blocks
		bool huge = r.one_in(25);
		i64 len = huge ? r.pick<i64>({ 32768, 65534, 65535, 65536, 65537, 70000 }) : r.pick<i64>({ 127, 128, 129, 255, 256, 257, 500, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4096, 5000 });
		for (int k = 0; k < 2; k++) { p.cfg[1 + (size_t)k * 3] = (i64)r.below(2); if (r.one_in(2)) p.cfg[2 + (size_t)k * 3] = len + (i64)r.below(3) - 1; p.cfg[3 + (size_t)k * 3] = huge ? r.pick<i64>({ 4096, 65535, 65536, 65537 }) : r.pick<i64>({ 1, 16, 64, 100, 255, 256, 1000 }); }
		p.cfg.push_back(4 * len);
		o.resize(std::min<size_t>(o.size(), 4 + r.below(huge ? 4 : 12)));
		for (auto& op : o) if (r.one_in(2)) op.a = r.one_in(2) ? len - 2 + (i64)r.below(5) : (i64)r.below((u64)len + 3);
		size_t at = r.below(std::min<u64>(o.size(), 3)); i64 k = (i64)r.below(2);
		o.insert(o.begin() + (long)at, Op{ L_FILL, len - (i64)at - (i64)r.below(3), (i64)r.below(2), k | (i64)r.below(2) << 5 });
		for (size_t i = at + 1; i < o.size(); i++) if (!r.one_in(4)) o[i].c = (o[i].c & ~1ll) | k;
		if (r.one_in(3)) o.push_back(Op{ L_FILL, 1 + (i64)r.below((u64)len), 1, k });
		p.env.cap = 40000000;
	}
	p.thr.push_back(o);
	if (faulty) gen_oom(r, s, (u64)n);
}

// ------------------------------------------------------------------ C18: ordered map
enum { M_SET, M_GET, M_REMOVE, M_CLEAR, M_FOREACH, M_ITER, M_SIZE, M_BADKEY, M_STRSET, M_STRGET, M_STOP, M_FILL, M_NOPS };
const char* map_op(int c) { static const char* n[] = { "set", "get", "remove", "clear", "foreach", "iterate", "size", "set_bad_key", "stringmap_set", "stringmap_get", "foreach_stopped", "fill" }; return c >= 0 && c < M_NOPS ? n[c] : "?"; }
struct Key {
	int t; i64 i; std::string s;
	bool operator<(const Key& o) const { if (t != o.t) return t < o.t; if (t == 0) return i < o.i; return s < o.s; }
};
Key key_of(i64 code) {
	int t = (int)(code % 3); i64 v = code / 3;
	char b[32];
	if (code >= 1000000 && t) {      // long keys that differ only near their ends
		std::string q((size_t)(v / 4 - 80000), t == 1 ? 'q' : 'r'); q[v & 1 ? q.size() - 1 : q.size() / 2] = (char)('s' + (v >> 1 & 1));
		return Key{ t, 0, q };
	}
	switch (t) {
	case 0: return Key{ 0, v == 1 ? INT64_MIN : v == 2 ? INT64_MAX : v - 5 + (v == 0 ? -4000000000ll : 0), "" };
	case 1: if (v == 0) return Key{ 1, 0, "" }; snprintf(b, sizeof b, "k%.*s%lld", (int)(v % 4), "xyz", (long long)v); return Key{ 1, 0, b };
	default: return Key{ 2, 0, v >= 0 && v < 4 ? std::string((size_t)v, '\0') : std::string(1 + (size_t)(v % 3), (char)(v * 37)) };
	}
}
as_val* make_key(const Key& k) {
	NoFaults nf;
	if (k.t == 0) return (as_val*)as_integer_new(k.i);
	if (k.t == 1) return (as_val*)as_string_new_strdup(k.s.c_str());
	u8* b = (u8*)cf_malloc(k.s.size()); memcpy(b, k.s.data(), k.s.size());
	return (as_val*)as_bytes_new_wrap(b, (u32)k.s.size(), true);
}
bool same_key(const as_val* v, const Key& k) {
	if (!v || !range_ok(v, sizeof(as_val))) return false;
	if (k.t == 0) return as_val_type(v) == AS_INTEGER && ((as_integer*)v)->value == k.i;
	if (k.t == 1) return as_val_type(v) == AS_STRING && k.s == ((as_string*)v)->value;
	return as_val_type(v) == AS_BYTES && std::string((char*)((as_bytes*)v)->value, ((as_bytes*)v)->size) == k.s;
}
bool refs(as_val* v, u32 n) { return v == (as_val*)&as_nil || (range_ok(v, sizeof(as_val)) && v->count == n); }
void release(as_val* v) { if (v != (as_val*)&as_nil) as_val_val_destroy(v); }
typedef std::map<Key, std::pair<as_val*, as_val*>> MapModel;      // key, value objects as the map should hold them
struct MWalk { MapModel::const_iterator it, end; u32 n; bool stop; u32 stop_at; };
bool mwalk(const as_val* k, const as_val* v, void* u) {
	MWalk* w = borrow<MWalk>(u);
	CHECK(!w->stop, "wrong-entry", "walking the map went on after the callback stopped it");
	CHECK(w->it != w->end, "wrong-entry", "walking the map gives more entries than it holds");
	CHECK(k == w->it->second.first && v == w->it->second.second, "wrong-entry", "walking the map gives a wrong entry at position %u", w->n);
	++w->it; w->n++;
	if (w->n == w->stop_at) w->stop = true;
	return !w->stop;
}
void body_map(const Prog& p) {
	bool faulty = p.cfg[0];
	u64 f = af();
	faults(faulty);
	as_orderedmap* m; bool heap = p.cfg[1];
	if (heap) m = as_orderedmap_new((u32)p.cfg[2]);
	else { m = (as_orderedmap*)halloc(sizeof(as_orderedmap)); if (!as_orderedmap_init(m, (u32)p.cfg[2])) m = nullptr; }
	faults(false);
	if (!m) { CHECK(af() != f, "spurious-failure", "creating a map failed though memory was plentiful"); probe("map creation failed"); check_no_leak("after failing to create a map"); return; }
	MapModel model;
	as_map* mm = (as_map*)m;
	auto check_all = [&] {
		CHECK(as_orderedmap_size(m) == model.size(), "wrong-size", "the map has %u entries instead of %zu", as_orderedmap_size(m), model.size());
		if (model.size() > 100) return;
		for (auto& e : model) {
			as_val* k = make_key(e.first);
			as_val* v = as_orderedmap_get(m, k);
			CHECK(v == e.second.second, "wrong-entry", "an entry of the map is %s", v ? "not the last one set" : "missing");
			CHECK(range_ok(e.second.first, sizeof(as_val)) && e.second.first->count == 2 && refs(e.second.second, 2), "wrong-references", "an entry of the map has wrong references");
			as_val_val_destroy(k);
		}
	};
	auto walk_all = [&](bool with_faults, bool via) {
		MWalk w{ model.begin(), model.end(), 0, false, 0 };
		u64 f0 = af();
		faults(with_faults);
		void* u = lend(&w, model.size() % 3 == 1);
		bool ok = via ? as_map_foreach(mm, mwalk, u) : as_orderedmap_foreach(m, mwalk, u);
		faults(false);
		if (!ok) CHECK(af() != f0, "spurious-failure", "walking the map failed though memory was plentiful");
		else CHECK(w.n == model.size(), "wrong-size", "walking the map gave %u of %zu entries", w.n, model.size());
	};
	auto set = [&](const Key& key, bool hook, bool none = false) {      // setting nothing stores nil
		as_val *k = make_key(key), *v = none ? nullptr : (as_val*)as_integer_new((i64)model.size());
		as_val_val_reserve(k); if (v) as_val_val_reserve(v);         // the harness keeps one reference to see the map's
		u64 f0 = af();
		faults(faulty);
		int rc = hook ? as_map_set(mm, k, v) : as_orderedmap_set(m, k, v);
		faults(false);
		if (rc != 0) {
			CHECK(af() != f0, "spurious-failure", "setting an entry failed with %d though memory was plentiful", rc);
			CHECK(k->count == 2 && (!v || v->count == 2), "wrong-references", "a refused entry was released");
			as_val_val_destroy(k); as_val_val_destroy(k); if (v) { as_val_val_destroy(v); as_val_val_destroy(v); }
			probe("set failed for lack of memory");
		} else {
			auto old = model.find(key);
			if (old != model.end()) {
				CHECK(range_ok(old->second.first, sizeof(as_val)) && old->second.first->count == 1 && refs(old->second.second, 1), "wrong-references", "an overwritten entry was not released exactly once");
				as_val_val_destroy(old->second.first); release(old->second.second);
				model.erase(old);
			}
			model[key] = { k, v ? v : (as_val*)&as_nil };
		}
		return rc;
	};
	// Entries named by C strings: the map makes its own key, and in three of the kinds its own value.
	auto strset = [&](const Op& op) {
		Key key{ 1, 0, key_of(op.a / 3 * 3 + 1).s };
		const char* name = key.s.c_str();
		int kind = (int)(op.c >> 1) % T_N, how = (int)(op.c >> 4) % 3;      // 0 by value, 1 typed, 2 plain
		i64 id = 1000 + op.a;
		char text[24]; snprintf(text, sizeof text, "%lld", (long long)id);
		as_val* v = nullptr;
		if (how == 0 && kind > T_STR) how = 1;
		if (how) { v = make_value(kind, id); as_val_val_reserve(v); }
		u64 f0 = af();
		faults(faulty);
		int rc = how == 0 ? (kind == T_INT ? as_stringmap_set_int64(mm, name, id) : kind == T_DBL ? as_stringmap_set_double(mm, name, (double)id) : as_stringmap_set_str(mm, name, text)) : how == 1 ? TYPED(as_stringmap_set, mm, name) : as_stringmap_set(mm, name, v);
		faults(false);
		if (rc != 0) {
			CHECK(af() != f0, "spurious-failure", "setting an entry by name failed with %d though memory was plentiful", rc);
			if (v) { CHECK(v->count == 2, "wrong-references", "a refused value was released"); as_val_val_destroy(v); as_val_val_destroy(v); }
			probe("set by name failed for lack of memory");
			return rc;
		}
		auto old = model.find(key);
		if (old != model.end()) {
			CHECK(range_ok(old->second.first, sizeof(as_val)) && old->second.first->count == 1 && refs(old->second.second, 1), "wrong-references", "an overwritten entry was not released exactly once");
			as_val_val_destroy(old->second.first); release(old->second.second);
			model.erase(old);
		}
		// Take a reference to the key and the value the map made.
		as_val* kv = nullptr; as_val* vv = nullptr;
		struct Find { const Key* k; as_val **kv, **vv; } fd{ &key, &kv, &vv };
		as_orderedmap_foreach(m, [](const as_val* a, const as_val* b, void* u) -> bool { Find* q = (Find*)u; if (same_key(a, *q->k)) { *q->kv = (as_val*)a; *q->vv = (as_val*)b; return false; } return true; }, &fd);
		CHECK(kv && vv, "wrong-entry", "an entry set by name is missing");
		if (v) CHECK(vv == v, "wrong-entry", "an entry set by name has another value");
		else CHECK(kind == T_INT ? as_val_type(vv) == AS_INTEGER && ((as_integer*)vv)->value == id : kind == T_DBL ? as_val_type(vv) == AS_DOUBLE && ((as_double*)vv)->value == (double)id : as_val_type(vv) == AS_STRING && text_at(((as_string*)vv)->value, "a stored string") == text, "wrong-entry", "an entry set by name has another value");
		CHECK(kv->count == 1 && vv->count == (v ? 2 : 1), "wrong-references", "an entry set by name has %u and %u references", kv->count, vv->count);
		as_val_val_reserve(kv); if (!v) as_val_val_reserve(vv);
		model[key] = { kv, vv };
		return 0;
	};
	auto strget = [&](const Op& op) {
		Key key{ 1, 0, key_of(op.a / 3 * 3 + 1).s };
		const char* name = key.s.c_str();
		auto e = model.find(key);
		as_val* v = e == model.end() ? nullptr : e->second.second;
		as_val_t t = v ? (as_val_t)as_val_type(v) : AS_UNKNOWN;
		CHECK(as_stringmap_get(mm, name) == v, "wrong-entry", "getting an entry by name gives a wrong value");
		for (int kind = 0; kind < T_N; kind++) {
			static const as_val_t ts[] = { AS_INTEGER, AS_DOUBLE, AS_STRING, AS_BYTES, AS_LIST, AS_MAP };
			CHECK(GET_TYPED(as_stringmap_get, mm, name) == (ts[kind] == t ? (void*)v : nullptr), "wrong-entry", "getting an entry by name and type gives a wrong value");
		}
		CHECK(as_stringmap_get_int64(mm, name) == (t == AS_INTEGER ? ((as_integer*)v)->value : 0) && as_stringmap_get_double(mm, name) == (t == AS_DOUBLE ? ((as_double*)v)->value : 0) && as_stringmap_get_str(mm, name) == (t == AS_STRING ? ((as_string*)v)->value : nullptr), "wrong-entry", "getting an entry by name and type gives a wrong value");
	};
	for (auto& op : p.thr[0]) {
		Key key = key_of(op.a);
		bool hook = op.c & 1;
		u64 f0 = af();
		int rc = 0;
		switch (op.code) {
		case M_SET: rc = set(key, hook, op.c / 2 % 10 == 3); break;
		case M_FILL: {      // many integer keys: b of them from a, stepping by c
			for (i64 i = 0; i < op.b; i++) rc |= set(Key{ 0, op.a + i * op.c, "" }, false);
			break; }
		case M_GET: { as_val* k = make_key(key); as_val* v = hook ? as_map_get(mm, k) : as_orderedmap_get(m, k); auto e = model.find(key); CHECK(v == (e == model.end() ? nullptr : e->second.second), "wrong-entry", "getting an entry gave %s", v ? "a wrong value" : "nothing"); as_val_val_destroy(k); break; }
		case M_REMOVE: {
			as_val* k = make_key(op.b ? Key{ 0, op.a, "" } : key); Key kk = op.b ? Key{ 0, op.a, "" } : key;
			faults(faulty);
			rc = hook ? as_map_remove(mm, k) : as_orderedmap_remove(m, k);
			faults(false);
			as_val_val_destroy(k);
			auto e = model.find(kk);
			if (rc != 0) CHECK(af() != f0, "spurious-failure", "removing an entry failed with %d though memory was plentiful", rc);
			else if (e != model.end()) {
				CHECK(range_ok(e->second.first, sizeof(as_val)) && e->second.first->count == 1 && refs(e->second.second, 1), "wrong-references", "a removed entry was not released exactly once");
				as_val_val_destroy(e->second.first); release(e->second.second); model.erase(e);
			}
			break; }
		case M_CLEAR: rc = hook ? as_map_clear(mm) : as_orderedmap_clear(m); CHECK(rc == 0, "spurious-failure", "clearing failed"); for (auto& e : model) { CHECK(e.second.first->count == 1 && refs(e.second.second, 1), "wrong-references", "a cleared entry was not released exactly once"); as_val_val_destroy(e.second.first); release(e.second.second); } model.clear(); break;
		case M_FOREACH: walk_all(faulty, hook); break;
		case M_STOP: if (!model.empty()) {
			MWalk w{ model.begin(), model.end(), 0, false, 1 + (u32)((u64)op.a % model.size()) };
			void* u = lend(&w, op.a % 3 == 0);
			bool ok = hook ? as_map_foreach(mm, mwalk, u) : as_orderedmap_foreach(m, mwalk, u);
			CHECK(w.n == w.stop_at, "wrong-size", "walking the map gave %u entries before it was stopped at %u", w.n, w.stop_at);
			CHECK(!ok || w.n == model.size(), "wrong-result", "walking the map reports success though the callback stopped it");
		} break;
		case M_STRSET: strset(op); break;
		case M_STRGET: strget(op); break;
		case M_ITER: {
			bool h2 = op.b & 1;
			faults(faulty);
			as_orderedmap_iterator* mem = h2 ? nullptr : (as_orderedmap_iterator*)halloc(sizeof(as_map_iterator));
			as_orderedmap_iterator* it = h2 ? (hook ? (as_orderedmap_iterator*)as_map_iterator_new(mm) : as_orderedmap_iterator_new(m)) : hook ? (as_orderedmap_iterator*)as_map_iterator_init((as_map_iterator*)mem, mm) : as_orderedmap_iterator_init(mem, m);
			faults(false);
			as_iterator* gi = (as_iterator*)it;
			if (!it) { CHECK(af() != f0, "spurious-failure", "an iterator could not be made though memory was plentiful"); if (mem) hfree(mem); break; }
			for (auto& e : model) { CHECK(hook ? as_iterator_has_next(gi) : as_orderedmap_iterator_has_next(it), "wrong-size", "iteration ends early"); as_pair* pr = (as_pair*)(hook ? as_iterator_next(gi) : as_orderedmap_iterator_next(it)); CHECK(pr && pr->_1 == e.second.first && pr->_2 == e.second.second, "wrong-entry", "iteration gives a wrong entry"); }
			CHECK(hook ? !as_iterator_has_next(gi) && !as_iterator_next(gi) : !as_orderedmap_iterator_has_next(it) && !as_orderedmap_iterator_next(it), "wrong-size", "iteration goes on behind the end");
			if (hook) as_iterator_destroy(gi); else as_orderedmap_iterator_destroy(it);
			if (mem) hfree(mem);
			break; }
		case M_SIZE: CHECK((hook ? as_map_size(mm) : as_orderedmap_size(m)) == model.size(), "wrong-size", "size is wrong"); break;
		case M_BADKEY: {
			as_val* k = op.b & 1 ? (as_val*)as_double_new(1.5) : nullptr; as_val* v = (as_val*)as_integer_new(1);
			CHECK(as_orderedmap_set(m, k, v) != 0, "accepted", "a key of an impossible type was accepted");
			CHECK(as_orderedmap_get(m, k) == nullptr && as_orderedmap_remove(m, k) != 0, "accepted", "a key of an impossible type was found");
			if (k) as_val_val_destroy(k);
			as_val_val_destroy(v);
			break; }
		}
		logf("%s(%lld) = %d, %zu entries%s", map_op(op.code), (long long)op.a, rc, model.size(), af() != f0 ? " (allocation failed)" : "");
		note(0x200 + (u64)op.code * 3 + (u64)(rc != 0));
		check_all();
	}
	walk_all(false, false);
	for (auto& e : model) if (!same_key(e.second.first, e.first)) fail("wrong-entry", "a key in the map changed");
	if (model.size() > 100) for (auto& e : model) CHECK(e.second.first->count == 2 && refs(e.second.second, 2), "wrong-references", "an entry of the map has wrong references");
	as_val_val_destroy((as_val*)m);
	for (auto& e : model) { CHECK(range_ok(e.second.first, sizeof(as_val)) && e.second.first->count == 1 && refs(e.second.second, 1), "wrong-references", "destroying the map left a wrong reference count"); as_val_val_destroy(e.second.first); release(e.second.second); }
	check_no_leak("after destroying the map");
}
void gen_map(Rng& r, Prog& p, Strategy& s) {
	gen_env(r, p.env);
	bool faulty = r.one_in(2);
	p.cfg = { faulty, (i64)r.below(2), r.pick<i64>({ 0, 1, 7, 8, 9, 30 }) };
	std::vector<Op> o; int n = 3 + (int)r.below(40); i64 span = r.pick<i64>({ 6, 20, 60, 200 });
	for (int i = 0; i < n; i++) o.push_back(Op{ (i32)(r.one_in(2) ? M_SET : (int)r.below(M_FILL)), r.one_in(8) && i ? o[r.below((u64)i)].a : (i64)r.below((u64)span), (i64)r.below(2) & (r.one_in(8)), (i64)r.below(64) });
	for (auto& op : o) if (op.code == M_REMOVE) op.b = 0; else if (op.code == M_ITER) op.b = (i64)r.below(2); else if (op.code == M_CLEAR && !r.one_in(4)) op.code = M_SET;
	if (r.one_in(100)) {
		i64 len = r.one_in(8) ? r.pick<i64>({ 32767, 65535, 65536, 65540 }) : r.pick<i64>({ 31, 32, 63, 64, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 4096 });
		for (auto& op : o) if (op.code != M_BADKEY && r.one_in(2)) op.a = (80000 + len + (r.one_in(4) ? (i64)r.below(3) - 1 : 0)) * 12 + (i64)r.below(12) + 12;
	}
	p.thr.push_back(o);
	if (faulty) gen_oom(r, s, 6);
	p.env.cap = 4000000;
}
// Large maps: entries far from the end are held back and merged later.
void gen_map_big(Rng& r, Prog& p, Strategy& s) {
	gen_env(r, p.env);
	bool faulty = !r.one_in(3);
	p.cfg = { faulty, (i64)r.below(2), r.pick<i64>({ 0, 1000, 1100, 3000 }) };
	std::vector<Op> o;
	i64 n = 1000 + (i64)r.below(60);
	if (r.one_in(4)) n += 500;
	o.push_back(Op{ M_FILL, 0, n, 10 });
	i64 room = n - 1000;
	int k = 1 + (int)r.below(6);
	for (int i = 0; i < k; i++) switch (r.below(8)) {
	case 0: o.push_back(Op{ M_FILL, 5 + (i64)r.below(3), room + 1 + (i64)r.below(20), 10 }); break;      // low keys, held back
	case 1: o.push_back(Op{ M_FILL, n * 10 - 200 + (i64)r.below(9), 10 + (i64)r.below(30), 10 }); break; // near the end
	case 2: o.push_back(Op{ M_FILL, 3, 1 + (i64)r.below(40), r.pick<i64>({ 1, 2, 3 }) }); break;
	case 3: if (r.one_in(3)) o.push_back(Op{ M_FILL, -2000, 990 + (i64)r.below(30), 1 }); else o.push_back(Op{ M_FILL, -20, 10, 1 }); break;
	case 4: o.push_back(Op{ M_REMOVE, (i64)r.below(1000), 1, 0 }); break;
	case 5: o.push_back(Op{ M_REMOVE, r.one_in(2) ? 5 : 10 * (i64)r.below((u64)n), 1, 0 }); break;
	case 6: o.push_back(Op{ M_ITER, 0, (i64)r.below(2), 0 }); break;
	default: o.push_back(Op{ M_GET, (i64)r.below(300), 0, 0 });
	}
	if (r.one_in(5)) { o.push_back(Op{ M_CLEAR, 0, 0, 0 }); o.push_back(Op{ M_FILL, 0, 20, 1 }); }
	p.thr.push_back(o);
	if (faulty) gen_oom(r, s, 9);
	p.env.cap = 60000000;
}

// ------------------------------------------------------------------ C20: bytes
enum { Y_SETRAW, Y_SETB, Y_SET16, Y_SET32, Y_SET64, Y_APPRAW, Y_APPB, Y_APP16, Y_APP32, Y_APP64, Y_VARINT, Y_TRUNC, Y_ENSURE, Y_COPY, Y_FAR, Y_SETD, Y_APPD, Y_READ, Y_READVAR, Y_NOPS };
const char* by_op(int c) { static const char* n[] = { "set", "set_byte", "set_int16", "set_int32", "set_int64", "append", "append_byte", "append_int16", "append_int32", "append_int64", "set_var_int", "truncate", "ensure", "copy", "set_far", "set_double", "append_double", "read", "get_var_int" }; return c >= 0 && c < Y_NOPS ? n[c] : "?"; }
void body_bytes(const Prog& p) {
	bool faulty = p.cfg[0];
	u32 cap = (u32)p.cfg[2];
	as_bytes* b = nullptr; u8* wrap = nullptr;
	std::vector<int> m;      // contents; -1: not specified
	u64 f = af();
	faults(faulty);
	switch (p.cfg[1]) {
	case 0: b = as_bytes_new(cap); break;
	case 1: b = as_bytes_init((as_bytes*)halloc(sizeof(as_bytes)), cap); break;
	case 2: b = (as_bytes*)halloc(sizeof(as_bytes)); x_by_inita(b, cap); break;
	case 3: case 4: {
		bool own = p.cfg[1] == 4;
		{ NoFaults nf; wrap = own ? (u8*)cf_malloc(cap ? cap : 1) : (u8*)halloc_end(cap); }
		for (u32 i = 0; i < cap; i++) { wrap[i] = (u8)(i * 3); m.push_back((u8)(i * 3)); }
		b = own ? as_bytes_new_wrap(wrap, cap, true) : as_bytes_init_wrap((as_bytes*)halloc(sizeof(as_bytes)), wrap, cap, false);
		if (!b && own) cf_free(wrap);
		break; }
	}
	faults(false);
	if (!b) { CHECK(af() != f, "spurious-failure", "creating a buffer failed though memory was plentiful"); probe("buffer creation failed"); check_no_leak("after failing to create a buffer"); return; }
	u32 capm = cap;
	auto verify = [&] {
		CHECK(b->size == m.size(), "wrong-size", "the buffer holds %u bytes instead of %zu", b->size, m.size());
		CHECK(b->capacity >= b->size, "wrong-size", "the buffer holds more than its capacity");
		if (b->capacity) CHECK(b->value && range_ok(b->value, b->capacity), "bad-storage", "the buffer's storage is smaller than its capacity %u", b->capacity);
		for (size_t i = 0; i < m.size(); i++) if (m[i] >= 0) CHECK(b->value[i] == m[i], "wrong-contents", "byte %zu of the buffer is %02x instead of %02x", i, b->value[i], m[i]);
	};
	verify();
	i64 serial = 1;
	for (auto& op : p.thr[0]) {
		u64 f0 = af();
		u64 v = (u64)(serial++) * 0x0102030405060701ull;
		if (op.c == 3) v |= 0x8080808080808080ull;
		i64 rawn = op.b >= 1000 && op.code != Y_VARINT && op.code != Y_ENSURE ? op.b : op.b % 40;
		u8* tmp = (u8*)halloc_end((size_t)rawn + 8);
		for (int i = 0; i < 8 + rawn; i++) tmp[i] = (u8)(v >> (8 * (i % 8)));
		bool ok = true; u32 ix = (u32)op.a, n = 0; bool app = (op.code >= Y_APPRAW && op.code <= Y_APP64) || op.code == Y_APPD;
		if (app) ix = b->size;
		bool write = true;
		faults(faulty);
		switch (op.code) {
		case Y_SETRAW: n = (u32)rawn; ok = as_bytes_set(b, ix, tmp, n); break;
		case Y_SETB: n = 1; ok = x_by_set_byte(b, ix, (u8)v); break;
		case Y_SET16: n = 2; ok = x_by_set_int16(b, ix, (int16_t)v); break;
		case Y_SET32: n = 4; ok = x_by_set_int32(b, ix, (i32)v); break;
		case Y_SET64: n = 8; ok = x_by_set_int64(b, ix, (i64)v); break;
		case Y_APPRAW: n = (u32)rawn; ok = as_bytes_append(b, tmp, n); break;
		case Y_APPB: n = 1; ok = x_by_append_byte(b, (u8)v); break;
		case Y_APP16: n = 2; ok = x_by_append_int16(b, (int16_t)v); break;
		case Y_APP32: n = 4; ok = x_by_append_int32(b, (i32)v); break;
		case Y_APP64: n = 8; ok = x_by_append_int64(b, (i64)v); break;
		case Y_SETD: { double d; memcpy(&d, tmp, 8); n = 8; ok = x_by_set_double(b, ix, d); break; }
		case Y_APPD: { double d; memcpy(&d, tmp, 8); n = 8; ok = x_by_append_double(b, d); break; }
		case Y_FAR: n = (u32)rawn; ix = 0xffffffffu - (u32)op.a; ok = as_bytes_set(b, ix, tmp, n); break;
		default: write = false;
		}
		if (write) {
			faults(false);
			bool fits = (u64)ix + n <= capm;
			CHECK(ok == fits, "wrong-result", "%s of %u bytes at %u with capacity %u %s", by_op(op.code), n, ix, capm, ok ? "succeeded" : "failed");
			if (ok) { while (m.size() < (size_t)ix + n) m.push_back(-1); for (u32 i = 0; i < n; i++) m[ix + i] = tmp[i]; }
		} else if (op.code == Y_VARINT) {
			u32 x = (u32)op.b; u8 enc[5]; u32 k = 0; { u32 y = x; while (y >= 0x80) { enc[k++] = (u8)(y | 0x80); y >>= 7; } enc[k++] = (u8)y; }
			u32 rc = as_bytes_set_var_int(b, ix, x);
			faults(false);
			bool fits = (u64)ix + k <= capm;
			CHECK(rc == (fits ? k : 0), "wrong-result", "writing a variable-length integer of %u bytes at %u with capacity %u gave %u", k, ix, capm, rc);
			if (fits) {
				for (u32 i = 0; i < k; i++) if (ix + i < m.size()) m[ix + i] = enc[i];
				u32 back = 0; CHECK(as_bytes_get_var_int(b, ix, &back) == k && back == x, "wrong-contents", "a variable-length integer reads back wrong");
			}
		} else if (op.code == Y_TRUNC) {
			u32 t = (u32)op.a; bool fits = t <= m.size();
			ok = as_bytes_truncate(b, t); faults(false);
			CHECK(ok == fits, "wrong-result", "truncating %u of %zu bytes %s", t, m.size(), ok ? "succeeded" : "failed");
			if (ok) m.resize(m.size() - t);
		} else if (op.code == Y_ENSURE) {
			u32 want = (u32)op.b; bool resize = op.c & 1;
			ok = as_bytes_ensure(b, want, resize); faults(false);
			if (want <= capm) CHECK(ok, "wrong-result", "asking for capacity that is there failed");
			else if (!resize) CHECK(!ok, "wrong-result", "a buffer that may not grow took more capacity");
			else CHECK(ok || af() != f0, "spurious-failure", "growing failed though memory was plentiful");
			if (ok && want > capm) { capm = want; CHECK(b->capacity >= want, "wrong-size", "growing to %u gave capacity %u", want, b->capacity); probe("buffer grew"); }
			if (!ok && af() != f0) probe("growing failed for lack of memory");
			capm = b->capacity;
		} else if (op.code == Y_COPY) {
			u32 n2 = (u32)rawn; u8* dst = (u8*)halloc_end(n2); memset(dst, 0x77, n2);
			if (op.c & 1) ix = 0xffffffffu - ix;
			u32 rc = as_bytes_copy(b, ix, dst, n2); faults(false);
			bool fits = (u64)ix + n2 <= m.size();
			CHECK(rc == (fits ? n2 : 0), "wrong-result", "reading %u bytes at %u of %zu gave %u", n2, ix, m.size(), rc);
			for (u32 i = 0; i < rc; i++) if (m[ix + i] >= 0) CHECK(dst[i] == m[ix + i], "wrong-contents", "byte %u reads back wrong", i);
			hfree(dst);
		}
		if (op.code == Y_READVAR) {
			if (op.c == 1 && op.b < 4) ix = 0xffffffffu - (u32)op.b;
			u32 got = 0x55aa55aa, want = 0, k = 0; bool ended = false;
			u32 rc = as_bytes_get_var_int(b, ix, &got); faults(false);
			for (u64 i = ix; i < b->capacity && !ended; i++) { if (k < 5) want |= (u32)(b->value[i] & 0x7f) << (7 * k); k++; ended = !(b->value[i] & 0x80); }
			if (!ended) { CHECK(rc == 0, "wrong-result", "reading a variable-length integer that does not end inside the buffer gave %u", rc); probe("unterminated integer read"); }
			else if (k <= 5) CHECK(rc == k && got == want, "wrong-contents", "a variable-length integer of %u bytes read as %u (%u bytes) instead of %u", k, got, rc, want);
		}
		if (op.code == Y_READ) {
			faults(false);
			u32 w = 1u << (op.b & 3); u8 got[8]; u32 rc;
			if (op.c & 1 && op.a == 3) ix = 0xfffffffeu;
			if (w == 1) { u8 x = 0; rc = x_by_get_byte(b, ix, &x); memcpy(got, &x, 1); }
			else if (w == 2) { int16_t x = 0; rc = x_by_get_int16(b, ix, &x); memcpy(got, &x, 2); }
			else if (w == 4) { i32 x = 0; rc = x_by_get_int32(b, ix, &x); memcpy(got, &x, 4); }
			else if (op.b & 4) { double x = 0; rc = x_by_get_double(b, ix, &x); memcpy(got, &x, 8); }
			else { i64 x = 0; rc = x_by_get_int64(b, ix, &x); memcpy(got, &x, 8); }
			bool fits = (u64)ix + w <= m.size();
			CHECK(rc == (fits ? w : 0), "wrong-result", "reading %u bytes at %u of %zu gave %u", w, ix, m.size(), rc);
			for (u32 i = 0; i < rc; i++) if (m[ix + i] >= 0) CHECK(got[i] == m[ix + i], "wrong-contents", "byte %u reads back wrong", i);
			CHECK(x_by_size(b) == m.size() && x_by_capacity(b) == capm && as_bytes_get(b) == b->value, "wrong-size", "the buffer's size or capacity reads wrong");
		}
		logf("%s(%lld,%lld) %s", by_op(op.code), (long long)op.a, (long long)op.b, af() != f0 ? "(allocation failed)" : "");
		note((u64)op.code * 2 + ok);
		hfree(tmp);
		verify();
	}
	as_val_val_destroy((as_val*)b);
	check_no_leak("after destroying the buffer");
}
void gen_bytes(Rng& r, Prog& p, Strategy& s) {
	gen_env(r, p.env);
	bool faulty = r.one_in(2);
	bool wide = r.one_in(12); i64 far = wide ? 700 : 24;
	p.cfg = { faulty, (i64)r.below(5), wide ? (i64)r.below(600) : r.pick<i64>({ 0, 1, 2, 7, 8, 16, 33 }) };
	std::vector<Op> o; int n = 2 + (int)r.below(25);
	for (int i = 0; i < n; i++) {
		Op op{ (i32)r.below(Y_NOPS), (i64)r.below((u64)far), (i64)r.below(40), (i64)r.below(4) };
		if (op.code == Y_ENSURE) op.b = (i64)r.below(100); else if (r.one_in(6)) { op.code = Y_ENSURE; op.c = 1; op.b = (i64)r.below(wide ? 900 : 120); }
		if (op.code == Y_VARINT) op.b = (i64)r.pick<u32>({ 0, 127, 128, 16383, 16384, 1u << 28, 0xffffffffu });
		if (op.code == Y_SETRAW || op.code == Y_APPRAW) op.b = r.pick<i64>({ 0, 1, 3, 8, 20 });
		o.push_back(op);
	}
	if (r.one_in(500)) {      // large buffers
		i64 cap = r.pick<i64>({ 255, 256, 1000, 1023, 1024, 2048, 4095, 4096, 4097, 8192, 32767, 32768, 65535, 65536, 65537, 70000 });
		p.cfg[2] = r.one_in(3) ? (i64)r.below(64) : cap + (i64)r.below(3) - 1;
		for (auto& op : o) {
			if (op.code == Y_ENSURE && r.one_in(2)) op.b = r.pick<i64>({ cap, cap + 1, cap * 2, cap + 100, 65536, 65537, 131072 });
			else if ((op.code == Y_SETRAW || op.code == Y_APPRAW || op.code == Y_COPY) && r.one_in(2)) op.b = std::max<i64>(1000, r.one_in(2) ? (i64)r.below((u64)cap + 2) : cap / 2 + (i64)r.below(4));
			if (op.code != Y_FAR && r.one_in(2)) op.a = r.one_in(2) ? cap - 9 + (i64)r.below(12) : r.one_in(2) ? (i64)r.below(40) : (i64)r.below((u64)cap);
			if (op.a < 0) op.a = 0;
		}
	}
	p.thr.push_back(o);
	if (faulty) gen_oom(r, s, 5);
	p.env.cap = 2000000;
}

// ------------------------------------------------------------------ C20: string builder
enum { S_APPEND, S_CHAR, S_BYTES, S_INT, S_UINT, S_INT64, S_UINT64, S_NEWLINE, S_RESET, S_NOPS };
const char* sb_op(int c) { static const char* n[] = { "append", "append_char", "append_bytes", "append_int", "append_uint", "append_int64", "append_uint64", "append_newline", "reset" }; return c >= 0 && c < S_NOPS ? n[c] : "?"; }
void body_sb(const Prog& p) {
	bool faulty = p.cfg[0]; u32 cap = (u32)p.cfg[2]; bool resize = p.cfg[3];
	as_string_builder* sb = (as_string_builder*)halloc(sizeof(as_string_builder));
	char* ext = nullptr;
	u64 f = af();
	faults(faulty);
	switch (p.cfg[1]) {
	case 0: as_string_builder_init(sb, cap, resize); break;
	case 1: if (!cap) cap = 1; x_sb_inita(sb, cap, resize); break;
	default: if (!cap) cap = 1; { NoFaults nf; ext = (char*)halloc_end(cap); } x_sb_assign(sb, cap, ext); resize = false;
	}
	faults(false);
	if (af() != f) probe("builder started without memory");
	bool crippled = af() != f;
	std::string m;
	auto content = [&]() -> std::string {
		CHECK(sb->data && range_ok(sb->data, (size_t)sb->length + 1), "bad-storage", "the builder's text is not inside its storage");
		CHECK(sb->data[sb->length] == 0, "not-terminated", "the builder's text is not terminated");
		size_t tl = text_at(sb->data, "the builder's text").size();
		CHECK(tl == sb->length, "wrong-length", "the builder's length is %u but its text has %zu characters", sb->length, tl);
		return std::string(sb->data, sb->length);
	};
	CHECK(content() == "", "wrong-contents", "a new builder is not empty");
	for (auto& op : p.thr[0]) {
		u64 f0 = af();
		std::string add; bool ok = true;
		char num[64];
		u8* raw = nullptr;
		switch (op.code) {
		case S_APPEND: case S_RESET: for (i64 i = 0; i < op.a; i++) add += (char)('a' + (i + op.b) % 26); break;
		case S_CHAR: add = std::string(1, (char)('A' + op.b % 26)); break;
		case S_BYTES: { raw = (u8*)halloc_end((size_t)op.a); add = "["; for (i64 i = 0; i < op.a; i++) { raw[i] = (u8)(op.b * 17 + i * 31); snprintf(num, sizeof num, "%s%02X", i ? " " : "", raw[i]); add += num; } add += "]"; break; }
		case S_INT: snprintf(num, sizeof num, "%d", (int)op.b); add = num; break;
		case S_UINT: snprintf(num, sizeof num, "%u", (u32)op.b); add = num; break;
		case S_INT64: snprintf(num, sizeof num, "%lld", (long long)op.b); add = num; break;
		case S_UINT64: snprintf(num, sizeof num, "%llu", (unsigned long long)op.b); add = num; break;
		case S_NEWLINE: add = "\n"; break;
		}
		char* src = (char*)halloc_end(add.size() + 1); memcpy(src, add.c_str(), add.size() + 1);
		faults(faulty);
		switch (op.code) {
		case S_APPEND: ok = as_string_builder_append(sb, src); break;
		case S_CHAR: ok = as_string_builder_append_char(sb, add[0]); break;
		case S_BYTES: ok = as_string_builder_append_bytes(sb, raw, (u32)op.a); break;
		case S_INT: ok = as_string_builder_append_int(sb, (int)op.b); break;
		case S_UINT: ok = as_string_builder_append_uint(sb, (u32)op.b); break;
		case S_INT64: ok = as_string_builder_append_int64(sb, op.b); break;
		case S_UINT64: ok = as_string_builder_append_uint64(sb, (u64)op.b); break;
		case S_NEWLINE: ok = x_sb_newline(sb); break;
		case S_RESET: x_sb_reset(sb); m = ""; add = ""; break;
		}
		faults(false);
		hfree(src); if (raw) hfree(raw);
		std::string got = content();
		logf("%s(%lld,%lld) = %d -> %u%s", sb_op(op.code), (long long)op.a, (long long)op.b, ok, sb->length, af() != f0 ? " (allocation failed)" : "");
		note((u64)op.code * 2 + ok);
		if (ok) CHECK(got == m + add, "wrong-contents", "after %s the text is \"%.80s\" instead of \"%.80s\"", sb_op(op.code), got.c_str(), (m + add).c_str());
		else {
			bool fits = m.size() + add.size() + 1 <= cap;
			if (resize) CHECK(af() != f0, "spurious-failure", "%s failed though memory was plentiful", sb_op(op.code));
			else CHECK(!fits || crippled, "spurious-failure", "%s failed though %zu characters fit into %u bytes", sb_op(op.code), m.size() + add.size(), cap);
			CHECK(got.compare(0, m.size(), m) == 0, "wrong-contents", "a failed %s changed what was there", sb_op(op.code));
			if (af() != f0) probe("append failed for lack of memory");
		}
		if (!resize) CHECK(got.size() < std::max(cap, 1u), "overfull", "a builder of %u bytes holds %zu characters", cap, got.size());
		m = got;
		if (p.cfg[1] == 2) for (;;) { CHECK(sb->data == ext, "bad-storage", "an assigned buffer was replaced"); break; }
	}
	as_string_builder_destroy(sb);
	check_no_leak("after destroying the builder");
}
void gen_sb(Rng& r, Prog& p, Strategy& s) {
	gen_env(r, p.env);
	bool faulty = r.one_in(2);
	p.cfg = { faulty, (i64)r.below(3), r.one_in(12) ? (i64)r.below(1100) : r.pick<i64>({ 0, 1, 2, 3, 8, 16, 40 }), !r.one_in(3) };
	std::vector<Op> o; int n = 1 + (int)r.below(16);
	bool wide = r.one_in(12);
	for (int i = 0; i < n; i++) o.push_back(Op{ (i32)(r.one_in(8) ? S_RESET : (int)r.below(S_RESET)), wide && r.one_in(2) ? r.pick<i64>({ 63, 100, 255, 256, 257, 511, 1023, 4097 }) : r.pick<i64>({ 0, 1, 2, 3, 7, 15, 16, 30 }), r.pick<i64>({ 0, 1, -1, 9, 10, 99, 100, -10, 12345, 2147483647, -2147483648ll, INT64_MAX, INT64_MIN }), 0 });
	p.env.cap = 100000;
	if (r.one_in(500)) {      // long texts
		bool huge = r.one_in(5);
		i64 len = huge ? r.pick<i64>({ 16384, 32767, 32768, 65534, 65535, 65536, 65537, 70000 }) : r.pick<i64>({ 1023, 1024, 2047, 4094, 4095, 4096, 4097, 5000, 8192 });
		if (r.one_in(2)) p.cfg[2] = len + (i64)r.below(3) - 1;
		for (auto& op : o) if (op.code == S_APPEND && r.one_in(2)) op.a = r.one_in(2) ? len : (i64)r.below((u64)len);
		o.insert(o.begin() + (long)r.below(std::min<u64>(o.size(), 3)), Op{ S_APPEND, len, 1, 0 });
		if (!huge) o.push_back(Op{ S_BYTES, len / 8, 3, 0 });
		p.env.cap = 10000000;
	}
	p.thr.push_back(o);
	if (faulty) gen_oom(r, s, 4);
}

Reg r1({ "array_list", "C19", 8, gen_list, body_list, list_op });
Reg r2({ "ordered_map", "C18", 120, gen_map, body_map, map_op });
Reg r3({ "ordered_map_big", "C18", 2, gen_map_big, body_map, map_op });
Reg r10({ "two_big_ordered_maps", "C18", 1, gen_two<gen_map_big>, body_two<body_map>, map_op });
Reg r4({ "bytes", "C20", 8, gen_bytes, body_bytes, by_op });
Reg r5({ "string_builder", "C20", 8, gen_sb, body_sb, sb_op });
Reg r6({ "two_array_lists", "C19", 1, gen_two<gen_list>, body_two<body_list>, list_op });
Reg r7({ "two_ordered_maps", "C18", 12, gen_two<gen_map>, body_two<body_map>, map_op });
Reg r8({ "two_bytes", "C20", 1, gen_two<gen_bytes>, body_two<body_bytes>, by_op });
Reg r9({ "two_string_builders", "C20", 1, gen_two<gen_sb>, body_two<body_sb>, sb_op });
} // namespace
