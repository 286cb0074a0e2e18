// C32, C33, C34: objects on the heap and in memory of the caller, vectors, record access.
#include "common.h"
#include "glue.h"
#include <functional>
#include <memory>
#include <aerospike/as_val.h>
#include <aerospike/as_aerospike.h>
#include <aerospike/as_arraylist.h>
#include <aerospike/as_arraylist_iterator.h>
#include <aerospike/as_boolean.h>
#include <aerospike/as_buffer.h>
#include <aerospike/as_bytes.h>
#include <aerospike/as_double.h>
#include <aerospike/as_geojson.h>
#include <aerospike/as_hashmap.h>
#include <aerospike/as_hashmap_iterator.h>
#include <aerospike/as_integer.h>
#include <aerospike/as_iterator.h>
#include <aerospike/as_msgpack_serializer.h>
#include <aerospike/as_orderedmap.h>
#include <aerospike/as_pair.h>
#include <aerospike/as_rec.h>
#include <aerospike/as_serializer.h>
#include <aerospike/as_stream.h>
#include <aerospike/as_string.h>
#include <aerospike/as_timer.h>
#include <aerospike/as_vector.h>
#include <citrusleaf/alloc.h>

namespace {

// ------------------------------------------------------------------ C32
enum { L_INT, L_DOUBLE, L_BOOL, L_STR, L_STRLEN, L_STRDUP, L_GEO, L_GEOLEN, L_GEODUP, L_BYTES, L_WRAP, L_LIST, L_MAP, L_HASHMAP, L_PAIR, L_REC, L_TIMER, L_SERIAL, L_MSGPACK,
	L_STREAM, L_AEROSPIKE, L_ITER, L_LISTITER, L_MAPITER, L_BUFFER, L_OWNLIST, L_OWNMAP, L_KINDS, L_HOLD = L_KINDS, L_RELEASE, L_LOOK, L_NOPS };
const char* life_op(int c) { static const char* n[] = { "integer", "double", "boolean", "string", "string_wlen", "string_strdup", "geojson", "geojson_wlen", "geojson_strdup", "bytes", "bytes_wrap", "list", "map", "hashmap", "pair", "record", "timer", "serializer", "msgpack",
	"stream", "aerospike", "iterator", "list_iterator", "map_iterator", "buffer", "list_with_hooks", "map_with_hooks", "reserve", "release", "look" }; return c >= 0 && c < L_NOPS ? n[c] : "?"; }

struct Obj {
	int kind; bool heap; void* p; void* inner = nullptr; bool inner_owned = false; std::string inner_bytes;
	int refs = 1, hook_calls = 0; bool val = true, refuse = false; i64 num = 0; std::string text;
	as_val* list = nullptr; int total = 0;
};
Obj* of_timer(const as_timer* t) { return (Obj*)t->source; }
void* hook_obj;
int timer_destroy(as_timer* t) { Obj* o = of_timer(t); o->hook_calls++; return o->refuse ? 7 : 0; }
bool timer_out(const as_timer* t) { return of_timer(t)->num & 1; }
uint64_t timer_slice(const as_timer* t) { return (u64)of_timer(t)->num; }
const as_timer_hooks timer_hooks = { timer_destroy, timer_out, timer_slice };
int stream_destroy(as_stream* s) { ((Obj*)s->data)->hook_calls++; return 0; }
as_val* stream_read(const as_stream* s) { return (as_val*)((Obj*)s->data)->num; }
as_stream_status stream_write(const as_stream* s, as_val* v) { ((Obj*)s->data)->num = (i64)v; return AS_STREAM_OK; }
const as_stream_hooks stream_hooks = { stream_destroy, stream_read, stream_write };
bool iter_destroy(as_iterator* i) { ((Obj*)i->data)->hook_calls++; return true; }
bool iter_more(const as_iterator* i) { return ((Obj*)i->data)->num & 1; }
const as_val* iter_next(as_iterator* i) { return (const as_val*)i->data; }
const as_iterator_hooks iter_hooks = { iter_destroy, iter_more, iter_next };
bool lrec_destroy(as_rec* r) { ((Obj*)r->data)->hook_calls++; return true; }
as_rec_hooks lrec_make() { as_rec_hooks h; memset(&h, 0, sizeof h); h.destroy = lrec_destroy; return h; }
const as_rec_hooks lrec_hooks = lrec_make();
int aero_exists(const as_aerospike* a, const as_rec*) { return (int)((Obj*)a->source)->num; }
as_aerospike_hooks aero_make() { as_aerospike_hooks h; memset(&h, 0, sizeof h); h.rec_exists = aero_exists; return h; }
const as_aerospike_hooks aero_hooks = aero_make();
as_serializer_hooks ser_hooks;
void ser_destroy(as_serializer* s);
// Lists and maps implemented by the caller; the object is found by its address.
std::vector<Obj*> own_objs;
Obj* own_obj(const void* p) { for (auto o : own_objs) if (o->p == p) return o; fail("hook-calls", "a hook was called with an object that is not there"); }
void ser_destroy(as_serializer* s) { own_obj(s)->hook_calls++; }
bool olist_destroy(as_list* l) { own_obj(l)->hook_calls++; return true; }
u32 olist_size(const as_list* l) { return (u32)own_obj(l)->num; }
bool omap_destroy(as_map* m) { own_obj(m)->hook_calls++; return true; }
u32 omap_size(const as_map* m) { return (u32)own_obj(m)->num; }
as_list_hooks olist_make() { as_list_hooks h; memset(&h, 0, sizeof h); h.destroy = olist_destroy; h.size = olist_size; return h; }
as_map_hooks omap_make() { as_map_hooks h; memset(&h, 0, sizeof h); h.destroy = omap_destroy; h.size = omap_size; return h; }
const as_list_hooks olist_hooks = olist_make();
const as_map_hooks omap_hooks = omap_make();

i64 number(i64 c) { static const i64 far[] = { INT64_MIN, INT64_MAX, -1, 0, -2, 1ll << 31, 1ll << 32, (1ll << 53) + 1, INT64_MIN + 2, INT64_MAX - 1 }; return c < 1000 ? c * 1234567 + 3 : far[(c - 1000) % 10]; }
// Creates an object in dirty memory; false if there was no memory for it, and then nothing may remain of it.
bool create(Obj& o, const Op& op) {
	u64 f0 = my_faults(F_ALLOC);
	size_t n = (size_t)op.b; std::string s; for (size_t i = 0; i < n; i++) s += (char)('a' + (u64)(op.c + (i64)i) % 26);
	o.kind = op.code; o.heap = op.a & 1; o.num = number(op.c); o.text = s;
	bool own = op.a & 2;
	auto room = [&](size_t k) { o.p = o.heap ? nullptr : halloc_end((k + 7) / 8 * 8); return o.p; };
	auto text = [&]() { NoFaults q; o.inner_owned = own; o.inner = own ? cf_malloc(s.size() + 1) : halloc_end(s.size() + 1); memcpy(o.inner, s.c_str(), s.size() + 1); o.inner_bytes = s + std::string(1, '\0'); return (char*)o.inner; };
	void *r = nullptr, *given = nullptr;
	switch (op.code) {
	case L_INT: given = room(sizeof(as_integer)); r = o.heap ? as_integer_new(o.num) : as_integer_init((as_integer*)given, o.num); break;
	case L_DOUBLE: given = room(sizeof(as_double)); r = o.heap ? as_double_new((double)o.num) : as_double_init((as_double*)given, (double)o.num); break;
	case L_BOOL: given = room(sizeof(as_boolean)); r = o.heap ? as_boolean_new(o.num & 1) : as_boolean_init((as_boolean*)given, o.num & 1); break;
	case L_STR: given = room(sizeof(as_string)); r = o.heap ? as_string_new(text(), own) : as_string_init((as_string*)given, text(), own); break;
	case L_STRLEN: given = room(sizeof(as_string)); r = o.heap ? as_string_new_wlen(text(), n, own) : as_string_init_wlen((as_string*)given, text(), n, own); break;
	case L_STRDUP: o.heap = true; r = as_string_new_strdup(s.c_str()); break;
	case L_GEO: given = room(sizeof(as_geojson)); r = o.heap ? as_geojson_new(text(), own) : as_geojson_init((as_geojson*)given, text(), own); break;
	case L_GEOLEN: given = room(sizeof(as_geojson)); r = o.heap ? as_geojson_new_wlen(text(), n, own) : as_geojson_init_wlen((as_geojson*)given, text(), n, own); break;
	case L_GEODUP: o.heap = true; r = as_geojson_new_strdup(s.c_str()); break;
	case L_BYTES: given = room(sizeof(as_bytes)); r = o.heap ? as_bytes_new((u32)n) : as_bytes_init((as_bytes*)given, (u32)n); break;
	case L_WRAP: { given = room(sizeof(as_bytes)); u8* t = (u8*)text(); r = o.heap ? as_bytes_new_wrap(t, (u32)n, own) : as_bytes_init_wrap((as_bytes*)given, t, (u32)n, own); break; }
	case L_LIST: given = room(sizeof(as_arraylist)); r = o.heap ? as_arraylist_new((u32)(n % 9), 2) : as_arraylist_init((as_arraylist*)given, (u32)(n % 9), 2); break;
	case L_MAP: given = room(sizeof(as_orderedmap)); r = o.heap ? as_orderedmap_new((u32)(n % 9) + 1) : as_orderedmap_init((as_orderedmap*)given, (u32)(n % 9) + 1); break;
	case L_HASHMAP: given = room(sizeof(as_hashmap)); r = o.heap ? as_hashmap_new((u32)(n % 9) + 1) : as_hashmap_init((as_hashmap*)given, (u32)(n % 9) + 1); break;
	case L_PAIR: {
		given = room(sizeof(as_pair)); as_val *a, *b; { NoFaults q; a = (as_val*)as_integer_new(o.num); b = (as_val*)as_string_new_strdup(s.c_str()); }
		r = o.heap ? as_pair_new(a, b) : as_pair_init((as_pair*)given, a, b);
		if (!r) { as_val_val_destroy(a); as_val_val_destroy(b); }
		break; }
	case L_REC: given = room(sizeof(as_rec)); r = o.heap ? as_rec_new(&o, &lrec_hooks) : as_rec_init((as_rec*)given, &o, &lrec_hooks); break;
	case L_TIMER: o.val = false; given = room(sizeof(as_timer)); r = o.heap ? as_timer_new(&o, &timer_hooks) : as_timer_init((as_timer*)given, &o, &timer_hooks); break;
	case L_SERIAL: o.val = false; given = room(sizeof(as_serializer)); r = o.heap ? as_serializer_new(&ser_hooks) : as_serializer_init((as_serializer*)given, &ser_hooks); break;
	case L_MSGPACK: o.val = false; given = room(sizeof(as_serializer)); r = o.heap ? as_msgpack_new() : as_msgpack_init((as_serializer*)given); break;
	case L_STREAM: o.val = false; given = room(sizeof(as_stream)); r = o.heap ? as_stream_new(&o, &stream_hooks) : as_stream_init((as_stream*)given, &o, &stream_hooks); break;
	case L_AEROSPIKE: o.val = false; given = room(sizeof(as_aerospike)); r = o.heap ? as_aerospike_new(&o, &aero_hooks) : as_aerospike_init((as_aerospike*)given, &o, &aero_hooks); break;
	case L_ITER: {
		o.val = false; as_iterator* it;
		if (o.heap) { NoFaults q; it = (as_iterator*)cf_malloc(sizeof(as_iterator)); } else it = (as_iterator*)room(sizeof(as_iterator)), given = it;
		r = as_iterator_init(it, o.heap, &o, &iter_hooks); break; }
	case L_LISTITER: {
		o.val = false; as_arraylist* l; { NoFaults q; l = as_arraylist_new(2, 1); for (size_t i = 0; i < n % 4; i++) as_arraylist_append_int64(l, (i64)i); }
		o.list = (as_val*)l; o.total = (int)(n % 4); given = room(sizeof(as_arraylist_iterator));
		r = o.heap ? as_arraylist_iterator_new(l) : as_arraylist_iterator_init((as_arraylist_iterator*)given, l);
		break; }
	case L_MAPITER: {
		o.val = false; as_orderedmap* m; { NoFaults q; m = as_orderedmap_new(2); for (size_t i = 0; i < n % 4; i++) as_orderedmap_set(m, (as_val*)as_integer_new((i64)i), (as_val*)as_integer_new((i64)i * 2)); }
		o.list = (as_val*)m; o.total = (int)(n % 4); given = room(sizeof(as_orderedmap_iterator));
		r = o.heap ? as_orderedmap_iterator_new(m) : as_orderedmap_iterator_init((as_orderedmap_iterator*)given, m);
		break; }
	case L_BUFFER: { o.val = false; o.heap = false; given = room(sizeof(as_buffer)); CHECK(as_buffer_init((as_buffer*)given) == 0, "wrong-result", "a buffer could not be initialised"); r = given; break; }
	case L_OWNLIST: given = room(sizeof(as_list)); r = o.heap ? as_list_new(&olist_hooks) : as_list_init((as_list*)given, &olist_hooks); break;
	case L_OWNMAP: given = room(sizeof(as_map)); r = o.heap ? as_map_new(&omap_hooks) : as_map_init((as_map*)given, &omap_hooks); break;
	}
	u64 f = my_faults(F_ALLOC) - f0;
	note(0x7000 + op.code * 4 + (r ? 1 : 0) + (f ? 2 : 0));
	if (!r) {
		CHECK(f, "not-created", "%s%s could not be created though memory was available", o.heap ? "a new " : "a ", life_op(op.code));
		if (given) hfree(given);
		if (o.inner) { if (o.inner_owned) { CHECK(is_live(o.inner), "released-early", "contents were released though the object was not created"); cf_free(o.inner); } else hfree(o.inner); }
		if (o.list) as_val_val_destroy(o.list);
		return false;
	}
	if (o.heap && op.code == L_AEROSPIKE) CHECK(range_ok(r, sizeof(as_aerospike)), "not-created", "a new aerospike is not in memory of the library"); else if (o.heap) CHECK(is_live(r), "not-created", "a new %s is not in memory of the library", life_op(op.code)); else CHECK(r == given, "not-created", "initialising gave another object");
	o.p = r;
	if (op.code == L_OWNLIST || op.code == L_OWNMAP || op.code == L_SERIAL) own_objs.push_back(&o);
	return true;
}
void look(Obj& o) {
	if (o.heap && o.kind != L_AEROSPIKE) CHECK(is_live(o.p), "released-early", "a %s was freed while held", life_op(o.kind));
	if (o.inner) {
		if (o.inner_owned) CHECK(is_live(o.inner), "released-early", "the contents of a %s were freed while held", life_op(o.kind));
		CHECK(!memcmp(o.inner, o.inner_bytes.data(), o.inner_bytes.size()), "changed", "the contents of a %s changed", life_op(o.kind));
	}
	as_val* v = (as_val*)o.p;
	auto same = [&](bool ok) { CHECK(ok, "wrong-contents", "a %s does not hold what it was created with", life_op(o.kind)); };
	if (o.val) CHECK((int)as_val_type(v) != 0, "wrong-contents", "a %s has no type", life_op(o.kind));
	switch (o.kind) {
	case L_INT: same(as_val_type(v) == AS_INTEGER && as_integer_get(as_integer_fromval(v)) == o.num && as_integer_getorelse(as_integer_fromval(v), 5) == o.num && as_integer_getorelse(nullptr, o.num) == o.num && as_integer_toint((as_integer*)v) == o.num && as_val_tobool(v) == (o.num != 0)); break;
	case L_DOUBLE: same(as_val_type(v) == AS_DOUBLE && as_double_get(as_double_fromval(v)) == (double)o.num && as_double_getorelse(as_double_fromval(v), 0.5) == (double)o.num && as_double_getorelse(nullptr, 0.5) == 0.5); break;
	case L_BOOL: same(as_val_type(v) == AS_BOOLEAN && as_boolean_get(as_boolean_fromval(v)) == (bool)(o.num & 1) && as_boolean_getorelse(as_boolean_fromval(v), !(o.num & 1)) == (bool)(o.num & 1) && as_boolean_getorelse(nullptr, o.num & 1) == (bool)(o.num & 1) && as_boolean_tobool((as_boolean*)v) == (bool)(o.num & 1) && as_val_tobool(v) == (bool)(o.num & 1)); break;
	case L_STR: case L_STRLEN: case L_STRDUP: same(as_val_type(v) == AS_STRING && as_string_len((as_string*)v) == o.text.size() && text_at(as_string_get(as_string_fromval(v)), "a string") == o.text && as_string_getorelse((as_string*)v, nullptr) == as_string_get((as_string*)v) && as_string_getorelse(nullptr, (char*)&o) == (char*)&o && as_string_tostring((as_string*)v) == as_string_get((as_string*)v)); break;
	case L_GEO: case L_GEOLEN: case L_GEODUP: same(as_val_type(v) == AS_GEOJSON && as_geojson_len((as_geojson*)v) == o.text.size() && text_at(as_geojson_get(as_geojson_fromval(v)), "a string") == o.text && as_geojson_getorelse((as_geojson*)v, nullptr) == as_geojson_get((as_geojson*)v) && as_geojson_getorelse(nullptr, (char*)&o) == (char*)&o); break;
	case L_BYTES: same(as_val_type(v) == AS_BYTES && x_by_size((as_bytes*)v) == 0 && x_by_capacity((as_bytes*)v) == o.text.size()); break;
	case L_WRAP: same(as_val_type(v) == AS_BYTES && x_by_size((as_bytes*)v) == o.text.size() && as_bytes_get((as_bytes*)v) == o.inner && as_bytes_getorelse((as_bytes*)v, nullptr) == o.inner && as_bytes_getorelse(nullptr, (u8*)&o) == (u8*)&o); break;
	case L_LIST: same(as_val_type(v) == AS_LIST && as_arraylist_size((as_arraylist*)v) == 0); break;
	case L_MAP: case L_HASHMAP: same(as_val_type(v) == AS_MAP && as_orderedmap_size((as_orderedmap*)v) == 0); break;
	case L_PAIR: same(as_val_type(v) == AS_PAIR && as_integer_get((as_integer*)as_pair_1((as_pair*)v)) == o.num && text_at(as_string_get((as_string*)as_pair_2((as_pair*)v)), "a string") == o.text); break;
	case L_OWNLIST: same(as_val_type(v) == AS_LIST && o.hook_calls == 0 && as_list_size((as_list*)v) == (u32)o.num && as_list_get((as_list*)v, 0) == nullptr); break;
	case L_OWNMAP: same(as_val_type(v) == AS_MAP && o.hook_calls == 0 && as_map_size((as_map*)v) == (u32)o.num && as_map_get((as_map*)v, nullptr) == nullptr); break;
	case L_REC: same(as_val_type(v) == AS_REC && as_rec_source((as_rec*)v) == &o && o.hook_calls == 0); break;
	case L_TIMER: same(as_timer_source((as_timer*)o.p) == &o && as_timer_timedout((as_timer*)o.p) == (bool)(o.num & 1) && as_timer_timeslice((as_timer*)o.p) == (u64)o.num); break;
	case L_SERIAL: same(((as_serializer*)o.p)->hooks == &ser_hooks && as_serializer_serialize_getsize((as_serializer*)o.p, nullptr) == 1); break;
	case L_MSGPACK: { NoFaults q; as_serializer* s = (as_serializer*)o.p; as_integer i; as_integer_init(&i, o.num); same(as_serializer_serialize_getsize(s, (as_val*)&i) == x_pack_size((as_val*)&i)); break; }
	case L_STREAM: { as_stream* s = (as_stream*)o.p; same(as_stream_source(s) == &o && as_stream_readable(s) && as_stream_writable(s) && as_stream_write(s, (as_val*)&o) == AS_STREAM_OK && as_stream_read(s) == (as_val*)&o && o.hook_calls == 0); break; }
	case L_AEROSPIKE: same(as_aerospike_rec_exists((as_aerospike*)o.p, nullptr) == (int)o.num && as_aerospike_rec_create((as_aerospike*)o.p, nullptr) == 1 && as_aerospike_set_context((as_aerospike*)o.p, nullptr, 1) == 2); break;
	case L_ITER: same(o.hook_calls == 0 && as_iterator_has_next((as_iterator*)o.p) == (bool)(o.num & 1) && as_iterator_next((as_iterator*)o.p) == (as_val*)&o); break;
	case L_LISTITER: case L_MAPITER: if (o.total) { same(as_iterator_has_next((as_iterator*)o.p)); const as_val* e = as_iterator_next((as_iterator*)o.p); same(e && range_ok(e, sizeof(as_val))); o.total--; } else same(!as_iterator_has_next((as_iterator*)o.p) && as_iterator_next((as_iterator*)o.p) == nullptr); break;
	}
}
void finish(Obj& o) {
	if (o.val) {
		while (o.refs > 1) { as_val* r = as_val_val_destroy((as_val*)o.p); CHECK(r == o.p, "wrong-result", "releasing a held %s said it was gone", life_op(o.kind)); o.refs--; look(o); }
		as_val* r = nullptr;
		switch (o.num & 2 ? o.kind : -1) {
		case L_INT: as_integer_destroy((as_integer*)o.p); break;
		case L_DOUBLE: as_double_destroy((as_double*)o.p); break;
		case L_BOOL: as_boolean_destroy((as_boolean*)o.p); break;
		case L_STR: case L_STRLEN: case L_STRDUP: as_string_destroy((as_string*)o.p); break;
		case L_GEO: case L_GEOLEN: case L_GEODUP: as_geojson_destroy((as_geojson*)o.p); break;
		case L_BYTES: case L_WRAP: as_bytes_destroy((as_bytes*)o.p); break;
		case L_LIST: if (o.num & 4) as_arraylist_destroy((as_arraylist*)o.p); else as_list_destroy((as_list*)o.p); break;
		case L_MAP: if (o.num & 4) as_orderedmap_destroy((as_orderedmap*)o.p); else as_map_destroy((as_map*)o.p); break;
		case L_HASHMAP: as_hashmap_destroy((as_hashmap*)o.p); break;
		case L_PAIR: as_pair_destroy((as_pair*)o.p); break;
		case L_REC: as_rec_destroy((as_rec*)o.p); break;
		case L_OWNLIST: as_list_destroy((as_list*)o.p); break;
		case L_OWNMAP: as_map_destroy((as_map*)o.p); break;
		default: r = as_val_val_destroy((as_val*)o.p);
		}
		CHECK(r == nullptr, "wrong-result", "releasing the last reference to a %s said it is still held", life_op(o.kind));
	} else switch (o.kind) {
	case L_TIMER:
		if (o.refuse) { CHECK(as_timer_destroy((as_timer*)o.p) == 7, "wrong-result", "a refused timer destruction was not reported"); look(o); o.refuse = false; o.hook_calls--; }
		CHECK(as_timer_destroy((as_timer*)o.p) == 0, "wrong-result", "destroying a timer failed"); break;
	case L_SERIAL: case L_MSGPACK: as_serializer_destroy((as_serializer*)o.p); break;
	case L_STREAM: as_stream_destroy((as_stream*)o.p); break;
	case L_AEROSPIKE: as_aerospike_destroy((as_aerospike*)o.p); break;
	case L_ITER: case L_LISTITER: case L_MAPITER: as_iterator_destroy((as_iterator*)o.p); break;
	case L_BUFFER: {
		as_buffer* b = (as_buffer*)o.p; CHECK(b->data == nullptr && b->size == 0 && b->capacity == 0, "wrong-contents", "an initialised buffer is not empty");
		if (o.num & 1) { NoFaults q; b->data = (u8*)cf_malloc(8); }
		void* d = b->data; as_buffer_destroy(b); CHECK(b->data == nullptr, "wrong-result", "a destroyed buffer still points to its bytes"); if (d) CHECK(!is_live(d), "not-released", "the bytes of a buffer were not released");
		as_buffer_destroy(b);
		break; }
	}
	if (o.kind == L_REC || o.kind == L_TIMER || o.kind == L_STREAM || o.kind == L_ITER || o.kind == L_OWNLIST || o.kind == L_OWNMAP || o.kind == L_SERIAL) CHECK(o.hook_calls == 1, "hook-calls", "the destroy hook of a %s ran %d times", life_op(o.kind), o.hook_calls);
	if (o.heap && o.kind != L_AEROSPIKE) CHECK(!is_live(o.p), "not-released", "a heap-allocated %s was not freed", life_op(o.kind));
	if (o.inner && o.inner_owned) CHECK(!is_live(o.inner), "not-released", "the contents of a %s were not freed", life_op(o.kind));
	if (o.inner && !o.inner_owned) { CHECK(!memcmp(o.inner, o.inner_bytes.data(), o.inner_bytes.size()), "changed", "contents belonging to the caller changed"); hfree(o.inner); }
	if (o.list) as_val_val_destroy(o.list);
	for (size_t i = 0; i < own_objs.size(); i++) if (own_objs[i] == &o) own_objs.erase(own_objs.begin() + (long)i--);
	if (!o.heap) hfree(o.p);
}
u32 ser_size(as_serializer*, const as_val*) { return 1; }
void body_life(const Prog& p) {
	own_objs.clear();
	memset(&ser_hooks, 0, sizeof ser_hooks); ser_hooks.serialize_getsize = ser_size; ser_hooks.destroy = ser_destroy;
	for (auto& ops : p.thr) {
		const std::vector<Op>* po = &ops;
		spawn([po] {
			std::vector<std::unique_ptr<Obj>> all;
			faults(true);
			for (auto& op : *po) {
				logf("%s", life_op(op.code));
				if (op.code < L_KINDS) {
					std::unique_ptr<Obj> o(new Obj()); o->refuse = op.a & 4;
					if (create(*o, op)) { look(*o); all.push_back(std::move(o)); }
				} else if (!all.empty()) {
					size_t i = (size_t)op.a % all.size(); Obj& o = *all[i];
					if (op.code == L_LOOK) look(o);
					else if (op.code == L_HOLD) { if (o.val) { CHECK(as_val_val_reserve((as_val*)o.p) == o.p, "wrong-result", "reserving gave another object"); o.refs++; } }
					else if (o.val && o.refs > 1) { CHECK(as_val_val_destroy((as_val*)o.p) == o.p, "wrong-result", "releasing a held %s said it was gone", life_op(o.kind)); o.refs--; look(o); }
					else { finish(o); all.erase(all.begin() + (long)i); }
				}
			}
			for (auto& o : all) finish(*o);
		});
	}
	join_all();
	faults(false);
	check_no_leak("after every object was released");
}
void gen_c32(Rng& r, Prog& p, Strategy& s) {
	gen_env(r, p.env);
	int nt = r.one_in(4) ? 2 : 1;
	for (int t = 0; t < nt; t++) {
		std::vector<Op> o; int n = 1 + (int)r.below(10);
		for (int i = 0; i < n; i++) o.push_back(Op{ (i32)(r.one_in(3) && i ? r.pick<int>({ L_HOLD, L_RELEASE, L_LOOK }) : (int)r.below(L_KINDS)), (i64)r.below(8), (i64)r.below(12), (i64)r.below(100) });
		for (auto& op : o) if (op.code < L_KINDS) {
			if (r.one_in(20)) op.c = 1000 + (i64)r.below(10);
			if (r.one_in(500)) op.b = r.pick<i64>({ 63, 64, 127, 128, 255, 256, 257, 1023, 1024, 4096, 32768, 65535, 65536, 65537 });
		}
		p.thr.push_back(o);
	}
	gen_sched(r, s, 300);
	if (r.one_in(2)) gen_oom(r, s, 12);
	p.env.cap = 200000;
}
Reg r32({ "life", "C32", 10, gen_c32, body_life, life_op });

// ------------------------------------------------------------------ C33
enum { Z_APPEND, Z_UNIQUE, Z_RESERVE, Z_SET, Z_REMOVE, Z_CLEAR, Z_ARRAY, Z_READ, Z_FILL, Z_NOPS };
const char* vec_op(int c) { static const char* n[] = { "append", "append_unique", "reserve", "set", "remove", "clear", "to_array", "read", "fill" }; return c >= 0 && c < Z_NOPS ? n[c] : "?"; }
struct VecRun { const std::vector<Op>* ops; size_t item; as_vector* v; bool oom; };
void vec_program(void* arg) {
	VecRun& R = *(VecRun*)arg; as_vector* v = R.v; size_t sz = R.item;
	std::vector<std::string> m;
	std::unique_ptr<u8, void (*)(void*)> item((u8*)halloc_end(sz), [](void* q) { hfree(q); });
	auto fill = [&](i64 x) { std::string s(sz, '\0'); for (size_t i = 0; i < sz; i++) s[i] = (char)(x * 31 + (i64)i * (x % 7 + 1)); memcpy(item.get(), s.data(), sz); return s; };
	auto whole = [&]() {
		CHECK(v->size == m.size(), "wrong-size", "a vector holds %u items, not %zu", v->size, m.size());
		for (size_t i = 0; i < m.size(); i++) {
			void* q = x_vec_get(v, (u32)i);
			CHECK(range_ok(q, sz), "out-of-storage", "item %zu of a vector lies outside its storage", i);
			CHECK(!memcmp(q, m[i].data(), sz), "wrong-item", "item %zu of %zu in a vector changed", i, m.size());
			if (sz >= sizeof(void*)) { void* e; memcpy(&e, m[i].data(), sizeof e); CHECK(x_vec_get_ptr(v, (u32)i) == e, "wrong-item", "item %zu of a vector read as a pointer differs", i); }
		}
	};
	if (R.oom) faults(true);
	for (auto& op : *R.ops) {
		note(0x7800 + op.code);
		std::string s = fill(op.a);
		switch (op.code) {
		case Z_APPEND: x_vec_append(v, item.get()); m.push_back(s); break;
		case Z_UNIQUE: {
			bool have = std::find(m.begin(), m.end(), s) != m.end(), got = as_vector_append_unique(v, item.get());
			CHECK(got == !have, "wrong-result", "appending an item %s gave %d", have ? "already there" : "not there", got);
			if (!have) m.push_back(s); break; }
		case Z_RESERVE: {
			u8* q = (u8*)x_vec_reserve(v); CHECK(range_ok(q, sz), "out-of-storage", "a reserved item lies outside the storage");
			for (size_t i = 0; i < sz; i++) CHECK(q[i] == 0, "wrong-item", "a reserved item is not zero");
			memcpy(q, item.get(), sz); m.push_back(s); break; }
		case Z_SET: if (!m.empty()) { size_t i = (size_t)op.b % m.size(); x_vec_set(v, (u32)i, item.get()); m[i] = s; } break;
		case Z_REMOVE: {
			u32 i = op.b % 13 == 12 ? op.a & 1 ? UINT32_MAX : 0x80000000u : (u32)(m.empty() ? op.b : op.b % (i64)(m.size() + 2)); bool ok = as_vector_remove(v, i);
			CHECK(ok == (i < m.size()), "wrong-result", "removing item %u of %zu gave %d", i, m.size(), ok);
			if (ok) m.erase(m.begin() + i); break; }
		case Z_FILL: for (i64 i = 0; i < op.b; i++) { s = fill(op.a + i); x_vec_append(v, item.get()); m.push_back(s); } break;
		case Z_CLEAR: x_vec_clear(v); m.clear(); break;
		case Z_ARRAY: {
			u32* k = (u32*)halloc(4); u8* a = (u8*)as_vector_to_array(v, k);
			CHECK(*k == m.size() && (m.empty() || (a && block_size(a) >= m.size() * sz)), "wrong-result", "the array of a vector of %zu items has %u", m.size(), *k);
			for (size_t i = 0; i < m.size(); i++) CHECK(!memcmp(a + i * sz, m[i].data(), sz), "wrong-item", "item %zu of an array differs", i);
			cf_free(a); hfree(k); break; }
		}
		whole();
	}
	if (R.oom) faults(false);
	as_vector_destroy(v);
}
void vec_body(const Prog& p, bool oom) {
	for (size_t t = 0; t < p.thr.size(); t++) {
		const Prog* pp = &p; size_t tt = t;
		spawn([pp, tt, oom] {
			const std::vector<Op>& ops = pp->thr[tt]; size_t item = (size_t)pp->cfg[0]; u32 cap = (u32)pp->cfg[1]; int how = (int)(pp->cfg[2] + (i64)tt) % 3;
			if (how == 2 && item * cap > 16384) how = 1;      // memory on the stack is small
			if (how == 2 && cap) {
				as_vector* v = (as_vector*)halloc_end(sizeof *v); VecRun R{ &ops, item, v, oom };
				x_vec_inita(v, (u32)item, cap, vec_program, &R);
				hfree(v);
			} else if (how == 1) {
				as_vector* v = as_vector_create((u32)item, cap); VecRun R{ &ops, item, v, oom }; vec_program(&R);
				CHECK(!is_live(v), "not-released", "a created vector was not released");
			} else { as_vector* v = (as_vector*)halloc_end(sizeof *v); as_vector_init(v, (u32)item, cap); VecRun R{ &ops, item, v, oom }; vec_program(&R); hfree(v); }
		});
	}
	join_all();
	check_no_leak("after the vectors were destroyed");
}
void body_vec(const Prog& p) { vec_body(p, false); }
void body_vec_oom(const Prog& p) { vec_body(p, true); }
void gen_vec_any(Rng& r, Prog& p, Strategy& s, bool oom) {
	gen_env(r, p.env);
	p.cfg = { r.one_in(12) ? 1 + (i64)r.below(300) : r.pick<i64>({ 1, 3, 4, 8, 16, 24, 100 }), r.one_in(15) ? 20 + (i64)r.below(150) : r.one_in(2) ? (i64)r.below(5) : (i64)r.below(20), (i64)r.below(3) };
	int nt = r.one_in(4) ? 2 : 1, grow = (int)r.below(3);
	i64 big = 0;
	if (!oom && r.one_in(1500)) {
		bool huge = r.one_in(20);
		big = huge ? r.pick<i64>({ 4096, 8192, 16384, 65536 }) : r.pick<i64>({ 127, 129, 254, 255, 256, 257, 258, 511, 513, 1000, 1024, 1500 });
		p.cfg[0] = huge ? (big > 9000 ? 4 : 16) : r.pick<i64>({ 2, 4, 8, 16, 64, 100, 257 });
		if (r.one_in(2)) p.cfg[1] = big + (i64)r.below(5) - 2;
		else if (huge) p.cfg[1] = big / 4;
		nt = 1;
	}
	for (int t = 0; t < nt; t++) {
		std::vector<Op> o; int n = 1 + (int)r.below(r.one_in(40) ? 400 : r.one_in(4) ? 60 : 15);
		for (int i = 0; i < n; i++) o.push_back(Op{ (i32)(grow && !r.one_in(3) ? r.pick<int>({ Z_APPEND, Z_UNIQUE, Z_RESERVE }) : (int)r.below(Z_NOPS)), (i64)r.below(r.one_in(2) ? 6 : 200), (i64)r.below(64), 0 });
		for (auto& op : o) if (op.code == Z_FILL) op.b = (i64)r.below(20);
		if (big) {      // more than 256 items, more than 64 KB
			o.resize(std::min<size_t>(o.size(), 30));
			for (auto& op : o) { if (op.code == Z_CLEAR) op.code = Z_UNIQUE; op.a = (i64)r.below((u64)big + 20); op.b = r.one_in(2) ? (i64)r.below((u64)big) : (i64)r.below(5); if (op.code == Z_FILL && !r.one_in(4)) op.b %= 20; }
			o.insert(o.begin() + (long)r.below(std::min<u64>(o.size(), 3)), Op{ Z_FILL, (i64)r.below(3), big - (i64)r.below(4), 0 });
		}
		p.thr.push_back(o);
	}
	gen_sched(r, s, 300);
	p.env.cap = big ? 60000000 : 4000000;
}
void gen_vec(Rng& r, Prog& p, Strategy& s) { gen_vec_any(r, p, s, false); }
void gen_vec_oom(Rng& r, Prog& p, Strategy& s) { gen_vec_any(r, p, s, true); gen_oom(r, s, 8); }
Reg r33({ "vector", "C33", 10, gen_vec, body_vec, vec_op });
Reg r33b({ "vector_without_memory", "C33", 1, gen_vec_oom, body_vec_oom, vec_op });

// ------------------------------------------------------------------ C34
enum { R_SETINT, R_SETDBL, R_SETSTR, R_SETVAL, R_GET, R_GETINT, R_GETDBL, R_GETSTR, R_GETGEO, R_GETAS, R_REMOVE, R_META, R_EACH, R_NAMES, R_NOPS };
const char* rec_op(int c) { static const char* n[] = { "set_int64", "set_double", "set_str", "set_value", "get", "get_int64", "get_double", "get_str", "get_geojson_str", "get_typed", "remove", "metadata", "foreach", "bin_names" }; return c >= 0 && c < R_NOPS ? n[c] : "?"; }
struct Bin { std::string name; as_val* v; std::string show; };
struct Rec { std::vector<Bin> bins; int calls = 0; as_val* asked = nullptr; std::string name; bool destroyed = false; bool refuse = false; u32 ttl = 7; };
Rec* of(const as_rec* r) { return (Rec*)r->data; }
as_val* rh_get(const as_rec* r, const char* n) { Rec* d = of(r); d->calls++; for (auto& b : d->bins) if (b.name == n) return b.v; return nullptr; }
int rh_set(const as_rec* r, const char* n, const as_val* v) {
	Rec* d = of(r); d->calls++; d->name = n; d->asked = (as_val*)v;
	CHECK(v, "no-value", "a record was told to set bin %s to nothing", n);
	if (d->refuse) { as_val_val_destroy((as_val*)v); return 5; }
	for (auto& b : d->bins) if (b.name == n) { as_val_val_destroy(b.v); b.v = (as_val*)v; return 0; }
	d->bins.push_back(Bin{ n, (as_val*)v, "" }); return 0;
}
int rh_remove(const as_rec* r, const char* n) { Rec* d = of(r); d->calls++; for (size_t i = 0; i < d->bins.size(); i++) if (d->bins[i].name == n) { as_val_val_destroy(d->bins[i].v); d->bins.erase(d->bins.begin() + (long)i); return 0; } return 3; }
bool rh_destroy(as_rec* r) { Rec* d = of(r); CHECK(!d->destroyed, "hook-calls", "a record was destroyed twice"); d->destroyed = true; for (auto& b : d->bins) as_val_val_destroy(b.v); d->bins.clear(); return true; }
uint32_t rh_ttl(const as_rec* r) { return of(r)->ttl; }
int rh_set_ttl(const as_rec* r, uint32_t t) { of(r)->ttl = t; return 0; }
uint64_t rh_lut(const as_rec*) { return 0x1122334455667788ull; }
uint16_t rh_gen(const as_rec*) { return 65533; }
uint32_t rh_size(const as_rec*) { return 0xfffffff1u; }
uint32_t rh_mem(const as_rec*) { return 12; }
uint32_t rh_dev(const as_rec*) { return 13; }
as_val* rh_key(const as_rec* r) { return (as_val*)r; }
const char* rh_setname(const as_rec*) { return "set"; }
uint16_t rh_numbins(const as_rec* r) { return (u16)of(r)->bins.size(); }
int rh_names(const as_rec* r, as_rec_bin_names_callback cb, void* u) { cb((char*)"abc", 3, 99, u); return 21; }
as_bytes* rh_digest(const as_rec* r) { return (as_bytes*)r; }
int rh_drop(const as_rec*) { return 31; }
bool rh_each(const as_rec* r, as_rec_foreach_callback cb, void* u) { for (auto& b : of(r)->bins) if (!cb(b.name.c_str(), b.v, u)) return false; return true; }
as_rec_hooks full_make() {
	as_rec_hooks h; memset(&h, 0, sizeof h);
	h.destroy = rh_destroy; h.get = rh_get; h.set = rh_set; h.remove = rh_remove; h.ttl = rh_ttl; h.set_ttl = rh_set_ttl; h.last_update_time = rh_lut; h.gen = rh_gen; h.size = rh_size; h.memory_size = rh_mem; h.device_size = rh_dev;
	h.key = rh_key; h.setname = rh_setname; h.numbins = rh_numbins; h.bin_names = rh_names; h.digest = rh_digest; h.drop_key = rh_drop; h.foreach = rh_each;
	return h;
}
const as_rec_hooks full_hooks = full_make();
const as_rec_hooks no_hooks = [] { as_rec_hooks h; memset(&h, 0, sizeof h); return h; }();
struct Mv { int t; i64 i; double d; std::string s; as_val* v; };
struct EachRun { int n, stop; };
bool each_cb(const char*, const as_val* v, void* u) { EachRun* e = borrow<EachRun>(u); CHECK(v, "wrong-bin", "an empty bin was visited"); return ++e->n != e->stop; }
void names_cb(char* s, uint32_t n, uint16_t l, void* u) { *borrow<int>(u) = s && n == 3 && l == 99; }
void body_rec(const Prog& p) {
	for (size_t t = 0; t < p.thr.size(); t++) {
		const std::vector<Op>* po = &p.thr[t]; bool heap = p.cfg[0] & 1, bare = p.cfg[0] & 2;
		spawn([po, heap, bare] {
			Rec d; std::vector<std::pair<std::string, Mv>> m;
			as_rec* room = heap ? nullptr : (as_rec*)halloc_end(sizeof(as_rec));
			const as_rec_hooks* hooks = bare ? &no_hooks : &full_hooks;
			faults(true); std::unique_ptr<NoFaults> q(new NoFaults());
			as_rec* r = heap ? as_rec_new(&d, hooks) : as_rec_init(room, &d, hooks);
			auto put = [&](const std::string& n, Mv v) { for (auto& e : m) if (e.first == n) { e.second = v; return; } m.push_back({ n, v }); };
			auto find = [&](const std::string& n) -> Mv* { for (auto& e : m) if (e.first == n) return &e.second; return nullptr; };
			for (auto& op : *po) {
				std::string n = "bin" + std::to_string(op.a % 4), s; if (op.a >= 4) n = std::string((size_t)op.a / 4, 'n') + std::to_string(op.a % 4); if (op.a % 4 == 3 && op.b % 3 == 1) n = ""; i64 len = op.b >= 1000 ? op.b : op.b % 30, num = op.b >= 100 && op.b < 110 ? number(op.b + 900) : op.b * 1000003; for (i64 i = 0; i < len; i++) s += (char)('a' + i % 26);
				const char* nm = n.c_str(); Mv* e = find(n);
				logf("%s %s", rec_op(op.code), nm); note(0x7a00 + op.code);
				u64 f0 = my_faults(F_ALLOC); int c0 = d.calls;
				auto after = [&](int rc, Mv v) {
					u64 f = my_faults(F_ALLOC) - f0; d.refuse = false;
					if (bare) { CHECK(rc == 1 && d.calls == c0, "wrong-result", "setting a bin of a record that cannot be set gave %d", rc); return; }
					if (f) { CHECK(rc != 0 && d.calls == c0, "no-value", "setting a bin without memory gave %d", rc); return; }
					if (op.c & 4) { CHECK(rc == 5, "wrong-result", "a refused bin gave %d", rc); return; }
					CHECK(rc == 0 && d.calls == c0 + 1 && d.name == n, "wrong-result", "setting a bin gave %d", rc);
					if (v.v) CHECK(d.asked == v.v, "wrong-bin", "another value was stored"); put(n, v);
				};
				switch (op.code) {
				case R_SETINT: { d.refuse = op.c & 4; q.reset(); int rc = as_rec_set_int64(r, nm, num); q.reset(new NoFaults()); after(rc, Mv{ AS_INTEGER, num, 0, "", nullptr }); break; }
				case R_SETDBL: { d.refuse = op.c & 4; q.reset(); int rc = as_rec_set_double(r, nm, (double)num / 3); q.reset(new NoFaults()); after(rc, Mv{ AS_DOUBLE, 0, (double)num / 3, "", nullptr }); break; }
				case R_SETSTR: { d.refuse = op.c & 4; q.reset(); int rc = as_rec_set_str(r, nm, s.c_str()); q.reset(new NoFaults()); after(rc, Mv{ AS_STRING, 0, 0, s, nullptr }); break; }
				case R_SETVAL: {
					d.refuse = op.c & 4; as_val* v; int rc, ty;
					switch (op.b % 8) {
					case 0: v = (as_val*)as_integer_new(op.b); rc = as_rec_set_integer(r, nm, (as_integer*)v); ty = AS_INTEGER; break;
					case 1: v = (as_val*)as_double_new(2.5); rc = as_rec_set_as_double(r, nm, (as_double*)v); ty = AS_DOUBLE; break;
					case 2: v = (as_val*)as_string_new_strdup(s.c_str()); rc = as_rec_set_string(r, nm, (as_string*)v); ty = AS_STRING; break;
					case 3: v = (as_val*)as_geojson_new_strdup(s.c_str()); rc = as_rec_set_geojson(r, nm, (as_geojson*)v); ty = AS_GEOJSON; break;
					case 4: v = (as_val*)as_bytes_new(4); rc = as_rec_set_bytes(r, nm, (as_bytes*)v); ty = AS_BYTES; break;
					case 5: v = (as_val*)as_arraylist_new(1, 1); rc = as_rec_set_list(r, nm, (as_list*)v); ty = AS_LIST; break;
					case 6: v = (as_val*)as_orderedmap_new(1); rc = as_rec_set_map(r, nm, (as_map*)v); ty = AS_MAP; break;
					default: v = (as_val*)as_boolean_new(op.b & 8); rc = as_rec_set(r, nm, v); ty = AS_BOOLEAN; break;
					}
					if (bare) as_val_val_destroy(v);
					after(rc, Mv{ ty, op.b, 2.5, s, v }); break; }
				case R_GET: { as_val* v = as_rec_get(r, nm); CHECK(!!v == !!e && (!e || !e->v || v == e->v), "wrong-bin", "reading a bin gave something else"); if (v) CHECK(is_live(v) && (int)as_val_type(v) == e->t, "wrong-bin", "reading a bin gave another type"); break; }
				case R_GETINT: { i64 x = as_rec_get_int64(r, nm); CHECK(x == (e && e->t == AS_INTEGER ? e->i : 0), "wrong-bin", "a bin reads as %lld", (long long)x); break; }
				case R_GETDBL: { double x = as_rec_get_double(r, nm); CHECK(x == (e && e->t == AS_DOUBLE ? e->d : 0.0), "wrong-bin", "a bin reads as %g", x); break; }
				case R_GETSTR: { char* x = as_rec_get_str(r, nm); bool is = e && e->t == AS_STRING; CHECK(!!x == is && (!is || text_at(x, "a bin") == e->s), "wrong-bin", "a bin reads as another text"); break; }
				case R_GETGEO: { char* x = as_rec_get_geojson_str(r, nm); bool is = e && e->t == AS_GEOJSON; CHECK(!!x == is && (!is || text_at(x, "a bin") == e->s), "wrong-bin", "a bin reads as another text"); break; }
				case R_GETAS: {
					static const int ty[] = { AS_INTEGER, AS_DOUBLE, AS_STRING, AS_GEOJSON, AS_BYTES, AS_LIST, AS_MAP }; int k = (int)(op.b % 7); void* x = nullptr;
					switch (k) { case 0: x = as_rec_get_integer(r, nm); break; case 1: x = as_rec_get_as_double(r, nm); break; case 2: x = as_rec_get_string(r, nm); break; case 3: x = as_rec_get_geojson(r, nm); break;
					case 4: x = as_rec_get_bytes(r, nm); break; case 5: x = as_rec_get_list(r, nm); break; default: x = as_rec_get_map(r, nm); break; }
					bool is = e && e->t == ty[k]; CHECK(!!x == is && (!is || !e->v || x == e->v), "wrong-bin", "a bin of type %d read as type %d gave %s", e ? e->t : 0, ty[k], x ? "a value" : "nothing"); break; }
				case R_REMOVE: { int rc = as_rec_remove(r, nm); CHECK(rc == (bare ? 1 : e ? 0 : 3), "wrong-result", "removing a bin gave %d", rc); if (e && !bare) m.erase(std::find_if(m.begin(), m.end(), [&](auto& q) { return q.first == n; })); break; }
				case R_META:
					if (bare) CHECK(as_rec_ttl(r) == 0 && as_rec_gen(r) == 0 && as_rec_size(r) == 0 && as_rec_key(r) == nullptr && as_rec_digest(r) == nullptr && as_rec_numbins(r) == 0 && as_rec_setname(r) == nullptr && as_rec_set_ttl(r, 3) == 0, "wrong-result", "a record without functions has metadata");
					else {
						u32 x = op.b % 5 == 4 ? UINT32_MAX : (u32)op.b * 77777; CHECK(as_rec_set_ttl(r, x) == 0 && as_rec_ttl(r) == x, "wrong-result", "a record's time to live differs");
						CHECK(as_rec_gen(r) == 65533 && as_rec_size(r) == 0xfffffff1u && as_rec_memory_size(r) == 12 && as_rec_device_size(r) == 13 && as_rec_last_update_time(r) == 0x1122334455667788ull && as_rec_key(r) == (as_val*)r && as_rec_digest(r) == (as_bytes*)r && as_rec_numbins(r) == m.size() && !strcmp(as_rec_setname(r), "set") && as_rec_drop_key(r) == 31, "wrong-result", "a record's metadata differs");
					}
					CHECK(as_rec_source(r) == &d && as_rec_toval(r) == (as_val*)r && as_rec_fromval((as_val*)r) == r, "wrong-result", "a record is another record"); break;
				case R_EACH: { EachRun x{ 0, op.b % 3 ? -1 : 1 }; bool ok = as_rec_foreach(r, each_cb, lend(&x, op.a % 3 == 0)); bool all = x.stop < 0 || m.empty(); CHECK(bare ? !ok && !x.n : ok == all && x.n == (all ? (int)m.size() : 1), "wrong-result", "visiting %zu bins gave %d and %d", m.size(), x.n, ok); break; }
				case R_NAMES: { int got = 0, rc = as_rec_bin_names(r, names_cb, lend(&got, op.a % 3 == 0)); CHECK(bare ? rc == 0 && !got : rc == 21 && got, "wrong-result", "reading bin names gave %d", rc); break; }
				}
			}
			as_rec_destroy(r);
			if (!bare) CHECK(d.destroyed, "hook-calls", "a record was not destroyed");
			if (room) hfree(room);
		});
	}
	join_all();
	check_no_leak("after the records were released");
}
void gen_rec(Rng& r, Prog& p, Strategy& s) {
	gen_env(r, p.env);
	p.cfg.push_back(r.one_in(10) ? 2 + (i64)r.below(2) : (i64)r.below(2));
	int nt = r.one_in(5) ? 2 : 1;
	for (int t = 0; t < nt; t++) {
		std::vector<Op> o; int n = 1 + (int)r.below(14);
		for (int i = 0; i < n; i++) o.push_back(Op{ (i32)(r.one_in(2) ? (int)r.below(R_SETVAL + 1) : (int)r.below(R_NOPS)), (i64)r.below(4), (i64)r.below(64), (i64)(r.one_in(6) ? 4 : 0) });
		for (auto& op : o) {
			if (r.one_in(20)) op.b = 100 + (i64)r.below(10);
			if (r.one_in(500)) op.b = r.pick<i64>({ 1000, 1023, 1024, 4095, 4096, 32768, 65535, 65536, 70000 });
		}
		if (r.one_in(100)) { i64 k = r.pick<i64>({ 1, 14, 15, 16, 31, 32, 127, 128, 255, 256, 1000 }); for (auto& op : o) if (r.one_in(2)) op.a += k * 4; }
		p.thr.push_back(o);
	}
	gen_sched(r, s, 300);
	if (r.one_in(2)) gen_oom(r, s, 8);
	p.env.cap = 200000;
}
Reg r34({ "record", "C34", 10, gen_rec, body_rec, rec_op });

}
