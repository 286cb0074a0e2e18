// C35: interfaces whose implementation is supplied by the caller. C36: directories.
#include "common.h"
#include "glue_hooks.h"
#include <dirent.h>
#include <errno.h>
#include <sys/stat.h>

namespace {

// ------------------------------------------------------------------ C35
enum { H_ST_READ, H_ST_WRITE, H_AS_CREATE, H_AS_UPDATE, H_AS_EXISTS, H_AS_REMOVE, H_AS_LOG, H_AS_TIME, H_AS_CONTEXT, H_AS_CONFIG, H_TM_TIMEDOUT, H_TM_SLICE,
	H_MO_DESTROY, H_MO_CONFIGURE, H_MO_UPDATE, H_MO_VALIDATE, H_MO_RECORD, H_MO_STREAM, H_IT_HAS, H_IT_NEXT, H_SE_SERIALIZE, H_SE_PRESIZED, H_SE_DESERIALIZE, H_SE_SIZE, H_NOPS };
const char* h_op(int c) { static const char* n[] = { "stream_read", "stream_write", "record_create", "record_update", "record_exists", "record_remove", "log", "current_time", "set_context", "get_config", "timedout", "timeslice",
	"module_destroy", "module_configure", "module_update", "module_validate", "module_apply_record", "module_apply_stream", "iterator_has_next", "iterator_next", "serialize", "serialize_presized", "deserialize", "serialized_size" }; return c >= 0 && c < H_NOPS ? n[c] : "?"; }
struct Seen { int calls = 0, which = -1; std::vector<u64> args; u64 answer = 0; };
Seen seen[MAXT];
u64 W(const void* p) { return (u64)p; }
u64 arrived(int which, std::vector<u64> a) {
	Seen& s = seen[self()];
	s.calls++; s.which = which; s.args = a;
	if (fault_now(F_IMPL)) s.answer = ~s.answer;
	yield();
	return seen[self()].answer;
}
as_val* ih_read(const as_stream* s) { return (as_val*)arrived(H_ST_READ, { W(s) }); }
as_stream_status ih_write(const as_stream* s, as_val* v) { return (as_stream_status)arrived(H_ST_WRITE, { W(s), W(v) }); }
int ih_create(const as_aerospike* a, const as_rec* r) { return (int)arrived(H_AS_CREATE, { W(a), W(r) }); }
int ih_update(const as_aerospike* a, const as_rec* r) { return (int)arrived(H_AS_UPDATE, { W(a), W(r) }); }
int ih_exists(const as_aerospike* a, const as_rec* r) { return (int)arrived(H_AS_EXISTS, { W(a), W(r) }); }
int ih_remove(const as_aerospike* a, const as_rec* r) { return (int)arrived(H_AS_REMOVE, { W(a), W(r) }); }
int ih_log(const as_aerospike* a, const char* n, const int l, const int v, const char* m) { return (int)arrived(H_AS_LOG, { W(a), W(n), (u64)(i64)l, (u64)(i64)v, W(m) }); }
cf_clock ih_time(const as_aerospike* a) { return (cf_clock)arrived(H_AS_TIME, { W(a) }); }
int ih_context(const as_aerospike* a, const as_rec* r, const uint32_t c) { return (int)arrived(H_AS_CONTEXT, { W(a), W(r), c }); }
int ih_config(const as_aerospike* a, const as_rec* r, const char* n) { return (int)arrived(H_AS_CONFIG, { W(a), W(r), W(n) }); }
bool ih_timedout(const as_timer* t) { return arrived(H_TM_TIMEDOUT, { W(t) }) & 1; }
uint64_t ih_slice(const as_timer* t) { return arrived(H_TM_SLICE, { W(t) }); }
int ih_mdestroy(as_module* m) { return (int)arrived(H_MO_DESTROY, { W(m) }); }
int ih_mupdate(as_module* m, as_module_event* e) {
	// A configuration event is made by the library.
	if (e->type == AS_MODULE_EVENT_CONFIGURE) {
		void* c = e->data.config;
		int a = (int)arrived(H_MO_CONFIGURE, { W(m), W(c) });
		CHECK(e->type == AS_MODULE_EVENT_CONFIGURE && e->data.config == c, "wrong-arguments", "the configuration changed while the implementation looked at it");
		return a;
	}
	return (int)arrived(H_MO_UPDATE, { W(m), W(e) });
}
int ih_validate(as_module* m, as_aerospike* a, const char* f, const char* c, uint32_t n, as_module_error* e) { return (int)arrived(H_MO_VALIDATE, { W(m), W(a), W(f), W(c), n, W(e) }); }
int ih_record(as_module* m, as_udf_context* x, const char* f, const char* g, as_rec* r, as_list* l, as_result* s) { return (int)arrived(H_MO_RECORD, { W(m), W(x), W(f), W(g), W(r), W(l), W(s) }); }
int ih_stream(as_module* m, as_udf_context* x, const char* f, const char* g, as_stream* i, as_list* l, as_stream* o, as_result* s) { return (int)arrived(H_MO_STREAM, { W(m), W(x), W(f), W(g), W(i), W(l), W(o), W(s) }); }
bool ih_has(const as_iterator* i) { return arrived(H_IT_HAS, { W(i) }) & 1; }
const as_val* ih_next(as_iterator* i) { return (const as_val*)arrived(H_IT_NEXT, { W(i) }); }
int ih_serialize(as_serializer* s, const as_val* v, as_buffer* b) { return (int)arrived(H_SE_SERIALIZE, { W(s), W(v), W(b) }); }
int32_t ih_presized(as_serializer* s, const as_val* v, uint8_t* b) { return (int)arrived(H_SE_PRESIZED, { W(s), W(v), W(b) }); }
int ih_deserialize(as_serializer* s, as_buffer* b, as_val** v) { return (int)arrived(H_SE_DESERIALIZE, { W(s), W(b), W(v) }); }
uint32_t ih_size(as_serializer* s, const as_val* v) { return (uint32_t)arrived(H_SE_SIZE, { W(s), W(v) }); }

// The objects are set up with some of their functions missing.
struct Objects {
	as_stream st; as_aerospike as; as_timer tm; as_module mo; as_iterator it; as_serializer se;
	as_stream_hooks sth; as_aerospike_hooks ash; as_timer_hooks tmh; as_module_hooks moh; as_iterator_hooks ith; as_serializer_hooks seh;
};
void set_up(Objects* o, int missing, bool no_tables) {
	memset(o, 0, sizeof *o);
#define PUT(table, field, fn, op) o->table.field = missing == op ? nullptr : fn
	PUT(sth, read, ih_read, H_ST_READ); PUT(sth, write, ih_write, H_ST_WRITE);
	PUT(ash, rec_create, ih_create, H_AS_CREATE); PUT(ash, rec_update, ih_update, H_AS_UPDATE); PUT(ash, rec_exists, ih_exists, H_AS_EXISTS); PUT(ash, rec_remove, ih_remove, H_AS_REMOVE);
	PUT(ash, log, ih_log, H_AS_LOG); PUT(ash, get_current_time, ih_time, H_AS_TIME); PUT(ash, set_context, ih_context, H_AS_CONTEXT); PUT(ash, get_config, ih_config, H_AS_CONFIG);
	PUT(tmh, timedout, ih_timedout, H_TM_TIMEDOUT); PUT(tmh, timeslice, ih_slice, H_TM_SLICE);
	PUT(moh, destroy, ih_mdestroy, H_MO_DESTROY); PUT(moh, validate, ih_validate, H_MO_VALIDATE); PUT(moh, apply_record, ih_record, H_MO_RECORD); PUT(moh, apply_stream, ih_stream, H_MO_STREAM);
	o->moh.update = missing == H_MO_UPDATE || missing == H_MO_CONFIGURE ? nullptr : ih_mupdate;
	PUT(ith, has_next, ih_has, H_IT_HAS); PUT(ith, next, ih_next, H_IT_NEXT);
	PUT(seh, serialize, ih_serialize, H_SE_SERIALIZE); PUT(seh, serialize_presized, ih_presized, H_SE_PRESIZED); PUT(seh, deserialize, ih_deserialize, H_SE_DESERIALIZE); PUT(seh, serialize_getsize, ih_size, H_SE_SIZE);
#undef PUT
	bool t = !no_tables;
	CHECK(x_st_init(&o->st, o, t ? &o->sth : nullptr) == &o->st && as_aerospike_init(&o->as, o, t ? &o->ash : nullptr) == &o->as && as_timer_init(&o->tm, o, t ? &o->tmh : nullptr) == &o->tm
		&& as_iterator_init(&o->it, false, o, t ? &o->ith : nullptr) == &o->it && as_serializer_init(&o->se, t ? &o->seh : nullptr) == &o->se, "not-set-up", "initialising an interface object gave another object");
	o->mo.source = o; o->mo.hooks = t ? &o->moh : nullptr;
}
void one_call(Objects* o, const Op& op, bool reaches) {
	// Arguments are told apart by their addresses only: nothing may look into them.
	static char place[16];
	int k = (int)(op.a & 3);
	auto at = [&](int i) { return mix((u64)op.a * 31 + (u64)i, (u64)op.b) % 8 == 0 ? nullptr : (void*)&place[(i + k) % 8]; };
	bool gone = op.c == 1;      // no object at all
	Seen& s = seen[self()];
	s = Seen(); s.answer = (u64)op.b;
	u64 got = 0, dflt = 1; std::vector<u64> want;
	u32 num = op.a % 16 == 15 ? UINT32_MAX : op.a % 16 == 14 ? 0 : (u32)op.a;
	as_stream* st = gone ? nullptr : &o->st; as_aerospike* as = gone ? nullptr : &o->as; as_timer* tm = gone ? nullptr : &o->tm; as_module* mo = gone ? nullptr : &o->mo; as_iterator* it = gone ? nullptr : &o->it; as_serializer* se = gone ? nullptr : &o->se;
	enum { NARROW, EXACT, YESNO, UNSIGNED } form = NARROW;
	const as_rec* rec = (const as_rec*)at(0); const char* nm = (const char*)at(1); const char* tx = (const char*)at(2);
	switch (op.code) {
	case H_ST_READ: got = W(x_st_read(st)); form = EXACT; dflt = 0; want = { W(st) }; CHECK(x_st_readable(st) == reaches, "wrong-answer", "a stream that can%s be read says otherwise", reaches ? "" : "not"); break;
	case H_ST_WRITE: got = (u64)(i64)(i32)x_st_write(st, (as_val*)at(0)); dflt = AS_STREAM_ERR; want = { W(st), W(at(0)) }; CHECK(x_st_writable(st) == reaches, "wrong-answer", "a stream that can%s be written says otherwise", reaches ? "" : "not"); break;
	case H_AS_CREATE: got = (u64)(i64)x_as_rec_create(as, rec); want = { W(as), W(rec) }; break;
	case H_AS_UPDATE: got = (u64)(i64)x_as_rec_update(as, rec); want = { W(as), W(rec) }; break;
	case H_AS_EXISTS: got = (u64)(i64)x_as_rec_exists(as, rec); want = { W(as), W(rec) }; break;
	case H_AS_REMOVE: got = (u64)(i64)x_as_rec_remove(as, rec); want = { W(as), W(rec) }; break;
	case H_AS_LOG: got = (u64)(i64)x_as_log(as, nm, (int)num, (int)(num ^ 5), tx); want = { W(as), W(nm), (u64)(i64)(int)num, (u64)(i64)(int)(num ^ 5), W(tx) }; break;
	case H_AS_TIME: got = x_as_time(as); form = EXACT; dflt = 0; want = { W(as) }; break;
	case H_AS_CONTEXT: got = (u64)(i64)x_as_set_context(as, rec, num); dflt = 2; want = { W(as), W(rec), num }; break;
	case H_AS_CONFIG: got = (u64)(i64)x_as_get_config(as, rec, nm); dflt = 0; want = { W(as), W(rec), W(nm) }; break;
	case H_TM_TIMEDOUT: got = as_timer_timedout(tm); form = YESNO; dflt = 0; want = { W(tm) }; break;
	case H_TM_SLICE: got = as_timer_timeslice(tm); form = EXACT; dflt = 0; want = { W(tm) }; break;
	case H_MO_DESTROY: got = (u64)(i64)as_module_destroy(mo); want = { W(mo) }; break;
	case H_MO_CONFIGURE: got = (u64)(i64)as_module_configure(mo, at(3)); want = { W(mo), W(at(3)) }; break;
	case H_MO_UPDATE: {
		as_module_event* e = (as_module_event*)halloc(sizeof *e); memset(e, 0, sizeof *e); e->type = (as_module_event_type)(1 + num % 4); e->data.filename = nm;
		got = (u64)(i64)as_module_update(mo, e); want = { W(mo), W(e) }; hfree(e); break; }
	case H_MO_VALIDATE: got = (u64)(i64)as_module_validate(mo, (as_aerospike*)at(0), nm, tx, num, (as_module_error*)at(4)); want = { W(mo), W(at(0)), W(nm), W(tx), num, W(at(4)) }; break;
	case H_MO_RECORD: got = (u64)(i64)as_module_apply_record(mo, (as_udf_context*)at(3), nm, tx, (as_rec*)at(0), (as_list*)at(4), (as_result*)at(5)); want = { W(mo), W(at(3)), W(nm), W(tx), W(at(0)), W(at(4)), W(at(5)) }; break;
	case H_MO_STREAM: got = (u64)(i64)as_module_apply_stream(mo, (as_udf_context*)at(3), nm, tx, (as_stream*)at(0), (as_list*)at(4), (as_stream*)at(6), (as_result*)at(5)); want = { W(mo), W(at(3)), W(nm), W(tx), W(at(0)), W(at(4)), W(at(6)), W(at(5)) }; break;
	case H_IT_HAS: got = x_it_has_next(it); form = YESNO; dflt = 0; want = { W(it) }; break;
	case H_IT_NEXT: got = W(x_it_next(it)); form = EXACT; dflt = 0; want = { W(it) }; break;
	case H_SE_SERIALIZE: got = (u64)(i64)x_ser_serialize(se, (as_val*)at(0), (as_buffer*)at(1)); want = { W(se), W(at(0)), W(at(1)) }; break;
	case H_SE_PRESIZED: got = (u64)(i64)x_ser_presized(se, (as_val*)at(0), (u8*)at(1)); want = { W(se), W(at(0)), W(at(1)) }; break;
	case H_SE_DESERIALIZE: got = (u64)(i64)x_ser_deserialize(se, (as_buffer*)at(1), (as_val**)at(0)); want = { W(se), W(at(1)), W(at(0)) }; break;
	case H_SE_SIZE: got = x_ser_getsize(se, (as_val*)at(0)); form = UNSIGNED; want = { W(se), W(at(0)) }; break;
	}
	Seen r = seen[self()];
	note(0x8000 + (u64)op.code * 4 + (reaches ? 1 : 0)); note(got & 0xff);
	if (!reaches) {
		CHECK(r.calls == 0, "called", "%s reached a function of an implementation that does not have it", h_op(op.code));
		CHECK(got == dflt, "wrong-answer", "%s without an implementation gave %lld", h_op(op.code), (long long)got);
		probe("call without an implementation");
		return;
	}
	CHECK(r.calls == 1, "calls", "%s reached the implementation %d times", h_op(op.code), r.calls);
	CHECK(r.which == op.code, "wrong-function", "%s reached %s", h_op(op.code), h_op(r.which));
	CHECK(r.args == want, "wrong-arguments", "%s did not pass on its arguments", h_op(op.code));
	u64 answer = form == EXACT ? r.answer : form == YESNO ? r.answer & 1 : form == UNSIGNED ? (u32)r.answer : (u64)(i64)(i32)r.answer;
	CHECK(got == answer, "wrong-answer", "%s gave %lld though the implementation answered %lld", h_op(op.code), (long long)got, (long long)answer);
}
void body_hooks(const Prog& p) {
	Objects* o = (Objects*)halloc_end(sizeof(Objects));
	int missing = (int)p.cfg[0]; bool none = p.cfg[1];
	set_up(o, missing, none);
	faults(true);
	for (size_t t = 0; t < p.thr.size(); t++) {
		const std::vector<Op>* ops = &p.thr[t];
		spawn([o, ops, missing, none] {
			for (auto& op : *ops) {
				int f = op.code == H_MO_CONFIGURE ? H_MO_UPDATE : op.code;
				bool reaches = !none && op.c != 1 && f != (missing == H_MO_CONFIGURE ? H_MO_UPDATE : missing);
				one_call(o, op, reaches);
				logf("%s", h_op(op.code));
			}
		});
	}
	join_all();
	faults(false);
	CHECK(x_st_source(&o->st) == o && x_tm_source(&o->tm) == o && as_module_source(&o->mo) == o && !x_st_source(nullptr) && !x_tm_source(nullptr) && !as_module_source(nullptr), "wrong-answer", "an interface object gives another source than it was made with");
	hfree(o);
	check_no_leak("after the calls");
}
void gen_hooks(Rng& r, Prog& p, Strategy& s) {
	gen_env(r, p.env);
	p.cfg = { r.one_in(2) ? (i64)r.below(H_NOPS) : -1, r.one_in(8) };
	int nt = r.one_in(2) ? 1 : 2 + (int)r.below(2);
	for (int t = 0; t < nt; t++) {
		std::vector<Op> o; int n = 1 + (int)r.below(8);
		for (int i = 0; i < n; i++) o.push_back(Op{ (i32)(p.cfg[0] >= 0 && r.one_in(3) ? p.cfg[0] : (i64)r.below(H_NOPS)), (i64)r.below(r.one_in(4) ? 0xffffffffu : 200), r.one_in(3) ? 0 : r.one_in(2) ? r.pick<i64>({ 1, 2, -1, 1000, 0x100000001ll, INT64_MAX, -2147483648ll }) : (i64)r.next(), r.one_in(10) ? 1 : 0 });
		p.thr.push_back(o);
	}
	gen_sched(r, s, 100);
	if (r.one_in(2)) s.fp[F_IMPL] = r.pick<double>({ 0.1, 0.5, 1 });
}
Reg r35({ "interfaces", "C35", 1, gen_hooks, body_hooks, h_op });

// Lists and maps implemented by the caller.
const char* c_op(int c) { static const char* n[] = {
#define X(name, hook, form, args, call) "list_" #name,
	X_LIST_CALLS(X)
#undef X
#define X(name, hook, form, args, call) "map_" #name,
	X_MAP_CALLS(X)
#undef X
}; return c >= 0 && c < X_CALLS ? n[c] : "?"; }
const char* c_args[] = {
#define X(name, hook, form, args, call) args,
	X_LIST_CALLS(X) X_MAP_CALLS(X)
#undef X
};
const char c_form[] = {
#define X(name, hook, form, args, call) #form[0],
	X_LIST_CALLS(X) X_MAP_CALLS(X)
#undef X
};
const int c_hook[] = {
#define X(name, hook, form, args, call) XL_##hook,
	X_LIST_CALLS(X)
#undef X
#define X(name, hook, form, args, call) XM_##hook,
	X_MAP_CALLS(X)
#undef X
};
u64 W(uint32_t i) { return i; }
u64 W(int64_t i) { return (u64)i; }
template <class R, class... A> u64 W(R (*f)(A...)) { return (u64)f; }
u64 W(double d) { u64 b; memcpy(&b, &d, 8); return b; }
template <class R> struct Answer { static R of(u64 a) { return (R)a; } };
template <> struct Answer<bool> { static bool of(u64 a) { return a & 1; } };
template <> struct Answer<double> { static double of(u64 a) { double d; memcpy(&d, &a, 8); return d; } };
template <int WHICH, class R, class... A> R arrives(A... a) { return Answer<R>::of(arrived(WHICH, { W(a)... })); }
template <int WHICH, class... A> void arrives_quietly(A... a) { arrived(WHICH, { W(a)... }); }
template <int WHICH, class R, class... A> void supply(R (*&f)(A...), int missing) { f = missing == WHICH ? nullptr : &arrives<WHICH, R, A...>; }
template <int WHICH, class... A> void supply(void (*&f)(A...), int missing) { f = missing == WHICH ? nullptr : &arrives_quietly<WHICH, A...>; }
struct Containers { as_list li; as_map ma; as_list_hooks lih; as_map_hooks mah; };
void body_containers(const Prog& p) {
	Containers* o = (Containers*)halloc_end(sizeof(Containers)); memset(o, 0, sizeof *o);
	int missing = (int)p.cfg[0]; bool none = p.cfg[1];
	if (missing >= 0) missing = c_hook[missing % X_CALLS];
#define X(hook) supply<XL_##hook>(o->lih.hook, missing);
	X_LIST_HOOKS(X)
#undef X
#define X(hook) supply<XM_##hook>(o->mah.hook, missing);
	X_MAP_HOOKS(X)
#undef X
	CHECK(as_list_init(&o->li, none ? nullptr : &o->lih) == &o->li && as_map_init(&o->ma, none ? nullptr : &o->mah) == &o->ma, "not-set-up", "initialising a list or map gave another object");
	faults(true);
	for (size_t t = 0; t < p.thr.size(); t++) {
		const std::vector<Op>* ops = &p.thr[t];
		spawn([o, ops, missing, none] {
			for (auto& op : *ops) {
				int c = op.code % X_CALLS; bool list = c < XM_hashcode, gone = op.c & 1, reaches = !none && !gone && c_hook[c] != missing;
				Seen& s = seen[self()]; s = Seen(); s.answer = (u64)op.b;
				u64 a = op.a % 16 == 15 ? UINT32_MAX : op.a % 16 == 14 ? 0 : (u64)op.a, b = mix(a, (u64)op.b) % 8 == 0 ? 0 : mix(a, (u64)op.c) | 1, got;
				void* obj = gone ? nullptr : list ? (void*)&o->li : (void*)&o->ma;
				got = list ? x_list_call(c, (as_list*)obj, a, b) : x_map_call(c, (as_map*)obj, a, b);
				Seen r = seen[self()];
				note(0x8800 + (u64)c * 2 + reaches); note(got & 0xff);
				char f = c_form[c];
				if (!reaches) {
					CHECK(r.calls == 0, "called", "%s reached a function of an implementation that does not have it", c_op(c));
					CHECK(got == (f == 'i' ? 1u : 0u), "wrong-answer", "%s without an implementation gave %lld", c_op(c), (long long)got);
					probe("call without an implementation");
				} else {
					CHECK(r.calls == 1, "calls", "%s reached the implementation %d times", c_op(c), r.calls);
					CHECK(r.which == c_hook[c], "wrong-function", "%s reached %s", c_op(c), c_op(r.which));
					std::vector<u64> want = { (u64)obj };
					for (const char* w = c_args[c]; *w; w++) want.push_back(*w == 'i' ? (u32)a : *w == 'q' ? b & 2 ? b + 1 : 0 : b);
					CHECK(r.args == want, "wrong-arguments", "%s did not pass on its arguments", c_op(c));
					u64 answer = f == 'x' ? 0 : f == 'b' ? r.answer & 1 : f == 'u' ? (u32)r.answer : f == 'i' ? (u64)(i64)(i32)r.answer : r.answer;
					CHECK(got == answer, "wrong-answer", "%s gave %lld though the implementation answered %lld", c_op(c), (long long)got, (long long)answer);
				}
				logf("%s", c_op(c));
			}
		});
	}
	join_all();
	faults(false);
	hfree(o);
	check_no_leak("after the calls");
}
void gen_containers(Rng& r, Prog& p, Strategy& s) {
	gen_env(r, p.env);
	p.cfg = { r.one_in(2) ? (i64)r.below(X_CALLS) : -1, r.one_in(8) };
	int nt = r.one_in(2) ? 1 : 2 + (int)r.below(2);
	for (int t = 0; t < nt; t++) {
		std::vector<Op> o; int n = 1 + (int)r.below(8);
		for (int i = 0; i < n; i++) o.push_back(Op{ (i32)(p.cfg[0] >= 0 && r.one_in(3) ? p.cfg[0] : (i64)r.below(X_CALLS)), (i64)r.below(r.one_in(4) ? 0xffffffffu : 200), r.one_in(3) ? 0 : r.one_in(2) ? r.pick<i64>({ 1, 2, -1, 1000, 0x100000001ll, INT64_MAX, -2147483648ll }) : (i64)r.next(), (i64)(r.below(1000) * 2) + r.one_in(10) });
		p.thr.push_back(o);
	}
	gen_sched(r, s, 100);
	if (r.one_in(2)) s.fp[F_IMPL] = r.pick<double>({ 0.1, 0.5, 1 });
}
Reg r35c({ "caller_containers", "C35", 1, gen_containers, body_containers, c_op });

// Destroying an object tells its implementation once; what the library allocated for it is freed.
enum { E_STREAM, E_TIMER, E_ITERATOR, E_SERIALIZER, E_LIST, E_MAP, E_NOPS };
const char* e_op(int c) { static const char* n[] = { "stream", "timer", "iterator", "serializer", "list", "map" }; return c >= 0 && c < E_NOPS ? n[c] : "?"; }
int ihd_stream(as_stream* s) { return (int)arrived(E_STREAM, { W(s) }); }
int ihd_timer(as_timer* t) { return (int)arrived(E_TIMER, { W(t) }); }
bool ihd_iterator(as_iterator* i) { return arrived(E_ITERATOR, { W(i) }) & 1; }
void ihd_serializer(as_serializer* s) { arrived(E_SERIALIZER, { W(s) }); }
bool ihd_list(as_list* l) { return arrived(E_LIST, { W(l) }) & 1; }
bool ihd_map(as_map* m) { return arrived(E_MAP, { W(m) }) & 1; }
struct Tables { as_stream_hooks st; as_timer_hooks tm; as_iterator_hooks it; as_serializer_hooks se; as_list_hooks li; as_map_hooks ma; };
void body_ends(const Prog& p) {
	Tables* o = (Tables*)halloc_end(sizeof(Tables)); memset(o, 0, sizeof *o);
	int missing = (int)p.cfg[0];
	if (missing != E_STREAM) o->st.destroy = ihd_stream;
	if (missing != E_TIMER) o->tm.destroy = ihd_timer;
	if (missing != E_ITERATOR) o->it.destroy = ihd_iterator;
	if (missing != E_SERIALIZER) o->se.destroy = ihd_serializer;
	if (missing != E_LIST) o->li.destroy = ihd_list;
	if (missing != E_MAP) o->ma.destroy = ihd_map;
	faults(true);
	for (size_t t = 0; t < p.thr.size(); t++) {
		const std::vector<Op>* ops = &p.thr[t];
		spawn([o, ops, missing] {
			for (auto& op : *ops) {
				int c = op.code % E_NOPS; bool heap = op.a & 1, table = !(op.a & 2), reaches = table && c != missing, holder = op.a & 4;
				u64 room[16]; memset(room, 0, sizeof room);
				void* mine = halloc_end(sizeof room); memset(mine, 0x5a, sizeof room);
				void* obj = nullptr;
				switch (c) {
				case E_STREAM: obj = heap ? x_st_new(mine, table ? &o->st : nullptr) : x_st_init((as_stream*)mine, mine, table ? &o->st : nullptr); break;
				case E_TIMER: obj = heap ? as_timer_new(mine, table ? &o->tm : nullptr) : as_timer_init((as_timer*)mine, mine, table ? &o->tm : nullptr); break;
				case E_ITERATOR: heap = false; obj = as_iterator_init((as_iterator*)mine, false, mine, table ? &o->it : nullptr); break;
				case E_SERIALIZER: obj = heap ? as_serializer_new(table ? &o->se : nullptr) : as_serializer_init((as_serializer*)mine, table ? &o->se : nullptr); break;
				case E_LIST: obj = heap ? as_list_new(table ? &o->li : nullptr) : as_list_init((as_list*)mine, table ? &o->li : nullptr); break;
				default: obj = heap ? as_map_new(table ? &o->ma : nullptr) : as_map_init((as_map*)mine, table ? &o->ma : nullptr); break;
				}
				CHECK(obj && (heap || obj == mine), "not-set-up", "a %s was not set up", e_op(c));
				if (c < E_LIST) holder = false;
				Seen& s = seen[self()]; s = Seen(); s.answer = (u64)op.b;
				auto end = [&] {
					i64 got = 0;
					switch (c) {
					case E_STREAM: x_st_destroy((as_stream*)obj); break;
					case E_TIMER: got = as_timer_destroy((as_timer*)obj); break;
					case E_ITERATOR: as_iterator_destroy((as_iterator*)obj); break;
					case E_SERIALIZER: as_serializer_destroy((as_serializer*)obj); break;
					default: as_val_val_destroy((as_val*)obj); break;
					}
					return got;
				};
				if (holder) {
					as_val_val_reserve((as_val*)obj);
					end();
					CHECK(seen[self()].calls == 0 && (!heap || is_live(obj)), "called", "a %s that is still held was ended", e_op(c));
				}
				i64 got = end();
				Seen r = seen[self()];
				note(0x8f00 + (u64)c * 8 + (u64)(op.a & 7)); note((u64)got & 0xff);
				CHECK(r.calls == (reaches ? 1 : 0), "calls", "destroying a %s reached its implementation %d times", e_op(c), r.calls);
				if (reaches) {
					CHECK(r.which == c, "wrong-function", "destroying a %s reached the function for a %s", e_op(c), e_op(r.which));
					CHECK(r.args == std::vector<u64>{ (u64)obj }, "wrong-arguments", "destroying a %s told its implementation of another object", e_op(c));
				}
				if (c == E_TIMER) {
					i64 answer = reaches ? (i64)(int)r.answer : 1;
					CHECK(got == answer, "wrong-answer", "destroying a timer gave %lld instead of %lld", (long long)got, (long long)answer);
					// A timer whose implementation refuses stays.
					if (heap && answer) { CHECK(is_live(obj), "use-after-free", "a timer that was not destroyed was freed"); probe("timer stayed"); hfree(obj); }
				}
				if (heap) CHECK(!is_live(obj), "leak", "a %s was not freed", e_op(c));
				hfree(mine);
			}
		});
	}
	join_all();
	faults(false);
	hfree(o);
	check_no_leak("after the objects were destroyed");
}
void gen_ends(Rng& r, Prog& p, Strategy& s) {
	gen_env(r, p.env);
	p.cfg = { r.one_in(2) ? (i64)r.below(E_NOPS) : -1 };
	int nt = r.one_in(2) ? 1 : 2 + (int)r.below(2);
	for (int t = 0; t < nt; t++) {
		std::vector<Op> o; int n = 1 + (int)r.below(5);
		for (int i = 0; i < n; i++) o.push_back(Op{ (i32)r.below(E_NOPS), (i64)(r.below(2) + (r.one_in(6) ? 2 : 0) + 4 * r.below(2)), r.one_in(2) ? 0 : (i64)r.below(5) - 2, 0 });
		p.thr.push_back(o);
	}
	gen_sched(r, s, 100);
	if (r.one_in(2)) s.fp[F_IMPL] = r.pick<double>({ 0.1, 0.5, 1 });
}
Reg r35e({ "ends", "C35", 1, gen_ends, body_ends, e_op });

// ------------------------------------------------------------------ C36
enum { D_LIST, D_EXISTS, D_PART, D_NOPS };
const char* d_op(int c) { static const char* n[] = { "list", "exists", "list_partly" }; return c >= 0 && c < D_NOPS ? n[c] : "?"; }
struct Handle { u64 tag; int dir; size_t at; dirent* ent; int by; bool shut; };
std::vector<std::vector<std::string>>* tree;
std::vector<Handle*> handles;
int open_now;
std::string dir_name(i64 i) { return "/simulated/" + std::string(1, (char)('a' + i)); }
void body_dir(const Prog& p) {
	static std::vector<std::vector<std::string>> t; t.clear(); tree = &t; handles.clear(); open_now = 0;
	for (i64 k : p.cfg) {
		std::vector<std::string> e; Rng r((u64)k * 77 + 5);
		for (i64 i = 0; i < (k & 0xff); i++) { size_t n = r.one_in(6) ? 200 + r.below(56) : 1 + r.below(20); std::string s; for (size_t j = 0; j < n; j++) s += (char)(r.one_in(9) ? 128 + r.below(128) : '!' + r.below(14)); e.push_back(s + ""); }
		if (k & 0x100) { e.insert(e.begin(), ".."); e.insert(e.begin(), "."); }
		t.push_back(e);
	}
	faults(true);
	for (size_t q = 0; q < p.thr.size(); q++) {
		const std::vector<Op>* ops = &p.thr[q];
		spawn([ops] {
			for (auto& op : *ops) {
				bool there = (size_t)op.a < t.size();      // one more is not there at all, two more is a file
				std::string name = dir_name(op.a); char* path = (char*)halloc_end(name.size() + 1); memcpy(path, name.c_str(), name.size() + 1);
				u64 f0 = my_faults(F_OPEN), r0 = my_faults(F_READ);
				if (op.code == D_EXISTS) {
					bool yes = x_dir_exists(path);
					bool hurt = my_faults(F_OPEN) != f0;
					if (!there) CHECK(!yes, "wrong-answer", "a directory that is not there is said to exist");
					else if (!hurt) CHECK(yes, "wrong-answer", "an existing directory is said not to exist");
				} else {
					as_dir* d = (as_dir*)halloc_end(sizeof *d); memset(d, 0x5a, sizeof *d);
					bool ok = x_dir_open(d, path);
					bool hurt = my_faults(F_OPEN) != f0;
					CHECK(ok == (there && !hurt), "wrong-answer", "opening a directory that is%s there %s", there ? "" : " not", ok ? "succeeded" : "failed");
					if (ok) {
						size_t n = 0, stop = op.code == D_PART ? (size_t)op.b : (size_t)-1;
						while (n < stop) {
							u64 rf = my_faults(F_READ);
							const char* s = x_dir_read(d);
							bool rhurt = my_faults(F_READ) != rf;
							if (!s) { CHECK(rhurt || n == t[(size_t)op.a].size(), "entry-lost", "reading a directory ended after %zu of %zu entries", n, t[(size_t)op.a].size()); break; }
							CHECK(n < t[(size_t)op.a].size(), "wrong-entry", "a directory gave more than its %zu entries", n);
							std::string e = text_at(s, "a directory entry");
							CHECK(e == t[(size_t)op.a][n], "wrong-entry", "entry %zu of a directory is \"%.40s\"", n, e.c_str());
							yield();
							CHECK(text_at(s, "a directory entry") == e, "wrong-entry", "the name of entry %zu changed before the next call", n);
							n++;
						}
						if (my_faults(F_READ) != r0) probe("reading a directory failed");
						note(0x9000 + n);
						x_dir_close(d);
					} else if (hurt) probe("opening a directory failed");
					hfree(d);
				}
				hfree(path);
			}
		});
	}
	join_all();
	faults(false);
	CHECK(open_now == 0, "left-open", "%d directories were left open", open_now);
	check_no_leak("after reading directories");
	for (auto h : handles) { if (h->ent) hfree(h->ent); hfree(h); }
	handles.clear();
}
void gen_dir(Rng& r, Prog& p, Strategy& s) {
	gen_env(r, p.env);
	int nd = 1 + (int)r.below(3);
	for (int i = 0; i < nd; i++) p.cfg.push_back((i64)((r.next() & ~0xffull) | (r.one_in(300) ? 200 + r.below(56) : r.one_in(10) ? r.below(120) : r.below(6))) & 0xffffff);
	int nt = 1 + (int)r.below(3);
	for (int t = 0; t < nt; t++) {
		std::vector<Op> o; int n = 1 + (int)r.below(4);
		for (int i = 0; i < n; i++) o.push_back(Op{ (i32)r.pick<int>({ D_LIST, D_LIST, D_EXISTS, D_PART }), (i64)r.below((u64)nd + 2), (i64)r.below(4), 0 });
		p.thr.push_back(o);
	}
	gen_sched(r, s, 100);
	if (r.one_in(2)) { s.fp[F_OPEN] = r.pick<double>({ 0, 0.2, 0.5 }); s.fp[F_READ] = r.pick<double>({ 0, 0.1, 0.3 }); }
	p.env.cap = 400000;
}
Reg r36({ "directories", "C36", 1, gen_dir, body_dir, d_op });
} // namespace

extern "C" {
// Stand-ins for the directory functions. Nothing here looks at a real directory.
void* sim_opendir(const char* path) {
	yield();
	std::string s = text_at(path, "the name of a directory");
	for (size_t i = 0; tree && i < tree->size(); i++) if (s == dir_name((i64)i)) {
		if (fault_now(F_OPEN)) { errno = EMFILE; return nullptr; }
		NoFaults nf;
		Handle* h = (Handle*)halloc(sizeof(Handle)); *h = Handle{ 0xd1a7, (int)i, 0, nullptr, self(), false };
		handles.push_back(h); open_now++;
		return h;
	}
	errno = tree && s == dir_name((i64)tree->size() + 1) ? ENOTDIR : ENOENT; return nullptr;
}
static Handle* handle(void* d, const char* what) {
	Handle* h = nullptr;
	for (auto x : handles) if (x == d) h = x;
	if (!h) fail("bad-directory", "%s of something that is not a directory", what);
	if (h->shut) fail("bad-directory", "%s of a directory that was closed", what);
	return h;
}
struct dirent* sim_readdir(void* d) {
	yield();
	Handle* h = handle(d, "reading");
	if (fault_now(F_READ)) { errno = EIO; return nullptr; }
	auto& e = (*tree)[(size_t)h->dir];
	// The entry of the call before is not valid any longer.
	if (h->ent) { hfree(h->ent); h->ent = nullptr; }
	if (h->at == e.size()) return nullptr;
	NoFaults nf;
	h->ent = (dirent*)halloc(sizeof(dirent)); memset(h->ent, 0x77, sizeof(dirent));
	memcpy(h->ent->d_name, e[h->at].c_str(), e[h->at].size() + 1);
	h->at++;
	return h->ent;
}
struct dirent* sim_readdir64(void* d) { return sim_readdir(d); }
int sim_closedir(void* d) {
	yield();
	Handle* h = handle(d, "closing");
	h->shut = true; open_now--;
	if (h->ent) { hfree(h->ent); h->ent = nullptr; }
	return 0;
}
static int is_there(const char* path, int* mode) {
	yield();
	std::string s = text_at(path, "the name of a directory");
	while (s.size() > 1 && s.back() == '/') s.pop_back();
	for (size_t i = 0; tree && i < tree->size(); i++) if (s == dir_name((i64)i)) { if (fault_now(F_OPEN)) { errno = ENOMEM; return -1; } *mode = S_IFDIR | 0755; return 0; }
	if (tree && s == dir_name((i64)tree->size() + 1)) { *mode = S_IFREG | 0644; return 0; }
	errno = ENOENT; return -1;
}
int sim_stat(const char* path, struct stat* st) { int m; if (is_there(path, &m)) return -1; memset(st, 0, sizeof *st); st->st_mode = (mode_t)m; return 0; }
int sim_lstat(const char* path, struct stat* st) { return sim_stat(path, st); }
int sim_stat64(const char* path, struct stat* st) { return sim_stat(path, st); }
int sim_lstat64(const char* path, struct stat* st) { return sim_stat(path, st); }
int sim_access(const char* path, int) { int m; return is_there(path, &m); }
void sim_rewinddir(void* d) { Handle* h = handle(d, "rewinding"); h->at = 0; }
}
