// C21, C22: serialization when memory runs out; decoding of torn or corrupted data.
#include <math.h>
#include "common.h"
#include "glue.h"
#include <aerospike/as_boolean.h>
#include <aerospike/as_buffer.h>
#include <aerospike/as_bytes.h>
#include <aerospike/as_double.h>
#include <aerospike/as_geojson.h>
#include <aerospike/as_integer.h>
#include <aerospike/as_msgpack.h>
#include <aerospike/as_msgpack_ext.h>
#include <aerospike/as_nil.h>
#include <aerospike/as_orderedmap.h>
#include <aerospike/as_pair.h>
#include <aerospike/as_string.h>
#include <citrusleaf/alloc.h>
#include <climits>
#include <memory>

namespace {

u64 af() { return my_faults(F_ALLOC); }

// ------------------------------------------------------------------ values
// Values are built by a small stack machine, so that a program shrinks by leaving out instructions.
enum { V_NIL, V_BOOL, V_INT, V_DBL, V_STR, V_GEO, V_BYTES, V_PAIR, V_LIST, V_MAP, V_NEST, V_MANY, V_NOPS, V_WILD, V_INF };
const char* val_op(int c) { if (c == V_WILD) return "wildcard"; if (c == V_INF) return "infinity"; static const char* n[] = { "nil", "boolean", "integer", "double", "string", "geojson", "bytes", "pair", "list", "map", "nest", "many" }; return c >= 0 && c < V_NOPS ? n[c] : "?"; }
struct Val { int t = V_NIL; i64 i = 0; double d = 0; std::string s; std::vector<std::shared_ptr<Val>> k; u32 flags = 0; };
typedef std::shared_ptr<Val> VP;

const double edges[] = { 0.0, -0.0, HUGE_VAL, -HUGE_VAL, 4.9406564584124654e-324, -2.2250738585072014e-308, 1.7976931348623157e308, -9007199254740993.0 };
bool same_bits(double a, double b) { return !memcmp(&a, &b, sizeof a); }
bool same_key(const Val& a, const Val& b) { return a.t == b.t && a.i == b.i && a.d == b.d && a.s == b.s; }
VP build_model(const std::vector<Op>& ops) {
	std::vector<VP> st; i64 serial = 100;
	auto pop = [&](size_t n) { std::vector<VP> k(st.end() - (long)n, st.end()); st.resize(st.size() - n); return k; };
	for (auto& o : ops) {
		VP v = std::make_shared<Val>();
		v->t = o.code;
		switch (o.code) {
		case V_BOOL: v->i = o.a & 1; break;
		case V_INT: v->i = o.a; break;
		case V_DBL: v->d = o.b < 8 ? (double)o.a / (double)(1 + (o.b & 7)) : edges[o.b & 7]; break;
		case V_STR: case V_GEO: for (i64 q = 0; q < o.a; q++) v->s.push_back((char)('a' + (q * 7 + o.b) % 26)); break;
		case V_BYTES: for (i64 q = 0; q < o.a; q++) v->s.push_back((char)(q * 31 + o.b)); v->i = o.c; break;
		case V_PAIR: if (st.size() < 2) continue; v->k = pop(2); break;
		case V_LIST: v->k = pop(std::min<size_t>((size_t)o.a, st.size())); break;
		case V_MAP: {
			auto k = pop(std::min<size_t>((size_t)o.a * 2, st.size() & ~(size_t)1));
			for (size_t q = 0; q + 1 < k.size(); q += 2) {
				VP key = k[q];
				if (key->t != V_INT && key->t != V_STR && !(key->t == V_BYTES && key->i == AS_BYTES_BLOB))      // the types that maps take as keys
					 { key = std::make_shared<Val>(); key->t = V_INT; key->i = serial++; }
				bool dup = false;
				for (size_t z = 0; z < v->k.size(); z += 2) if (same_key(*v->k[z], *key)) dup = true;
				if (dup) { key = std::make_shared<Val>(); key->t = V_INT; key->i = serial++; }
				v->k.push_back(key); v->k.push_back(k[q + 1]);
			}
			v->flags = (u32)o.b ? (u32)o.b | 1 : 0;
			break; }
		case V_NEST: {      // levels of containers around the topmost value
			VP in = st.empty() ? std::make_shared<Val>() : st.back();
			if (!st.empty()) st.pop_back();
			for (i64 q = 0; q < o.a; q++) {
				VP w = std::make_shared<Val>();
				if (o.b == 0 || (o.b == 2 && (q & 1))) { w->t = V_LIST; w->k.push_back(in); if (o.c & 1) w->k.push_back(std::make_shared<Val>());
					if (o.c & 4 && q == o.c >> 4) { VP x = std::make_shared<Val>(); x->t = V_WILD; w->k.insert(o.c & 8 ? w->k.begin() : w->k.end(), x); } }
				else { w->t = V_MAP; VP key = std::make_shared<Val>(); key->t = V_INT; key->i = q & 127; w->k.push_back(key); w->k.push_back(in); w->flags = o.c & 2 ? 1 : 0; }
				in = w;
			}
			v = in;
			break; }
		case V_MANY: v->t = V_LIST; for (i64 q = 0; q < o.a; q++) { VP w = std::make_shared<Val>(); w->t = V_INT; w->i = (q + o.b) & 63; v->k.push_back(w); } break;
		}
		st.push_back(v);
	}
	if (st.size() == 1) return st[0];
	VP v = std::make_shared<Val>();
	if (!st.empty()) { v->t = V_LIST; v->k = st; }
	return v;
}
char* heap_str(const std::string& s) { char* p = (char*)cf_malloc(s.size() + 1); memcpy(p, s.c_str(), s.size() + 1); return p; }
as_val* build(const Val& v) {
	switch (v.t) {
	case V_NIL: return (as_val*)&as_nil;
	case V_WILD: return (as_val*)&as_cmp_wildcard;
	case V_INF: return (as_val*)&as_cmp_inf;
	case V_BOOL: return (as_val*)as_boolean_new(v.i != 0);
	case V_INT: return (as_val*)as_integer_new(v.i);
	case V_DBL: return (as_val*)as_double_new(v.d);
	case V_STR: return (as_val*)as_string_new(heap_str(v.s), true);
	case V_GEO: return (as_val*)as_geojson_new(heap_str(v.s), true);
	case V_BYTES: {
		u8* p = (u8*)cf_malloc(v.s.size() ? v.s.size() : 1); memcpy(p, v.s.data(), v.s.size());
		as_bytes* b = as_bytes_new_wrap(p, (u32)v.s.size(), true);
		as_bytes_set_type(b, (as_bytes_type)v.i);
		return (as_val*)b; }
	case V_PAIR: { as_val* a = build(*v.k[0]); as_val* b = build(*v.k[1]); return (as_val*)as_pair_new(a, b); }
	case V_LIST: {
		as_arraylist* l = as_arraylist_new((u32)v.k.size(), 4);
		for (auto& e : v.k) as_arraylist_append(l, build(*e));
		return (as_val*)l; }
	default: {
		as_orderedmap* m = as_orderedmap_new((u32)v.k.size() / 2 + 1);
		for (size_t q = 0; q < v.k.size(); q += 2) { as_val* k = build(*v.k[q]); as_val* w = build(*v.k[q + 1]); as_orderedmap_set(m, k, w); }
		as_map_set_flags((as_map*)m, v.flags);
		if (v.flags & AS_PACKED_MAP_FLAG_PRESERVE_ORDER) ((as_map*)m)->flags = v.flags;      // as a server may send it
		return (as_val*)m; }
	}
}
bool text_ok(const char* p, const std::string& s) { return p && range_ok(p, s.size() + 1) && memcmp(p, s.c_str(), s.size() + 1) == 0; }
// Does x hold exactly what the model says? decoded: as it comes out of decoding (pairs become lists).
bool equal(as_val* x, const Val& v, bool decoded) {
	if (!x || !range_ok(x, sizeof(as_val))) return false;
	as_val_t t = as_val_type(x);
	switch (v.t) {
	case V_NIL: return t == AS_NIL;
	case V_WILD: return t == AS_CMP_WILDCARD;
	case V_INF: return t == AS_CMP_INF;
	case V_BOOL: return t == AS_BOOLEAN && as_boolean_get((as_boolean*)x) == (v.i != 0);
	case V_INT: return t == AS_INTEGER && as_integer_get((as_integer*)x) == v.i;
	case V_DBL: return t == AS_DOUBLE && same_bits(as_double_get((as_double*)x), v.d);
	case V_STR: return t == AS_STRING && text_ok(as_string_get((as_string*)x), v.s) && as_string_len((as_string*)x) == v.s.size();
	case V_GEO: return t == AS_GEOJSON && text_ok(as_geojson_get((as_geojson*)x), v.s) && as_geojson_len((as_geojson*)x) == v.s.size();
	case V_BYTES: {
		if (t != AS_BYTES || as_bytes_size((as_bytes*)x) != v.s.size() || (i64)as_bytes_get_type((as_bytes*)x) != v.i) return false;
		if (v.s.empty()) return true;
		u8* p = as_bytes_get((as_bytes*)x);
		return p && range_ok(p, v.s.size()) && memcmp(p, v.s.data(), v.s.size()) == 0; }
	case V_PAIR:
		if (!decoded) return t == AS_PAIR && equal(as_pair_1((as_pair*)x), *v.k[0], false) && equal(as_pair_2((as_pair*)x), *v.k[1], false);
		[[fallthrough]];
	case V_LIST:
		if (t != AS_LIST || as_list_size((as_list*)x) != v.k.size()) return false;
		for (size_t q = 0; q < v.k.size(); q++) if (!equal(as_list_get((as_list*)x, (u32)q), *v.k[q], decoded)) return false;
		return true;
	default: {
		size_t n = v.k.size() / 2;
		std::vector<std::pair<as_val*, as_val*>> got;
		if (decoded && (v.flags & AS_PACKED_MAP_FLAG_PRESERVE_ORDER)) {      // comes out as a list of keys and values
			if (t != AS_LIST || as_list_size((as_list*)x) != n * 2) return false;
			for (size_t q = 0; q < n; q++) got.push_back({ as_list_get((as_list*)x, (u32)q * 2), as_list_get((as_list*)x, (u32)q * 2 + 1) });
		} else {
			if (t != AS_MAP || as_map_size((as_map*)x) != n) return false;
			if (((as_map*)x)->flags != v.flags) return false;
			as_orderedmap_iterator it;
			as_orderedmap_iterator_init(&it, (as_orderedmap*)x);
			while (as_orderedmap_iterator_has_next(&it)) {
				as_pair* pr = (as_pair*)as_orderedmap_iterator_next(&it);
				if (!pr || !range_ok(pr, sizeof(as_pair))) return false;
				got.push_back({ as_pair_1(pr), as_pair_2(pr) });
			}
			as_orderedmap_iterator_destroy(&it);
			if (got.size() != n) return false;
		}
		std::vector<bool> used(n);
		for (auto& g : got) {
			size_t q = 0;
			for (; q < n; q++) if (!used[q] && equal(g.first, *v.k[q * 2], decoded)) break;
			if (q == n || !equal(g.second, *v.k[q * 2 + 1], decoded)) return false;
			used[q] = true;
		}
		return true; }
	}
}
// Wildcards and infinities serve for comparing only: they are serialized, but do not decode to a value.
bool has_marks(const Val& v) { if (v.t == V_WILD || v.t == V_INF) return true; for (auto& k : v.k) if (has_marks(*k)) return true; return false; }
void put_marks(Rng& r, std::vector<Op>& o) { int n = 1 + (int)r.below(3); while (n--) o.insert(o.begin() + (long)r.below(o.size() + 1), Op{ r.one_in(3) ? V_INF : V_WILD, 0, 0, 0 }); }
// Touch every part of a decoded value.
u64 walk(as_val* x, int depth = 0) {
	if (depth > 2000) return 0;
	CHECK(x && range_ok(x, sizeof(as_val)), "missing-part", "a decoded value has a part that is not there");
	u64 h = (u64)as_val_type(x) * 31;
	switch (as_val_type(x)) {
	case AS_INTEGER: return mix(h, (u64)as_integer_get((as_integer*)x));
	case AS_STRING: { char* s = as_string_get((as_string*)x); std::string t = text_at(s, "the text of a decoded string"); return mix(h, fnv(t.data(), t.size())); }
	case AS_GEOJSON: { char* s = as_geojson_get((as_geojson*)x); std::string t = text_at(s, "the text of a decoded GeoJSON value"); return mix(h, fnv(t.data(), t.size())); }
	case AS_BYTES: { u32 n = as_bytes_size((as_bytes*)x); u8* b = as_bytes_get((as_bytes*)x); CHECK(!n || (b && range_ok(b, n)), "missing-part", "decoded bytes are not there"); return n ? mix(h, fnv(b, n)) : h; }
	case AS_LIST: for (u32 i = 0; i < as_list_size((as_list*)x); i++) h = mix(h, walk(as_list_get((as_list*)x, i), depth + 1)); return h;
	case AS_MAP: {
		as_orderedmap_iterator it; as_orderedmap_iterator_init(&it, (as_orderedmap*)x);
		u32 n = 0;
		while (as_orderedmap_iterator_has_next(&it)) { as_pair* pr = (as_pair*)as_orderedmap_iterator_next(&it); CHECK(pr && range_ok(pr, sizeof(as_pair)), "missing-part", "a decoded map has a part that is not there"); h = mix(h, walk(as_pair_1(pr), depth + 1)); h = mix(h, walk(as_pair_2(pr), depth + 1)); n++; }
		CHECK(n == as_map_size((as_map*)x), "missing-part", "a decoded map of %u pairs yields %u", as_map_size((as_map*)x), n);
		as_orderedmap_iterator_destroy(&it);
		return h; }
	default: return h;
	}
}
i64 gen_int(Rng& r) {
	static const i64 edge[] = { 0, 1, 31, 32, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 2147483647ll, 2147483648ll, 4294967295ll, 4294967296ll, LLONG_MAX };
	i64 v = r.one_in(2) ? edge[r.below(sizeof edge / sizeof *edge)] : (i64)(r.next() >> r.below(64));
	if (r.one_in(2)) v = r.one_in(2) ? -v : ~v;
	return v;
}
i64 gen_len(Rng& r, bool big) {
	if (big && r.one_in(6)) return r.pick<i64>({ 8180, 8186, 8187, 8188, 8189, 8190, 8191, 8192, 8193, 16384, 20000, 65530, 65534, 65535, 65536 });
	return r.one_in(3) ? r.pick<i64>({ 0, 1, 30, 31, 32, 33, 253, 254, 255, 256 }) : (i64)r.below(24);
}
std::vector<Op> gen_val(Rng& r, bool big, int maxops) {
	std::vector<Op> o;
	int n = 1 + (int)r.below((u64)maxops);
	bool large = r.one_in(big ? 150 : 600);      // one list of about 65536 elements
	for (int i = 0; i < n; i++) {
		int c = (int)r.below(V_NOPS + 2);
		if (c >= V_NOPS) c = r.pick({ V_MAP, V_LIST });
		Op op = { c, 0, 0, 0 };
		switch (c) {
		case V_BOOL: op.a = (i64)r.below(2); break;
		case V_INT: op.a = gen_int(r); break;
		case V_DBL: op.a = (i64)r.below(2000000) - 1000000; op.b = (i64)r.below(r.one_in(4) ? 16 : 8); break;
		case V_STR: case V_GEO: op.a = gen_len(r, big); op.b = (i64)r.below(26); break;
		case V_BYTES: op.a = gen_len(r, big); op.b = (i64)r.below(256); op.c = r.pick<i64>({ AS_BYTES_BLOB, AS_BYTES_UNDEF, AS_BYTES_INTEGER, AS_BYTES_HLL }); break;
		case V_LIST: op.a = (i64)r.below(9); break;
		case V_MAP: op.a = (i64)r.below(5); op.b = r.pick<i64>({ 0, 0, 1, 3, 9, 16, 17 }); break;
		case V_NEST: op.a = r.one_in(8) ? (i64)(r.one_in(2) ? 250 + r.below(20) : 505 + r.below(20)) : (i64)r.below(6); op.b = (i64)r.below(3); op.c = (i64)r.below(4); break;
		case V_MANY: op.a = large ? r.pick<i64>({ 65534, 65535, 65536 }) : r.one_in(3) ? r.pick<i64>({ 14, 15, 16, 17 }) : (i64)r.below(30); op.b = (i64)r.below(64); large = false; break;
		}
		o.push_back(op);
	}
	return o;
}

// ------------------------------------------------------------------ C21
enum { S_SER = 100, S_SIZE, S_INTO, S_DES };
const char* ser_op(int c) { switch (c) { case S_SER: return "serialize"; case S_SIZE: return "getsize"; case S_INTO: return "serialize_presized"; case S_DES: return "deserialize"; } return val_op(c); }
void body_ser(const Prog& p) {
	VP m = build_model(p.thr[0]);
	as_val* v = build(*m);
	bool faulty = p.cfg[0], marks = has_marks(*m);
	CHECK(equal(v, *m, false), "harness", "value not built as planned");
	as_buffer ref; memset(&ref, 0, sizeof ref);
	int rc = x_serialize(v, &ref, false);
	CHECK(rc == 0, "spurious-failure", "serializing failed with %d though memory was plentiful", rc);
	std::string bytes((char*)ref.data, ref.size);
	as_buffer_destroy(&ref);
	if (bytes.size() > 8192) probe("value larger than one packing buffer");
	if (p.cfg[1] & 1) CHECK(equal(v, *m, false), "input-changed", "serializing a value changed it");
	size_t base = live_blocks();
	for (size_t q = 0; q < p.thr[1].size(); q++) {
		const Op& op = p.thr[1][q];
		if (op.code == S_DES && marks) continue;
		for (int round = 0; round < 2; round++) {      // second round: repeated with memory available
			bool flt = faulty && round == 0;
			u64 f = af();
			if (op.code == S_SER) {
				as_buffer b; memset(&b, 0, sizeof b);
				faults(flt); rc = x_serialize(v, &b, op.a & 1); faults(false);
				if (rc == 0) {
					CHECK(b.size == bytes.size() && b.data && range_ok(b.data, b.size) && memcmp(b.data, bytes.data(), b.size) == 0, "wrong-bytes", "serializing gave %u bytes that differ from the %zu given before", b.size, bytes.size());
					CHECK(b.capacity >= b.size, "wrong-bytes", "a buffer of %u bytes claims room for %u", b.size, b.capacity);
					as_buffer_destroy(&b);
				}
			} else if (op.code == S_SIZE) {
				faults(flt); u32 n = x_pack_size(v); faults(false);
				rc = n == bytes.size() ? 0 : -1;
				CHECK(rc == 0 || n == 0, "wrong-size", "the size is given as %u instead of %zu", n, bytes.size());
			} else if (op.code == S_INTO) {
				u8* buf = (u8*)halloc_end(bytes.size());
				faults(flt); int n = x_serialize_presized(v, buf); faults(false);
				rc = n < 0 ? n : 0;
				if (rc == 0) CHECK((size_t)n == bytes.size() && memcmp(buf, bytes.data(), bytes.size()) == 0, "wrong-bytes", "serializing into a buffer gave different bytes");
				hfree(buf);
			} else {
				u8* buf = (u8*)halloc_end(bytes.size());
				memcpy(buf, bytes.data(), bytes.size());
				as_buffer b; memset(&b, 0, sizeof b); b.data = buf; b.size = b.capacity = (u32)bytes.size();
				as_val* w = nullptr;
				faults(flt); rc = x_deserialize(&b, &w, op.a & 1); faults(false);
				CHECK(memcmp(buf, bytes.data(), bytes.size()) == 0 && b.data == buf && b.size == bytes.size(), "input-changed", "deserializing changed its input");
				hfree(buf);
				if (rc == 0) {
					CHECK(equal(w, *m, true), "wrong-value", "deserializing gave a value that is not the one serialized");
					as_val_val_destroy(w);
				}
			}
			bool fault = af() != f;
			logf("%s: rc %d%s", ser_op(op.code), rc, fault ? " (allocation failed)" : "");
			note((u64)op.code * 131 + (u64)rc);
			CHECK(rc == 0 || fault, "spurious-failure", "%s failed with %d though memory was plentiful", ser_op(op.code), rc);
			if (rc != 0) probe(op.code == S_SER ? "serializing failed" : "deserializing failed");
			CHECK(live_blocks() == base, "leak", "%s left %zd blocks of memory behind: %s", ser_op(op.code), (ssize_t)(live_blocks() - base), live_desc().c_str());
			if (rc == 0) break;
		}
	}
	CHECK(equal(v, *m, false), "input-changed", "serializing a value changed it");
	as_val_val_destroy(v);
	check_no_leak("after destroying the value");
}
void gen_ser(Rng& r, Prog& p, Strategy& s) {
	gen_env(r, p.env);
	bool faulty = !r.one_in(4);
	p.cfg = { faulty, (i64)r.below(4) };
	p.thr.push_back(gen_val(r, true, r.one_in(3) ? 30 : 8));
	if (r.one_in(12)) put_marks(r, p.thr[0]);
	std::vector<Op> o; int n = 1 + (int)r.below(4);
	for (int i = 0; i < n; i++) o.push_back(Op{ r.pick({ S_SER, S_SER, S_DES, S_DES, S_SIZE, S_INTO }), (i64)r.below(2), 0, 0 });
	p.thr.push_back(o);
	if (faulty) gen_oom(r, s, 2 + p.thr[0].size() * 2);
	p.env.cap = 200000000;
}

// ------------------------------------------------------------------ C21: packing into a buffer of fixed size
enum { K_NIL = 200, K_BOOL, K_INF, K_WILD, K_UINT, K_INT, K_FLOAT, K_DOUBLE, K_BYTES, K_STR, K_BIN, K_LHDR, K_MHDR, K_EXT, K_BUFEXT, K_APPEND, K_END };
const char* pack_op(int c) { static const char* n[] = { "nil", "bool", "inf", "wildcard", "uint64", "int64", "float", "double", "bytes", "str", "bin", "list_header", "map_header", "ext_header", "buf_ext_header", "append" }; return c >= K_NIL && c < K_END ? n[c - K_NIL] : "?"; }
int pack_one(as_packer* pk, const Op& op, const u8* data) {
	u32 n = (u32)op.b;
	switch (op.code) {
	case K_NIL: return as_pack_nil(pk);
	case K_BOOL: return as_pack_bool(pk, op.a & 1);
	case K_INF: return as_pack_cmp_inf(pk);
	case K_WILD: return as_pack_cmp_wildcard(pk);
	case K_UINT: return as_pack_uint64(pk, (u64)op.a);
	case K_INT: return as_pack_int64(pk, op.a);
	case K_FLOAT: return as_pack_float(pk, (float)op.a);
	case K_DOUBLE: return as_pack_double(pk, (double)op.a);
	case K_BYTES: return as_pack_bytes(pk, data, n);
	case K_STR: return as_pack_str(pk, op.c & 1 ? nullptr : data, n);
	case K_BIN: return as_pack_bin(pk, op.c & 1 ? nullptr : data, n);
	case K_LHDR: return as_pack_list_header(pk, (u32)op.a);
	case K_MHDR: return as_pack_map_header(pk, (u32)op.a);
	case K_EXT: return as_pack_ext_header(pk, n, (u8)op.a);
	case K_BUFEXT: { int rc = as_pack_buf_ext_header(pk->buffer ? pk->buffer + pk->offset : nullptr, pk->capacity - pk->offset, n, (u8)op.a); if (rc == 0) pk->offset += as_pack_ext_header_get_size(n); return rc; }
	default: return as_pack_append(pk, data, n);
	}
}
i64 pack_expect(const Op& op) {      // bytes needed according to the size functions
	u32 n = (u32)op.b; bool hdr = op.c & 1;
	switch (op.code) {
	case K_NIL: case K_BOOL: return 1;
	case K_INF: case K_WILD: return 3;
	case K_UINT: return as_pack_uint64_size((u64)op.a);
	case K_INT: return as_pack_int64_size(op.a);
	case K_FLOAT: return 5;
	case K_DOUBLE: return 9;
	case K_BYTES: return as_pack_str_size(n + 1);
	case K_STR: return (i64)as_pack_str_size(n) - (hdr ? n : 0);
	case K_BIN: return (i64)as_pack_bin_size(n) - (hdr ? n : 0);
	case K_LHDR: return as_pack_list_header_get_size((u32)op.a);
	case K_MHDR: return as_pack_list_header_get_size((u32)op.a);
	case K_EXT: case K_BUFEXT: return as_pack_ext_header_get_size(n);
	default: return n;
	}
}
void body_pack(const Prog& p) {
	u32 cap = (u32)p.cfg[0];
	u8* buf = (u8*)halloc_end(cap ? cap : 1);
	memset(buf, 0x77, cap ? cap : 1);
	u8* big = (u8*)halloc(400000);
	u8* data = (u8*)halloc(70000);
	for (int i = 0; i < 70000; i++) data[i] = (u8)(i * 13 + 5);
	as_packer pk = { nullptr, nullptr, cap ? buf : buf, 0, cap };
	as_packer ps = { nullptr, nullptr, nullptr, 0, 0 };
	as_packer pb = { nullptr, nullptr, big, 0, 400000 };
	for (auto& op : p.thr[0]) {
		i64 need = pack_expect(op);
		if (pb.offset + need > 300000) break;
		u32 o0 = ps.offset; as_packer before = pk;
		if (op.code != K_BUFEXT) { CHECK(pack_one(&ps, op, data) == 0, "spurious-failure", "measuring %s failed", pack_op(op.code)); CHECK(ps.offset - o0 == (u64)need, "wrong-size", "%s measures %u bytes instead of %lld", pack_op(op.code), ps.offset - o0, (long long)need); }
		else ps.offset += (u32)need;
		CHECK(pack_one(&pb, op, data) == 0, "spurious-failure", "packing %s into ample room failed", pack_op(op.code));
		int rc = pack_one(&pk, op, data);
		bool fits = before.offset + need <= cap;
		logf("pack %s of %lld bytes at %u of %u: rc %d", pack_op(op.code), (long long)need, before.offset, cap, rc);
		note((u64)op.code * 7 + (u64)rc);
		if (!fits) probe("item does not fit");
		CHECK((rc == 0) == fits, fits ? "spurious-failure" : "unreported", "packing %s of %lld bytes with %u of %u bytes left returned %d", pack_op(op.code), (long long)need, cap - before.offset, cap, rc);
		CHECK(live_blocks() == 0, "leak", "packing into a caller's buffer allocated memory");
		CHECK(pk.buffer == buf, "unreported", "packing moved away from the caller's buffer");
		if (rc != 0) break;
		CHECK(pk.offset == before.offset + need, "wrong-size", "%s took %u bytes instead of %lld", pack_op(op.code), pk.offset - before.offset, (long long)need);
		CHECK(memcmp(buf, big, pk.offset) == 0, "wrong-bytes", "%s gave different bytes in a smaller buffer", pack_op(op.code));
	}
	hfree(buf); hfree(big); hfree(data);
	check_no_leak("after packing");
}
void gen_pack(Rng& r, Prog& p, Strategy& s) {
	(void)s;
	gen_env(r, p.env);
	std::vector<Op> o; int n = 1 + (int)r.below(10);
	for (int i = 0; i < n; i++) o.push_back(Op{ (int)r.range(K_NIL, K_END - 1), gen_int(r), gen_len(r, r.one_in(4)), (i64)r.below(2) });
	i64 sum = 0;
	for (auto& op : o) {
		if (op.code == K_LHDR || op.code == K_MHDR) op.a &= 0xffffffff;
		if (op.b > 69000) op.b = 69000;
		i64 e = op.code == K_NIL || op.code == K_BOOL ? 1 : op.code >= K_BYTES ? op.b + 3 : 5;
		sum += e;
	}
	p.cfg = { (i64)r.below((u64)sum + 8) };
	p.thr.push_back(o);
	p.env.cap = 4000000;
}

// ------------------------------------------------------------------ C22
enum { M_CUT = 300, M_FLIP, M_SET, M_DROP, M_REPEAT, M_INSERT, M_SWAP, M_TAIL };
enum { D_VAL = 400, D_SIZE, D_PEEK, D_BUFPEEK, D_ISEXT, D_BOOL, D_NIL, D_INT, D_UINT, D_DBL, D_STR, D_BIN, D_EXT, D_BLOB, D_LHDR, D_MHDR, D_BUFL, D_BUFM, D_CMP, D_BUFCMP, D_LESS, D_SELF, D_DES, D_END };
enum { B_BYTES = 500 };
const char* dec_op(int c) {
	if (c == B_BYTES) return "raw bytes";
	static const char* m[] = { "cut", "flip", "set", "drop", "repeat", "insert", "swap", "append" };
	static const char* d[] = { "unpack_val", "unpack_size", "peek_type", "buf_peek_type", "peek_is_ext", "unpack_boolean", "unpack_nil", "unpack_int64", "unpack_uint64", "unpack_double", "unpack_str", "unpack_bin", "unpack_ext", "unpack_blob_size", "list_header", "map_header", "buf_list_count", "buf_map_count", "compare", "buf_compare", "buf_is_less", "compare_self", "deserialize" };
	return c >= D_VAL && c < D_END ? d[c - D_VAL] : c >= M_CUT && c <= M_TAIL ? m[c - M_CUT] : val_op(c);
}
struct Bytes { std::string s; VP m; bool intact = true, prefix = true, raw = false; };
Bytes raw(const std::vector<Op>& ops) {
	Bytes b; b.m = std::make_shared<Val>(); b.raw = true;
	for (auto& o : ops) for (i64 q = 0; q < o.b; q++) { char t[8]; int n = 0; u64 v = (u64)o.a; do { t[n++] = (char)v; v >>= 8; } while (v); while (n) b.s.push_back(t[--n]); }
	return b;
}
Bytes encode(const std::vector<Op>& ops) {
	Bytes b;
	b.m = build_model(ops);
	as_val* v = build(*b.m);
	as_buffer x; memset(&x, 0, sizeof x);
	int rc = x_serialize(v, &x, false);
	CHECK(rc == 0, "spurious-failure", "serializing failed with %d though memory was plentiful", rc);
	b.s.assign((char*)x.data, x.size);
	as_buffer_destroy(&x);
	as_val_val_destroy(v);
	return b;
}
void mangle(Bytes& b, const std::vector<Op>& ops) {
	std::string was = b.s;
	for (auto& o : ops) {
		size_t n = b.s.size();
		size_t at = n ? (size_t)o.a % n : 0;
		if (o.c & 1 && n) at = n - 1 - at % std::min<size_t>(n, 12);      // near the end
		else if (o.c & 2 && n) at = at % std::min<size_t>(n, 12);         // near the start
		switch (o.code) {
		case M_CUT: b.s.resize(at); break;
		case M_FLIP: if (n) b.s[at] ^= (char)(1 << (o.b & 7)); break;
		case M_SET: if (n) b.s[at] = (char)o.b; break;
		case M_DROP: b.s.erase(at, (size_t)(1 + o.b % 9)); break;
		case M_REPEAT: if (n) { std::string part = b.s.substr(at, (size_t)(1 + o.b % 9)); b.s.insert(at, part); } break;
		case M_INSERT: b.s.insert(at, 1, (char)o.b); break;
		case M_SWAP: if (n) std::swap(b.s[at], b.s[(at + (size_t)o.b) % n]); break;
		case M_TAIL: b.s.push_back((char)o.b); break;
		}
	}
	b.intact = !b.raw && b.s == was;
	b.prefix = !b.raw && b.s.size() < was.size() && was.compare(0, b.s.size(), b.s) == 0;
}
bool is_ext_byte(u8 c) { return (c >= 0xd4 && c <= 0xd8) || (c >= 0xc7 && c <= 0xc9); }
as_val_t val_type(const Val& v) {
	switch (v.t) { case V_NIL: return AS_NIL; case V_WILD: return AS_CMP_WILDCARD; case V_INF: return AS_CMP_INF; case V_BOOL: return AS_BOOLEAN; case V_INT: return AS_INTEGER; case V_DBL: return AS_DOUBLE; case V_STR: return AS_STRING; case V_GEO: return AS_GEOJSON; case V_BYTES: return AS_BYTES; case V_MAP: return AS_MAP; default: return AS_LIST; }
}
// Equal as far as comparing serialized data goes: the type of bytes does not count; maps are in the order of their keys.
bool key_less(const VP& a, const VP& b) {
	if (a->t != b->t) return a->t < b->t;
	return a->t == V_INT ? a->i < b->i : a->s < b->s;
}
std::vector<VP> in_order(const Val& v) {
	if (v.t != V_MAP) return v.k;
	std::vector<std::pair<VP, VP>> p;
	for (size_t q = 0; q < v.k.size(); q += 2) p.push_back({ v.k[q], v.k[q + 1] });
	std::sort(p.begin(), p.end(), [](const std::pair<VP, VP>& a, const std::pair<VP, VP>& b) { return key_less(a.first, b.first); });
	std::vector<VP> k;
	for (auto& x : p) { k.push_back(x.first); k.push_back(x.second); }
	return k;
}
bool alike(const Val& a, const Val& b) {
	if (val_type(a) != val_type(b)) return false;
	switch (a.t) {
	case V_NIL: return true;
	case V_BOOL: case V_INT: return a.i == b.i;
	case V_DBL: return a.d == b.d;
	case V_STR: case V_GEO: case V_BYTES: return a.s == b.s;
	default: break;
	}
	if (a.k.size() != b.k.size() || (a.t == V_MAP && a.flags != b.flags)) return false;
	auto x = in_order(a), y = in_order(b);
	for (size_t q = 0; q < x.size(); q++) if (!alike(*x[q], *y[q])) return false;
	return true;
}
// The order of serialized values: -1, 0 or 1; 2 when different in a way that is given no order here.
int order(const Val& a, const Val& b, bool* wild) {
	auto sg = [](auto x, auto y) { return x < y ? -1 : x > y ? 1 : 0; };
	as_val_t s = val_type(a), t = val_type(b);
	*wild = s == AS_CMP_WILDCARD || t == AS_CMP_WILDCARD;
	if (*wild) return 0;
	if (s != t) return sg((int)s, (int)t);
	switch (s) {
	case AS_NIL: case AS_CMP_INF: return 0;
	case AS_BOOLEAN: return sg(a.i, b.i);
	case AS_INTEGER: return sg(a.i, b.i);
	case AS_DOUBLE: return sg(a.d, b.d);
	case AS_STRING: case AS_GEOJSON: case AS_BYTES: { int c = memcmp(a.s.data(), b.s.data(), std::min(a.s.size(), b.s.size())); return c ? sg(c, 0) : sg(a.s.size(), b.s.size()); }
	default: break;
	}
	if (a.t == V_MAP) {
		size_t x = a.k.size() / 2 + (a.flags ? 1 : 0), y = b.k.size() / 2 + (b.flags ? 1 : 0);
		if (x != y) return sg(x, y);
		if (a.flags && b.flags && a.flags != b.flags) return sg(a.flags, b.flags);
		if (a.flags != b.flags) return 2;
	}
	auto x = in_order(a), y = in_order(b);
	for (size_t q = 0; q < x.size() && q < y.size(); q++) {
		bool w = false; int c = order(*x[q], *y[q], &w);
		if (c || w) return c;
	}
	return sg(x.size(), y.size());
}
int mirror(int c) { return c == MSGPACK_COMPARE_LESS ? MSGPACK_COMPARE_GREATER : c == MSGPACK_COMPARE_GREATER ? MSGPACK_COMPARE_LESS : c; }
void body_dec(const Prog& p) {
	bool faulty = p.cfg[0];
	bool rw = p.cfg.size() > 2 && p.cfg[2];
	Bytes b1 = rw ? raw(p.thr[0]) : encode(p.thr[0]), b2 = rw ? raw(p.thr[1]) : encode(p.thr[1]);
	mangle(b1, p.thr[2]); mangle(b2, p.thr[3]);
	bool marks = has_marks(*b1.m);
	check_no_leak("after serializing");
	// Not one byte beside the data is accessible: in half of the runs behind it, in the other half in front.
	auto place = [&](const std::string& s) { u8* x = (u8*)(p.cfg[1] ? halloc_end(s.size()) : halloc(s.size())); memcpy(x, s.data(), s.size()); return x; };
	u8 *d1 = place(b1.s), *d2 = place(b2.s);
	u32 n1 = (u32)b1.s.size(), n2 = (u32)b2.s.size();
	as_unpacker pk = { d1, 0, n1 };
	bool at_start = true;
	if (b1.intact) probe("intact"); else if (b1.prefix) probe("cut short");
	for (auto& op : p.thr[4]) {
		if (op.a & 1) { pk.offset = 0; at_start = true; }
		u32 o = pk.offset; int code = op.code; u64 f = af();
		bool err = false, peek = false;
		i64 got = 0;
		bool whole = at_start && b1.intact;
		auto inside = [&](const void* q, u64 n, const char* what) { CHECK((const u8*)q >= d1 + o && (const u8*)q + n <= d1 + n1, "outside", "%s gives %llu bytes that are not inside the buffer", what, (unsigned long long)n); };
		switch (code) {
		case D_VAL: case D_DES: {
			as_val* v = nullptr; int rc;
			faults(faulty);
			if (code == D_VAL) rc = as_unpack_val(&pk, &v);
			else { as_buffer b; memset(&b, 0, sizeof b); b.data = d1; b.size = b.capacity = n1; rc = x_deserialize(&b, &v, false); }
			faults(false);
			bool st = code == D_DES || at_start;
			err = rc != 0;
			if (code == D_DES) peek = true;
			if (!err && v) { got = (i64)walk(v); if (st && b1.intact && !marks) CHECK(equal(v, *b1.m, true), "wrong-value", "intact data decodes to a different value"); as_val_val_destroy(v); }
			if (!err && !v) CHECK((code == D_DES ? 0 : o) < n1 && is_ext_byte(d1[code == D_DES ? 0 : o]), "missing-part", "decoding succeeded without a value");
			if (!err && st && b1.prefix) fail("undetected", "%u bytes of a value of more decode without an error", n1);
			if (err && st && b1.intact && !marks) CHECK(af() != f, "spurious-failure", "intact data does not decode (%d)", rc);
			if (!err && whole && code == D_VAL) CHECK(pk.offset == n1, "wrong-size", "decoding intact data consumes %u of %u bytes", pk.offset, n1);
			break; }
		case D_SIZE: {
			faults(faulty); i64 sz = as_unpack_size(&pk); faults(false);
			err = sz < 0; got = sz;
			if (!err) CHECK(sz <= (i64)(n1 - o) && pk.offset == o + sz, "outside", "the size of a value is given as %lld with %u bytes left, %u consumed", (long long)sz, n1 - o, pk.offset - o);
			if (!err && at_start && b1.prefix) fail("undetected", "%u bytes of a value of more have size %lld", n1, (long long)sz);
			if (whole) CHECK(err ? af() != f : sz == n1, err ? "spurious-failure" : "wrong-size", "the size of intact data of %u bytes is given as %lld", n1, (long long)sz);
			break; }
		case D_PEEK: case D_BUFPEEK: {
			as_val_t t = code == D_PEEK ? as_unpack_peek_type(&pk) : as_unpack_buf_peek_type(d1, n1);
			peek = true; got = t;
			if (code == D_PEEK ? whole : b1.intact) CHECK(t == val_type(*b1.m), "wrong-value", "the type of intact data is given as %d instead of %d", t, val_type(*b1.m));
			if (o >= n1 && code == D_PEEK) CHECK(t == AS_UNDEF, "wrong-value", "there is a type behind the end");
			break; }
		case D_ISEXT: { bool e = as_unpack_peek_is_ext(&pk); peek = true; got = e; CHECK(e == (o < n1 && is_ext_byte(d1[o])), "wrong-value", "wrong answer whether an ext follows"); break; }
		case D_BOOL: { bool v = false; err = as_unpack_boolean(&pk, &v) != 0; got = v; if (!err) CHECK(o < n1 && d1[o] == (v ? 0xc3 : 0xc2), "wrong-value", "decoded a boolean that is not there"); break; }
		case D_NIL: err = as_unpack_nil(&pk) != 0; if (!err) CHECK(o < n1 && d1[o] == 0xc0, "wrong-value", "decoded a nil that is not there"); break;
		case D_INT: { i64 v = 0; err = as_unpack_int64(&pk, &v) != 0; got = v; if (whole && b1.m->t == V_INT) CHECK(!err && v == b1.m->i, "wrong-value", "intact integer %lld decodes to %lld (%d)", (long long)b1.m->i, (long long)v, err); break; }
		case D_UINT: { u64 v = 0; err = as_unpack_uint64(&pk, &v) != 0; got = (i64)v; if (whole && b1.m->t == V_INT) CHECK(!err && v == (u64)b1.m->i, "wrong-value", "intact integer decodes wrongly"); break; }
		case D_DBL: { double v = 0; err = as_unpack_double(&pk, &v) != 0; if (whole && b1.m->t == V_DBL) CHECK(!err && same_bits(v, b1.m->d), "wrong-value", "intact double decodes wrongly"); break; }
		case D_STR: case D_BIN: {
			u32 sz = 0; const u8* q = code == D_STR ? as_unpack_str(&pk, &sz) : as_unpack_bin(&pk, &sz);
			err = !q; got = sz;
			if (q) inside(q, sz, dec_op(code));
			if (whole && b1.m->t >= V_STR && b1.m->t <= V_BYTES) CHECK(q && sz == b1.m->s.size() + 1 && memcmp(q + 1, b1.m->s.data(), sz - 1) == 0, "wrong-value", "intact text or bytes decode wrongly");
			break; }
		case D_EXT: {
			as_msgpack_ext e; memset(&e, 0, sizeof e);
			err = as_unpack_ext(&pk, &e) != 0;
			if (!err) { inside(e.data, e.size, "unpack_ext"); CHECK(e.type_offset >= o && e.type_offset < n1 && d1[e.type_offset] == e.type, "outside", "unpack_ext gives a type that is not inside the buffer"); got = e.size; }
			break; }
		case D_BLOB: { got = as_unpack_blob_size(&pk); err = got < 0; if (whole && b1.m->t >= V_STR && b1.m->t <= V_BYTES) CHECK(got == (i64)b1.m->s.size() + 1, "wrong-size", "intact text or bytes of %zu have size %lld", b1.m->s.size(), (long long)got); break; }
		case D_LHDR: case D_BUFL: { got = code == D_LHDR ? as_unpack_list_header_element_count(&pk) : as_unpack_buf_list_element_count(d1, n1); err = code == D_LHDR && got < 0; peek = code == D_BUFL; if ((peek ? b1.intact : whole) && (b1.m->t == V_LIST || b1.m->t == V_PAIR)) CHECK(got == (i64)b1.m->k.size(), "wrong-size", "an intact list of %zu has %lld elements", b1.m->k.size(), (long long)got); break; }
		case D_MHDR: case D_BUFM: { got = code == D_MHDR ? as_unpack_map_header_element_count(&pk) : as_unpack_buf_map_element_count(d1, n1); err = code == D_MHDR && got < 0; peek = code == D_BUFM; if ((peek ? b1.intact : whole) && b1.m->t == V_MAP) CHECK(got == (i64)b1.m->k.size() / 2 + (b1.m->flags ? 1 : 0), "wrong-size", "an intact map of %zu has %lld pairs", b1.m->k.size() / 2, (long long)got); break; }
		case D_CMP: case D_BUFCMP: case D_LESS: case D_SELF: {
			bool self = code == D_SELF;
			as_unpacker pk2 = { self ? d1 : d2, 0, self ? n1 : n2 };
			if (self) pk2.offset = o;
			msgpack_compare_t c; bool st = code == D_BUFCMP || code == D_LESS || at_start;
			bool both = st && b1.intact && (self || b2.intact);
			faults(faulty);
			if (code == D_BUFCMP) c = as_unpack_buf_compare(d1, n1, d2, n2);
			else if (code == D_LESS) c = as_unpack_buf_is_less(d1, n1, d2, n2) ? MSGPACK_COMPARE_LESS : MSGPACK_COMPARE_GREATER;
			else c = as_unpack_compare(&pk, &pk2);
			faults(false);
			got = c;
			peek = code == D_BUFCMP || code == D_LESS;
			err = !peek && (c == MSGPACK_COMPARE_ERROR || c == MSGPACK_COMPARE_END);
			CHECK(c >= MSGPACK_COMPARE_ERROR && c <= MSGPACK_COMPARE_GREATER, "wrong-value", "comparing gives %d", c);
			if (!peek && !err) CHECK(pk2.offset <= pk2.length, "outside", "comparing consumes %u of %u bytes of the second value", pk2.offset, pk2.length);
			if (both && af() == f) {
				CHECK(c != MSGPACK_COMPARE_ERROR && c != MSGPACK_COMPARE_END, "spurious-failure", "comparing intact data fails");
				bool w; int want = order(*b1.m, self ? *b1.m : *b2.m, &w);
				int is = c == MSGPACK_COMPARE_LESS ? -1 : c == MSGPACK_COMPARE_GREATER ? 1 : 0;
				if (code == D_LESS ? want != 2 && (is < 0) != (want < 0) : want == 2 ? is == 0 : is != want) fail("wrong-value", "comparing intact data gives %d where %d is the order", is, want);
				if (!peek) CHECK(pk.offset == n1 && pk2.offset == pk2.length, "wrong-size", "comparing intact data consumes %u of %u and %u of %u bytes", pk.offset, n1, pk2.offset, pk2.length);
				if (code == D_BUFCMP) { msgpack_compare_t rv = as_unpack_buf_compare(d2, n2, d1, n1); CHECK((int)rv == mirror(c), "wrong-value", "comparing intact data gives %d one way and %d the other", c, rv); }
			}
			break; }
		}
		if (af() != f) probe("allocation failed in decoding");
		logf("%s at %u of %u: %s%lld%s", dec_op(code), o, n1, err ? "error, " : "", (long long)got, af() != f ? " (allocation failed)" : "");
		note((u64)code * 31 + (u64)got * 7 + err);
		check_no_leak("after decoding");
		CHECK(memcmp(d1, b1.s.data(), n1) == 0 && memcmp(d2, b2.s.data(), n2) == 0, "input-changed", "%s changed the data", dec_op(code));
		if (peek) { CHECK(pk.offset == o, "wrong-size", "%s consumed data", dec_op(code)); continue; }
		if (err) { if (!b1.intact && !b1.prefix) probe("error reported"); pk.offset = 0; at_start = true; continue; }
		CHECK(pk.offset > o && pk.offset <= n1, "outside", "%s consumes up to %u of %u bytes", dec_op(code), pk.offset, n1);
		at_start = false;
	}
	hfree(d1); hfree(d2);
}
void gen_calls(Rng& r, Prog& p) {
	std::vector<Op> o; int n = 1 + (int)r.below(10);
	for (int i = 0; i < n; i++) o.push_back(Op{ r.one_in(3) ? r.pick({ D_VAL, D_SIZE, D_CMP, D_BUFCMP }) : (int)r.range(D_VAL, D_END - 1), (i64)r.below(2), 0, 0 });
	p.thr.push_back(o);
}
void gen_dec(Rng& r, Prog& p, Strategy& s) {
	gen_env(r, p.env);
	bool faulty = r.one_in(4);
	p.cfg = { faulty, (i64)!r.one_in(4) };
	int sz = r.one_in(3) ? 25 : 6;
	p.thr.push_back(gen_val(r, r.one_in(20), sz));
	p.thr.push_back(r.one_in(2) ? p.thr[0] : gen_val(r, false, sz));
	if (r.one_in(2) && !p.thr[1].empty()) { auto& o = p.thr[1][r.below(p.thr[1].size())]; if (o.code == V_INT || o.code == V_BOOL) o.a ^= 1; else if (o.code <= V_BYTES && r.one_in(2)) o.b++; else o.a++; }
	if (r.one_in(4)) p.thr[1].insert(p.thr[1].begin() + (long)r.below(p.thr[1].size() + 1), Op{ V_NIL, 0, 0, 0 });
	if (r.one_in(8) && p.thr[1].size() > 1) p.thr[1].erase(p.thr[1].begin() + (long)r.below(p.thr[1].size()));
	if (r.one_in(12)) {      // two deep values that differ a little at the bottom
		i64 d = (r.one_in(2) ? 252 : 508) + (i64)r.below(8), k = (i64)r.below(3), c = (i64)r.below(4);
		for (int w = 0; w < 2; w++) {
			p.thr[(size_t)w].clear();
			if (r.one_in(3)) { i64 n = (i64)r.below(5); for (i64 q = 0; q < n; q++) p.thr[(size_t)w].push_back(Op{ r.one_in(3) ? V_WILD : V_INT, (i64)r.below(2), 0, 0 }); p.thr[(size_t)w].push_back(Op{ V_LIST, n, 0, 0 }); }
			else if (r.one_in(2)) { p.thr[(size_t)w].push_back(Op{ V_MANY, (i64)r.below(3), 0, 0 }); }
			else { i64 n = (i64)r.below(3); for (i64 q = 0; q < 2 * n; q++) p.thr[(size_t)w].push_back(Op{ V_INT, q + (i64)r.below(2), 0, 0 }); p.thr[(size_t)w].push_back(Op{ V_MAP, n, (i64)r.below(2), 0 }); }
			i64 cc = c;
			if (r.one_in(3)) cc |= 4 | (i64)r.below(2) * 8 | (i64)r.below(r.one_in(2) ? 6 : (u64)d) << 4;      // a wildcard somewhere on the way
			p.thr[(size_t)w].push_back(Op{ V_NEST, d, k, cc });
			if (r.one_in(2)) p.thr[(size_t)w].push_back(Op{ V_INT, (i64)r.below(2), 0, 0 });
		}
	}
	if (r.one_in(10)) put_marks(r, p.thr[0]);
	if (r.one_in(10)) put_marks(r, p.thr[1]);
	for (int w = 0; w < 2; w++) {
		std::vector<Op> o; int n = r.pick({ 0, 0, 1, 1, 1, 2, 3, 5 });
		for (int i = 0; i < n; i++) {
			int c = (int)r.range(M_CUT, M_TAIL); if (r.one_in(3)) c = M_CUT;
			i64 val = (i64)r.below(256);
			if (r.one_in(2)) val = r.pick<i64>({ 0x00, 0x7f, 0x80, 0x81, 0x8f, 0x90, 0x91, 0x9f, 0xa0, 0xa1, 0xbf, 0xc0, 0xc1, 0xc2, 0xc4, 0xc5, 0xc6, 0xc7, 0xc8, 0xc9, 0xca, 0xcb, 0xcc, 0xcd, 0xce, 0xcf, 0xd0, 0xd1, 0xd2, 0xd3, 0xd4, 0xd5, 0xd6, 0xd7, 0xd8, 0xd9, 0xda, 0xdb, 0xdc, 0xdd, 0xde, 0xdf, 0xe0, 0xff, 0x03, 0x17 });
			o.push_back(Op{ c, (i64)r.below(100000), val, (i64)r.below(4) });
		}
		p.thr.push_back(o);
	}
	gen_calls(r, p);
	if (faulty) gen_oom(r, s, 12);
	p.env.cap = 200000000;
	p.env.maxalloc = 4 << 20;
}

// ------------------------------------------------------------------ C22: arbitrary bytes
u8 gen_byte(Rng& r) {
	switch (r.below(4)) {
	case 0: return (u8)r.below(256);
	case 1: return (u8)r.range(0xc0, 0xdf);
	case 2: return r.pick<u8>({ 0x00, 0x01, 0x02, 0x03, 0x04, 0x17, 0x7f, 0xff, 0x80, 0xfe });
	default: return r.pick<u8>({ 0x80, 0x81, 0x82, 0x8f, 0x90, 0x91, 0x92, 0x9f, 0xa0, 0xa1, 0xa2, 0xbf });
	}
}
void gen_raw(Rng& r, Prog& p, Strategy& s) {
	gen_env(r, p.env);
	bool faulty = r.one_in(4);
	p.cfg = { faulty, (i64)!r.one_in(4), 1 };
	for (int w = 0; w < 2; w++) {
		std::vector<Op> o; int n = (int)r.below(r.one_in(4) ? 40 : 12);
		for (int i = 0; i < n; i++) o.push_back(Op{ B_BYTES, gen_byte(r), r.one_in(20) ? (i64)(1 + r.below(6)) : 1, 0 });
		if (r.one_in(10)) o.insert(o.begin(), Op{ B_BYTES, r.pick<i64>({ 0x91, 0x92, 0x81, 0x8191, 0x9181, 0x8101, 0xdc0001, 0xde000101ll }), r.pick<i64>({ 2, 30, 250, 256, 257, 300, 512, 513, 520, 1000 }), 0 });
		p.thr.push_back(o);
	}
	if (r.one_in(2)) { p.thr[1] = p.thr[0]; if (!p.thr[1].empty() && r.one_in(2)) p.thr[1][r.below(p.thr[1].size())].a ^= 1ll << r.below(8); }
	p.thr.push_back({}); p.thr.push_back({});
	gen_calls(r, p);
	if (faulty) gen_oom(r, s, 8);
	p.env.cap = 200000000;
	p.env.maxalloc = 4 << 20;
}

Reg r1({ "msgpack-oom", "C21", 24, gen_ser, body_ser, ser_op });
Reg r2({ "msgpack-fixed-buffer", "C21", 6, gen_pack, body_pack, pack_op });
Reg r3({ "msgpack-torn", "C22", 18, gen_dec, body_dec, dec_op });
Reg r4({ "msgpack-arbitrary", "C22", 6, gen_raw, body_dec, dec_op });
Reg r5({ "two-msgpack-oom", "C21", 4, gen_two<gen_ser>, body_two<body_ser>, ser_op });
Reg r6({ "two-msgpack-fixed-buffer", "C21", 2, gen_two<gen_pack>, body_two<body_pack>, pack_op });
Reg r7({ "two-msgpack-torn", "C22", 4, gen_two<gen_dec>, body_two<body_dec>, dec_op });
}
