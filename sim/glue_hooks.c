#include "glue_hooks.h"
#include <string.h>
#include <citrusleaf/cf_byte_order.h>
#include <citrusleaf/cf_digest.h>
#include <citrusleaf/cf_hash_math.h>
as_stream* x_st_init(as_stream* s, void* data, const as_stream_hooks* h) { return as_stream_init(s, data, h); }
as_val* x_st_read(const as_stream* s) { return as_stream_read(s); }
as_stream_status x_st_write(const as_stream* s, as_val* v) { return as_stream_write(s, v); }
bool x_st_readable(const as_stream* s) { return as_stream_readable(s); }
bool x_st_writable(const as_stream* s) { return as_stream_writable(s); }
void* x_st_source(const as_stream* s) { return as_stream_source(s); }
int x_as_rec_create(const as_aerospike* a, const as_rec* r) { return as_aerospike_rec_create(a, r); }
int x_as_rec_update(const as_aerospike* a, const as_rec* r) { return as_aerospike_rec_update(a, r); }
int x_as_rec_exists(const as_aerospike* a, const as_rec* r) { return as_aerospike_rec_exists(a, r); }
int x_as_rec_remove(const as_aerospike* a, const as_rec* r) { return as_aerospike_rec_remove(a, r); }
int x_as_log(const as_aerospike* a, const char* name, int line, int lvl, const char* msg) { return as_aerospike_log(a, name, line, lvl, msg); }
uint64_t x_as_time(const as_aerospike* a) { return as_aerospike_get_current_time(a); }
int x_as_set_context(const as_aerospike* a, const as_rec* r, uint32_t c) { return as_aerospike_set_context(a, r, c); }
int x_as_get_config(const as_aerospike* a, const as_rec* r, const char* name) { return as_aerospike_get_config(a, r, name); }
void* x_tm_source(const as_timer* t) { return as_timer_source(t); }
bool x_it_has_next(const as_iterator* i) { return as_iterator_has_next(i); }
const as_val* x_it_next(as_iterator* i) { return as_iterator_next(i); }
int32_t x_ser_serialize(as_serializer* s, as_val* v, as_buffer* b) { return as_serializer_serialize(s, v, b); }
int32_t x_ser_presized(as_serializer* s, const as_val* v, uint8_t* b) { return as_serializer_serialize_presized(s, v, b); }
int32_t x_ser_deserialize(as_serializer* s, as_buffer* b, as_val** v) { return as_serializer_deserialize(s, b, v); }
uint32_t x_ser_getsize(as_serializer* s, as_val* v) { return as_serializer_serialize_getsize(s, v); }
void x_st_destroy(as_stream* s) { as_stream_destroy(s); }
as_stream* x_st_new(void* data, const as_stream_hooks* h) { return as_stream_new(data, h); }
static uint64_t bits(double d) { uint64_t b; __builtin_memcpy(&b, &d, sizeof b); return b; }
#define OUT_u(e) return (e)
#define OUT_i(e) return (uint64_t)(int64_t)(e)
#define OUT_n(e) return (uint64_t)(e)
#define OUT_p(e) return (uint64_t)(e)
#define OUT_b(e) return (e)
#define OUT_d(e) return bits(e)
#define OUT_x(e) e; return 0
#define ARGS uint32_t i = (uint32_t)a; int64_t n = (int64_t)b; double d; __builtin_memcpy(&d, &b, sizeof d); void* p = (void*)b; void* q = b & 2 ? (void*)(b + 1) : 0; (void)i; (void)n; (void)d; (void)p; (void)q
uint64_t x_list_call(int which, as_list* o, uint64_t a, uint64_t b) {
	ARGS;
	switch (which) {
#define X(name, hook, form, args, call) case XL_##name: OUT_##form(call);
	X_LIST_CALLS(X)
#undef X
	}
	return 0;
}
uint64_t x_map_call(int which, as_map* o, uint64_t a, uint64_t b) {
	ARGS;
	switch (which) {
#define X(name, hook, form, args, call) case XM_##name: OUT_##form(call);
	X_MAP_CALLS(X)
#undef X
	}
	return 0;
}
bool x_dir_exists(const char* d) { return as_dir_exists(d); }
bool x_dir_open(as_dir* dir, const char* d) { return as_dir_open(dir, d); }
const char* x_dir_read(as_dir* dir) { return as_dir_read(dir); }
void x_dir_close(as_dir* dir) { as_dir_close(dir); }

// Hashes, digests and byte orders that exist in headers only.
uint64_t x_hash_math(int which, const uint8_t* p, size_t n, uint64_t* second) {
	*second = 0;
	switch (which) {
	case 0: return cf_hash_fnv32(p, n);
	case 1: return cf_hash_fnv64(p, n);
	case 2: return cf_hash_jen32(p, n);
	case 3: return cf_hash_jen64(p, n);
	case 4: { uint64_t o[2]; murmurHash3_x64_128(p, n, (uint8_t*)o); *second = o[1]; return o[0]; }
	case 5: return cf_wyhash64(p, n);
	default: return cf_wyhash32(p, n);
	}
}
int x_digest2(const void* a, size_t n, const void* b, size_t m, uint8_t* out, char* text, const uint8_t* other) {
	cf_digest* d = (cf_digest*)out;
	cf_digest_compute2(a, n, b, m, d);
	cf_digest_string(d, text);
	return cf_digest_compare(d, (const cf_digest*)other);
}
uint64_t x_byte_order(int which, uint64_t v) {
	double d; memcpy(&d, &v, 8);
	switch (which) {
	case 0: return cf_swap_to_be16((uint16_t)v);
	case 1: return cf_swap_from_be16((uint16_t)v);
	case 2: return cf_swap_to_be32((uint32_t)v);
	case 3: return cf_swap_from_be32((uint32_t)v);
	case 4: return cf_swap_to_be64(v);
	case 5: return cf_swap_from_be64(v);
	case 6: d = cf_swap_to_big_float64(d); break;
	case 7: d = cf_swap_from_big_float64(d); break;
	case 8: d = cf_swap_to_little_float64(d); break;
	case 9: d = cf_swap_from_little_float64(d); break;
	case 10: return cf_swap_to_le16((uint16_t)v);
	case 11: return cf_swap_from_le16((uint16_t)v);
	case 12: return cf_swap_to_le32((uint32_t)v);
	case 13: return cf_swap_from_le32((uint32_t)v);
	case 14: return cf_swap_to_le64(v);
	default: return cf_swap_from_le64(v);
	}
	memcpy(&v, &d, 8);
	return v;
}
