/* Interface and directory functions of the headers, compiled with instrumentation. */
#pragma once
#include <stdbool.h>
#include <stdint.h>
#include <aerospike/as_aerospike.h>
#include <aerospike/as_dir.h>
#include <aerospike/as_iterator.h>
#include <aerospike/as_list.h>
#include <aerospike/as_list_iterator.h>
#include <aerospike/as_map.h>
#include <aerospike/as_map_iterator.h>
#include <aerospike/as_module.h>
#include <aerospike/as_serializer.h>
#include <aerospike/as_stream.h>
#include <aerospike/as_timer.h>
/* Calls of the list and map interfaces: call, function of the implementation it must reach, kind of the answer, arguments that must arrive behind
   the object (i: index, n: number, d: double, p and q: addresses), expression. */
#define X_LIST_CALLS(X) \
	X(hashcode, hashcode, u, "", as_list_hashcode(o)) X(size, size, u, "", as_list_size(o)) X(concat, concat, i, "p", as_list_concat(o, p)) X(trim, trim, i, "i", as_list_trim(o, i)) \
	X(head, head, p, "", as_list_head(o)) X(tail, tail, p, "", as_list_tail(o)) X(drop, drop, p, "i", as_list_drop(o, i)) X(take, take, p, "i", as_list_take(o, i)) \
	X(get, get, p, "i", as_list_get(o, i)) X(get_int64, get_int64, n, "i", as_list_get_int64(o, i)) X(get_double, get_double, d, "i", as_list_get_double(o, i)) X(get_str, get_str, p, "i", as_list_get_str(o, i)) \
	X(set, set, i, "ip", as_list_set(o, i, p)) X(set_int64, set_int64, i, "in", as_list_set_int64(o, i, n)) X(set_double, set_double, i, "id", as_list_set_double(o, i, d)) X(set_str, set_str, i, "ip", as_list_set_str(o, i, p)) \
	X(set_integer, set, i, "ip", as_list_set_integer(o, i, p)) X(set_as_double, set, i, "ip", as_list_set_as_double(o, i, p)) X(set_string, set, i, "ip", as_list_set_string(o, i, p)) \
	X(set_bytes, set, i, "ip", as_list_set_bytes(o, i, p)) X(set_list, set, i, "ip", as_list_set_list(o, i, p)) X(set_map, set, i, "ip", as_list_set_map(o, i, p)) \
	X(insert, insert, i, "ip", as_list_insert(o, i, p)) X(insert_int64, insert_int64, i, "in", as_list_insert_int64(o, i, n)) X(insert_double, insert_double, i, "id", as_list_insert_double(o, i, d)) X(insert_str, insert_str, i, "ip", as_list_insert_str(o, i, p)) \
	X(insert_integer, insert, i, "ip", as_list_insert_integer(o, i, p)) X(insert_as_double, insert, i, "ip", as_list_insert_as_double(o, i, p)) X(insert_string, insert, i, "ip", as_list_insert_string(o, i, p)) \
	X(insert_bytes, insert, i, "ip", as_list_insert_bytes(o, i, p)) X(insert_list, insert, i, "ip", as_list_insert_list(o, i, p)) X(insert_map, insert, i, "ip", as_list_insert_map(o, i, p)) \
	X(append, append, i, "p", as_list_append(o, p)) X(append_int64, append_int64, i, "n", as_list_append_int64(o, n)) X(append_double, append_double, i, "d", as_list_append_double(o, d)) X(append_str, append_str, i, "p", as_list_append_str(o, p)) \
	X(append_integer, append, i, "p", as_list_append_integer(o, p)) X(append_as_double, append, i, "p", as_list_append_as_double(o, p)) X(append_string, append, i, "p", as_list_append_string(o, p)) \
	X(append_bytes, append, i, "p", as_list_append_bytes(o, p)) X(append_list, append, i, "p", as_list_append_list(o, p)) X(append_map, append, i, "p", as_list_append_map(o, p)) \
	X(prepend, prepend, i, "p", as_list_prepend(o, p)) X(prepend_int64, prepend_int64, i, "n", as_list_prepend_int64(o, n)) X(prepend_double, prepend_double, i, "d", as_list_prepend_double(o, d)) X(prepend_str, prepend_str, i, "p", as_list_prepend_str(o, p)) \
	X(prepend_integer, prepend, i, "p", as_list_prepend_integer(o, p)) X(prepend_as_double, prepend, i, "p", as_list_prepend_as_double(o, p)) X(prepend_string, prepend, i, "p", as_list_prepend_string(o, p)) \
	X(prepend_bytes, prepend, i, "p", as_list_prepend_bytes(o, p)) X(prepend_list, prepend, i, "p", as_list_prepend_list(o, p)) X(prepend_map, prepend, i, "p", as_list_prepend_map(o, p)) \
	X(remove, remove, i, "i", as_list_remove(o, i)) X(foreach, foreach, b, "pq", as_list_foreach(o, (as_list_foreach_callback)p, q)) \
	X(iterator_new, iterator_new, p, "", as_list_iterator_new(o)) X(iterator_init, iterator_init, p, "p", as_list_iterator_init(p, o))
#define X_LIST_HOOKS(X) X(hashcode) X(size) X(concat) X(trim) X(head) X(tail) X(drop) X(take) X(get) X(get_int64) X(get_double) X(get_str) X(set) X(set_int64) X(set_double) X(set_str) \
	X(insert) X(insert_int64) X(insert_double) X(insert_str) X(append) X(append_int64) X(append_double) X(append_str) X(prepend) X(prepend_int64) X(prepend_double) X(prepend_str) X(remove) X(foreach) X(iterator_new) X(iterator_init)
#define X_MAP_CALLS(X) \
	X(hashcode, hashcode, u, "", as_map_hashcode(o)) X(size, size, u, "", as_map_size(o)) X(get, get, p, "p", as_map_get(o, p)) X(set, set, i, "pq", as_map_set(o, p, q)) X(clear, clear, i, "", as_map_clear(o)) \
	X(remove, remove, i, "p", as_map_remove(o, p)) X(set_flags, set_flags, x, "i", as_map_set_flags(o, i)) X(foreach, foreach, b, "pq", as_map_foreach(o, (as_map_foreach_callback)p, q)) \
	X(iterator_new, iterator_new, p, "", as_map_iterator_new(o)) X(iterator_init, iterator_init, p, "p", as_map_iterator_init(p, o))
#define X_MAP_HOOKS(X) X(hashcode) X(size) X(get) X(set) X(clear) X(remove) X(set_flags) X(foreach) X(iterator_new) X(iterator_init)
enum {
#define X(name, hook, form, args, call) XL_##name,
	X_LIST_CALLS(X)
#undef X
#define X(name, hook, form, args, call) XM_##name,
	X_MAP_CALLS(X)
#undef X
	X_CALLS
};
#ifdef __cplusplus
extern "C" {
#endif
as_stream* x_st_init(as_stream* s, void* data, const as_stream_hooks* h);
as_val* x_st_read(const as_stream* s);
as_stream_status x_st_write(const as_stream* s, as_val* v);
bool x_st_readable(const as_stream* s);
bool x_st_writable(const as_stream* s);
void* x_st_source(const as_stream* s);
int x_as_rec_create(const as_aerospike* a, const as_rec* r);
int x_as_rec_update(const as_aerospike* a, const as_rec* r);
int x_as_rec_exists(const as_aerospike* a, const as_rec* r);
int x_as_rec_remove(const as_aerospike* a, const as_rec* r);
int x_as_log(const as_aerospike* a, const char* name, int line, int lvl, const char* msg);
uint64_t x_as_time(const as_aerospike* a);
int x_as_set_context(const as_aerospike* a, const as_rec* r, uint32_t c);
int x_as_get_config(const as_aerospike* a, const as_rec* r, const char* name);
void* x_tm_source(const as_timer* t);
bool x_it_has_next(const as_iterator* i);
const as_val* x_it_next(as_iterator* i);
int32_t x_ser_serialize(as_serializer* s, as_val* v, as_buffer* b);
int32_t x_ser_presized(as_serializer* s, const as_val* v, uint8_t* b);
int32_t x_ser_deserialize(as_serializer* s, as_buffer* b, as_val** v);
uint32_t x_ser_getsize(as_serializer* s, as_val* v);
uint64_t x_list_call(int which, as_list* o, uint64_t a, uint64_t b);
uint64_t x_map_call(int which, as_map* o, uint64_t a, uint64_t b);
void x_st_destroy(as_stream* s);
as_stream* x_st_new(void* data, const as_stream_hooks* h);
bool x_dir_exists(const char* d);
bool x_dir_open(as_dir* dir, const char* d);
const char* x_dir_read(as_dir* dir);
void x_dir_close(as_dir* dir);
uint64_t x_hash_math(int which, const uint8_t* p, size_t n, uint64_t* second);
int x_digest2(const void* a, size_t n, const void* b, size_t m, uint8_t* out, char* text, const uint8_t* other);
uint64_t x_byte_order(int which, uint64_t v);
#ifdef __cplusplus
}
#endif
