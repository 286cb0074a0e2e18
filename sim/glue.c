#include "glue.h"
#include <alloca.h>

/* The sections that hold the library's variables exist even if the library has none. */
int x_some_data = 1;
int x_some_bss;
__thread int x_some_tls = 1;

uint32_t x_cf_queue_sz(const cf_queue* q) { return cf_queue_sz(q); }

void x_aqm_destroy(as_queue_mt* q) { as_queue_mt_destroy(q); }
uint32_t x_aqm_size(as_queue_mt* q) { return as_queue_mt_size(q); }
bool x_aqm_empty(as_queue_mt* q) { return as_queue_mt_empty(q); }
bool x_aqm_push(as_queue_mt* q, const void* p) { return as_queue_mt_push(q, p); }
bool x_aqm_push_limit(as_queue_mt* q, const void* p) { return as_queue_mt_push_limit(q, p); }
bool x_aqm_push_head(as_queue_mt* q, const void* p) { return as_queue_mt_push_head(q, p); }
bool x_aqm_push_head_limit(as_queue_mt* q, const void* p) { return as_queue_mt_push_head_limit(q, p); }
void x_aqm_inita(as_queue_mt* q, uint32_t item_size, uint32_t capacity, void (*body)(void*), void* arg)
{
	as_queue_mt_inita(q, item_size, capacity);
	body(arg);
}

uint32_t x_aq_size(as_queue* q) { return as_queue_size(q); }
bool x_aq_empty(as_queue* q) { return as_queue_empty(q); }
void* x_aq_get(as_queue* q, uint32_t i) { return as_queue_get(q, i); }
bool x_aq_pop(as_queue* q, void* p) { return as_queue_pop(q, p); }
bool x_aq_pop_tail(as_queue* q, void* p) { return as_queue_pop_tail(q, p); }
bool x_aq_incr_total(as_queue* q) { return as_queue_incr_total(q); }
void x_aq_decr_total(as_queue* q) { as_queue_decr_total(q); }
void x_aq_inita(as_queue* q, uint32_t item_size, uint32_t capacity, void (*body)(void*), void* arg)
{
	as_queue_inita(q, item_size, capacity);
	body(arg);
}

void x_mon_init(as_monitor* m) { as_monitor_init(m); }
void x_mon_destroy(as_monitor* m) { as_monitor_destroy(m); }
void x_mon_begin(as_monitor* m) { as_monitor_begin(m); }
void x_mon_notify(as_monitor* m) { as_monitor_notify(m); }
void x_mon_wait(as_monitor* m) { as_monitor_wait(m); }

uint32_t x_pack_size(as_val* v) { as_serializer s; as_msgpack_init(&s); uint32_t n = as_serializer_serialize_getsize(&s, v); as_serializer_destroy(&s); return n; }
int x_serialize(as_val* v, as_buffer* b, bool heap)
{
	as_serializer st;
	as_serializer* s = heap ? as_msgpack_new() : as_msgpack_init(&st);
	if (! s) { return -100; }
	int rc = as_serializer_serialize(s, v, b);
	as_serializer_destroy(s);
	return rc;
}
int x_serialize_presized(const as_val* v, uint8_t* buf) { as_serializer s; as_msgpack_init(&s); int n = as_serializer_serialize_presized(&s, v, buf); as_serializer_destroy(&s); return n; }
int x_deserialize(as_buffer* b, as_val** v, bool heap)
{
	as_serializer st;
	as_serializer* s = heap ? as_msgpack_new() : as_msgpack_init(&st);
	if (! s) { return -100; }
	int rc = as_serializer_deserialize(s, b, v);
	as_serializer_destroy(s);
	return rc;
}

#undef alloca
#define alloca(n) sim_alloca(n)
void x_al_inita(as_arraylist* l, uint32_t n) { as_arraylist_inita(l, n); }
void x_by_inita(as_bytes* b, uint32_t n) { as_bytes_inita(b, n); }
void x_sb_inita(as_string_builder* sb, uint32_t n, bool resize) { as_string_builder_inita(sb, n, resize); }
void x_sb_assign(as_string_builder* sb, uint32_t n, char* buf) { as_string_builder_assign(sb, n, buf); }
void x_sb_reset(as_string_builder* sb) { as_string_builder_reset(sb); }
bool x_sb_newline(as_string_builder* sb) { return as_string_builder_append_newline(sb); }
bool x_by_set_byte(as_bytes* b, uint32_t i, uint8_t v) { return as_bytes_set_byte(b, i, v); }
bool x_by_set_int16(as_bytes* b, uint32_t i, int16_t v) { return as_bytes_set_int16(b, i, v); }
bool x_by_set_int32(as_bytes* b, uint32_t i, int32_t v) { return as_bytes_set_int32(b, i, v); }
bool x_by_set_int64(as_bytes* b, uint32_t i, int64_t v) { return as_bytes_set_int64(b, i, v); }
bool x_by_append_byte(as_bytes* b, uint8_t v) { return as_bytes_append_byte(b, v); }
bool x_by_append_int16(as_bytes* b, int16_t v) { return as_bytes_append_int16(b, v); }
bool x_by_append_int32(as_bytes* b, int32_t v) { return as_bytes_append_int32(b, v); }
bool x_by_append_int64(as_bytes* b, int64_t v) { return as_bytes_append_int64(b, v); }
uint32_t x_by_get_int32(const as_bytes* b, uint32_t i, int32_t* v) { return as_bytes_get_int32(b, i, v); }
bool x_by_set_double(as_bytes* b, uint32_t i, double v) { return as_bytes_set_double(b, i, v); }
bool x_by_append_double(as_bytes* b, double v) { return as_bytes_append_double(b, v); }
uint32_t x_by_get_byte(const as_bytes* b, uint32_t i, uint8_t* v) { return as_bytes_get_byte(b, i, v); }
uint32_t x_by_get_int16(const as_bytes* b, uint32_t i, int16_t* v) { return as_bytes_get_int16(b, i, v); }
uint32_t x_by_get_int64(const as_bytes* b, uint32_t i, int64_t* v) { return as_bytes_get_int64(b, i, v); }
uint32_t x_by_get_double(const as_bytes* b, uint32_t i, double* v) { return as_bytes_get_double(b, i, v); }
uint32_t x_by_size(const as_bytes* b) { return as_bytes_size(b); }
uint32_t x_by_capacity(const as_bytes* b) { return as_bytes_capacity(b); }

void* x_vec_get(as_vector* v, uint32_t i) { return as_vector_get(v, i); }
void* x_vec_get_ptr(as_vector* v, uint32_t i) { return as_vector_get_ptr(v, i); }
void x_vec_append(as_vector* v, void* item) { as_vector_append(v, item); }
void* x_vec_reserve(as_vector* v) { return as_vector_reserve(v); }
void x_vec_set(as_vector* v, uint32_t i, void* item) { as_vector_set(v, i, item); }
void x_vec_clear(as_vector* v) { as_vector_clear(v); }
void x_vec_inita(as_vector* v, uint32_t item_size, uint32_t capacity, void (*body)(void*), void* arg)
{
	as_vector_inita(v, item_size, capacity);
	body(arg);
}
