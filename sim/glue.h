/* Out-of-line copies of the library's header functions and macros, compiled with the library's instrumentation. */
#pragma once
#include <aerospike/as_std.h>
#include <aerospike/as_queue.h>
#include <aerospike/as_queue_mt.h>
#include <citrusleaf/cf_queue.h>
#include <aerospike/as_monitor.h>
#include <aerospike/as_serializer.h>
#include <aerospike/as_arraylist.h>
#include <aerospike/as_bytes.h>
#include <aerospike/as_string_builder.h>
#include <aerospike/as_vector.h>
#include <aerospike/as_msgpack.h>
#ifdef __cplusplus
extern "C" {
#endif
void x_mon_init(as_monitor* m);
void x_mon_destroy(as_monitor* m);
void x_mon_begin(as_monitor* m);
void x_mon_notify(as_monitor* m);
void x_mon_wait(as_monitor* m);

/* Storage that the *_inita macros would take from the stack comes from this function. */
void* sim_alloca(size_t n);
void x_al_inita(as_arraylist* l, uint32_t n);
void x_by_inita(as_bytes* b, uint32_t n);
void x_sb_inita(as_string_builder* sb, uint32_t n, bool resize);
void x_sb_assign(as_string_builder* sb, uint32_t n, char* buf);
void x_sb_reset(as_string_builder* sb);
bool x_sb_newline(as_string_builder* sb);
bool x_by_set_byte(as_bytes* b, uint32_t i, uint8_t v);
bool x_by_set_int16(as_bytes* b, uint32_t i, int16_t v);
bool x_by_set_int32(as_bytes* b, uint32_t i, int32_t v);
bool x_by_set_int64(as_bytes* b, uint32_t i, int64_t v);
bool x_by_append_byte(as_bytes* b, uint8_t v);
bool x_by_append_int16(as_bytes* b, int16_t v);
bool x_by_append_int32(as_bytes* b, int32_t v);
bool x_by_append_int64(as_bytes* b, int64_t v);
uint32_t x_by_get_int32(const as_bytes* b, uint32_t i, int32_t* v);
bool x_by_set_double(as_bytes* b, uint32_t i, double v);
bool x_by_append_double(as_bytes* b, double v);
uint32_t x_by_get_byte(const as_bytes* b, uint32_t i, uint8_t* v);
uint32_t x_by_get_int16(const as_bytes* b, uint32_t i, int16_t* v);
uint32_t x_by_get_int64(const as_bytes* b, uint32_t i, int64_t* v);
uint32_t x_by_get_double(const as_bytes* b, uint32_t i, double* v);
void* x_vec_get(as_vector* v, uint32_t i);
void* x_vec_get_ptr(as_vector* v, uint32_t i);
void x_vec_append(as_vector* v, void* item);
void* x_vec_reserve(as_vector* v);
void x_vec_set(as_vector* v, uint32_t i, void* item);
void x_vec_clear(as_vector* v);
void x_vec_inita(as_vector* v, uint32_t item_size, uint32_t capacity, void (*body)(void*), void* arg);
uint32_t x_by_size(const as_bytes* b);
uint32_t x_by_capacity(const as_bytes* b);

uint32_t x_pack_size(as_val* v);
int x_serialize(as_val* v, as_buffer* b, bool heap);
int x_serialize_presized(const as_val* v, uint8_t* buf);
int x_deserialize(as_buffer* b, as_val** v, bool heap);

uint32_t x_cf_queue_sz(const cf_queue* q);

void x_aqm_destroy(as_queue_mt* q);
uint32_t x_aqm_size(as_queue_mt* q);
bool x_aqm_empty(as_queue_mt* q);
bool x_aqm_push(as_queue_mt* q, const void* p);
bool x_aqm_push_limit(as_queue_mt* q, const void* p);
bool x_aqm_push_head(as_queue_mt* q, const void* p);
bool x_aqm_push_head_limit(as_queue_mt* q, const void* p);
void x_aqm_inita(as_queue_mt* q, uint32_t item_size, uint32_t capacity, void (*body)(void*), void* arg);

uint32_t x_aq_size(as_queue* q);
bool x_aq_empty(as_queue* q);
void* x_aq_get(as_queue* q, uint32_t i);
bool x_aq_pop(as_queue* q, void* p);
bool x_aq_pop_tail(as_queue* q, void* p);
bool x_aq_incr_total(as_queue* q);
void x_aq_decr_total(as_queue* q);
void x_aq_inita(as_queue* q, uint32_t item_size, uint32_t capacity, void (*body)(void*), void* arg);
#ifdef __cplusplus
}
#endif
