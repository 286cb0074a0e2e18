#include "glue_atomic.h"
#include <aerospike/as_atomic.h>

#define NONE default: *has = 0; return 0

/* Operations of the integer types of 16 bits and more. */
#define FULL(N, T, U) static uint64_t x_##N(int op, T* t, T v, uint64_t* b, int* has) { T e = (T)*b; bool r; switch (op) { \
	case AO_LOAD: return (U)as_load_##N(t); case AO_LOAD_ACQ: return (U)as_load_##N##_acq(t); case AO_LOAD_SEQ: return (U)as_load_seq(t); \
	case AO_STORE: as_store_##N(t, v); return 0; case AO_STORE_RLS: as_store_##N##_rls(t, v); return 0; case AO_STORE_SEQ: as_store_seq(t, v); return 0; \
	case AO_FAA: return (U)as_faa_##N(t, v); case AO_FAA_ACQ: return (U)as_faa_acq(t, v); case AO_FAA_RLS: return (U)as_faa_rls(t, v); case AO_FAA_SEQ: return (U)as_faa_seq(t, v); \
	case AO_AAF: return (U)as_aaf_##N(t, v); case AO_AAF_ACQ: return (U)as_aaf_acq(t, v); case AO_AAF_RLS: return (U)as_aaf_##N##_rls(t, v); case AO_AAF_SEQ: return (U)as_aaf_seq(t, v); \
	case AO_ADD: as_add_##N(t, v); return 0; case AO_INCR: as_incr_##N(t); return 0; case AO_INCR_RLS: as_incr_##N##_rls(t); return 0; \
	case AO_DECR: as_decr_##N(t); return 0; case AO_DECR_RLS: as_decr_##N##_rls(t); return 0; \
	case AO_FAS: return (U)as_fas_##N(t, v); case AO_FAS_ACQ: return (U)as_fas_acq(t, v); case AO_FAS_RLS: return (U)as_fas_rls(t, v); case AO_FAS_SEQ: return (U)as_fas_seq(t, v); \
	case AO_CAS: return as_cas_##N(t, e, v); \
	case AO_CAS_RLX: r = as_cas_rlx(t, &e, v); *b = (U)e; return r; case AO_CAS_ACQ: r = as_cas_acq(t, &e, v); *b = (U)e; return r; \
	case AO_CAS_RLS: r = as_cas_rls(t, &e, v); *b = (U)e; return r; case AO_CAS_SEQ: r = as_cas_seq(t, &e, v); *b = (U)e; return r; \
	case AO_FENCED_LOAD: { T x = as_load_rlx(t); as_fence_acq(); return (U)x; } case AO_FENCED_STORE: as_fence_rls(); as_store_rlx(t, v); return 0; \
	case AO_SEQFENCED_LOAD: { T x = as_load_rlx(t); as_fence_seq(); return (U)x; } case AO_SEQFENCED_STORE: as_fence_seq(); as_store_rlx(t, v); return 0; \
	NONE; } }
#define SMALL(N, T, U) static uint64_t x_##N(int op, T* t, T v, uint64_t* b, int* has) { switch (op) { \
	case AO_LOAD: return (U)as_load_##N(t); case AO_LOAD_ACQ: return (U)as_load_##N##_acq(t); \
	case AO_STORE: as_store_##N(t, v); return 0; case AO_STORE_RLS: as_store_##N##_rls(t, v); return 0; \
	case AO_CAS: return as_cas_##N(t, (T)*b, v); \
	NONE; } }
FULL(uint64, uint64_t, uint64_t)
FULL(int64, int64_t, uint64_t)
FULL(uint32, uint32_t, uint32_t)
FULL(int32, int32_t, uint32_t)
FULL(uint16, uint16_t, uint16_t)
FULL(int16, int16_t, uint16_t)
SMALL(uint8, uint8_t, uint8_t)
SMALL(int8, int8_t, uint8_t)
static uint64_t x_ptr(int op, void** t, void* v, uint64_t* b, int* has)
{
	switch (op) {
	case AO_LOAD: return (uint64_t)as_load_ptr(t); case AO_LOAD_ACQ: return (uint64_t)as_load_ptr_acq(t);
	case AO_STORE: as_store_ptr(t, v); return 0; case AO_STORE_RLS: as_store_ptr_rls(t, v); return 0;
	case AO_FAS: return (uint64_t)as_fas_ptr(t, v); case AO_CAS: { void* e = (void*)*b; return as_cas_ptr(t, e, v); }
	NONE; }
}
static uint64_t x_dbl(int op, double* t, uint64_t vb, uint64_t* b, int* has)
{
	union { double d; uint64_t u; } v, e, r;
	v.u = vb; e.u = *b; r.u = 0;
	switch (op) {
	case AO_LOAD: r.d = as_load_double(t); return r.u;
	case AO_STORE: { double x = v.d; as_store_double(t, x); return 0; }
	case AO_FAS: { double x = v.d; r.d = as_fas_double(t, x); return r.u; }
	case AO_CAS: { double x = v.d, y = e.d; return as_cas_double(t, y, x); }
	NONE; }
}
static uint64_t x_flt(int op, float* t, uint64_t vb, uint64_t* b, int* has)
{
	union { float d; uint32_t u; } v, e, r;
	v.u = (uint32_t)vb; e.u = (uint32_t)*b; r.u = 0;
	switch (op) {
	case AO_LOAD: r.d = as_load_float(t); return r.u;
	case AO_STORE: { float x = v.d; as_store_float(t, x); return 0; }
	case AO_FAS: { float x = v.d; r.d = as_fas_float(t, x); return r.u; }
	case AO_CAS: { float x = v.d, y = e.d; return as_cas_float(t, y, x); }
	NONE; }
}
static uint64_t x_bool(int op, bool* t, bool v, uint64_t* b, int* has)
{
	switch (op) {
	case AO_LOAD: return as_load_bool(t); case AO_LOAD_ACQ: return as_load_bool_acq(t);
	case AO_STORE: as_store_bool(t, v); return 0; case AO_STORE_RLS: as_store_bool_rls(t, v); return 0;
	NONE; }
}
uint64_t x_atomic(int op, int type, void* t, uint64_t a, uint64_t* b, int* has)
{
	*has = 1;
	if (op == AO_SETMAX) {
		if (type == AT_U64) { return as_setmax_uint64(t, a); }
		if (type == AT_U32) { return as_setmax_uint32(t, (uint32_t)a); }
		*has = 0; return 0;
	}
	switch (type) {
	case AT_U64: return x_uint64(op, t, a, b, has);
	case AT_I64: return x_int64(op, t, (int64_t)a, b, has);
	case AT_U32: return x_uint32(op, t, (uint32_t)a, b, has);
	case AT_I32: return x_int32(op, t, (int32_t)a, b, has);
	case AT_U16: return x_uint16(op, t, (uint16_t)a, b, has);
	case AT_I16: return x_int16(op, t, (int16_t)a, b, has);
	case AT_U8: return x_uint8(op, t, (uint8_t)a, b, has);
	case AT_I8: return x_int8(op, t, (int8_t)a, b, has);
	case AT_PTR: return x_ptr(op, t, (void*)a, b, has);
	case AT_DBL: return x_dbl(op, t, a, b, has);
	case AT_FLT: return x_flt(op, t, a, b, has);
	case AT_BOOL: return x_bool(op, t, a & 1, b, has);
	}
	*has = 0;
	return 0;
}

void x_spin_init(as_spinlock* s) { as_spinlock_init(s); }
void x_spin_lock(as_spinlock* s) { as_spinlock_lock(s); }
void x_spin_unlock(as_spinlock* s) { as_spinlock_unlock(s); }
void x_sw_init(as_swlock* s) { as_swlock_init(s); }
void x_sw_write_lock(as_swlock* s) { as_swlock_write_lock(s); }
void x_sw_write_unlock(as_swlock* s) { as_swlock_write_unlock(s); }
void x_sw_read_lock(as_swlock* s) { as_swlock_read_lock(s); }
void x_sw_read_unlock(as_swlock* s) { as_swlock_read_unlock(s); }
