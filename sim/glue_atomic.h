/* Every atomic operation of the library, selected by number. */
#pragma once
#include <stdbool.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
enum { AT_U64, AT_I64, AT_U32, AT_I32, AT_U16, AT_I16, AT_U8, AT_I8, AT_PTR, AT_DBL, AT_FLT, AT_BOOL, AT_NTYPES };
enum { AO_LOAD, AO_LOAD_ACQ, AO_LOAD_SEQ, AO_STORE, AO_STORE_RLS, AO_STORE_SEQ,
	AO_FAA, AO_FAA_ACQ, AO_FAA_RLS, AO_FAA_SEQ, AO_AAF, AO_AAF_ACQ, AO_AAF_RLS, AO_AAF_SEQ,
	AO_ADD, AO_INCR, AO_INCR_RLS, AO_DECR, AO_DECR_RLS,
	AO_FAS, AO_FAS_ACQ, AO_FAS_RLS, AO_FAS_SEQ, AO_CAS, AO_CAS_RLX, AO_CAS_ACQ, AO_CAS_RLS, AO_CAS_SEQ, AO_SETMAX,
	AO_FENCED_LOAD, AO_FENCED_STORE, AO_SEQFENCED_LOAD, AO_SEQFENCED_STORE, AO_NOPS };
/* Carry out an operation. a: operand (new value), b: expected value of a compare-and-swap, and after a failed one
   that returns it the value found. Values travel as the bits of the type in the low end. Returns the result, or 0.
   *has: 0 if the library has no such operation for the type. */
uint64_t x_atomic(int op, int type, void* target, uint64_t a, uint64_t* b, int* has);
#include <aerospike/as_atomic.h>
void x_spin_init(as_spinlock* s);
void x_spin_lock(as_spinlock* s);
void x_spin_unlock(as_spinlock* s);
void x_sw_init(as_swlock* s);
void x_sw_write_lock(as_swlock* s);
void x_sw_write_unlock(as_swlock* s);
void x_sw_read_lock(as_swlock* s);
void x_sw_read_unlock(as_swlock* s);
#ifdef __cplusplus
}
#endif
