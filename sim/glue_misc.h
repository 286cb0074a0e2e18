/* Header functions and macros of the library, compiled with instrumentation. */
#pragma once
#include <stdbool.h>
#include <stdint.h>
#include <time.h>
#include <aerospike/as_random.h>
#ifdef __cplusplus
extern "C" {
#endif
uint64_t x_rnd_next64(as_random* r);
uint32_t x_rnd_next32(as_random* r);
uint64_t x_rnd_get64(void);
uint32_t x_rnd_get32(void);
void x_rnd_get_bytes(uint8_t* b, uint32_t n);
void x_rnd_get_str(char* s, uint32_t n);
/* Clocks. Readings are returned as signed 64-bit numbers. */
enum { CK_NS, CK_US, CK_MS, CK_S, CK_ABS_MS, CK_CL_MS, CK_CL_S, CK_CL_S32, CK_NREAD };
uint64_t x_clock_read(int which);
void x_clock_deadline_ms(int ms, struct timespec* out);
void x_clock_deadline_ts(struct timespec* delta, struct timespec* out);
void x_clock_ts_of_ms(int ms, struct timespec* out);
enum { CV_CLNS, CV_CLUS, CV_CLMS, CV_CLS, CV_UNS, CV_UUS, CV_UMS, CV_US, CV_N };
uint64_t x_clock_convert(int which, uint64_t v);
uint32_t x_clock_ttl(uint32_t void_time);
/* Logging. */
#include <aerospike/as_log.h>
void x_log_set(as_log_callback cb);
void x_log_level(as_log_level l);
void x_log(int level, int id, const char* text);
bool x_log_enabled(int level);
const char* x_log_level_name(int level);
#ifdef __cplusplus
}
#endif
