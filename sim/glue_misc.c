#include "glue_misc.h"
uint64_t x_rnd_next64(as_random* r) { return as_random_next_uint64(r); }
uint32_t x_rnd_next32(as_random* r) { return as_random_next_uint32(r); }
uint64_t x_rnd_get64(void) { return as_random_get_uint64(); }
uint32_t x_rnd_get32(void) { return as_random_get_uint32(); }
void x_rnd_get_bytes(uint8_t* b, uint32_t n) { as_random_get_bytes(b, n); }
void x_rnd_get_str(char* s, uint32_t n) { as_random_get_str(s, n); }

#include <citrusleaf/cf_clock.h>
#include <aerospike/as_log_macros.h>
uint64_t x_clock_read(int which) {
	switch (which) {
	case CK_NS: return cf_getns();
	case CK_US: return cf_getus();
	case CK_MS: return cf_getms();
	case CK_S: return cf_get_seconds();
	case CK_ABS_MS: return cf_clock_getabsolute();
	case CK_CL_MS: return cf_clepoch_milliseconds();
	case CK_CL_S: return cf_secs_since_clepoch();
	case CK_CL_S32: return cf_clepoch_seconds();
	}
	return 0;
}
void x_clock_deadline_ms(int ms, struct timespec* out) { cf_set_wait_timespec(ms, out); }
void x_clock_deadline_ts(struct timespec* delta, struct timespec* out) { cf_clock_current_add(delta, out); }
void x_clock_ts_of_ms(int ms, struct timespec* out) { cf_clock_set_timespec_ms(ms, out); }
uint64_t x_clock_convert(int which, uint64_t v) {
	switch (which) {
	case CV_CLNS: return cf_clepoch_ns_from_utc_ns(v);
	case CV_CLUS: return cf_clepoch_us_from_utc_ns(v);
	case CV_CLMS: return cf_clepoch_ms_from_utc_ns(v);
	case CV_CLS: return cf_clepoch_sec_from_utc_ns(v);
	case CV_UNS: return cf_utc_ns_from_clepoch_ns(v);
	case CV_UUS: return cf_utc_ns_from_clepoch_us(v);
	case CV_UMS: return cf_utc_ns_from_clepoch_ms(v);
	case CV_US: return cf_utc_ns_from_clepoch_sec(v);
	}
	return 0;
}
uint32_t x_clock_ttl(uint32_t void_time) { return cf_server_void_time_to_ttl(void_time); }

void x_log_set(as_log_callback cb) { as_log_set_callback(cb); }
void x_log_level(as_log_level l) { as_log_set_level(l); }
void x_log(int level, int id, const char* text) {
	switch (level) {
	case AS_LOG_LEVEL_ERROR: as_log_error("%d %s", id, text); break;
	case AS_LOG_LEVEL_WARN: as_log_warn("%d %s", id, text); break;
	case AS_LOG_LEVEL_INFO: as_log_info("%d %s", id, text); break;
	case AS_LOG_LEVEL_DEBUG: as_log_debug("%d %s", id, text); break;
	case AS_LOG_LEVEL_TRACE: as_log_trace("%d %s", id, text); break;
	}
}
bool x_log_enabled(int level) {
	switch (level) {
	case AS_LOG_LEVEL_ERROR: return as_log_error_enabled();
	case AS_LOG_LEVEL_WARN: return as_log_warn_enabled();
	case AS_LOG_LEVEL_INFO: return as_log_info_enabled();
	case AS_LOG_LEVEL_DEBUG: return as_log_debug_enabled();
	case AS_LOG_LEVEL_TRACE: return as_log_trace_enabled();
	}
	return false;
}
const char* x_log_level_name(int level) { return as_log_level_tostring((as_log_level)level); }
