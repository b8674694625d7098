/* Force-included (-include) before every file of /repo that is verified or
 * replayed.  It replaces only the logging macros: a logging call still
 * evaluates its arguments, but does no I/O (the log module itself is verified
 * separately, in specs/log.c).  Nothing else of the source is changed. */
#ifndef VPRE_H
#define VPRE_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#ifdef BRSKI_VERIFY
#include "hooks.h"
#endif
#ifndef VERIF_REAL_LOG
#ifdef __cplusplus
extern "C" {
#include "/repo/src/utils/log.h"
}
#else
#include "/repo/src/utils/log.h"
#endif
#undef log_trace
#undef log_debug
#undef log_info
#undef log_warn
#undef log_error
#undef log_errno
#undef log_err_ex
#undef log_err_exp
static inline void vlog_(const char *f, ...) { (void)f; }
#ifdef VLOG_NOARGS
#define log_trace(...) ((void)0)
#else
#define log_trace(...) vlog_(__VA_ARGS__)
#endif
#define log_debug(...) vlog_(__VA_ARGS__)
#define log_info(...) vlog_(__VA_ARGS__)
#define log_warn(...) vlog_(__VA_ARGS__)
#define log_error(...) vlog_(__VA_ARGS__)
#define log_errno(...) vlog_(__VA_ARGS__)
#define log_err_ex(...) vlog_(__VA_ARGS__)
#define log_err_exp(...) vlog_(__VA_ARGS__)
#endif
#endif
