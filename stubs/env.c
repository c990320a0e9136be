/* Environment of the code under test: logging is silent, time is an arbitrary
 * non-decreasing clock, shared-memory locking is the identity (every cpuinfo /
 * procinfo operation runs inside one critical section). */
#include "vp.h"
#include "support/debug.h"
#include "support/tracing.h"
#include "LB_core/spd.h"
#include <pthread.h>
#undef verbose
#ifndef VP_NO_DEBUG
verbose_opts_t vb_opts = VB_CLEAR;
int vp_fatal_calls, vp_warning_calls;
#ifdef VP_CBMC
void fatal(const char *fmt, ...) { ++vp_fatal_calls;
#ifdef VP_FATAL_IS_VIOLATION
    CHECK(0, "fatal() is never reached");
#endif
    __CPROVER_assume(0); }
void fatal0(const char *fmt, ...) { ++vp_fatal_calls;
#ifdef VP_FATAL_IS_VIOLATION
    CHECK(0, "fatal() is never reached");
#endif
    __CPROVER_assume(0); }
#else
void fatal(const char *fmt, ...) {
#ifdef VP_FATAL_IS_VIOLATION
    CHECK(0, "fatal() is never reached");
#endif
    exit(77); }
void fatal0(const char *fmt, ...) {
#ifdef VP_FATAL_IS_VIOLATION
    CHECK(0, "fatal() is never reached");
#endif
    exit(77); }
#endif
void warning(const char *fmt, ...) { ++vp_warning_calls; }
void warning0(const char *fmt, ...) { ++vp_warning_calls; }
void info(const char *fmt, ...) {}
void info0(const char *fmt, ...) {}
void info0_force_print(const char *fmt, ...) {}
void verbose(verbose_opts_t flag, const char *fmt, ...) {}
void warn_error(int error) {}
void print_backtrace(void) {}
void printbuffer_init(print_buffer_t *b) {}
void printbuffer_destroy(print_buffer_t *b) {}
void printbuffer_append(print_buffer_t *b, const char *l) {}
#endif
#ifdef VP_CBMC
#ifdef VP_MEMCMP4
int memcmp(const void *a, const void *b, size_t n) {
    if (n == 4) return *(const int*)a == *(const int*)b ? 0 : (*(const int*)a < *(const int*)b ? -1 : 1);
    const unsigned char *x = a, *y = b;
    for (size_t i = 0; i < n; ++i) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1;
    return 0;
}
#endif
int pthread_mutex_lock(pthread_mutex_t *m) { return 0; }
int pthread_mutex_unlock(pthread_mutex_t *m) { return 0; }
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { return 0; }
int pthread_mutex_destroy(pthread_mutex_t *m) { return 0; }
#ifndef VP_NO_FFSL
int ffsl(long v) { 
    if (v == 0) return 0;
    unsigned long u = (unsigned long)v; int n = 1;
    if (!(u & 0xffffffffUL)) { n += 32; u >>= 32; }
    if (!(u & 0xffffUL)) { n += 16; u >>= 16; }
    if (!(u & 0xffUL)) { n += 8; u >>= 8; }
    if (!(u & 0xfUL)) { n += 4; u >>= 4; }
    if (!(u & 0x3UL)) { n += 2; u >>= 2; }
    if (!(u & 0x1UL)) { n += 1; }
    return n;
}
#endif
#endif
