/* Harness vocabulary.  Under CBMC, nd() is a symbolic value recorded in the
 * trace through vp_nd_val; natively it reads the same value back from the
 * replay vector. */
#ifndef VP_H
#define VP_H
#include <stdint.h>
#include <stdbool.h>
#include <stddef.h>
#ifdef VP_CBMC
extern long vp_nd_val;
long nondet_long(void);
static inline long nd(long lo, long hi) {
    long v = nondet_long();
    __CPROVER_assume(v >= lo && v <= hi);
    vp_nd_val = v;
    return v;
}
#define ASSUME(c) __CPROVER_assume(c)
#define CHECK(c, msg) __CPROVER_assert((c), "CHECK " msg)
/* expected to be refuted by the solver: shows the situation is reachable */
#define WITNESS(c, msg) __CPROVER_assert(!(c), "WITNESS " msg)
#define vp_fatal() __CPROVER_assume(0)
#else
#include <stdio.h>
#include <stdlib.h>
long nd(long lo, long hi);
void vp_check_failed(const char *msg, const char *file, int line);
void vp_witness_reached(const char *msg);
void vp_assume_failed(const char *file, int line);
#define ASSUME(c) do { if (!(c)) vp_assume_failed(__FILE__, __LINE__); } while (0)
#define CHECK(c, msg) do { if (!(c)) vp_check_failed(msg, __FILE__, __LINE__); } while (0)
#define WITNESS(c, msg) do { if (c) vp_witness_reached(msg); } while (0)
#endif
/* CHECK/WITNESS bound to a property: only active when that property is being
 * decided (VP_<id> defined to 1 by the runner) */
#define IMP(a,b) (!(a) || (b))
void harness(void);
#endif
