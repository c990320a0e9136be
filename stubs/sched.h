/* Bounded model of <sched.h> used ONLY under CBMC: a cpu_set_t is one machine
 * word (CPU_SETSIZE 64) so that masks are bit-vectors for the solver.  Native
 * replays use the system header. */
#ifndef VP_STUB_SCHED_H
#define VP_STUB_SCHED_H
#ifndef VP_CBMC
#include_next <sched.h>
#else
#define _SCHED_H 1
#define _BITS_CPU_SET_H 1
#include <stddef.h>
#include <sys/types.h>
#include <time.h>
struct sched_param { int sched_priority; };
#ifndef VP_CPUSET_WORDS
#define VP_CPUSET_WORDS 1
#endif
#ifdef VP_CPU_SETSIZE     /* buffers sized by it become smaller */
#define CPU_SETSIZE VP_CPU_SETSIZE
#else
#define CPU_SETSIZE (64*VP_CPUSET_WORDS)
#endif
#define __CPU_SETSIZE CPU_SETSIZE
typedef unsigned long __cpu_mask;
#define __NCPUBITS 64
typedef struct { __cpu_mask __bits[VP_CPUSET_WORDS]; } cpu_set_t;
#if VP_CPUSET_WORDS == 1
#define VP_CB(c) (((size_t)(c)) < 64 ? 1UL << (((size_t)(c)) & 63) : 0UL)
#define CPU_ZERO(s)      ((void)((s)->__bits[0] = 0UL))
#define CPU_SET(c,s)     ((void)((s)->__bits[0] |= VP_CB(c)))
#define CPU_CLR(c,s)     ((void)((s)->__bits[0] &= ~VP_CB(c)))
#define CPU_ISSET(c,s)   ((int)(((s)->__bits[0] & VP_CB(c)) != 0))
static inline int vp_popcount(unsigned long v) {
    v = v - ((v >> 1) & 0x5555555555555555UL);
    v = (v & 0x3333333333333333UL) + ((v >> 2) & 0x3333333333333333UL);
    v = (v + (v >> 4)) & 0x0f0f0f0f0f0f0f0fUL;
    return (int)((v * 0x0101010101010101UL) >> 56);
}
#ifdef VP_SYS_BITS
/* cheaper popcount when only the low VP_SYS_BITS bits can ever be set */
static inline int vp_count(unsigned long v) {
    int n = 0;
    for (int i = 0; i < VP_SYS_BITS; ++i) n += (int)((v >> i) & 1UL);
    if (v >> VP_SYS_BITS) n += vp_popcount(v >> VP_SYS_BITS << VP_SYS_BITS);
    return n;
}
#else
#define vp_count vp_popcount
#endif
#define CPU_COUNT(s)     vp_count((s)->__bits[0])
#define CPU_EQUAL(a,b)   ((a)->__bits[0] == (b)->__bits[0])
#define CPU_AND(d,a,b)   ((void)((d)->__bits[0] = (a)->__bits[0] & (b)->__bits[0]))
#define CPU_OR(d,a,b)    ((void)((d)->__bits[0] = (a)->__bits[0] | (b)->__bits[0]))
#define CPU_XOR(d,a,b)   ((void)((d)->__bits[0] = (a)->__bits[0] ^ (b)->__bits[0]))
#define CPU_ALLOC_SIZE(n) ((((size_t)(n) + 63) / 64) * 8)
#define CPU_ALLOC(n)     ((cpu_set_t*)malloc(sizeof(cpu_set_t)))
#define CPU_FREE(p)      free(p)
#define CPU_ZERO_S(z,s)      ((void)(z), CPU_ZERO(s))
#define CPU_SET_S(c,z,s)     ((void)(z), CPU_SET(c,s))
#define CPU_CLR_S(c,z,s)     ((void)(z), CPU_CLR(c,s))
#define CPU_ISSET_S(c,z,s)   ((void)(z), CPU_ISSET(c,s))
#define CPU_COUNT_S(z,s)     ((void)(z), CPU_COUNT(s))
#define CPU_EQUAL_S(z,a,b)   ((void)(z), CPU_EQUAL(a,b))
#define CPU_AND_S(z,d,a,b)   ((void)(z), CPU_AND(d,a,b))
#define CPU_OR_S(z,d,a,b)    ((void)(z), CPU_OR(d,a,b))
#define CPU_XOR_S(z,d,a,b)   ((void)(z), CPU_XOR(d,a,b))
#else
/* multi-word sets: same semantics as glibc's generic macros */
#define VP_W(c) (((size_t)(c))/64)
#define CPU_ZERO_S(z,s) do { for (size_t _i=0;_i<(z)/8;++_i) (s)->__bits[_i]=0; } while(0)
#define CPU_ZERO(s) CPU_ZERO_S(sizeof(cpu_set_t), s)
#define CPU_SET_S(c,z,s) ((void)(((size_t)(c))/8 < (z) ? ((s)->__bits[VP_W(c)] |= 1UL<<((c)%64)) : 0UL))
#define CPU_CLR_S(c,z,s) ((void)(((size_t)(c))/8 < (z) ? ((s)->__bits[VP_W(c)] &= ~(1UL<<((c)%64))) : 0UL))
#define CPU_ISSET_S(c,z,s) ((int)(((size_t)(c))/8 < (z) ? (((s)->__bits[VP_W(c)] >> ((c)%64)) & 1UL) : 0UL))
#define CPU_SET(c,s) CPU_SET_S(c,sizeof(cpu_set_t),s)
#define CPU_CLR(c,s) CPU_CLR_S(c,sizeof(cpu_set_t),s)
#define CPU_ISSET(c,s) CPU_ISSET_S(c,sizeof(cpu_set_t),s)
static inline int vp_count_s(size_t z, const cpu_set_t *s) {
    int n=0; for (size_t i=0;i<z/8;++i) n += __builtin_popcountl(s->__bits[i]); return n; }
static inline int vp_equal_s(size_t z, const cpu_set_t *a, const cpu_set_t *b) {
    for (size_t i=0;i<z/8;++i) if (a->__bits[i]!=b->__bits[i]) return 0; return 1; }
#define CPU_COUNT_S(z,s) vp_count_s(z,s)
#define CPU_COUNT(s) vp_count_s(sizeof(cpu_set_t),s)
#define CPU_EQUAL_S(z,a,b) vp_equal_s(z,a,b)
#define CPU_EQUAL(a,b) vp_equal_s(sizeof(cpu_set_t),a,b)
#define VP_OP_S(z,d,a,b,op) do { for (size_t _i=0;_i<(z)/8;++_i) (d)->__bits[_i]=(a)->__bits[_i] op (b)->__bits[_i]; } while(0)
#define CPU_AND_S(z,d,a,b) VP_OP_S(z,d,a,b,&)
#define CPU_OR_S(z,d,a,b) VP_OP_S(z,d,a,b,|)
#define CPU_XOR_S(z,d,a,b) VP_OP_S(z,d,a,b,^)
#define CPU_AND(d,a,b) VP_OP_S(sizeof(cpu_set_t),d,a,b,&)
#define CPU_OR(d,a,b) VP_OP_S(sizeof(cpu_set_t),d,a,b,|)
#define CPU_XOR(d,a,b) VP_OP_S(sizeof(cpu_set_t),d,a,b,^)
#define CPU_ALLOC_SIZE(n) ((((size_t)(n) + 63) / 64) * 8)
#define CPU_ALLOC(n)     ((cpu_set_t*)malloc(CPU_ALLOC_SIZE(n)))
#define CPU_FREE(p)      free(p)
#endif
int sched_getaffinity(pid_t, size_t, cpu_set_t *);
int sched_setaffinity(pid_t, size_t, const cpu_set_t *);
int sched_getcpu(void);
int sched_yield(void);
#endif
#endif
