/* One operation of the basic LeWI policy while other processes change the
 * shared pool of CPUs between any two accesses to it. */
#include "vp.h"
#include <sched.h>
#include <stdlib.h>
#include <string.h>
#ifndef K
#define K 6
#endif
#define O_INIT 1
#define O_FINALIZE 2
#define O_ENABLE 3
#define O_DISABLE 4
#define O_INTO 5
#define O_OUT 6
#define O_LEND 7
#define O_SETMAX 8
#define O_RECLAIM 9
#define O_UNSETMAX 10
#define O_BORROW 11
#define O_BORROWCPUS 12

#define POOL 1
#define OWN 2

static void vp_env(void);
/* every access to the shared pool may be preceded by operations of others
 * (the generated copy of comm_lend_light.c spells shdata->x as VP_SHARED(shdata->x)) */
#define VP_SHARED(x) (*({ vp_env(); &(x); }))
static int vp_lowest; static bool vp_took; static int vp_give_old = -1;
#define __sync_bool_compare_and_swap(p, o, n) ({ __typeof__(p) p_ = (p); int o_ = (o), n_ = (n); vp_env(); \
    bool r_ = __sync_bool_compare_and_swap(p_, o_, n_); if (r_ && n_ < o_) { vp_took = true; vp_lowest = n_; } if (r_ && n_ > o_) vp_give_old = o_; r_; })
#define __sync_val_compare_and_swap(p, o, n) ({ __typeof__(p) p_ = (p); int o_ = (o), n_ = (n); vp_env(); \
    int r_ = __sync_val_compare_and_swap(p_, o_, n_); r_; })
#include "gen_comm_lend_light.c"
#undef __sync_bool_compare_and_swap
#undef __sync_val_compare_and_swap
#include "support/mask_utils.h"
#define mu_get_system_size() 8
#include "LB_policies/lewi.c"
#undef mu_get_system_size

static struct shdata pool;
static int handler_obj, depth, finalized;
shmem_handler_t* shmem_init(void **p, const shmem_props_t *props) { *p = &pool; return (shmem_handler_t*)&handler_obj; }
void shmem_finalize(shmem_handler_t *h, bool (*fn)(void)) { finalized = 1 + (fn ? fn() : 0); }
void shmem_lock(shmem_handler_t *h) { CHECK(depth == 0, "the lock is not taken twice"); depth++; }
void shmem_unlock(shmem_handler_t *h) { CHECK(depth == 1, "an unlock matches a lock"); depth--; }
static int told = -1, ntold;
int update_threads(const pm_interface_t *pm, int n) { CHECK(n >= 0, "the number of threads is not negative"); told = n; ntold++; return DLB_SUCCESS; }

/* the other processes, as one: how many, what they own and what they use */
static int env_n, env_own, env_cur;
static int steps;
static void vp_env(void) {
#ifndef NOENV
    if (steps >= 4) return;
    if (!nd(0, 1)) return;
    steps++;
    if (depth == 0 && env_n == 0 && nd(0, 1)) {       /* somebody joins: it runs the same code */
        if (pool.attached_nprocs++ == 0) pool.idleCpus = 0;
        env_n = 1; int k = nd(1, K); env_own += k; env_cur += k;
    }
    if (env_n > 0) {                                   /* they lend, reclaim, borrow */
        int d = nd(-K, K);
        pool.idleCpus += d; env_cur -= d;
    }
#endif
}
#ifndef VP_CBMC
static int g_my, g_idle, g_err; static long g_arg;
void vp_show(void) {
    printf("op %d argument %ld: result %d; own %d, used %d -> %d (told %d), pool %d -> %d, others own %d use %d, greedy %d, enabled %d, max %d\n", OP, g_arg, g_err, default_cpus, g_my, myCPUS, told,
        g_idle, pool.idleCpus, env_own, env_cur, greedy, enabled, max_parallelism);
}
#define SHOW() (g_err = err, g_arg = arg, g_my = my0, g_idle = idle0)
#else
#define SHOW() 0
#endif

void harness(void) {
    static subprocess_descriptor_t spd;
    bool in = OP == O_INIT, out = OP == O_FINALIZE;
    int own = nd(1, K);
    bool g = nd(0, 1);
    env_n = nd(0, 1);
    if (env_n) { env_own = nd(0, 2 * K); env_cur = nd(-K, 3 * K); }
    spd.options.lewi_greedy = g;
    spd.options.lewi_warmup = nd(0, 1);
    spd.options.lewi_keep_cpu_on_blocking_call = nd(0, 1);
    bool keep = spd.options.lewi_keep_cpu_on_blocking_call;
    spd.lewi_ncpus = own;
    if (in) {
        pool.attached_nprocs = env_n;
        pool.idleCpus = env_n ? env_own - env_cur : nd(-K, K);   /* whatever a previous run left */
    } else {
        shdata = &pool; shm_handler = (shmem_handler_t*)&handler_obj; subprocesses_attached = nd(1, 2);
        pool.attached_nprocs = env_n + 1;
        default_cpus = defaultCPUS = own; greedy = g;
        enabled = OP == O_ENABLE || OP == O_INTO || OP == O_OUT || OP == O_DISABLE || OP == O_FINALIZE ? nd(0, 1) : 1;
        myCPUS = nd(0, 3 * K); told = myCPUS;
        if (!enabled) ASSUME(myCPUS == own);
        max_parallelism = nd(0, K);
        pool.idleCpus = env_own + own - env_cur - myCPUS;
    }
    int my0 = myCPUS, idle0 = pool.idleCpus, max0 = max_parallelism, en0 = enabled, err = 0; long arg = 0;
    ASSUME(idle0 >= -3 * K && idle0 <= 3 * K);
    (void)my0; (void)idle0; (void)max0; (void)en0; (void)keep; (void)arg; (void)err; (void)out;
#if OP == O_INIT
    err = lewi_Init(&spd);
#elif OP == O_FINALIZE
    err = lewi_Finalize(&spd);
#elif OP == O_ENABLE
    err = lewi_EnableDLB(&spd);
#elif OP == O_DISABLE
    err = lewi_DisableDLB(&spd);
#elif OP == O_INTO
    err = lewi_IntoBlockingCall(&spd);
#elif OP == O_OUT
    err = lewi_OutOfBlockingCall(&spd);
#elif OP == O_LEND
    err = lewi_Lend(&spd);
#elif OP == O_SETMAX
    arg = nd(-2, 2 * K);
    err = lewi_SetMaxParallelism(&spd, arg);
#elif OP == O_UNSETMAX
    err = lewi_UnsetMaxParallelism(&spd);
#elif OP == O_RECLAIM
    err = lewi_Reclaim(&spd);
#elif OP == O_BORROW
    err = lewi_Borrow(&spd);
#elif OP == O_BORROWCPUS
    arg = nd(-2, 2 * K);
    err = lewi_BorrowCpus(&spd, arg);
#endif
    SHOW();
    CHECK(depth == 0, "the lock is released");
#if PROP == POOL
    if (out) CHECK(pool.idleCpus + env_cur == env_own, "a process that leaves returns what it borrowed and takes back what it lent");
    else CHECK(pool.idleCpus + env_cur + myCPUS == env_own + own, "CPUs in use plus idle CPUs equal the CPUs contributed");
    CHECK(pool.attached_nprocs == env_n + !out, "the number of processes is right");
    WITNESS(pool.idleCpus != idle0 && env_n == 1, "the pool changes");
#elif PROP == OWN
    if (!out) CHECK(told == myCPUS && myCPUS >= 0, "the program runs with the CPUs it holds");
    if (OP == O_LEND) CHECK(myCPUS == 1, "lend keeps one CPU");
    if (OP == O_INTO && en0) CHECK(myCPUS == (keep ? 1 : 0), "blocking keeps one CPU or none");
    if ((OP == O_INTO || OP == O_OUT) && !en0) CHECK(myCPUS == my0, "nothing happens while disabled");
    if ((OP == O_OUT && en0) || OP == O_RECLAIM) {
        CHECK(myCPUS >= own, "a process that reclaims has at least its own CPUs");
        CHECK(g || myCPUS == own, "and no others unless greedy");
    }
    if (OP == O_DISABLE || OP == O_INIT) CHECK(myCPUS == own, "exactly the own CPUs");
    if (OP == O_SETMAX) {
        CHECK(IMP(arg > 0, max_parallelism == arg && myCPUS == (my0 < arg ? my0 : arg)), "max parallelism is enforced at once");
        CHECK(IMP(arg <= 0, myCPUS == my0 && max_parallelism == max0), "max parallelism must be positive");
    }
    if (OP == O_UNSETMAX) CHECK(max_parallelism == 0 && myCPUS == my0, "unsetting max parallelism moves no CPU");
    if (OP == O_ENABLE) CHECK(enabled == 1 && myCPUS == my0, "enabling moves no CPU");
    if (OP == O_DISABLE) CHECK(enabled == 0, "disabled");
    if (OP == O_BORROW || OP == O_BORROWCPUS) {
        long want = OP == O_BORROW ? 99 : arg, cap = max0 > 0 ? max0 - my0 : 99;
        if (want < 0) CHECK(myCPUS == my0, "borrowing a negative amount changes nothing");
        CHECK(IMP(myCPUS > my0, myCPUS - my0 <= want && myCPUS - my0 <= cap), "never more than asked for or than max parallelism");
        CHECK(IMP(myCPUS < my0, myCPUS >= own), "no own CPU is given up");
        CHECK(IMP(vp_took, vp_lowest >= 0), "only idle CPUs are taken");
        CHECK(IMP(vp_give_old != -1, vp_give_old < 0), "borrowed CPUs are given back only when owners miss them");
        CHECK((err == DLB_SUCCESS) == (myCPUS != my0), "the result says whether anything changed");
#ifdef NOENV
        long get = idle0 < want ? idle0 : want; get = get < cap ? get : cap;
        CHECK(IMP(get > 0, myCPUS - my0 == get), "idle CPUs are obtained");
        long debt = -idle0, spare = my0 - own; debt = debt < spare ? debt : spare;
        CHECK(IMP(idle0 < 0 && my0 > own && want >= 0, myCPUS == my0 - debt), "CPUs missed by their owners are given back");
#endif
    }
    WITNESS(myCPUS != my0 || OP == O_ENABLE || OP == O_UNSETMAX || OP == O_FINALIZE, "the CPUs of the process change");
#endif
}
