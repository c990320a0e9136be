/* LeWI policy with masks: the CPU table and the message queue are replaced by
 * recorders that answer with any error and any list of tasks. */
#include "vp.h"
#include <sched.h>
#include <stdlib.h>
#include <string.h>
#ifdef VP_CBMC
static void vp_qsort(void *b, size_t n, size_t sz, int (*cmp)(const void*, const void*));
static void vp_qsort_r(void *b, size_t n, size_t sz, int (*cmp)(const void*, const void*, void*), void *arg);
#define qsort vp_qsort
#define qsort_r vp_qsort_r
#endif
#define malloc(s) vp_malloc(s)
static void *vp_malloc(size_t s);
#include "LB_policies/lewi_mask.c"
#undef malloc
#ifndef NT
#define NT 3
#endif
enum { NC = 4, ME = 101, OTHER = 102 };
static void *vp_malloc(size_t s) { void *p = malloc(s); ASSUME(p != NULL); return p; }
#ifdef VP_CBMC
static void vp_qsort(void *b, size_t n, size_t sz, int (*cmp)(const void*, const void*)) {
    cpuinfo_task_t *a = b;
    for (int i = 1; i < NT; ++i)
        for (int j = i; j > 0; --j)
            if ((size_t)i < n && cmp(&a[j-1], &a[j]) > 0) { cpuinfo_task_t t = a[j]; a[j] = a[j-1]; a[j-1] = t; }
}
static void vp_qsort_r(void *b, size_t n, size_t sz, int (*cmp)(const void*, const void*, void*), void *arg) {
    cpuid_t *a = b;
    for (int i = 1; i < NC; ++i)
        for (int j = i; j > 0; --j)
            if ((size_t)i < n && cmp(&a[j-1], &a[j], arg) > 0) { cpuid_t t = a[j]; a[j] = a[j-1]; a[j-1] = t; }
}
#endif
__thread subprocess_descriptor_t *thread_spd = NULL;
static subprocess_descriptor_t spd;
/* ---- what the CPU table was asked ---- */
enum { F_NONE, F_LEND_CPU, F_LEND_MASK, F_RECLAIM_CPU, F_RECLAIM_CPUS, F_RECLAIM_MASK, F_RECLAIM_ALL, F_ACQ_CPU, F_ACQ_SUB,
       F_ACQ_N, F_BOR_CPU, F_BOR_SUB, F_BOR_N, F_RET_ALL, F_RET_CPU, F_RET_MASK, F_DEREG, F_RESET, F_MAX, F_OWN, F_CHECK };
static int n_calls, f_fn, f_cpu, f_n, f_has_n, f_max, f_aff, f_ret, n_rmreq, n_queues;
static int64_t *f_last; static int64_t f_last_val;
static cpu_set_t f_mask;
static int f_sub[NC], f_nsub;
static int t_n, t_pid[NT], t_cpu[NT], t_act[NT];
/* ---- what was delivered ---- */
static int cb_en[NC], cb_dis[NC], msg_en[NC], msg_dis[NC], msg_ret[NC];
static int busy;
#define ASYNC (spd.options.mode == MODE_ASYNC)
#define PEND (((lewi_info_t*)spd.lewi_info)->pending_reclaimed_cpus)
static cpu_set_t pend0;
static void give(array_cpuinfo_task_t *tasks, int kind) { /* kind 1: own/other enable, 2: also disable */
    CHECK(tasks != NULL && tasks->count == 0 && tasks->capacity >= NC * 2, "an empty list with room for the tasks is passed");
    for (int i = 0; i < NT; ++i) {
        if (i > 0 && i > t_n) continue;
        if (!nd(0, 1)) continue;
        int p = nd(0, 1) ? ME : OTHER, c = nd(0, NC - 1), a = nd(0, 1) ? ENABLE_CPU : DISABLE_CPU;
        if (kind == 1) ASSUME(a == ENABLE_CPU);
        if (kind == 3) ASSUME(p == ME);
        if (kind == 4) ASSUME(p == ME ? a == ENABLE_CPU : a == DISABLE_CPU);   /* one's CPU taken back from its user */
        for (int j = 0; j < t_n; ++j) ASSUME(!(t_pid[j] == p && t_cpu[j] == c));
        /* a pending CPU is not in use in the table, so it cannot be told to stop */
        if (p == ME && a == DISABLE_CPU) ASSUME(!CPU_ISSET(c, &pend0));
        t_pid[t_n] = p; t_cpu[t_n] = c; t_act[t_n] = a;
        array_cpuinfo_task_t_push(tasks, (const cpuinfo_task_t){ .action = a, .pid = p, .cpuid = c });
        ++t_n;
    }
}
static void called(int fn, pid_t pid) {
    CHECK(pid == spd.id, "the CPU table is asked on behalf of this process");
    ++n_calls; f_fn = fn;
}
static int answer(void) { return f_ret = nd(DLB_ERR_REQST, DLB_NOTED); }
static void sub(const array_cpuid_t *a) {
    f_nsub = a->count;
    CHECK(a->count <= NC, "no more CPUs than the node has");
    for (int i = 0; i < NC; ++i) if ((size_t)i < a->count) f_sub[i] = a->items[i];
}
#define OKORNOTED (r == DLB_SUCCESS || r == DLB_NOTED)
int shmem_cpuinfo__lend_cpu(pid_t pid, int cpuid, array_cpuinfo_task_t *restrict tasks) {
    called(F_LEND_CPU, pid); f_cpu = cpuid; int r = answer(); if (r == DLB_SUCCESS && ASYNC) give(tasks, 1); return r; }
int shmem_cpuinfo__lend_cpu_mask(pid_t pid, const cpu_set_t *restrict mask, array_cpuinfo_task_t *restrict tasks) {
    called(F_LEND_MASK, pid); f_mask = *mask; int r = answer(); if (r == DLB_SUCCESS && ASYNC) give(tasks, 1); return r; }
int shmem_cpuinfo__reclaim_all(pid_t pid, array_cpuinfo_task_t *restrict tasks) {
    called(F_RECLAIM_ALL, pid); int r = answer(); if (OKORNOTED) give(tasks, 4); return r; }
int shmem_cpuinfo__reclaim_cpu(pid_t pid, int cpuid, array_cpuinfo_task_t *restrict tasks) {
    called(F_RECLAIM_CPU, pid); f_cpu = cpuid; int r = answer(); if (OKORNOTED) give(tasks, 4); return r; }
int shmem_cpuinfo__reclaim_cpus(pid_t pid, int ncpus, array_cpuinfo_task_t *restrict tasks) {
    called(F_RECLAIM_CPUS, pid); f_n = ncpus; int r = answer(); if (OKORNOTED) give(tasks, 4); return r; }
int shmem_cpuinfo__reclaim_cpu_mask(pid_t pid, const cpu_set_t *restrict mask, array_cpuinfo_task_t *restrict tasks) {
    called(F_RECLAIM_MASK, pid); f_mask = *mask; int r = answer(); give(tasks, 4); return r; }
int shmem_cpuinfo__acquire_cpu(pid_t pid, int cpuid, array_cpuinfo_task_t *restrict tasks) {
    called(F_ACQ_CPU, pid); f_cpu = cpuid; int r = answer(); if (OKORNOTED) give(tasks, 4); return r; }
int shmem_cpuinfo__acquire_from_cpu_subset(pid_t pid, const array_cpuid_t *restrict a, array_cpuinfo_task_t *restrict tasks) {
    called(F_ACQ_SUB, pid); sub(a); int r = answer();
    if (r == DLB_NOTED) give(tasks, 4); else if (r == DLB_SUCCESS) give(tasks, 1);
    return r; }
int shmem_cpuinfo__acquire_ncpus_from_cpu_subset(pid_t pid, int *restrict n, const array_cpuid_t *restrict a, lewi_affinity_t af,
        int max, int64_t *restrict last, array_cpuinfo_task_t *restrict tasks) {
    called(F_ACQ_N, pid); sub(a); f_has_n = n != NULL; if (n) f_n = *n; f_aff = af; f_max = max; f_last = last; if (last) f_last_val = *last;
    int r = answer(); if (r != DLB_NOUPDT && r >= 0) give(tasks, 4); if (last) *last = nd(0, 9); return r; }
int shmem_cpuinfo__borrow_cpu(pid_t pid, int cpuid, array_cpuinfo_task_t *restrict tasks) {
    called(F_BOR_CPU, pid); f_cpu = cpuid; int r = answer(); if (r == DLB_SUCCESS) give(tasks, 1); return r; }
int shmem_cpuinfo__borrow_from_cpu_subset(pid_t pid, const array_cpuid_t *restrict a, array_cpuinfo_task_t *restrict tasks) {
    called(F_BOR_SUB, pid); sub(a); int r = answer(); if (r == DLB_SUCCESS) { give(tasks, 1); ASSUME(t_n > 0); for (int i = 0; i < NT; ++i) if (i < t_n) ASSUME(t_pid[i] == ME); } return r; }
int shmem_cpuinfo__borrow_ncpus_from_cpu_subset(pid_t pid, int *restrict n, const array_cpuid_t *restrict a, lewi_affinity_t af,
        int max, int64_t *restrict last, array_cpuinfo_task_t *restrict tasks) {
    called(F_BOR_N, pid); sub(a); f_has_n = n != NULL; if (n) f_n = *n; f_aff = af; f_max = max; f_last = last; if (last) f_last_val = *last;
    int r = answer(); if (r == DLB_SUCCESS) give(tasks, 1); if (last) *last = nd(0, 9); return r; }
int shmem_cpuinfo__return_all(pid_t pid, array_cpuinfo_task_t *restrict tasks) {
    called(F_RET_ALL, pid); int r = answer(); give(tasks, 3); return r; }
int shmem_cpuinfo__return_cpu(pid_t pid, int cpuid, array_cpuinfo_task_t *restrict tasks) {
    called(F_RET_CPU, pid); f_cpu = cpuid; int r = answer(); if (r == DLB_SUCCESS || r == DLB_ERR_REQST) give(tasks, 3); return r; }
int shmem_cpuinfo__return_cpu_mask(pid_t pid, const cpu_set_t *mask, array_cpuinfo_task_t *restrict tasks) {
    called(F_RET_MASK, pid); f_mask = *mask; int r = answer(); give(tasks, 3); return r; }
int shmem_cpuinfo__deregister(pid_t pid, array_cpuinfo_task_t *restrict tasks) {
    called(F_DEREG, pid); int r = answer(); if (r == DLB_SUCCESS) give(tasks, 2); return r; }
int shmem_cpuinfo__reset(pid_t pid, array_cpuinfo_task_t *restrict tasks) {
    called(F_RESET, pid); int r = answer(); if (r == DLB_SUCCESS) give(tasks, 2); return r; }
int shmem_cpuinfo__update_max_parallelism(pid_t pid, unsigned int max, array_cpuinfo_task_t *restrict tasks) {
    called(F_MAX, pid); f_n = max; int r = answer(); if (r == DLB_SUCCESS) give(tasks, 2); return r; }
void shmem_cpuinfo__update_ownership(pid_t pid, const cpu_set_t *restrict m, array_cpuinfo_task_t *restrict tasks) {
    called(F_OWN, pid); f_mask = *m; f_ret = 0; give(tasks, 2); }
int shmem_cpuinfo__check_cpu_availability(pid_t pid, int cpu) { called(F_CHECK, pid); f_cpu = cpu; return answer(); }
void shmem_cpuinfo__enable_request_queues(void) { ++n_queues; }
void shmem_cpuinfo__remove_requests(pid_t pid) { CHECK(pid == spd.id, "the process removes its own requests"); ++n_rmreq; }
static void pmok(const pm_interface_t *pm) { CHECK(pm == &spd.pm, "this process's callbacks are used"); }
static void bump(int *a, int c) { CHECK(c >= 0 && c < NC, "a CPU of the node"); for (int i = 0; i < NC; ++i) if (i == c) ++a[i]; }
static void bumps(int *a, const cpu_set_t *m) { for (int i = 0; i < NC; ++i) if (CPU_ISSET(i, m)) ++a[i]; }
int enable_cpu(const pm_interface_t *pm, int c) { pmok(pm); bump(cb_en, c); return 0; }
int disable_cpu(const pm_interface_t *pm, int c) { pmok(pm); bump(cb_dis, c); return 0; }
int enable_cpu_set(const pm_interface_t *pm, const cpu_set_t *m) { pmok(pm); bumps(cb_en, m); return 0; }
int disable_cpu_set(const pm_interface_t *pm, const cpu_set_t *m) { pmok(pm); bumps(cb_dis, m); return 0; }
static void other(pid_t p) { CHECK(p == OTHER, "the message goes to the process of the task"); }
void shmem_async_enable_cpu(pid_t p, int c) { other(p); bump(msg_en, c); }
void shmem_async_enable_cpu_set(pid_t p, const cpu_set_t *m) { other(p); bumps(msg_en, m); }
void shmem_async_disable_cpu(pid_t p, int c) { other(p); bump(msg_dis, c); }
void shmem_async_disable_cpu_set(pid_t p, const cpu_set_t *m) { other(p); bumps(msg_dis, m); }
void shmem_cpuinfo__return_async_cpu(pid_t p, cpuid_t c) { other(p); bump(msg_ret, c);
    for (int i = 0; i < NC; ++i) CHECK(msg_ret[i] <= msg_dis[i], "a CPU is given up only after its user was told"); }
void shmem_cpuinfo__return_async_cpu_mask(pid_t p, const cpu_set_t *m) { other(p); bumps(msg_ret, m);
    for (int i = 0; i < NC; ++i) CHECK(msg_ret[i] <= msg_dis[i], "a CPU is given up only after its user was told"); }
static cpu_set_t thread_mask;
#ifdef VP_CBMC
int pthread_getaffinity_np(pthread_t t, size_t n, cpu_set_t *m) { *m = thread_mask; return 0; }
pthread_t pthread_self(void) { return 1; }
#else
int pthread_getaffinity_np(pthread_t t, size_t n, cpu_set_t *m) { *m = thread_mask; return 0; }
#endif
/* ---- topology ---- */
static int core_of(int c) { return SMT ? c / 2 : c; }
static int node_of(int c) { return c / 2; }
static void set_topology(void) {
    cpu_set_t sysm, cores[NC], nodes[2];
    CPU_ZERO(&sysm); CPU_ZERO(&nodes[0]); CPU_ZERO(&nodes[1]);
    for (int c = 0; c < NC; ++c) CPU_ZERO(&cores[c]);
    for (int c = 0; c < NC; ++c) { CPU_SET(c, &sysm); CPU_SET(c, &cores[core_of(c)]); CPU_SET(c, &nodes[node_of(c)]); }
    mu_testing_set_sys_masks(&sysm, cores, SMT ? NC/2 : NC, nodes, 2);
}
static void nd_mask(cpu_set_t *m) { CPU_ZERO(m); for (int c = 0; c < NC; ++c) if (nd(0, 1)) CPU_SET(c, m); }
static bool eq(const cpu_set_t *a, const cpu_set_t *b) { for (int c = 0; c < NC; ++c) if (!CPU_ISSET(c, a) != !CPU_ISSET(c, b)) return false; return true; }
static void forget(void) { n_calls = n_rmreq = 0; f_fn = F_NONE; t_n = 0;
    for (int c = 0; c < NC; ++c) cb_en[c] = cb_dis[c] = msg_en[c] = msg_dis[c] = msg_ret[c] = 0; }
static bool task(int p, int c, int a) { for (int i = 0; i < NT; ++i) if (i < t_n && t_pid[i] == p && t_cpu[i] == c && t_act[i] == a) return true; return false; }
static cpu_set_t extra_dis;  /* CPUs the process is told to stop using besides the tasks */
static void delivered(bool en, bool dis) {
    for (int c = 0; c < NC; ++c) {
        CHECK(cb_en[c] == (en && task(ME, c, ENABLE_CPU)), "the process is told exactly once of each CPU it obtained");
        CHECK(cb_dis[c] == ((dis && task(ME, c, DISABLE_CPU)) || CPU_ISSET(c, &extra_dis)), "the process is told exactly once of each CPU it must leave");
        CHECK(msg_en[c] == (en && ASYNC && task(OTHER, c, ENABLE_CPU)), "another process is told of its new CPU exactly once, and only in async mode");
        CHECK(msg_dis[c] == (dis && ASYNC && task(OTHER, c, DISABLE_CPU)), "another process is told to leave a CPU exactly once, and only in async mode");
        CHECK(msg_ret[c] == msg_dis[c], "a CPU another process was told to leave is given up on its behalf");
    }
}
static void pending_is(const cpu_set_t *want) { CHECK(eq(&PEND, want), "exactly the CPUs lost while blocked and neither obtained, lent nor returned since are pending"); }
static void subset_is(const cpu_set_t *mask, const cpu_set_t *pm) {
    int lvl[NC]; bool in[NC]; int cnt = 0;
    for (int c = 0; c < NC; ++c) {
        bool near = false;
        for (int d = 0; d < NC; ++d) if (CPU_ISSET(d, pm) && node_of(d) == node_of(c)) near = true;
        lvl[c] = CPU_ISSET(c, pm) ? 0 : near ? 1 : 2;
        int af = spd.options.lewi_affinity;
        in[c] = lvl[c] == 0 || (af != LEWI_AFFINITY_SPREAD_IFEMPTY && (af != LEWI_AFFINITY_NEARBY_ONLY || lvl[c] == 1));
        if (mask && !CPU_ISSET(c, mask)) in[c] = false;
        cnt += in[c];
        int times = 0;
        for (int i = 0; i < NC; ++i) if (i < f_nsub && f_sub[i] == c) ++times;
        CHECK(times == in[c], "the CPUs considered are those of the mask that the affinity allows, each once");
    }
    for (int i = 0; i + 1 < NC; ++i) if (i + 1 < f_nsub) {
        int a = f_sub[i], b = f_sub[i+1];
        for (int x = 0; x < NC; ++x) for (int y = 0; y < NC; ++y) if (a == x && b == y)
            CHECK(lvl[x] < lvl[y] || (lvl[x] == lvl[y] && (lvl[x] == 1 || x < y)), "own CPUs come first, then nearby ones, then the rest");
    }
}
static void one(int fn) { CHECK(n_calls == 1 && f_fn == fn, "the CPU table gets exactly the operation asked for"); }
static void start(void) {
    set_topology();
    spd.id = ME;
    spd.options.mode = nd(0, 1) ? MODE_ASYNC : MODE_POLLING;
#if defined AFF
    spd.options.lewi_affinity = AFF;
#else
    spd.options.lewi_affinity = LEWI_AFFINITY_AUTO;
#endif
    spd.options.lewi_max_parallelism = nd(0, 5);
    spd.options.lewi_keep_cpu_on_blocking_call = nd(0, 1);
    nd_mask(&spd.process_mask);
    CHECK(lewi_mask_Init(&spd) == DLB_SUCCESS, "initialization succeeds");
    CHECK(n_queues == ASYNC, "requests are queued in async mode only");
    nd_mask(&PEND);
    if (ASYNC) CPU_ZERO(&PEND);
    pend0 = PEND;
    forget();
}
static void own_enabled_out(cpu_set_t *m) { for (int c = 0; c < NC; ++c) if (task(ME, c, ENABLE_CPU)) CPU_CLR(c, m); }
#define O_LEND 1
#define O_LENDCPU 2
#define O_LENDMASK 3
#define O_RECLAIM 4
#define O_RECLAIMCPU 5
#define O_RECLAIMCPUS 6
#define O_RECLAIMMASK 7
#define O_ACQCPU 8
#define O_ACQCPUS 9
#define O_ACQMASK 10
#define O_ACQIN 11
#define O_BORROW 12
#define O_BORCPU 13
#define O_BORCPUS 14
#define O_BORMASK 15
#define O_BORIN 16
#define O_RET 17
#define O_RETCPU 18
#define O_RETMASK 19
#define O_CHECKAV 20
#define O_OWNER 21
#define O_INTO 22
#define O_OUT 23
#define O_SETMAX 24
#define O_ENABLE 25
#define O_DISABLE 26
#define O_FINI 27
void harness(void) {
    start();
    cpu_set_t m, want, all; mu_get_system_mask(&all);
    nd_mask(&m);
    int cpu = nd(0, NC - 1), n = nd(-2, 6), r;
    want = PEND;
    const lewi_info_t *li = spd.lewi_info;
    int max0 = spd.options.lewi_max_parallelism;
#if OP == O_LEND
    r = lewi_mask_Lend(&spd); one(F_LEND_MASK);
    CHECK(eq(&f_mask, &all), "all CPUs are lent"); CHECK(r == f_ret, "the answer of the CPU table is returned");
    if (r == DLB_SUCCESS) CPU_ZERO(&want);
    own_enabled_out(&want); delivered(true, true); pending_is(&want);
#elif OP == O_LENDCPU
    r = lewi_mask_LendCpu(&spd, cpu); one(F_LEND_CPU);
    CHECK(f_cpu == cpu, "that CPU is lent"); CHECK(r == f_ret, "the answer of the CPU table is returned");
    if (r == DLB_SUCCESS) CPU_CLR(cpu, &want);
    own_enabled_out(&want); delivered(true, true); pending_is(&want);
#elif OP == O_LENDMASK
    r = lewi_mask_LendCpuMask(&spd, &m); one(F_LEND_MASK);
    CHECK(eq(&f_mask, &m), "exactly the mask is lent"); CHECK(r == f_ret, "the answer of the CPU table is returned");
    if (r == DLB_SUCCESS) for (int c = 0; c < NC; ++c) if (CPU_ISSET(c, &m)) CPU_CLR(c, &want);
    own_enabled_out(&want); delivered(true, true); pending_is(&want);
#elif OP == O_RECLAIM || OP == O_RECLAIMCPU || OP == O_RECLAIMCPUS || OP == O_RECLAIMMASK
# if OP == O_RECLAIM
    r = lewi_mask_Reclaim(&spd);
    CHECK(n_calls == 1 && (f_fn == F_RECLAIM_ALL || (f_fn == F_RECLAIM_MASK && eq(&f_mask, &spd.process_mask))), "all the CPUs of the process are reclaimed");
# elif OP == O_RECLAIMCPU
    r = lewi_mask_ReclaimCpu(&spd, cpu); one(F_RECLAIM_CPU); CHECK(f_cpu == cpu, "that CPU is reclaimed");
# elif OP == O_RECLAIMCPUS
    r = lewi_mask_ReclaimCpus(&spd, n); one(F_RECLAIM_CPUS); CHECK(f_n == n, "that number of CPUs is reclaimed");
# else
    r = lewi_mask_ReclaimCpuMask(&spd, &m); one(F_RECLAIM_MASK); CHECK(eq(&f_mask, &m), "exactly the mask is reclaimed");
# endif
    CHECK(r == f_ret, "the answer of the CPU table is returned");
    own_enabled_out(&want); delivered(true, true); pending_is(&want);
    WITNESS(ASYNC && t_n == NT, "tasks for two processes");
#elif OP == O_ACQCPU || OP == O_BORCPU
# if OP == O_ACQCPU
    r = lewi_mask_AcquireCpu(&spd, cpu); one(F_ACQ_CPU);
# else
    r = lewi_mask_BorrowCpu(&spd, cpu); one(F_BOR_CPU);
# endif
    CHECK(f_cpu == cpu, "that CPU is asked for"); CHECK(r == f_ret, "the answer of the CPU table is returned");
    own_enabled_out(&want); delivered(true, true); pending_is(&want);
#elif OP == O_ACQCPUS || OP == O_ACQMASK || OP == O_ACQIN || OP == O_BORROW || OP == O_BORCPUS || OP == O_BORMASK || OP == O_BORIN
    const cpu_set_t *pm = &m;
    int fn = F_BOR_N, cnt = 0;
# if OP == O_ACQCPUS
    pm = NULL; fn = F_ACQ_N; cnt = n;
    r = lewi_mask_AcquireCpus(&spd, n);
    if (n <= 0) {
        CHECK(n_calls == 0 && n_rmreq == (n == 0), "acquiring 0 CPUs forgets the requests, and only that");
        CHECK(r == (n == 0 ? DLB_SUCCESS : DLB_NOUPDT), "acquiring 0 CPUs succeeds");
        delivered(false, false); pending_is(&want); return;
    }
# elif OP == O_ACQMASK
    r = lewi_mask_AcquireCpuMask(&spd, &m); fn = F_ACQ_N;
# elif OP == O_ACQIN
    ASSUME(n > 0); cnt = n; fn = F_ACQ_N; r = lewi_mask_AcquireCpusInMask(&spd, n, &m);
# elif OP == O_BORROW
    pm = NULL; r = lewi_mask_Borrow(&spd);
# elif OP == O_BORCPUS
    ASSUME(n > 0); pm = NULL; cnt = n; r = lewi_mask_BorrowCpus(&spd, n);
# elif OP == O_BORMASK
    r = lewi_mask_BorrowCpuMask(&spd, &m);
# else
    ASSUME(n > 0); cnt = n; r = lewi_mask_BorrowCpusInMask(&spd, n, &m);
# endif
    one(fn); CHECK(n_rmreq == 0, "no request is forgotten"); CHECK(r == f_ret, "the answer of the CPU table is returned");
    CHECK(f_has_n == (cnt > 0) && IMP(cnt > 0, f_n == cnt), "the number of CPUs is the one asked for, if any");
    CHECK(f_aff == spd.options.lewi_affinity && f_max == max0, "the affinity and the limit of the process apply");
    CHECK(ASYNC ? f_last == NULL : f_last != NULL, "the last failed attempt is only remembered in polling mode");
    CHECK(IMP(!ASYNC, f_last_val == 0), "the first attempt follows no failed one");
    subset_is(pm, &spd.process_mask);
    own_enabled_out(&want); delivered(true, true); pending_is(&want);
#elif OP == O_RET
    r = lewi_mask_Return(&spd);
    if (ASYNC) { CHECK(r == DLB_ERR_NOCOMP && n_calls == 0, "CPUs are not returned by hand in async mode"); delivered(false, false); return; }
    one(F_RET_ALL);
    own_enabled_out(&want);
    bool any = false; for (int c = 0; c < NC; ++c) if (CPU_ISSET(c, &want)) { any = true; CPU_SET(c, &extra_dis); }
    CHECK(r == (any ? DLB_SUCCESS : f_ret), "returning a lost CPU succeeds, otherwise the answer of the CPU table is returned");
    delivered(true, true); CPU_ZERO(&want); pending_is(&want);
    WITNESS(any, "a lost CPU is returned");
#elif OP == O_RETCPU
    r = lewi_mask_ReturnCpu(&spd, cpu);
    if (ASYNC) { CHECK(r == DLB_ERR_NOCOMP && n_calls == 0, "CPUs are not returned by hand in async mode"); delivered(false, false); return; }
    one(F_RET_CPU); CHECK(f_cpu == cpu, "that CPU is returned");
    own_enabled_out(&want);
    bool was = f_ret == DLB_ERR_PERM && CPU_ISSET(cpu, &pend0);
    if (was) { CPU_SET(cpu, &extra_dis); CPU_CLR(cpu, &want); }
    CHECK(r == (was ? DLB_SUCCESS : f_ret), "returning a lost CPU succeeds, otherwise the answer of the CPU table is returned");
    delivered(true, true); pending_is(&want);
    WITNESS(was, "a lost CPU is returned");
#elif OP == O_RETMASK
    r = lewi_mask_ReturnCpuMask(&spd, &m);
    if (ASYNC) { CHECK(r == DLB_ERR_NOCOMP && n_calls == 0, "CPUs are not returned by hand in async mode"); delivered(false, false); return; }
    one(F_RET_MASK); CHECK(eq(&f_mask, &m), "exactly the mask is returned");
    own_enabled_out(&want);
    bool any = false; for (int c = 0; c < NC; ++c) if (CPU_ISSET(c, &want) && CPU_ISSET(c, &m)) { any = true; CPU_SET(c, &extra_dis); CPU_CLR(c, &want); }
    CHECK(r == (any ? DLB_SUCCESS : f_ret), "returning a lost CPU succeeds, otherwise the answer of the CPU table is returned");
    delivered(true, true); pending_is(&want);
    WITNESS(any && CPU_COUNT(&want) > 0, "some of the lost CPUs are returned");
#elif OP == O_CHECKAV
    r = lewi_mask_CheckCpuAvailability(&spd, cpu); one(F_CHECK);
    CHECK(r == f_ret && f_cpu == cpu, "the answer of the CPU table is returned"); delivered(false, false); pending_is(&want);
#elif OP == O_OWNER
    r = lewi_mask_UpdateOwnership(&spd, &m); one(F_OWN); CHECK(eq(&f_mask, &m), "the new mask is registered");
    own_enabled_out(&want);
    for (int c = 0; c < NC; ++c) if (CPU_ISSET(c, &want)) CPU_SET(c, &extra_dis);
    delivered(true, true); CPU_ZERO(&want); pending_is(&want);
    forget(); pend0 = PEND; CPU_ZERO(&extra_dis);
    r = lewi_mask_Borrow(&spd); one(F_BOR_N); subset_is(NULL, &m);
#elif OP == O_INTO || OP == O_OUT
    nd_mask(&thread_mask); ASSUME(CPU_COUNT(&thread_mask) > 0);
    cpu_set_t T = thread_mask; int first = -1; bool owned = false;
    for (int c = NC - 1; c >= 0; --c) if (CPU_ISSET(c, &thread_mask)) first = c;
    if (spd.options.lewi_keep_cpu_on_blocking_call)
        for (int c = 0; c < NC; ++c) if (core_of(c) == core_of(first)) CPU_CLR(c, &T);
    bool none = CPU_COUNT(&T) == 0;
    for (int c = 0; c < NC; ++c) if (CPU_ISSET(c, &T) && CPU_ISSET(c, &spd.process_mask)) owned = true;
# if OP == O_INTO
    r = lewi_mask_IntoBlockingCall(&spd);
    if (none) { CHECK(r == DLB_NOUPDT && n_calls == 0, "nothing to lend"); delivered(false, false); pending_is(&want); return; }
    one(F_LEND_MASK); CHECK(eq(&f_mask, &T), "the CPUs of the thread are lent, except the core it keeps");
    CHECK(r == f_ret, "the answer of the CPU table is returned");
    if (r == DLB_SUCCESS) for (int c = 0; c < NC; ++c) if (CPU_ISSET(c, &T)) CPU_CLR(c, &want);
    own_enabled_out(&want); delivered(true, true); pending_is(&want);
    WITNESS(spd.options.lewi_keep_cpu_on_blocking_call, "a core is kept");
# else
    r = lewi_mask_OutOfBlockingCall(&spd);
    if (none) { CHECK(r == DLB_NOUPDT && n_calls == 0, "nothing to get back"); delivered(false, false); pending_is(&want); return; }
    one(owned ? F_ACQ_SUB : F_BOR_SUB); CHECK(r == f_ret, "the answer of the CPU table is returned");
    for (int c = 0; c < NC; ++c) {
        int times = 0; for (int i = 0; i < NC; ++i) if (i < f_nsub && f_sub[i] == c) ++times;
        CHECK(times == (CPU_ISSET(c, &T) && (!owned || CPU_ISSET(c, &spd.process_mask))), "the CPUs of the thread are asked for: its own ones if it has any");
    }
    own_enabled_out(&want);
    if (!owned) for (int c = 0; c < NC; ++c) if (CPU_ISSET(c, &T) && !task(ME, c, ENABLE_CPU)) { if (ASYNC) CPU_SET(c, &extra_dis); else CPU_SET(c, &want); }
    delivered(false, owned && ASYNC); pending_is(&want);
    WITNESS(owned && ASYNC && t_n == NT, "own CPUs taken back from another process");
    WITNESS(!owned && CPU_COUNT(&want) > 0, "a CPU was lost");
# endif
#elif OP == O_SETMAX
    r = lewi_mask_SetMaxParallelism(&spd, n);
    if (n <= 0) { CHECK(n_calls == 0 && r == DLB_SUCCESS, "no limit is set"); delivered(false, false); pending_is(&want); }
    else { one(F_MAX); CHECK(f_n == n && r == f_ret, "the limit is applied at once"); own_enabled_out(&want); delivered(true, true); pending_is(&want); }
    int lim = n > 0 ? n : max0;
    if (nd(0, 1)) { CHECK(lewi_mask_UnsetMaxParallelism(&spd) == DLB_SUCCESS, "the limit can be removed"); lim = 0; }
    forget(); pend0 = PEND;
    if (nd(0, 1)) { lewi_mask_Borrow(&spd); one(F_BOR_N); } else { lewi_mask_AcquireCpuMask(&spd, &m); one(F_ACQ_N); }
    CHECK(f_max == lim, "the limit in force is the last one set, none once removed");
#elif OP == O_ENABLE
    lewi_mask_BorrowCpuMask(&spd, &m);
    int64_t seen = ASYNC ? 0 : *f_last;
    forget(); pend0 = PEND;
    bool reset = nd(0, 1);
    if (reset) CHECK(lewi_mask_EnableDLB(&spd) == DLB_SUCCESS, "enabling succeeds");
    CHECK(n_calls == 0, "nothing else happens");
    if (nd(0, 1)) lewi_mask_Borrow(&spd); else lewi_mask_AcquireCpuMask(&spd, &m);
    CHECK(IMP(!ASYNC, f_last && f_last_val == (reset ? 0 : seen)), "the last failed attempt is remembered until LeWI is enabled again");
#elif OP == O_DISABLE
    r = lewi_mask_DisableDLB(&spd); one(F_RESET); CHECK(r == f_ret, "the answer of the CPU table is returned");
    own_enabled_out(&want); delivered(true, true); pending_is(&want);
#elif OP == O_FINI
    if (nd(0, 1)) lewi_mask_BorrowCpu(&spd, cpu);
    if (nd(0, 1)) lewi_mask_BorrowCpus(&spd, 1);
    forget(); pend0 = PEND;
    r = lewi_mask_Finalize(&spd); one(F_DEREG);
    CHECK(r == (f_ret >= 0 ? DLB_SUCCESS : f_ret), "finalizing succeeds unless the CPU table fails");
    delivered(true, true);
    /* the next initialization starts afresh */
    forget(); n_queues = 0; CPU_ZERO(&pend0);
    lewi_mask_Init(&spd);
    CPU_ZERO(&want); pending_is(&want);
    r = lewi_mask_Borrow(&spd); one(F_BOR_N); subset_is(NULL, &spd.process_mask); delivered(true, true);
#endif
    WITNESS(true, "end");
}
