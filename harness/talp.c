/* One TALP operation of one thread, from an arbitrary state of all regions and
 * of all threads' running samples. */
#include "vp.h"
#include <stdlib.h>
#include <string.h>
#include <pthread.h>
#ifndef NT
#define NT 2            /* threads with a sample */
#endif
#ifndef NR
#define NR 3            /* regions, the first one is the global region */
#endif
#ifndef TMAX
#define TMAX (1L << 40)
#endif

#define O_START 1
#define O_STOP 2
#define O_RESET 3
#define O_UPDATE 4
#define O_INTO_MPI 5
#define O_OUT_MPI 6
#define O_PFUNC 7
#define O_PBARRIER 8
#define O_SYNC_IN 9
#define O_SYNC_OUT 10
#define O_TASK_CREATE 11
#define O_TASK_COMPLETE 12
#define O_TASK_SWITCH 13
#define O_TH_BEGIN 14
#define O_TH_END 15
#define O_MPI_INIT 16
#define O_MPI_FINI 17
#define O_OMP_INIT 18
#define O_PBEGIN 19
#define O_PEND 20
#define O_FINALIZE 21

#define REGION 1
#define TIME 2

/* a thread's sample comes from posix_memalign with whatever contents */
static int vp_memalign(void **p, size_t al, size_t n);
#define posix_memalign vp_memalign
static int vp_lock(void *m), vp_unlock(void *m);
#define pthread_mutex_lock(m) vp_lock(m)
#define pthread_mutex_unlock(m) vp_unlock(m)
#ifdef VP_CBMC
static void *vp_realloc(void *old, size_t n);
#define realloc vp_realloc
#endif
#if OP == O_FINALIZE
#ifdef VP_CBMC
int gethostname(char *n, size_t l) { if (l > 0) n[0] = '\0'; return 0; }
#include <stdio.h>
static int vp_snprintf(char *b, size_t n, ...) { if (n > 0) b[0] = '\0'; return 0; }
#define snprintf(b, n, ...) vp_snprintf(b, n)
#endif
#include "map_gtree.h"
#endif
#ifdef CONC
/* every access to a thread's last update or state may be preceded by an
 * operation of another thread (the generated copy spells it VP_POINT(s)->x) */
static void vp_env(void);
#define VP_POINT(s) (*({ vp_env(); &(s); }))
#include "gen_DLB_talp.c"
#else
#include "LB_core/DLB_talp.c"
#endif
#undef realloc

__thread subprocess_descriptor_t *thread_spd;
__thread bool thread_is_observer;
static subprocess_descriptor_t spd;
static talp_info_t *T;
static dlb_monitor_t *M[NR];
static monitor_data_t *D[NR];
static talp_sample_t *S[NT + 1];
static int locked[2];

static int lock_of(void *m) { return m == (void*)&T->samples_mutex ? 0 : m == (void*)&T->regions_mutex ? 1 : 2; }
#ifndef CONC
static void vp_env(void) {}
#endif
static int vp_lock(void *m) { vp_env(); int i = lock_of(m); if (i < 2) { CHECK(!locked[i], "a mutex is not taken twice"); locked[i] = 1; } return 0; }
static int vp_unlock(void *m) { int i = lock_of(m); if (i < 2) { CHECK(locked[i], "an unlock matches a lock"); locked[i] = 0; } vp_env(); return 0; }
#undef pthread_mutex_lock
#undef pthread_mutex_unlock

static int64_t clk;
int64_t get_time_in_ns(void) { vp_env(); clk += nd(0, TMAX); return clk; }
static talp_sample_t *fresh;
static int vp_memalign(void **p, size_t al, size_t n) {
    CHECK(n >= sizeof(talp_sample_t), "the sample fits");
    fresh = malloc(sizeof(talp_sample_t));
#ifndef VP_CBMC
    memset(fresh, 0x55, sizeof(*fresh));
#endif
    *p = fresh; return 0;
}
#ifdef VP_CBMC
static void *vp_realloc(void *old, size_t n) {
    talp_sample_t **q = malloc(sizeof(talp_sample_t*) * (NT + 1)), **o = old;
    CHECK(n <= sizeof(talp_sample_t*) * (NT + 1), "no more than one sample is added");
    for (int i = 0; i < NT; ++i) if (o) q[i] = o[i];
    return q;
}
#endif
/* TALP shared memory: the last values published for each region */
static int64_t pub_mpi[NR], pub_useful[NR]; static int npub[NR];
int shmem_talp__set_times(int id, int64_t mpi, int64_t useful) {
    CHECK(id >= 10 && id < 10 + NR, "times are published under the region's own id");
    pub_mpi[id - 10] = mpi; pub_useful[id - 10] = useful; npub[id - 10]++; return 0; }
int shmem_talp__set_avg_cpus(int id, float f) { return 0; }
int shmem_talp__register(pid_t pid, float avg, const char *name, int *id) { return DLB_SUCCESS; }
int shmem_talp__init(const char *k, int m) { return 0; }
int shmem_talp__finalize(pid_t pid) { return 0; }
int shmem_talp__get_regionlist(talp_region_list_t *l, int *n, int m, const char *name) { *n = 0; return 0; }
static int nrecorded, nfinal;
void talp_output_print_monitoring_region(const dlb_monitor_t *m, const char *c, bool a, bool b, bool d) {}
static void recorded(const dlb_monitor_t *m);
void talp_output_record_pop_metrics(const dlb_pop_metrics_t *m) { nrecorded++; }
void talp_output_record_resources(int c, int n, int r) {}
void talp_output_record_process(const char *n, const process_record_t *r, int k) { recorded(&r->monitor); }
void talp_output_record_node(const node_record_t *r) {}
void talp_output_finalize(const char *f) { nfinal++; }
int node_barrier(const subprocess_descriptor_t *s, barrier_t *b) { return 0; }
int mu_get_system_size(void) { return 8; }
const char *mu_to_str(const cpu_set_t *m) { return ""; }
void mu_get_quoted_mask(const cpu_set_t *m, char *s, size_t n) { s[0] = 0; }

/* reference copies */
typedef struct { int64_t us, mpi, in, out, calls, pars, tasks, last; int st; bool exists; } sam_t;
typedef struct { int64_t el, us, mpi, lb, sched, ser, calls, pars, tasks, start, stop; int num, resets, cpus; bool started, enabled; int pos; } reg_t;
static void snap_s(sam_t *o, const talp_sample_t *s) {
    *o = (sam_t){0};
    o->us = s->timers.useful; o->mpi = s->timers.not_useful_mpi; o->in = s->timers.not_useful_omp_in; o->out = s->timers.not_useful_omp_out;
    o->calls = s->stats.num_mpi_calls; o->pars = s->stats.num_omp_parallels; o->tasks = s->stats.num_omp_tasks;
    o->last = s->last_updated_timestamp; o->st = s->state; o->exists = true;
}
static void snap_r(reg_t *o, int r) {
    const dlb_monitor_t *m = M[r];
    o->el = m->elapsed_time; o->us = m->useful_time; o->mpi = m->mpi_time; o->lb = m->omp_load_imbalance_time; o->sched = m->omp_scheduling_time; o->ser = m->omp_serialization_time;
    o->calls = m->num_mpi_calls; o->pars = m->num_omp_parallels; o->tasks = m->num_omp_tasks; o->start = m->start_time; o->stop = m->stop_time;
    o->num = m->num_measurements; o->resets = m->num_resets; o->cpus = m->num_cpus; o->started = monitoring_region_is_started(m); o->enabled = D[r]->flags.enabled;
    o->pos = -1; int i = 0, n = 0;
    for (GSList *l = T->open_regions; l && i <= NR; l = l->next, ++i) if (l->data == m) { o->pos = i; n++; }
    CHECK(n <= 1, "a region is listed as open at most once");
    CHECK(i <= NR, "the list of open regions holds only regions that exist");
    CHECK((n == 1) == (o->started != 0), "exactly the started regions are listed as open");
}
static sam_t s0[NT + 1], s1[NT + 1]; static reg_t r0[NR], r1[NR];
static int64_t SMALL(void) { return nd(0, TMAX); }
#ifdef CONC
#define ANY() 0         /* totals so far: they are only added to */
#else
#define ANY() SMALL()
#endif

static int cur, tgt, err, how, arg2; static bool obs, ext;
#ifndef VP_CBMC
void vp_show(void) {
    printf("op %d by thread %d on region %d (%d): result %d, clock now %ld, observer %d, external profiler %d\n", OP, cur, tgt, how, err, (long)clk, obs, ext);
    for (int i = 0; i <= NT; ++i) if (s1[i].exists) printf(" thread %d: state %d -> %d; useful %ld -> %ld mpi %ld -> %ld omp_in %ld -> %ld omp_out %ld -> %ld last %ld -> %ld\n", i, s0[i].st, s1[i].st, (long)s0[i].us, (long)s1[i].us,
        (long)s0[i].mpi, (long)s1[i].mpi, (long)s0[i].in, (long)s1[i].in, (long)s0[i].out, (long)s1[i].out, (long)s0[i].last, (long)s1[i].last);
    for (int r = 0; r < NR; ++r) printf(" region %d: started %d -> %d (position %d -> %d); elapsed %ld -> %ld useful %ld -> %ld mpi %ld -> %ld lb %ld -> %ld sched %ld -> %ld serial %ld -> %ld, %d -> %d times\n", r, r0[r].started, r1[r].started, r0[r].pos, r1[r].pos,
        (long)r0[r].el, (long)r1[r].el, (long)r0[r].us, (long)r1[r].us, (long)r0[r].mpi, (long)r1[r].mpi, (long)r0[r].lb, (long)r1[r].lb, (long)r0[r].sched, (long)r1[r].sched, (long)r0[r].ser, (long)r1[r].ser, r0[r].num, r1[r].num);
}
#endif

/* an arbitrary state in which samples and regions are consistent */
static void setup(void) {
    T = malloc(sizeof(talp_info_t));
    *T = (const talp_info_t){0};
    spd.id = 77; spd.talp_info = T; thread_spd = &spd;
#ifdef CONC
    ext = true;
#else
    ext = nd(0, 1);
#endif
    T->flags.external_profiler = ext; T->flags.have_shmem = ext;
    T->flags.have_mpi = nd(0, 1); T->flags.have_openmp = nd(0, 1);
    clk = nd(0, TMAX);
    for (int r = 0; r < NR; ++r) {
        M[r] = malloc(sizeof(dlb_monitor_t)); D[r] = malloc(sizeof(monitor_data_t));
        *D[r] = (const monitor_data_t){ .id = r + 1, .node_shared_id = 10 + r };
#ifdef OPEN
        D[r]->flags.enabled = true;
#else
        D[r]->flags.enabled = nd(0, 1);
#endif
        D[r]->flags.internal = nd(0, 1);
        static const char *names[] = { "Global", "a", "b", "c" };
        *M[r] = (const dlb_monitor_t){ .name = names[r], ._data = D[r] };
        M[r]->num_cpus = nd(0, NT + 2); M[r]->num_measurements = nd(0, 1000); M[r]->num_resets = nd(0, 1000);
        M[r]->elapsed_time = ANY(); M[r]->useful_time = ANY(); M[r]->mpi_time = ANY(); M[r]->omp_load_imbalance_time = ANY();
        M[r]->omp_scheduling_time = ANY(); M[r]->omp_serialization_time = ANY();
        M[r]->num_mpi_calls = ANY(); M[r]->num_omp_parallels = ANY(); M[r]->num_omp_tasks = ANY();
        M[r]->start_time = SMALL(); M[r]->stop_time = SMALL(); ASSUME(M[r]->start_time <= clk && M[r]->stop_time <= clk);
    }
    T->monitor = M[0];
    /* the open regions, innermost first: any order of any subset */
#ifdef OPEN
    for (int r = 0; r < NR; ++r) if (OPEN >> r & 1) { GSList *l = malloc(sizeof(GSList)); l->data = M[r]; l->next = T->open_regions; T->open_regions = l; D[r]->flags.started = true; D[r]->flags.enabled = true; }
#else
    int nopen = nd(0, NR), used = 0; GSList *prev = NULL;
    for (int k = 0; k < NR; ++k) if (k < nopen) {
        int r = nd(0, NR - 1); ASSUME(!(used >> r & 1)); used |= 1 << r;
        GSList *l = malloc(sizeof(GSList)); l->next = NULL;
        for (int i = 0; i < NR; ++i) if (i == r) { l->data = M[i]; D[i]->flags.started = true; ASSUME(D[i]->flags.enabled); }
        if (prev) prev->next = l; else T->open_regions = l;
        prev = l;
    }
#endif
    T->ncpus = NT;
    T->samples = malloc(sizeof(talp_sample_t*) * NT);
    for (int i = 0; i < NT; ++i) {
        S[i] = malloc(sizeof(talp_sample_t)); *S[i] = (const talp_sample_t){0};
        S[i]->timers.useful = ANY(); S[i]->timers.not_useful_mpi = ANY(); S[i]->timers.not_useful_omp_in = ANY(); S[i]->timers.not_useful_omp_out = ANY();
        S[i]->stats.num_mpi_calls = ANY(); S[i]->stats.num_omp_parallels = ANY(); S[i]->stats.num_omp_tasks = ANY();
        S[i]->last_updated_timestamp = SMALL(); ASSUME(S[i]->last_updated_timestamp <= clk);
        S[i]->state = nd(disabled, not_useful_omp_out);
        T->samples[i] = S[i];
    }
}
static dlb_monitor_t *region(int r) { dlb_monitor_t *m = M[0]; for (int i = 0; i < NR; ++i) if (i == r) m = M[i]; return m; }
static talp_sample_t *sample(int t) { talp_sample_t *s = S[0]; for (int i = 0; i < NT; ++i) if (i == t) s = S[i]; return s; }

static int seen[NR]; static int64_t rec_el[NR], rec_us[NR]; static int rec_num[NR];
static void recorded(const dlb_monitor_t *m) {
    for (int r = 0; r < NR; ++r) if (m->_data == (void*)D[r]) {
        seen[r]++; rec_el[r] = m->elapsed_time; rec_us[r] = m->useful_time; rec_num[r] = m->num_measurements;
        CHECK(!D[r]->flags.started, "a region is recorded after it has been stopped");
    }
}
#if OP == O_FINALIZE
void harness(void) {
    setup();
    static const bool mpi = 0;
    T->flags.have_mpi = nd(0, 1);
    bool hm = T->flags.have_mpi; (void)mpi;
    spd.options.talp_summary = SUMMARY_PROCESS;
    GTree *t = g_tree_new_full((GCompareDataFunc)key_compare_func, NULL, NULL, dealloc_region);
    T->regions = t;
    for (int r = 0; r < NR; ++r) { char *nm = malloc(8); nm[0] = 'a' + r; nm[1] = 0; M[r]->name = nm; g_tree_insert(t, nm, M[r]); }
    cur = 0; _tls_sample = S[0];
    for (int i = 0; i < NT; ++i) snap_s(&s0[i], S[i]);
    for (int r = 0; r < NR; ++r) snap_r(&r0[r], r);
    int64_t c0 = clk;
    talp_finalize(&spd);
    CHECK(spd.talp_info == NULL && nfinal == 1, "TALP is over and its output complete");
    for (int r = 0; r < NR; ++r) if (!hm) {
        CHECK(seen[r] == 1, "every region is recorded once at the end");
        if (r0[r].started) CHECK(rec_num[r] == r0[r].num + 1 && rec_el[r] >= r0[r].el + (c0 - r0[r].start) && rec_el[r] <= r0[r].el + (clk - r0[r].start), "a region that is still open is closed with its time up to now");
        else CHECK(rec_num[r] == r0[r].num && rec_el[r] == r0[r].el && rec_us[r] == r0[r].us, "a closed region is recorded as it was");
    } else CHECK(seen[r] == 0, "with MPI the regions were recorded before");
    WITNESS(!hm && (r0[0].started || OPEN == 0), "regions are closed");
}
#elif defined(CONC)
/* another thread performs one whole operation, at any point */
static int env_on, env_done, err2; static dlb_monitor_t *env_arg; static talp_sample_t *env_sample;
static void vp_env(void) {
    if (!env_on) return;
#if ENVOP == O_START || ENVOP == O_STOP || ENVOP == O_UPDATE
    if (locked[0] || locked[1]) return;             /* it would wait for the mutex */
#endif
    if (!nd(0, 1)) return;
    env_on = 0; env_done = 1;
    talp_sample_t *mine = _tls_sample; _tls_sample = env_sample;
    int l0 = locked[0], l1 = locked[1];
    switch (ENVOP) {
        case O_START: err2 = monitoring_region_start(&spd, env_arg); break;
        case O_STOP: err2 = monitoring_region_stop(&spd, env_arg); break;
        case O_UPDATE: monitoring_regions_force_update(&spd); break;
        case O_INTO_MPI: talp_into_sync_call(&spd, false); break;
        case O_SYNC_OUT: talp_openmp_outof_parallel_sync(NULL); break;
    }
    CHECK(locked[0] == l0 && locked[1] == l1, "an operation leaves the mutexes as they were");
    _tls_sample = mine;
}
static int64_t pend(const sam_t *a) { return a->us + a->mpi + a->in + a->out; }
void harness(void) {
    setup();
    cur = 0; env_sample = S[1];
    _tls_sample = S[0];
#ifdef NEWTHREAD
    cur = NT; _tls_sample = NULL;
#endif
    /* region 0 stays open throughout, threads are running */
    for (int i = 0; i < NT; ++i) ASSUME(S[i]->state != disabled);
    tgt = 1; int tgt2 = TGT2; env_arg = region(tgt2);
    for (int i = 0; i < NT; ++i) snap_s(&s0[i], S[i]);
    for (int r = 0; r < NR; ++r) snap_r(&r0[r], r);
    int64_t c0 = clk;
    env_on = 1;
    switch (OP) {
        case O_START: err = monitoring_region_start(&spd, M[1]); break;
        case O_STOP: err = monitoring_region_stop(&spd, M[1]); break;
        case O_UPDATE: err = monitoring_regions_force_update(&spd); break;
        case O_INTO_MPI: talp_into_sync_call(&spd, nd(0, 1)); break;
        case O_SYNC_OUT: talp_openmp_outof_parallel_sync(NULL); break;
        case O_TH_BEGIN: talp_openmp_thread_begin(); break;
    }
    env_on = 0;
    int64_t total = 0;
    for (int i = 0; i < NT; ++i) snap_s(&s1[i], S[i]);
    for (int r = 0; r < NR; ++r) snap_r(&r1[r], r);
    bool isnew = cur == NT && fresh;
    if (isnew) { snap_s(&s1[NT], T->samples[NT]); s0[NT] = (sam_t){0}; s0[NT].st = disabled; s0[NT].last = s1[NT].last; }
    for (int i = 0; i < NT + isnew; ++i) {
        CHECK(s1[i].last >= s0[i].last && s1[i].last <= clk, "time only advances");
        total += pend(&s0[i]) - pend(&s1[i]) + (s0[i].st == disabled ? 0 : s1[i].last - s0[i].last);
    }
    if (OP != O_TH_BEGIN) CHECK(r1[0].us - r0[0].us + r1[0].mpi - r0[0].mpi + r1[0].lb - r0[0].lb + r1[0].sched - r0[0].sched + r1[0].ser - r0[0].ser == total,
        "the time of all threads is neither lost nor counted twice");
    else CHECK(r1[0].us - r0[0].us + r1[0].mpi - r0[0].mpi <= TMAX * 100 && r1[0].us >= r0[0].us && r1[0].mpi >= r0[0].mpi && r1[0].calls <= r0[0].calls + NT * TMAX, "nothing arbitrary is counted for a thread that appears");
    bool same = env_done && (ENVOP == O_START || ENVOP == O_STOP) && tgt2 == 1;
    if (same && OP == ENVOP) {
        CHECK(!(err == DLB_SUCCESS && err2 == DLB_SUCCESS), "two threads do not both start (or stop) the same region");
        CHECK(r1[1].num <= r0[1].num + 1, "one stop counts once");
    }
    if ((OP == O_START || OP == O_STOP) && !same) CHECK((err == DLB_SUCCESS) == (OP == O_START ? !r0[1].started && r0[1].enabled : r0[1].started), "and an operation on another region does not interfere");
    if (OP == O_STOP && err == DLB_SUCCESS) CHECK(r1[1].el - r0[1].el == r1[1].stop - r1[1].start || r1[1].started, "elapsed time is stop minus start");
    if (OP == O_START && err == DLB_SUCCESS && r1[1].started) CHECK(r1[1].start >= c0 && r1[1].start <= clk, "a region starts now");
    WITNESS(env_done, "another thread intervened");
    WITNESS(env_done && OP == ENVOP && (OP == O_START || OP == O_STOP) && tgt2 == 1, "on the same region");
}
#else
void harness(void) {
    setup();
#ifdef CUR
    cur = CUR;                                      /* threads are interchangeable */
#else
    cur = nd(0, NT - 1);
#endif
#ifdef NEWTHREAD
    cur = NT;                                       /* a thread TALP sees for the first time */
#else
    _tls_sample = sample(cur);
#endif
    obs = nd(0, 1);
    bool region_op = OP == O_START || OP == O_STOP || OP == O_RESET || OP == O_UPDATE;
    bool mpi_op = OP == O_INTO_MPI || OP == O_OUT_MPI;
    if (!region_op && !mpi_op) ASSUME(!obs);
    if (obs) _tls_sample = NULL;
    thread_is_observer = obs;
    tgt = nd(0, NR - 1); how = 0;
    omptool_parallel_data_t pd; talp_sample_t **team = NULL; int tn = 0, lvl = 1; bool inteam[NT + 1];
    for (int i = 0; i <= NT; ++i) inteam[i] = false;
    dlb_monitor_t *arg = region(tgt);
    if (region_op) {
        how = nd(0, 2);
        if (how == 1) { tgt = 0; arg = DLB_GLOBAL_REGION; }
        if (how == 2) { ASSUME(OP == O_STOP); arg = DLB_LAST_OPEN_REGION; tgt = -1; }
    }
    for (int i = 0; i < NT; ++i) snap_s(&s0[i], S[i]);
    for (int r = 0; r < NR; ++r) { snap_r(&r0[r], r); if (how == 2 && r0[r].pos == 0) tgt = r; }
    int64_t c0 = clk; int t0 = tgt; bool coll = nd(0, 1); bool alone = NT == 1;
    (void)alone; (void)coll; (void)t0; (void)c0;
#if OP == O_PFUNC || OP == O_PBEGIN || OP == O_PEND
    pd = (const omptool_parallel_data_t){ 0 };
    lvl = LEVEL; pd.level = LEVEL;
#endif
#if OP == O_PEND
    /* the team of a parallel region that ends: the primary (thread 0) first, then workers */
    tn = TEAM; team = malloc(sizeof(talp_sample_t*) * TEAM);
    if (lvl == 1) { parallel_samples_l1 = team; parallel_samples_l1_capacity = TEAM; }
    for (int k = 0; k < TEAM; ++k) { team[k] = S[k]; inteam[k] = true; }
    pd.talp_parallel_data = team; pd.actual_parallelism = TEAM; pd.requested_parallelism = TEAM;
#endif
#if OP == O_PFUNC
    team = malloc(sizeof(talp_sample_t*) * 2); team[0] = team[1] = NULL; pd.talp_parallel_data = team; arg2 = nd(0, 1);
    pd.requested_parallelism = 2;
#endif
#if OP == O_PBEGIN
    pd.requested_parallelism = TEAM;
    int cap0 = nd(0, 1);
    if (cap0) { parallel_samples_l1 = malloc(sizeof(talp_sample_t*) * 1); parallel_samples_l1_capacity = 1; }
#endif
    switch (OP) {
        case O_START: err = monitoring_region_start(&spd, arg); break;
        case O_STOP: err = monitoring_region_stop(&spd, arg); break;
        case O_RESET: err = monitoring_region_reset(&spd, arg); break;
        case O_UPDATE: err = monitoring_regions_force_update(&spd); break;
        case O_INTO_MPI: talp_into_sync_call(&spd, coll); break;
        case O_OUT_MPI: talp_out_of_sync_call(&spd, coll); break;
#if OP == O_PFUNC
        case O_PFUNC: talp_openmp_into_parallel_function(&pd, arg2); break;
#endif
        case O_PBARRIER: talp_openmp_into_parallel_implicit_barrier(NULL); break;
        case O_SYNC_IN: talp_openmp_into_parallel_sync(NULL); break;
        case O_SYNC_OUT: talp_openmp_outof_parallel_sync(NULL); break;
        case O_TASK_CREATE: talp_openmp_task_create(); break;
        case O_TASK_COMPLETE: talp_openmp_task_complete(); break;
        case O_TASK_SWITCH: talp_openmp_task_switch(); break;
        case O_TH_BEGIN: talp_openmp_thread_begin(); break;
        case O_TH_END: talp_openmp_thread_end(); break;
        case O_MPI_INIT: talp_mpi_init(&spd); break;
        case O_MPI_FINI: talp_mpi_finalize(&spd); break;
        case O_OMP_INIT: talp_openmp_init(77, NULL); break;
#if OP == O_PBEGIN
        case O_PBEGIN: talp_openmp_parallel_begin(&pd); break;
#endif
#if OP == O_PEND
        case O_PEND: talp_openmp_parallel_end(&pd); break;
#endif
    }
    for (int i = 0; i < NT; ++i) snap_s(&s1[i], S[i]);
    for (int r = 0; r < NR; ++r) snap_r(&r1[r], r);
    CHECK(!locked[0] && !locked[1], "no mutex is left locked");
    bool isnew = cur == NT && fresh;
    if (isnew) {
        CHECK(T->ncpus == NT + 1 && T->samples[NT] == fresh && _tls_sample == fresh, "a new thread gets a sample of its own");
        for (int i = 0; i < NT; ++i) CHECK(T->samples[i] == S[i], "and the other threads keep theirs");
        S[NT] = fresh; snap_s(&s1[NT], fresh); inteam[NT] = false;
    } else CHECK(T->ncpus == NT, "no sample appears for a known thread");
    int n = NT + isnew;
    /* which region is acted on, and whether the operation has to act */
    bool starts = (OP == O_START || OP == O_MPI_INIT || OP == O_OMP_INIT), stops = OP == O_STOP || OP == O_MPI_FINI;
    if (OP == O_MPI_INIT || OP == O_OMP_INIT || OP == O_MPI_FINI) tgt = 0;
    bool act = false;
    for (int r = 0; r < NR; ++r) if (r == tgt) act = !obs && ((starts && !r0[r].started && r0[r].enabled) || (stops && r0[r].started));
#if PROP == REGION
    if (region_op && OP != O_RESET) {
        int want = obs ? DLB_ERR_PERM : OP == O_UPDATE || act ? DLB_SUCCESS : how == 2 && tgt < 0 ? DLB_ERR_NOENT : DLB_NOUPDT;
        CHECK(err == want, "start, stop and update report whether they acted");
    }
    for (int r = 0; r < NR; ++r) {
        bool me = r == tgt;
        if (me && act && starts) {
            CHECK(r1[r].started && r1[r].pos == 0, "a started region is the innermost open region");
            CHECK(r1[r].start >= c0 && r1[r].start <= clk && r1[r].stop == 0, "its start time is the time of the call");
            for (int i = 0; i < n; ++i) if (i == cur) CHECK(isnew || r1[r].start == s1[i].last, "from which its thread's time counts");
            CHECK(r1[r].el == r0[r].el && r1[r].num == r0[r].num, "starting does not change what has been measured");
        } else if (me && act && stops) {
            CHECK(!r1[r].started, "a stopped region is no longer open");
            CHECK(r1[r].stop >= c0 && r1[r].stop <= clk, "its stop time is the time of the call");
            CHECK(r1[r].el == r0[r].el + (r1[r].stop - r0[r].start), "the time between start and stop is added to the elapsed time");
            CHECK(r1[r].num == r0[r].num + 1 && r1[r].start == r0[r].start, "one more measurement is counted");
        } else if (me && OP == O_RESET) {
            CHECK(err == DLB_SUCCESS && !r1[r].started && r1[r].resets == r0[r].resets + 1 && r1[r].num == 0 && r1[r].el == 0 && r1[r].us == 0 && r1[r].mpi == 0 && r1[r].lb == 0
                && r1[r].sched == 0 && r1[r].ser == 0 && r1[r].calls == 0 && r1[r].pars == 0 && r1[r].tasks == 0 && r1[r].cpus == 0, "a reset region starts from zero and is not running");
            CHECK(r1[r].enabled == r0[r].enabled, "and can be used again");
        } else {
            CHECK(r1[r].started == r0[r].started && r1[r].start == r0[r].start && r1[r].stop == r0[r].stop && r1[r].el == r0[r].el && r1[r].num == r0[r].num && r1[r].resets == r0[r].resets,
                "no other region is started, stopped or reset");
        }
        for (int q = 0; q < NR; ++q) if (q != tgt && r != tgt && r0[q].pos >= 0 && r0[r].pos >= 0)
            CHECK((r1[q].pos < r1[r].pos) == (r0[q].pos < r0[r].pos), "the nesting of the other open regions is unchanged");
    }
    WITNESS(act && (OP == O_START || OP == O_STOP) && r0[0].started && r0[1].started, "an operation acts while others are open");
    WITNESS(OP == O_RESET && tgt > 0, "a region is reset");
    WITNESS(!(starts || stops || OP == O_RESET), "another operation");
#endif
#if PROP == TIME
    /* whose samples are handed to the open regions, and whose state changes */
    bool flush_all = (!obs && (OP == O_UPDATE || (mpi_op && ext && coll))) || act;
    int64_t fus = 0, fmpi = 0, fout = 0, ins[NT + 1], fcalls = 0, fpars = 0, ftasks = 0, min_in = INT64_MAX; int nfl = 0;
    for (int i = 0; i < n; ++i) {
        bool nw = i == NT;                          /* the new thread: existed since the innermost open region began */
        sam_t a = s0[i]; sam_t b = s1[i];
        if (nw) { a = (sam_t){0}; a.st = disabled; a.last = b.last; }
        bool me = i == cur && !obs;
        bool fl = flush_all || (inteam[i] && !(me && lvl > 1)); /* flushed */
        int64_t d = b.last - a.last;
        CHECK(d >= 0 && b.last <= clk, "a thread's time only advances, up to now");
        bool updates = flush_all || (OP == O_PEND && inteam[i]) ||
            (me && (mpi_op || OP == O_PFUNC || OP == O_PBARRIER || OP == O_SYNC_IN || OP == O_SYNC_OUT || OP == O_TASK_COMPLETE || OP == O_TASK_SWITCH || OP == O_TH_END || OP == O_PEND));
        if (!nw) CHECK(updates ? b.last >= c0 : d == 0, "exactly the threads concerned are brought up to date");
        /* what the sample holds once its time up to now has been attributed to the state it was in */
        a.us += a.st == useful ? d : 0; a.mpi += a.st == not_useful_mpi ? d : 0; a.in += a.st == not_useful_omp_in ? d : 0; a.out += a.st == not_useful_omp_out ? d : 0;
        bool out_mpi = me && OP == O_OUT_MPI;
        int calls_before = out_mpi ? 1 : 0, calls_after = me && OP == O_MPI_INIT ? 1 : 0;
        if (me && OP == O_MPI_FINI) calls_before = 1;
        a.calls += calls_before; a.pars += me && OP == O_PBEGIN; a.tasks += me && OP == O_TASK_CREATE;
        if (fl) {
            fus += a.us; fmpi += a.mpi; fout += a.out; fcalls += a.calls; fpars += a.pars; ftasks += a.tasks; nfl++;
            CHECK(b.us == 0 && b.mpi == 0 && b.out == 0 && b.calls == calls_after && b.pars == 0 && b.tasks == 0, "what is handed to the regions leaves the thread's sample");
            if (OP == O_PEND) { ins[nfl - 1] = a.in; if (a.in < min_in) min_in = a.in; CHECK(b.in == 0, "and so does the time spent inside the parallel region"); }
            else CHECK(b.in == a.in, "the time inside a parallel region waits until the parallel region ends");
        } else
            CHECK(b.us == a.us && b.mpi == a.mpi && b.in == a.in && b.out == a.out && b.calls == a.calls + calls_after && b.pars == a.pars && b.tasks == a.tasks,
                "the time since the last update goes to the state the thread was in, and nothing is lost");
        /* states */
        int want = a.st;
        if (me) switch (OP) {
            case O_START: if (act) want = useful; break;
            case O_INTO_MPI: want = not_useful_mpi; break;
            case O_PBARRIER: case O_SYNC_IN: case O_TASK_COMPLETE: want = not_useful_omp_in; break;
            case O_OUT_MPI: case O_PFUNC: case O_SYNC_OUT: case O_TASK_SWITCH: case O_MPI_INIT: case O_OMP_INIT: case O_PEND: want = useful; break;
            case O_TH_BEGIN: if (a.st == disabled) want = not_useful_omp_out; break;
            case O_TH_END: want = disabled; break;
        }
        else if (OP == O_PEND && inteam[i] && a.st == not_useful_omp_in) want = not_useful_omp_out;
        CHECK(b.st == want, "threads are in the state that the event puts them in");
    }
    for (int r = 0; r < NR; ++r) {
        /* open when the samples are handed over */
        bool open = r0[r].started && OP != O_RESET;
        int64_t g = open ? 1 : 0;
        if (OP == O_RESET && r == tgt) continue;
        int64_t ser = g * fout, lb = 0, sched = 0;
        if (OP == O_PEND && nfl > 0) for (int k = 0; k < nfl; ++k) { sched += g * min_in; lb += g * (ins[k] - min_in); }
        if (OP == O_TH_BEGIN && open && r0[r].pos > 0)       /* a new thread counts from the innermost region's start; outer ones get the rest */
            for (int i = 0; i < n; ++i) if (i == cur && (isnew || s0[i].st == disabled)) ser += s1[i].last - r0[r].start;
        CHECK(r1[r].us == r0[r].us + g * fus, "every open region gets the useful time of the threads");
        CHECK(r1[r].mpi == r0[r].mpi + g * fmpi, "every open region gets the time in MPI");
        CHECK(r1[r].ser == r0[r].ser + ser, "every open region gets the time outside parallel regions");
        CHECK(r1[r].lb == r0[r].lb + lb && r1[r].sched == r0[r].sched + sched, "time in parallel regions is load imbalance beyond the minimum, scheduling up to it");
        CHECK(r1[r].calls == r0[r].calls + g * fcalls && r1[r].pars == r0[r].pars + g * fpars && r1[r].tasks == r0[r].tasks + g * ftasks, "every open region gets the counts of events");
        int cpus = flush_all ? n : OP == O_PEND ? nfl : 0;
        CHECK(r1[r].cpus == (open && cpus > r0[r].cpus ? cpus : r0[r].cpus), "a region's CPUs are the most threads ever measured together");
        if (ext && open && (flush_all || OP == O_PEND)) CHECK(npub[r] >= 1 && pub_mpi[r] == r1[r].mpi && pub_useful[r] == r1[r].us, "and an external profiler sees the new times");
    }
    if (isnew) {
        int64_t st = -1; bool any = false;
        for (int r = 0; r < NR; ++r) if (r0[r].pos == 0) { any = true; st = r0[r].start; }
        if (OP == O_TH_BEGIN) CHECK(any ? s1[NT].last == st : s1[NT].last >= c0, "a new thread's time counts from the start of the innermost open region");
    }
#if OP == O_PBEGIN
    CHECK(pd.talp_parallel_data != NULL, "a parallel region has room for its team");
    { talp_sample_t **q = pd.talp_parallel_data; for (int i = 0; i < TEAM; ++i) { q[i] = S[0]; CHECK(q[i] == S[0], "of the requested size"); } }
    if (lvl == 1) CHECK((int)parallel_samples_l1_capacity >= TEAM, "whose capacity is remembered");
#endif
#if OP == O_PFUNC
    for (int k = 0; k < 2; ++k) CHECK(team[k] == (k == arg2 ? _tls_sample : NULL), "the thread joins the team at its own position");
#endif
    WITNESS(r0[0].started && r0[1].started, "two regions are open");
#endif
}
#endif
