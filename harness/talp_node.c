/* Metrics of a node, of an application and times. */
#include "vp.h"
#include <stdlib.h>
#include <string.h>
#include <pthread.h>
#define QUERY 1
#define COLLECT 2
#define APP 3
#define TIMEM 4
#define NODETIMES 5
#ifndef NP
#define NP 3
#endif
#ifndef TMAX
#define TMAX 255
#endif
#if MODE == TIMEM
#include "support/mytime.c"
#else
#ifdef VP_CBMC
#include "str_models.h"
#include <stdio.h>
static int vp_snprintf(char *b, size_t n, ...) { if (n > 0) b[0] = 0; return 0; }
#undef snprintf
#define snprintf(b, n, ...) vp_snprintf(b, n)
#endif
#include "LB_core/DLB_talp.c"
#undef snprintf
__thread subprocess_descriptor_t *thread_spd;
__thread bool thread_is_observer;
static subprocess_descriptor_t spd;
static int64_t clk;
int64_t get_time_in_ns(void) { return ++clk; }
void talp_output_print_monitoring_region(const dlb_monitor_t *m, const char *c, bool a, bool b, bool d) {}
void talp_output_record_pop_metrics(const dlb_pop_metrics_t *m) {}
void talp_output_record_resources(int c, int n, int r) {}
void talp_output_record_process(const char *n, const process_record_t *r, int k) {}
void talp_output_record_node(const node_record_t *r) {}
void talp_output_finalize(const char *f) {}
int mu_get_system_size(void) { return NP; }
const char *mu_to_str(const cpu_set_t *m) { return ""; }
void mu_get_quoted_mask(const cpu_set_t *m, char *s, size_t n) { s[0] = 0; }
int shmem_talp__set_avg_cpus(int id, float f) { return 0; }
static bool nanf_(float f) { return f != f; }
static int barriers;
static talp_region_list_t L[NP]; static int nl, asked_max, asked_global; static bool noshm;
#endif

#if MODE == QUERY || MODE == APP || MODE == NODETIMES
int shmem_talp__set_times(int id, int64_t mpi, int64_t useful) { return 0; }
int shmem_talp__register(pid_t pid, float avg, const char *name, int *id) { return DLB_SUCCESS; }
int shmem_talp__init(const char *k, int m) { return 0; }
int shmem_talp__finalize(pid_t pid) { return 0; }
int node_barrier(const subprocess_descriptor_t *s, barrier_t *b) { barriers++; return 0; }
int shmem_talp__get_regionlist(talp_region_list_t *l, int *n, int m, const char *name) {
    if (noshm) return DLB_ERR_NOSHMEM;
    asked_max = m; asked_global = name == global_region_name;
    *n = nl < m ? nl : m;
    for (int i = 0; i < NP; ++i) if (i < *n) l[i] = L[i];
    return 0; }
#endif

#if MODE == QUERY
static dlb_node_metrics_t r; static int64_t tu, tm, mu, mm; static int np, err;
#ifndef VP_CBMC
void vp_show(void) {
    for (int i = 0; i < nl; ++i) printf("process %d: mpi %ld useful %ld\n", i, (long)L[i].mpi_time, (long)L[i].useful_time);
    printf("-> %d: processes %d useful %ld mpi %ld max %ld %ld, efficiencies %f = %f * %f\n", err, r.processes_per_node, (long)r.total_useful_time, (long)r.total_mpi_time, (long)r.max_useful_time, (long)r.max_mpi_time, r.parallel_efficiency, r.communication_efficiency, r.load_balance);
}
#endif
void harness(void) {
    noshm = nd(0, 1); nl = nd(0, NP);
    bool g = nd(0, 1);
    int64_t E = nd(0, TMAX);
    for (int i = 0; i < NP; ++i) {
        L[i].pid = 100 + i;
#ifdef SUMS
        L[i].useful_time = nd(0, 1L << 50); L[i].mpi_time = nd(0, 1L << 50);
#else
        /* all processes have been in the region equally long, or not at all */
        int64_t u = nd(0, E); bool in = nd(0, 1);
        L[i].useful_time = in ? u : 0; L[i].mpi_time = in ? E - u : 0;
#endif
        if (i < nl && !noshm && (L[i].useful_time > 0 || L[i].mpi_time > 0)) {
            np++; tu += L[i].useful_time; tm += L[i].mpi_time;
            if (L[i].useful_time > mu) mu = L[i].useful_time;
            if (L[i].mpi_time > mm) mm = L[i].mpi_time;
        }
    }
    r.processes_per_node = -5;
    err = talp_query_pop_node_metrics(g ? NULL : "other", &r);
    CHECK(err == (np ? DLB_SUCCESS : DLB_ERR_NOENT), "metrics exist exactly when some process has been in the region");
    if (err) { CHECK(r.processes_per_node == -5, "nothing is returned otherwise"); return; }
    CHECK(asked_max >= NP && asked_global == g, "all processes of the region asked for are considered");
#ifdef SUMS
    CHECK(r.processes_per_node == np && r.total_useful_time == tu && r.total_mpi_time == tm && r.max_useful_time == mu && r.max_mpi_time == mm, "totals and maxima are those of the processes");
    WITNESS(np == NP, "all processes");
#else
    CHECK(!nanf_(r.parallel_efficiency) && !nanf_(r.communication_efficiency) && !nanf_(r.load_balance), "efficiencies are numbers");
    CHECK(r.parallel_efficiency >= 0 && r.communication_efficiency >= 0 && r.load_balance >= 0, "that are not negative");
    CHECK(r.parallel_efficiency <= 1 && r.communication_efficiency <= 1 && r.load_balance <= 1.0001f, "nor above one");
    if (tm == 0) CHECK(r.parallel_efficiency == 1, "no time in MPI is perfect");
    if (tu == 0) CHECK(r.parallel_efficiency == 0, "no useful time is the worst");
#ifdef PRODUCT
    float p = r.communication_efficiency * r.load_balance;
    CHECK(r.parallel_efficiency <= p + 0.001f && p <= r.parallel_efficiency + 0.001f, "parallel efficiency is communication efficiency times load balance");
#endif
    WITNESS(np == NP && tu > 0 && tm > 0, "all processes");
#endif
}
#elif MODE == COLLECT
/* the shared table, as other processes of the node see it */
static struct { bool used; int64_t mpi, us; bool global; } tab[2];
static int opened, mine = -1; static bool have, minimal, isg; static int64_t m_mpi, m_us; static int listed_after, err;
static talp_info_t *T; static monitor_data_t D[2]; static dlb_monitor_t M[2];
static void others_may_read(void) {
    /* another process that has left the barrier may read the table until this
     * process arrives at the next one */
    if (barriers != 1) return;
    int k = 0;
    for (int i = 0; i < 2; ++i) if (tab[i].used && tab[i].global == isg) { k++; CHECK(tab[i].mpi == m_mpi && tab[i].us == m_us, "others read the times of the whole region"); }
    CHECK(k == 1, "the region is shared until all processes have read it");
}
int node_barrier(const subprocess_descriptor_t *s, barrier_t *b) { CHECK(b == NULL, "all processes of the node"); others_may_read(); barriers++; others_may_read(); return 0; }
int shmem_talp__init(const char *k, int m) { opened++; return 0; }
int shmem_talp__finalize(pid_t pid) { CHECK(opened > 0 && pid == 77, "only this process's own regions are removed"); opened--; tab[0].used = tab[1].used = false; others_may_read(); return 0; }
int shmem_talp__register(pid_t pid, float avg, const char *name, int *id) {
    CHECK(opened > 0, "registered in a table that is open");
    bool g = name == global_region_name || name == M[0].name; int i = g ? 0 : 1;
    *id = i; if (tab[i].used) return DLB_NOUPDT;
    tab[i].used = true; tab[i].mpi = tab[i].us = 0; tab[i].global = g; others_may_read(); return DLB_SUCCESS; }
int shmem_talp__set_times(int id, int64_t mpi, int64_t useful) {
    if (id < 0 || id > 1 || !tab[id].used || !opened) return DLB_ERR_NOENT;
    if (barriers == 1 && tab[id].global == isg) CHECK(mpi >= tab[id].mpi && useful >= tab[id].us, "times do not go backwards");
    tab[id].mpi = mpi; tab[id].us = useful; return 0; }
int shmem_talp__get_regionlist(talp_region_list_t *l, int *n, int m, const char *name) {
    CHECK(opened > 0, "read from a table that is open");
    CHECK(barriers == 1, "metrics are computed once all processes have published their times");
    *n = 0;
    for (int i = 0; i < 2; ++i) if (tab[i].used && tab[i].global == isg) { l[*n] = (talp_region_list_t){ .pid = 77, .mpi_time = tab[i].mpi, .useful_time = tab[i].us }; (*n)++; }
    return 0; }
#ifndef VP_CBMC
void vp_show(void) { printf("external profiler %d, node summary %d, global region %d\n", have, minimal, isg); }
#endif
void harness(void) {
    T = malloc(sizeof(*T)); *T = (const talp_info_t){0};
    spd.id = 77; spd.talp_info = T; thread_spd = &spd; spd.options.barrier = true;
    have = nd(0, 1); minimal = have ? false : nd(0, 1); isg = nd(0, 1);
    bool byname = nd(0, 1), started = nd(0, 1);
    T->flags.have_shmem = have; T->flags.external_profiler = have; T->flags.have_minimal_shmem = minimal;
    _tls_sample = malloc(sizeof(talp_sample_t)); *_tls_sample = (const talp_sample_t){0}; _tls_sample->state = useful;
    T->samples = malloc(sizeof(void*)); T->samples[0] = _tls_sample; T->ncpus = 1;
    for (int i = 0; i < 2; ++i) {
        D[i].flags.enabled = true; D[i].node_shared_id = -1;
        M[i].name = i ? "other" : "Global"; M[i]._data = &D[i];
        M[i].mpi_time = nd(0, 1000); M[i].useful_time = nd(0, 1000); M[i].num_measurements = 1;
        if (have || (minimal && i == 0)) { D[i].node_shared_id = i; tab[i].used = true; tab[i].mpi = M[i].mpi_time; tab[i].us = M[i].useful_time; tab[i].global = !i; }
    }
    T->monitor = &M[0];
    opened = have || minimal;
    int was = opened;
    dlb_monitor_t *m = &M[isg ? 0 : 1];
    if (started) { D[isg ? 0 : 1].flags.started = true; GSList *l = malloc(sizeof(GSList)); l->data = m; l->next = NULL; T->open_regions = l; m->start_time = 0; }
    int64_t pend = started ? nd(0, 100) : 0;
    _tls_sample->timers.useful = pend;
    clk = 10; _tls_sample->last_updated_timestamp = clk;
    if (started) pend += 1;     /* one tick of the clock until the region stops */
    m_mpi = m->mpi_time; m_us = m->useful_time + pend;
    dlb_node_metrics_t r;
    r.processes_per_node = -5;
    err = talp_collect_pop_node_metrics(&spd, isg && !byname ? NULL : m, &r);
    CHECK(err == DLB_SUCCESS, "metrics are collected");
    if (m_mpi + m_us > 0) CHECK(r.processes_per_node == 1 && r.total_mpi_time == m_mpi && r.total_useful_time == m_us, "they include this process's times up to now");
    CHECK(opened == was, "a table opened temporarily is closed");
    CHECK(tab[0].used == (have || minimal) && tab[1].used == have, "the regions shared before are still shared, temporary ones are not");
    if (have || minimal) CHECK(shmem_talp__set_times(D[0].node_shared_id, 5000, 5000) == 0 && tab[0].mpi == 5000, "the global region is still published");
    CHECK(D[isg ? 0 : 1].flags.started == started, "the region goes on as before");
    WITNESS(minimal && isg, "a shared table for the node summary");
}
#elif MODE == APP
static pop_base_metrics_t b; static dlb_pop_metrics_t o;
#ifndef VP_CBMC
void vp_show(void) { printf("useful %ld mpi %ld lb %ld sched %ld serial %ld -> %f %f %f %f %f %f\n", (long)b.useful_time, (long)b.mpi_time, (long)b.omp_load_imbalance_time, (long)b.omp_scheduling_time, (long)b.omp_serialization_time,
    o.parallel_efficiency, o.mpi_parallel_efficiency, o.omp_parallel_efficiency, o.omp_load_balance, o.omp_scheduling_efficiency, o.omp_serialization_efficiency); }
#endif
void harness(void) {
    thread_spd = &spd;
    spd.options.talp_model = MODEL == 1 ? TALP_MODEL_HYBRID_V1 : TALP_MODEL_HYBRID_V2;
    b.num_cpus = nd(1, 64); b.num_mpi_ranks = nd(0, 64); b.num_nodes = nd(1, 8); b.num_measurements = nd(0, 1000); b.num_mpi_calls = nd(0, 1L << 40); b.num_omp_parallels = nd(0, 1L << 40); b.num_omp_tasks = nd(0, 1L << 40); b.elapsed_time = nd(0, TMAX);
    b.useful_time = nd(0, TMAX); b.mpi_time = nd(0, TMAX); b.omp_load_imbalance_time = nd(0, TMAX); b.omp_scheduling_time = nd(0, TMAX); b.omp_serialization_time = nd(0, TMAX);
    /* one process with one CPU */
    b.useful_normd_app = b.max_useful_normd_proc = b.max_useful_normd_node = (double)b.useful_time; b.mpi_normd_app = b.mpi_normd_of_max_useful = (double)b.mpi_time;
    talp_base_metrics_to_pop_metrics("x", &b, &o);
    CHECK(o.num_cpus == b.num_cpus && o.num_mpi_ranks == b.num_mpi_ranks && o.num_nodes == b.num_nodes && o.num_measurements == b.num_measurements && o.num_mpi_calls == b.num_mpi_calls
        && o.num_omp_parallels == b.num_omp_parallels && o.num_omp_tasks == b.num_omp_tasks && o.elapsed_time == b.elapsed_time && o.useful_time == b.useful_time && o.mpi_time == b.mpi_time
        && o.omp_load_imbalance_time == b.omp_load_imbalance_time && o.omp_scheduling_time == b.omp_scheduling_time && o.omp_serialization_time == b.omp_serialization_time, "numbers and times are passed on");
#define IN01(x) (!nanf_(x) && (x) >= 0 && (x) <= 1)
    CHECK(IN01(o.parallel_efficiency), "parallel efficiency is within 0 and 1");
    CHECK(IN01(o.mpi_parallel_efficiency), "MPI parallel efficiency is within 0 and 1");
    CHECK(IN01(o.mpi_communication_efficiency) && IN01(o.mpi_load_balance) && IN01(o.mpi_load_balance_in) && IN01(o.mpi_load_balance_out), "MPI communication efficiency and load balances are within 0 and 1");
    CHECK(IN01(o.omp_parallel_efficiency), "OpenMP parallel efficiency is within 0 and 1");
    CHECK(IN01(o.omp_load_balance) && IN01(o.omp_scheduling_efficiency) && IN01(o.omp_serialization_efficiency), "OpenMP efficiencies are within 0 and 1");
    if (b.useful_time > 0) {
        if (b.mpi_time == 0) CHECK(o.mpi_parallel_efficiency == 1 && o.mpi_communication_efficiency == 1, "without MPI time MPI is perfect");
        CHECK((b.omp_load_imbalance_time == 0) == (o.omp_load_balance == 1), "load imbalance shows in load balance");
        CHECK((b.omp_scheduling_time == 0) == (o.omp_scheduling_efficiency == 1), "scheduling shows in its efficiency");
        CHECK((b.omp_serialization_time == 0) == (o.omp_serialization_efficiency == 1), "serialization shows in its efficiency");
        CHECK((b.omp_serialization_time + b.omp_scheduling_time + b.omp_load_imbalance_time == 0) == (o.omp_parallel_efficiency == 1), "all of them show in OpenMP parallel efficiency");
        CHECK((b.omp_serialization_time + b.omp_scheduling_time + b.omp_load_imbalance_time + b.mpi_time == 0) == (o.parallel_efficiency == 1), "any loss shows in parallel efficiency");
    } else CHECK(o.parallel_efficiency == 0 && o.omp_load_balance == 0 && o.mpi_load_balance == 0, "without useful time nothing is efficient");
    WITNESS(b.useful_time > 0 && o.parallel_efficiency < 0.5f, "losses");
}
#elif MODE == TIMEM
#ifndef VP_CBMC
void vp_show(void) {}
#endif
static struct timespec ts(void) { struct timespec t; t.tv_sec = nd(0, SEC); t.tv_nsec = nd(0, 999999999); return t; }
#define NS(t) ((int64_t)(t).tv_sec * 1000000000 + (t).tv_nsec)
#define OK(t) ((t).tv_nsec >= 0 && (t).tv_nsec < 1000000000)
void harness(void) {
    struct timespec a = ts(), b = ts(), c = { -5, -5 };
#if WHAT == 1
    CHECK(to_nsecs(&a) == NS(a), "nanoseconds of a time");
    CHECK(timespec_diff(&a, &b) == NS(b) - NS(a), "difference of times");
    int e = diff_time(a, b, &c);
    CHECK((e == 0) == (NS(a) <= NS(b)), "a difference exists if time goes forward");
    if (e == 0) CHECK(OK(c) && NS(c) == NS(b) - NS(a), "and is exact"); else CHECK(c.tv_sec == -5 && c.tv_nsec == -5, "otherwise nothing is returned");
#elif WHAT == 2
    int e = 0;
    add_time(a, b, &c);
    CHECK(OK(c) && NS(c) == NS(a) + NS(b), "sums are exact");
#elif WHAT == 3
    int e = 0, f = nd(0, 3);
    mult_time(a, f, &c);
    CHECK(OK(c) && NS(c) == (f > 0 ? NS(a) : 0) + (f > 1 ? NS(a) : 0) + (f > 2 ? NS(a) : 0), "multiples are exact");
#else
    int e = 0; e = 0; b.tv_nsec = 0; a.tv_nsec = 1;
    struct timeval u, v;
    u.tv_sec = nd(0, SEC); u.tv_usec = nd(0, 999999); v.tv_sec = nd(0, SEC); v.tv_usec = nd(0, 999999);
#if WHAT == 4
    CHECK(timeval_diff(&u, &v) == ((int64_t)v.tv_sec * 1000000 + v.tv_usec) - ((int64_t)u.tv_sec * 1000000 + u.tv_usec), "difference in microseconds");
#endif
#if WHAT == 5
    add_tv_to_ts(&u, &v, &c);
    CHECK(OK(c) && NS(c) == ((int64_t)v.tv_sec * 1000000 + v.tv_usec + (int64_t)u.tv_sec * 1000000 + u.tv_usec) * 1000, "sums of microseconds are exact");
#endif
    reset(&c); CHECK(c.tv_sec == 0 && c.tv_nsec == 0, "reset");
#endif
    WITNESS(e == 0 && a.tv_nsec > b.tv_nsec, "a borrow");
}
#endif
