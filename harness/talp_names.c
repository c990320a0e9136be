/* Registering TALP regions by name, and selecting which are enabled. */
#include "vp.h"
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include <pthread.h>
#include <stdio.h>
#include "mini_libc.h"
#include "str_models.h"
#define SELECT 1
#define REGISTER 2
#ifndef SELMAX
#define SELMAX 16
#endif
static int vp_lock(void *m), vp_unlock(void *m);
#define pthread_mutex_lock(m) vp_lock(m)
#define pthread_mutex_unlock(m) vp_unlock(m)
#if MODE == SELECT && defined(VP_CBMC)
static void *vp_malloc(size_t n) { __CPROVER_assert(n <= SELMAX, "VPMODEL text too long"); return (malloc)(SELMAX); }
#define malloc(n) vp_malloc(n)
#endif
#include "map_gtree.h"
#include "LB_core/DLB_talp.c"
#undef malloc

__thread subprocess_descriptor_t *thread_spd;
__thread bool thread_is_observer;
static subprocess_descriptor_t spd;
static int held; static void env_other(void);
static int vp_lock(void *m) { env_other(); CHECK(!held, "a mutex is not taken twice"); held = 1; return 0; }
static int vp_unlock(void *m) { CHECK(held, "an unlock matches a lock"); held = 0; env_other(); return 0; }
#undef pthread_mutex_lock
#undef pthread_mutex_unlock
static int64_t clk;
int64_t get_time_in_ns(void) { return ++clk; }
static int nreg, lastid; static const char *regname;
int shmem_talp__set_times(int id, int64_t mpi, int64_t useful) { return 0; }
int shmem_talp__set_avg_cpus(int id, float f) { return 0; }
int shmem_talp__register(pid_t pid, float avg, const char *name, int *id) { nreg++; regname = name; *id = lastid++; return DLB_SUCCESS; }
int shmem_talp__init(const char *k, int m) { return 0; }
int shmem_talp__finalize(pid_t pid) { return 0; }
int shmem_talp__get_regionlist(talp_region_list_t *l, int *n, int m, const char *name) { *n = 0; return 0; }
static const dlb_monitor_t *recorded[8]; static int nrec;
void talp_output_print_monitoring_region(const dlb_monitor_t *m, const char *c, bool a, bool b, bool d) {}
void talp_output_record_pop_metrics(const dlb_pop_metrics_t *m) { nrec++; }
void talp_output_record_resources(int c, int n, int r) {}
void talp_output_record_process(const char *n, const process_record_t *r, int k) {}
void talp_output_record_node(const node_record_t *r) {}
void talp_output_finalize(const char *f) {}
int node_barrier(const subprocess_descriptor_t *s, barrier_t *b) { return 0; }
int mu_get_system_size(void) { return 8; }
const char *mu_to_str(const cpu_set_t *m) { return ""; }
void mu_get_quoted_mask(const cpu_set_t *m, char *s, size_t n) { s[0] = 0; }

#if MODE == SELECT
static void env_other(void) {}
#ifndef L
#define L 4
#endif
static char sel[SELMAX + 8], name[8]; static bool got;
#ifndef VP_CBMC
void vp_show(void) { printf("region '%s' with --talp-region-select='%s': enabled %d\n", name, sel, got); }
#endif
void harness(void) {
    /* modifier, then a list of up to L characters */
    static const char *pre[] = { "", "include:", "exclude:" };
    static const char abc[] = "abG,";
    int p = PRE, n = 0;
    for (; pre[p][n]; ++n) sel[n] = pre[p][n];
    int base = n, len = 0;
#ifdef TEXT
    { static const char t[] = TEXT; for (; t[len]; ++len) sel[n++] = t[len]; }
#else
    len = nd(0, L);
    for (int i = 0; i < L; ++i) if (i < len) sel[n++] = abc[nd(0, 3)];
#endif
    sel[n] = 0;
    const char *rn;
#ifdef GLOBAL
    rn = global_region_name;
#else
    int nl = nd(1, 2);
    for (int i = 0; i < 2; ++i) name[i] = i < nl ? abc[nd(0, 2)] : 0;
    name[nl] = 0; rn = name;
#endif
    bool listed = false, all = false;
#ifdef TEXT
    /* 'all' alone, or the global region in any spelling */
    listed = LISTED; all = ALL_;
#else
    for (int i = 0; i < L; ++i) if (i < len && (i == 0 || sel[base + i - 1] == ',')) {
        bool eq = true; int k = 0;
        for (k = 0; k < 2; ++k) if (name[k] && eq) { if (i + k >= len || sel[base + i + k] != name[k]) eq = false; } else break;
        if (eq && (i + k == len || sel[base + i + k] == ',')) listed = true;
    }
#ifdef GLOBAL
    listed = false;
#endif
#endif
    got = parse_region_select(sel, rn);
    bool want = n == 0 ? true : all ? p != 2 : p == 2 ? !listed : listed;
    CHECK(got == want, "a region is enabled exactly as the list says");
    CHECK(parse_region_select(NULL, rn), "without a list every region is enabled");
#ifndef TEXT
    WITNESS(listed && len == L, "a region in a list");
    WITNESS(!listed && len == L, "a region not in the list");
#endif
}
#else
/* names: kind 0 no name, 1 empty, 2 global in any case, 3 'all' in any case, 4 short, 5 an anonymous region's */
static char txt[4][24]; static int kind[4];
static const char *mkname(int i) {
    char *t = txt[i]; int k = kind[i];
    if (k == 0) return NULL;
    if (k == 1) { t[0] = 0; return t; }
    if (k == 2) { static const char g[] = "global"; for (int j = 0; j < 6; ++j) t[j] = g[j] - (nd(0, 1) ? 32 : 0); t[6] = 0; return t; }
    if (k == 3) { static const char g[] = "all"; for (int j = 0; j < 3; ++j) t[j] = g[j] - (nd(0, 1) ? 32 : 0); t[3] = 0; return t; }
    if (k == 5) { static const char g[] = "Anonymous Region 1"; for (int j = 0; j < 19; ++j) t[j] = g[j]; return t; }
    if (k == 6) { t[0] = 'a'; t[1] = 'b'; t[2] = 0; return t; }
    static const char abc[] = "abA";
    t[0] = abc[nd(0, 2)]; t[1] = nd(0, 1) ? abc[nd(0, 2)] : 0; t[2] = 0; return t;
}
static dlb_monitor_t *R[4]; static int env_on; static const char *env_name; static dlb_monitor_t *env_r;
static void env_other(void) {
    if (!env_on || held || !nd(0, 1)) return;
    env_on = 0;
    env_r = monitoring_region_register(&spd, env_name);
}
static bool same_text(const char *a, const char *b) { for (int j = 0; j < 24; ++j) { if (a[j] != b[j]) return false; if (!a[j]) return true; } return true; }
#ifndef VP_CBMC
void vp_show(void) { for (int i = 0; i < NREG; ++i) printf(" name %d: kind %d '%s' -> %s\n", i, kind[i], txt[i], R[i] ? R[i]->name : "(none)"); if (env_r) printf(" the other thread's: %s\n", env_r->name); }
#endif
void harness(void) {
    spd.id = 77; thread_spd = &spd;
    static const int kinds[] = KINDS;
    for (int i = 0; i < NREG; ++i) kind[i] = kinds[i];
#ifdef SHMEM
    spd.options.talp_external_profiler = true;
#endif
    talp_init(&spd);
    talp_info_t *T = spd.talp_info;
    dlb_monitor_t *G = monitoring_region_get_global_region(&spd);
    CHECK(G && same_text(G->name, "Global"), "there is a global region from the start");
    int nreg0 = nreg;
    const char *nm[4];
    for (int i = 0; i < NREG; ++i) nm[i] = mkname(i);
#ifdef RACE
    env_name = nm[0]; env_on = 1;
#endif
    for (int i = 0; i < NREG; ++i) R[i] = monitoring_region_register(&spd, nm[i]);
    env_on = 0;
    int distinct = 1;
    for (int i = 0; i < NREG; ++i) {
        bool anon = kind[i] <= 1;
        if (kind[i] == 3) { CHECK(R[i] == NULL, "no region may be called all"); continue; }
        CHECK(R[i] != NULL, "a region is registered");
        if (kind[i] == 2) { CHECK(R[i] == G, "the global region is found in any case"); continue; }
        CHECK(R[i] != G && ((monitor_data_t*)R[i]->_data)->id > 0, "a region has an identity of its own");
        CHECK(R[i]->num_measurements == 0 && R[i]->elapsed_time == 0 && R[i]->useful_time == 0 && !monitoring_region_is_started(R[i]), "a new region has measured nothing");
        if (!anon) CHECK(same_text(R[i]->name, nm[i]), "and bears its name");
        bool first = true;
        for (int j = 0; j < i; ++j) if (kind[j] > 3 || kind[j] <= 1) {
            bool eq = !anon && kind[j] > 3 && same_text(nm[i], nm[j]);
            if (!anon && kind[j] <= 1 && same_text(nm[i], R[j]->name)) eq = true;      /* somebody knows the anonymous region's name */
            CHECK((R[i] == R[j]) == eq, "the same name is the same region, another name another region");
            if (R[i] == R[j]) first = false; else CHECK(((monitor_data_t*)R[i]->_data)->id != ((monitor_data_t*)R[j]->_data)->id, "with another identity");
        }
        distinct += first;
#ifdef SHMEM
#endif
    }
#ifdef RACE
    if (env_r && kind[0] > 3) CHECK(env_r == R[0] && same_text(env_r->name, nm[0]), "two threads that register a name at the same time get the same region");
    WITNESS(env_r != NULL && R[0] != NULL, "a race");
#else
    CHECK((int)g_tree_nnodes(T->regions) == distinct, "every region is kept, once");
#ifdef SHMEM
    CHECK(nreg == nreg0 + distinct - 1, "every region is shared with other processes, once");
#else
    CHECK(nreg == 0, "nothing is shared unless asked for");
#endif
    for (int i = 0; i < NREG; ++i) if (R[i]) CHECK(g_tree_lookup(T->regions, R[i]->name) == (gpointer)R[i], "and found by its name");
    WITNESS(distinct > 1 || kind[0] == 3, "regions are registered");
#endif
    (void)T; (void)nreg0;
}
#endif
