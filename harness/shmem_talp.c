/* One operation on the shared table of TALP regions, from an arbitrary table. */
#include "vp.h"
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#ifndef CAP
#define CAP 4
#endif
#define REGISTER 1
#define GETREGION 2
#define REGIONLIST 3
#define PIDLIST 4
#define TIMES 5
#define FINALIZE 6
#define CLEANUP 7
#define INIT 8
#ifdef VP_CBMC
#include "str_models.h"
static int vp_snprintf(char *b, size_t n, const char *s);
#define VP_FIRST(a, ...) a
#define snprintf(b, n, f, ...) vp_snprintf(b, n, _Generic((VP_FIRST(__VA_ARGS__, 0)), char*: VP_FIRST(__VA_ARGS__, 0), const char*: VP_FIRST(__VA_ARGS__, 0), default: (const char*)0))
#endif
#include "LB_comm/shmem_talp.h"
#ifdef VP_CBMC
/* insertion sort for the elements this code sorts */
static void vp_qsort(talp_region_list_t *a, size_t n, size_t sz, int (*cmp)(const void*, const void*));
#define qsort vp_qsort
#endif
#include "LB_comm/shmem_talp.c"
#undef qsort
#ifdef VP_CBMC
static void vp_qsort(talp_region_list_t *a, size_t n, size_t sz, int (*cmp)(const void*, const void*)) {
    for (int i = 1; i < CAP + 1; ++i) if ((size_t)i < n)
        for (int j = i; j > 0; --j) if (cmp_region_list(&a[j - 1], &a[j]) > 0) { talp_region_list_t t = a[j]; a[j] = a[j - 1]; a[j - 1] = t; }
}
#endif
int mu_get_system_size(void) { return CAP; }
static struct { shdata_t s; talp_region_t pad[CAP]; } vp_obj;
#define R(i) (vp_obj.pad[i])
#ifdef VP_CBMC
/* writes the name of whichever region b is in */
static int vp_snprintf(char *b, size_t n, const char *s) {
    int k = 0;
    CHECK(n == DLB_MONITOR_NAME_MAX, "names are written within their size");
    for (int r = 0; r < CAP; ++r) if (b == R(r).name) { size_t i = 0; for (; i + 1 < n && s[i]; ++i) R(r).name[i] = s[i]; R(r).name[i] = 0; k = 1; }
    CHECK(k, "names are written to a region");
    return 0; }
#endif
static int depth, finalized, handler_obj;
shmem_handler_t *shmem_init(void **p, const shmem_props_t *props) { *p = &vp_obj.s; return (shmem_handler_t*)&handler_obj; }
void shmem_finalize(shmem_handler_t *h, bool (*e)(void)) { CHECK(depth == 0, "not while locked"); finalized = 1 + e(); }
void shmem_lock(shmem_handler_t *h) { CHECK(depth == 0, "the lock is not taken twice"); depth++; }
void shmem_unlock(shmem_handler_t *h) { CHECK(depth == 1, "an unlock matches a lock"); depth--; }

static const char *NM[] = { "a", "b", "ab", "" };
static int nameof(const char *s) { return s[0] == 0 ? 3 : s[0] == 'b' ? 1 : s[1] == 0 ? 0 : 2; }
typedef struct { int pid, name; long mpi, us; int cpus; } slot_t;
static slot_t pre[CAP], post[CAP]; static int pre_n, post_n, err, pid, name, attached;
static void snap(slot_t *a, int *n) {
    for (int i = 0; i < CAP; ++i) { a[i].pid = R(i).pid; a[i].name = R(i).pid ? nameof(R(i).name) : -1; a[i].mpi = R(i).mpi_time; a[i].us = R(i).useful_time; a[i].cpus = (int)R(i).avg_cpus; }
    *n = vp_obj.s.num_regions;
}
static bool same(int i) { return pre[i].pid == post[i].pid && pre[i].name == post[i].name && pre[i].mpi == post[i].mpi && pre[i].us == post[i].us && pre[i].cpus == post[i].cpus; }
#ifndef VP_CBMC
void vp_show(void) {
    printf("op %d pid %d name %s -> %d (attached %d)\n", OP, pid, NM[name & 3], err, attached);
    for (int i = 0; i < CAP; ++i) printf(" region %d: pid %d -> %d, name %s, times %ld %ld -> %ld %ld\n", i, pre[i].pid, post[i].pid, R(i).name, pre[i].mpi, pre[i].us, post[i].mpi, post[i].us);
}
#endif
static int setname(char *s) {
    int k = nd(0, 2);
    s[0] = k == 1 ? 'b' : 'a'; s[1] = k == 2 ? 'b' : 0; s[2] = 0;
    return k;
}
void harness(void) {
    _Static_assert(sizeof(shdata_t) == offsetof(shdata_t, talp_region), "layout");
    attached = nd(1, 2);
    int n = nd(0, CAP);
    vp_obj.s.initialized = true; vp_obj.s.num_regions = n; vp_obj.s.max_regions = CAP;
    bool any = false, mine = false;
    for (int i = 0; i < CAP; ++i) {
        if (i >= n) continue;
        int p = nd(0, 3);
        if (!p) continue;
        R(i).pid = 100 + p; setname(R(i).name);
        R(i).mpi_time = nd(0, 1L << 40); R(i).useful_time = nd(0, 1L << 40); R(i).avg_cpus = nd(0, 100);
        for (int j = 0; j < i; ++j) ASSUME(R(j).pid != R(i).pid || nameof(R(j).name) != nameof(R(i).name));
    }
    snap(pre, &pre_n);
    char nm[3]; name = setname(nm);
    pid = nd(101, 103);
    for (int i = 0; i < CAP; ++i) { if (pre[i].pid) any = true; if (pre[i].pid == pid) mine = true; }
    int at = -1, used = 0, named = 0;
    for (int i = 0; i < CAP; ++i) {
        if (pre[i].pid == pid && pre[i].name == name) at = i;
        if (pre[i].pid) used++;
        if (pre[i].pid && pre[i].name == name) named++;
    }
    bool without = nd(0, 9) == 0;
#if OP != CLEANUP && OP != INIT
    if (!without) { max_regions = CAP; shm_handler = (shmem_handler_t*)&handler_obj; shdata = &vp_obj.s; subprocesses_attached = attached; }
#endif
#if OP == REGISTER
    int id = -7;
    err = shmem_talp__register(pid, 3, nm, &id);
    snap(post, &post_n);
    if (without) CHECK(err == DLB_ERR_NOSHMEM, "no shared memory");
    else if (at >= 0) { CHECK(err == DLB_NOUPDT && id == at, "a region that is registered keeps its id"); }
    else if (used < CAP) {
        CHECK(err == DLB_SUCCESS && id >= 0 && id < CAP, "a new region is registered while there is room");
        for (int i = 0; i < CAP; ++i) if (i == id) {
            CHECK(pre[i].pid == 0, "in a free place");
            CHECK(post[i].pid == pid && i < post_n, "for its process"); CHECK(post[i].name == name, "with its name");
            CHECK(post[i].mpi == 0 && post[i].us == 0 && post[i].cpus == 3, "and no time yet");
        }
    } else CHECK(err == DLB_ERR_NOMEM && post_n == pre_n, "and not when it is full");
    for (int i = 0; i < CAP; ++i) if (i != id || err != DLB_SUCCESS) CHECK(same(i), "other regions are untouched");
    CHECK(post_n >= 0 && post_n <= CAP && post_n >= pre_n, "the table stays within its capacity");
    WITNESS(at < 0 && err == DLB_SUCCESS && used > 1, "registered");
#elif OP == GETREGION
    talp_region_list_t r = { .pid = -5 };
    err = shmem_talp__get_region(&r, pid, nm);
    snap(post, &post_n);
    CHECK(err == (without ? DLB_ERR_NOSHMEM : at >= 0 ? DLB_SUCCESS : DLB_ERR_NOPROC), "a region is found exactly when the process registered that name");
    for (int i = 0; i < CAP; ++i) if (i == at && !without) CHECK(r.pid == pid && r.region_id == at && r.mpi_time == pre[i].mpi && r.useful_time == pre[i].us && (int)r.avg_cpus == pre[i].cpus, "with its times");
    WITNESS(err == 0 && used > 2, "found");
#elif OP == REGIONLIST
    talp_region_list_t l[CAP + 1]; int k = -1, max = nd(0, CAP + 1);
    for (int i = 0; i < CAP + 1; ++i) l[i].pid = -5;
    err = shmem_talp__get_regionlist(l, &k, max, nm);
    snap(post, &post_n);
    if (without) CHECK(err == DLB_ERR_NOSHMEM, "no shared memory");
    else {
        CHECK(err == DLB_SUCCESS && k == (named < max ? named : max), "every process with that region is listed, as many as fit");
        for (int i = 0; i < CAP + 1; ++i) if (i < k) {
            int ok = 0;
            for (int j = 0; j < CAP; ++j) if (pre[j].pid == l[i].pid && pre[j].name == name && l[i].region_id == j && l[i].mpi_time == pre[j].mpi && l[i].useful_time == pre[j].us) ok = 1;
            CHECK(ok, "with its times");
            if (i > 0) CHECK(l[i - 1].pid < l[i].pid, "once, sorted by process id");
        } else CHECK(l[i].pid == -5, "nothing is written beyond");
    }
    WITNESS(k == 3 && l[0].region_id > l[1].region_id, "three processes");
#elif OP == PIDLIST
    pid_t l[CAP + 1]; int k = -1, max = nd(0, CAP + 1);
    for (int i = 0; i < CAP + 1; ++i) l[i] = -5;
    err = shmem_talp__get_pidlist(l, &k, max);
    snap(post, &post_n);
    if (without) CHECK(err == DLB_ERR_NOSHMEM, "no shared memory");
    else {
        int d = 0;
        for (int p = 101; p <= 103; ++p) { int e = 0; for (int j = 0; j < CAP; ++j) if (pre[j].pid == p) e = 1; d += e; int t = 0; for (int i = 0; i < CAP + 1; ++i) if (i < k && l[i] == p) t++;
            CHECK(t <= e && (max < CAP || t == e), "every process with a region is listed once"); }
        CHECK(k == (d < max ? d : max), "as many as fit");
        for (int i = 0; i < CAP + 1; ++i) CHECK((i < k) == (l[i] != -5), "nothing is written beyond");
    }
    WITNESS(k == 3, "three processes");
#elif OP == TIMES
    int id = nd(-2, CAP + 1), how = nd(0, 2); long a = nd(0, 1L << 40), b = nd(0, 1L << 40); int64_t ra = -5, rb = -5;
    bool valid = false;
    for (int i = 0; i < CAP; ++i) if (i == id && pre[i].pid) valid = true;
    if (how == 0) err = shmem_talp__get_times(id, &ra, &rb);
    if (how == 1) err = shmem_talp__set_times(id, a, b);
    if (how == 2) err = shmem_talp__set_avg_cpus(id, 42);
    snap(post, &post_n);
    if (without) CHECK(err == DLB_ERR_NOSHMEM, "no shared memory");
    else {
        CHECK((err == DLB_SUCCESS) == valid, "only registered regions have times");
        CHECK(valid || err == (id >= CAP ? DLB_ERR_NOMEM : DLB_ERR_NOENT), "an id beyond the table or not registered is reported");
    }
    for (int i = 0; i < CAP; ++i) {
        if (i == id && err == 0) {
            CHECK(post[i].pid == pre[i].pid && post[i].name == pre[i].name, "a region keeps its process and name");
            if (how == 0) CHECK(ra == pre[i].mpi && rb == pre[i].us && same(i), "the times last published are read");
            if (how == 1) CHECK(post[i].mpi == a && post[i].us == b && post[i].cpus == pre[i].cpus, "both times are published");
            if (how == 2) CHECK(post[i].mpi == pre[i].mpi && post[i].us == pre[i].us && post[i].cpus == 42, "the number of CPUs is published");
        } else CHECK(same(i), "other regions are untouched");
    }
    if (err) CHECK(ra == -5 && rb == -5, "nothing is read otherwise");
    WITNESS(err == 0 && how == 1, "published");
#elif OP == FINALIZE || OP == CLEANUP
#if OP == FINALIZE
    err = shmem_talp__finalize(pid);
    snap(post, &post_n);
    CHECK(err == (without ? DLB_ERR_NOSHMEM : DLB_SUCCESS), "leaving succeeds if attached");
    if (!without) {
        CHECK((finalized > 0) == (attached == 1) && (shm_handler == NULL) == (attached == 1), "the memory is detached with the last user of this process");
        bool rest = false; for (int i = 0; i < CAP; ++i) if (pre[i].pid && pre[i].pid != pid) rest = true;
        if (finalized) CHECK((finalized == 2) == !rest, "and may be removed exactly when no region is left");
    }
#else
    max_regions = CAP; without = false;
    cleanup_shmem(&vp_obj.s, pid);
    snap(post, &post_n);
    CHECK(shm_handler == NULL && depth == 0, "another process's death changes nothing else");
    bool rest = false; for (int i = 0; i < CAP; ++i) if (pre[i].pid && pre[i].pid != pid) rest = true;
    if (!rest) CHECK(post_n == 0 && !vp_obj.s.initialized, "a table without processes starts anew");
    else CHECK(vp_obj.s.initialized && vp_obj.s.max_regions == CAP, "otherwise it stays");
#endif
    for (int i = 0; i < CAP; ++i) {
        if (pre[i].pid == pid && !without) CHECK(post[i].pid == 0 && post[i].mpi == 0 && post[i].us == 0, "all regions of the process are removed");
        else CHECK(same(i) || pre[i].pid == 0, "those of others are not");
        CHECK(pre[i].pid != 0 || post[i].pid == 0, "none appears");
    }
    CHECK(post_n <= CAP && post_n >= 0, "within the table");
    for (int i = 0; i < CAP; ++i) if (i >= post_n) CHECK(post[i].pid == 0, "every region is within the count");
    WITNESS(mine && used > 2, "a process with regions");
#elif OP == INIT
    int mult = nd(1, 2); bool fresh = nd(0, 1);
    if (fresh) { memset(&vp_obj, 0, sizeof vp_obj); snap(pre, &pre_n); } else vp_obj.s.max_regions = CAP * nd(1, 2);
    int old = vp_obj.s.max_regions;
    err = shmem_talp__init("key", mult);
    snap(post, &post_n);
    bool ok = fresh || old == CAP * mult;
    CHECK(err == (ok ? DLB_SUCCESS : DLB_ERR_INIT), "attaching succeeds unless the sizes differ");
    CHECK((shm_handler != NULL) == ok, "the memory is released on error");
    CHECK(vp_obj.s.initialized && vp_obj.s.max_regions == (fresh ? CAP * mult : old) && post_n == pre_n, "the table is created once");
    for (int i = 0; i < CAP; ++i) CHECK(same(i), "regions are untouched");
    if (ok) CHECK(shmem_talp__get_max_regions() == CAP * mult, "and has the size asked for");
    WITNESS(!ok, "different sizes");
#endif
    CHECK(depth == 0, "the lock is released");
}
