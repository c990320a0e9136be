/* One barrier operation of one process, from an arbitrary table of barriers. */
#include "vp.h"
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <pthread.h>
#ifndef NAME
#define NAME 1
#endif
#ifndef SEL
#define SEL 0
#endif
#ifndef NB
#define NB 3
#endif
#define REGISTER 1
#define BARRIER 2
#define ATTACH 3
#define DETACH 4
#define INIT 5
#define FINALIZE 6
#define CLEANUP 7
#define SELECT 8
#define NAMES 9
#include "LB_comm/shmem_barrier.h"
#ifdef VP_CBMC
#include "str_models.h"
static int vp_name(char *b, size_t n, const char *s);
#define VP_FIRST(a, ...) a
#define VP_SECOND(a, b, ...) b
#define VP_STR(x) _Generic((x), char*: (x), const char*: (x), default: (const char*)"d:")
#define snprintf(b, n, f, ...) vp_name(b, n, VP_STR(VP_FIRST(__VA_ARGS__, 0)))
#define sprintf(b, f, s) vp_name(b, BARRIER_NAME_MAX, s)
#endif
static int vp_rw(void *l, int how), vp_rwunlock(void *l), vp_binit(void *b, unsigned n), vp_bdestroy(void *b), vp_bwait(void *b), vp_mx(int d);
#define pthread_rwlock_init(l, a) ((void)(a), 0)
#define pthread_rwlock_destroy(l) 0
#define pthread_rwlock_wrlock(l) vp_rw(l, 2)
#define pthread_rwlock_rdlock(l) vp_rw(l, 1)
#define pthread_rwlock_timedwrlock(l, t) vp_rw(l, 2)
#define pthread_rwlock_unlock(l) vp_rwunlock(l)
#define pthread_barrier_init(b, a, n) vp_binit(b, n)
#define pthread_barrier_destroy(b) vp_bdestroy(b)
#define pthread_barrier_wait(b) vp_bwait(b)
#define pthread_mutex_lock(m) vp_mx(1)
#define pthread_mutex_unlock(m) vp_mx(-1)
#define pthread_rwlockattr_init(a) 0
#define pthread_rwlockattr_setpshared(a, b) 0
#define pthread_rwlockattr_destroy(a) 0
#define pthread_barrierattr_init(a) 0
#define pthread_barrierattr_setpshared(a, b) 0
#define pthread_barrierattr_destroy(a) 0
#include "LB_comm/shmem_barrier.c"
#define default_barrier_name vp_default_name
#ifdef VP_CBMC
static void vp_memmove(barrier_t **d, barrier_t **s, size_t n) { for (int i = 0; i < NB; ++i) if (i * sizeof(void*) < n) d[i] = s[i]; }
#define memmove(d, s, n) vp_memmove(d, s, n)
#endif
#include "LB_core/node_barrier.c"
#undef memmove
int mu_get_system_size(void) { return NB; }
static struct { char c; } vp_key;
static barrier_t *B(int i);
static struct { shdata_t s; barrier_t pad[NB]; } vp_obj;
_Static_assert(sizeof(shdata_t) == 0 || 1, "");
static barrier_t *B(int i) { return &vp_obj.pad[i]; }
static int depth, finalized, handler_obj, mx;
static int held[NB], count_of[NB], alive_[NB], waits[NB], mid, into, outof;
shmem_handler_t *shmem_init(void **p, const shmem_props_t *props) { *p = &vp_obj.pad[0]; return (shmem_handler_t*)&handler_obj; }
void shmem_finalize(shmem_handler_t *h, bool (*e)(void)) { CHECK(depth == 0, "not while locked"); finalized = 1; }
bool shmem_exists(const char *a, const char *b) { return false; }
void shmem_lock(shmem_handler_t *h) { CHECK(depth == 0, "the lock is not taken twice"); depth++; }
void shmem_unlock(shmem_handler_t *h) { CHECK(depth == 1, "an unlock matches a lock"); depth--; }
void get_time_real(struct timespec *t) { t->tv_sec = 1; t->tv_nsec = 0; }
static int at(void *p, size_t off) { int k = -1; for (int i = 0; i < NB; ++i) if (p == (void*)((char*)B(i) + off)) k = i; CHECK(k >= 0, "a barrier of the table"); return k; }
static int vp_rw(void *l, int how) { int k = at(l, offsetof(barrier_t, rwlock)); for (int i = 0; i < NB; ++i) if (i == k) { CHECK(!held[i], "a barrier's lock is not taken twice"); held[i] = how; } return 0; }
static int vp_rwunlock(void *l) { int k = at(l, offsetof(barrier_t, rwlock)); for (int i = 0; i < NB; ++i) if (i == k) { CHECK(held[i], "an unlock matches a lock"); held[i] = 0; } return 0; }
static int vp_binit(void *b, unsigned n) { int k = at(b, offsetof(barrier_t, barrier)); for (int i = 0; i < NB; ++i) if (i == k) { CHECK(!alive_[i], "a barrier is destroyed before it is created again"); alive_[i] = 1; count_of[i] = n; CHECK(held[i] == 2 || depth, "alone"); } return 0; }
static int vp_bdestroy(void *b) { int k = at(b, offsetof(barrier_t, barrier)); for (int i = 0; i < NB; ++i) if (i == k) { CHECK(alive_[i], "only a barrier that exists is destroyed"); alive_[i] = 0; CHECK(held[i] == 2 || depth, "alone"); } return 0; }
static int vp_bwait(void *b) { int k = at(b, offsetof(barrier_t, barrier)); for (int i = 0; i < NB; ++i) if (i == k) { CHECK(alive_[i] && held[i] == 1 && depth == 0 && mx == 0, "a process waits in a barrier that cannot go away, without other locks"); waits[i]++; mid = into - outof; } return 0; }
static int vp_mx(int d) { mx += d; CHECK(mx == 0 || mx == 1, "the process's list is protected once"); return 0; }
void into_sync_call(sync_call_flags_t f) { into++; CHECK(f.do_lewi && f.is_blocking, "as a blocking call"); }
void out_of_sync_call(sync_call_flags_t f) { outof++; CHECK(f.do_lewi && f.is_blocking, "as a blocking call"); }

/* names: 0 "d" the default one, 1 "x", 2 "y", 3 "z" */
static const char C[4] = "dxyz";
static int nm(const char *s) { return s[0] == 'd' ? 0 : s[0] == 'x' ? 1 : s[0] == 'y' ? 2 : s[0] == 'z' ? 3 : 9; }
#ifdef VP_CBMC
static barrier_info_t *I;
static int vp_name(char *b, size_t n, const char *s) {
    int k = 0; CHECK(n == BARRIER_NAME_MAX, "names are written within their size");
#if OP == NAMES
    size_t q = 0; for (; q < n - 1 && s[q]; ++q) b[q] = s[q];
    b[q] = 0; return 0;
#endif
    for (int i = 0; i < NB; ++i) if (b == B(i)->name) { B(i)->name[0] = s[0]; B(i)->name[1] = 0; k = 1; }
    if (!k) { b[0] = s[0]; b[1] = 0; }
    return 0; }
#else
static barrier_info_t *I;
#endif
static subprocess_descriptor_t spd;
__thread subprocess_descriptor_t *thread_spd; __thread bool thread_is_observer;
typedef struct { int parts, name, init, lewi, ntimes; } bar_t;
static bar_t pre[NB], post[NB]; static int err, op_at = -1, name, listed_pre[NB], listed_post[NB], def_pre, def_post, flags_; static bool on;
static void snap(bar_t *a, int *l, int *d) {
    for (int i = 0; i < NB; ++i) { a[i].parts = (int)B(i)->participants; a[i].name = nm(B(i)->name); a[i].init = B(i)->flags.initialized; a[i].lewi = B(i)->flags.lewi; a[i].ntimes = B(i)->ntimes; l[i] = 0; }
    *d = -1;
    if (!I) return;
    bool end = false;
    for (int j = 0; j < NB; ++j) {
        barrier_t *b = I->barrier_list[j];
        if (!b) { end = true; continue; }
        CHECK(!end, "the process's list has no gaps");
        int ok = 0;
        for (int i = 0; i < NB; ++i) if (b == B(i)) { l[i]++; ok = 1; }
        CHECK(ok, "the process's list holds barriers of the table");
    }
    for (int i = 0; i < NB; ++i) { CHECK(l[i] <= 1, "each at most once"); if (I->default_barrier == B(i)) { *d = i; CHECK(l[i] == 0, "the default barrier is not in the list"); } }
}
static bool same(int i) { return pre[i].parts == post[i].parts && pre[i].init == post[i].init && (!pre[i].init || (pre[i].name == post[i].name && pre[i].lewi == post[i].lewi && pre[i].ntimes == post[i].ntimes)); }
#ifndef VP_CBMC
void vp_show(void) {
    printf("op %d name %c barrier %d flags %d -> %d; --barrier %d, default barrier %d -> %d\n", OP, C[name], op_at, flags_, err, on, def_pre, def_post);
    for (int i = 0; i < NB; ++i) printf(" barrier %d: name %d -> %d, participants %d -> %d (barrier for %d), listed %d -> %d\n", i, pre[i].name, post[i].name, pre[i].parts, post[i].parts, count_of[i], listed_pre[i], listed_post[i]);
}
#endif
static void consistent(void) {
    for (int i = 0; i < NB; ++i) {
        CHECK((post[i].parts > 0) == (post[i].init != 0), "a barrier exists while it has participants");
        CHECK(alive_[i] == (post[i].parts > 0), "and can be waited in");
        if (post[i].parts > 0) {
            CHECK(count_of[i] == post[i].parts, "it waits for all of its participants");
            for (int j = 0; j < i; ++j) CHECK(post[j].parts == 0 || post[j].name != post[i].name, "there is one barrier per name");
        }
        CHECK(post[i].parts >= (listed_post[i] || def_post == i), "a process takes part in the barriers it lists");
        CHECK(!held[i], "locks are released");
    }
    CHECK(depth == 0 && mx == 0, "locks are released");
}
static const char *sel[] = { "", "d", "x", "y,x", "xx,y", "d,y" };
static bool insel(int s, int k) { return s == 1 ? k == 0 : s == 2 ? k == 1 : s == 3 ? k == 1 || k == 2 : s == 4 ? k == 2 : s == 5 ? k == 0 || k == 2 : false; }
static bool wants(int k, bool opt, int s, int f) {
    if (k == 0) return s == 0 ? opt : insel(s, 0);
    if (f == DLB_BARRIER_LEWI_ON) return true;
    if (f == DLB_BARRIER_LEWI_OFF) return false;
    return insel(s, k);
}
static bool vp_same(const char *a, const char *b) { for (int i = 0; i < BARRIER_NAME_MAX - 1; ++i) { if (a[i] != b[i]) return false; if (!a[i]) return true; } return true; }
static int expect_free(void) { int n = 0; for (int i = 0; i < NB; ++i) n += pre[i].parts == 0; return n; }
void harness(void) {
    vp_default_name = "d";
    on = nd(0, 1); spd.options.barrier = on;
    bool opt = nd(0, 1); static const int s = SEL;
    spd.options.lewi_barrier = opt; strcpy(spd.options.lewi_barrier_select, "");
    for (int i = 0; i < 6; ++i) { spd.options.lewi_barrier_select[i] = sel[s][i]; if (!sel[s][i]) break; }
    max_barriers = NB; shm_handler = (shmem_handler_t*)&handler_obj; shdata = (shdata_t*)&vp_obj.pad[0];
    flags_ = nd(0, 2); name = NAME;
    char nbuf[2] = { C[name], 0 };
#if OP == SELECT
    bool r = parse_lewi_barrier(nbuf, opt, sel[s], flags_ == 0 ? DLB_BARRIER_LEWI_ON : flags_ == 1 ? DLB_BARRIER_LEWI_OFF : DLB_BARRIER_LEWI_RUNTIME);
    CHECK(r == wants(name, opt, s, flags_ == 0 ? DLB_BARRIER_LEWI_ON : flags_ == 1 ? DLB_BARRIER_LEWI_OFF : DLB_BARRIER_LEWI_RUNTIME), "a barrier lends CPUs exactly if asked by the call, the option or the selection");
    WITNESS(r || flags_ == 1, "decided");
    return;
#elif OP == NAMES
    /* names of up to 3 letters, or 3 letters around the longest name, that differ anywhere */
#ifdef LONG
    enum { PRE = BARRIER_NAME_MAX - 3 };
#else
    enum { PRE = 0 };
#endif
    static char in[NB + 2][PRE + 4];
    for (int i = 0; i < NB + 2; ++i) { for (int j = 0; j < PRE; ++j) in[i][j] = 'p'; for (int j = 0; j < 3; ++j) { int c = nd(0, 2); in[i][PRE + j] = c == 0 ? 0 : c == 1 ? 'a' : 'b'; } in[i][PRE + 3] = 0; }
#define SAME(a, b) (vp_same(in[a], in[b]))
    I = malloc(sizeof(barrier_info_t)); *I = (const barrier_info_t){0};
    I->max_barriers = NB; I->barrier_list = malloc(sizeof(void*) * NB); for (int j = 0; j < NB; ++j) I->barrier_list[j] = NULL;
    spd.barrier_info = I; spd.options.barrier = true; on = true;
    for (int j = 0; j < BARRIER_NAME_MAX - 1 && j < PRE + 3; ++j) I->default_barrier_name[j] = in[NB][j];
    int mine = nd(-1, NB - 1), found = -1, room = 0;
    for (int i = 0; i < NB; ++i) {
        bool used = nd(0, 1);
        if (!used) { room = 1; continue; }
        B(i)->participants = 1; B(i)->flags.initialized = true; alive_[i] = 1; count_of[i] = 1;
        for (int j = 0; j < BARRIER_NAME_MAX - 1 && j < PRE + 3; ++j) B(i)->name[j] = in[i][j];
        ASSUME(!SAME(i, NB));
        for (int j = 0; j < i; ++j) ASSUME(!B(j)->participants || !SAME(i, j));
        if (SAME(i, NB + 1)) found = i;
        if (i == mine) I->barrier_list[0] = B(i);
    }
    const bool dflt = SAME(NB, NB + 1);
    ASSUME(in[NB + 1][0] && in[NB][0]);
    barrier_t *f = shmem_barrier__find(in[NB + 1]);
    CHECK(found < 0 ? f == NULL : f == B(found), "a barrier is found by its exact name, and no other");
    barrier_t *r = node_barrier_register(&spd, in[NB + 1], DLB_BARRIER_LEWI_OFF);
    int got = -1; for (int i = 0; i < NB; ++i) if (r == B(i)) got = i;
    op_at = got;
    if (dflt) CHECK(r == NULL, "the name of the default barrier is not a named barrier");
    else if (found >= 0) CHECK(got == found, "a name gives the barrier of exactly that name");
    else if (room) {
        CHECK(got >= 0, "a new name gives a new barrier");
        for (int i = 0; i < NB; ++i) { if (i == got) { CHECK(B(i)->participants == 1, "of its own"); CHECK(vp_same(B(i)->name, in[NB + 1]), "that keeps its name"); } else CHECK(B(i)->participants <= 1, "and no other is joined"); }
    } else CHECK(r == NULL, "or none if there is no room");
    WITNESS(!dflt && found >= 0 && mine == 0 && found == 1, "an existing name");
    WITNESS(!dflt && found < 0 && mine == 0 && got == 1, "a new name");
    return;
#else
    int fl = flags_ == 0 ? DLB_BARRIER_LEWI_ON : flags_ == 1 ? DLB_BARRIER_LEWI_OFF : DLB_BARRIER_LEWI_RUNTIME;
    for (int i = 0; i < NB; ++i) {
        int p = nd(0, 3);
        if (!p) continue;
        int k = nd(0, 3);
        B(i)->participants = p; B(i)->flags.initialized = true; B(i)->flags.lewi = nd(0, 1); B(i)->name[0] = C[k]; B(i)->ntimes = nd(0, 5);
        alive_[i] = 1; count_of[i] = p;
        for (int j = 0; j < i; ++j) ASSUME(B(j)->participants == 0 || B(j)->name[0] != C[k]);
    }
#if OP != INIT
    I = malloc(sizeof(barrier_info_t)); *I = (const barrier_info_t){0};
    I->default_barrier_name[0] = 'd'; I->max_barriers = NB;
    I->barrier_list = malloc(sizeof(void*) * NB);
    for (int j = 0; j < NB; ++j) I->barrier_list[j] = NULL;
    int used = nd(0, NB);
    for (int j = 0; j < NB; ++j) if (j < used) {
        int k = nd(0, NB - 1);
        ASSUME(B(k)->participants > 0 && B(k)->name[0] != 'd');
        for (int q = 0; q < j; ++q) ASSUME(I->barrier_list[q] != B(k));
        I->barrier_list[j] = B(k);
    }
    bool isdef = nd(0, 1);
    for (int i = 0; i < NB; ++i) if (isdef && B(i)->participants > 0 && B(i)->name[0] == 'd') I->default_barrier = B(i);
    if (on) spd.barrier_info = I;
#endif
    snap(pre, listed_pre, &def_pre);
    int exists = -1; for (int i = 0; i < NB; ++i) if (pre[i].parts > 0 && pre[i].name == name) exists = i;
    int dex = -1; for (int i = 0; i < NB; ++i) if (pre[i].parts > 0 && pre[i].name == 0) dex = i;
#endif
#if OP == REGISTER
    bool null = nd(0, 9) == 0;
    barrier_t *b = node_barrier_register(&spd, null ? NULL : nbuf, fl);
    snap(post, listed_post, &def_post);
    int got = -1; for (int i = 0; i < NB; ++i) if (b == B(i)) got = i;
    op_at = got;
    if (null || !on || name == 0) CHECK(b == NULL, "only named barriers are registered, if barriers are enabled");
    else if (exists >= 0) {
        CHECK(got == exists, "a name always gives the same barrier");
        for (int i = 0; i < NB; ++i) if (i == exists) CHECK(post[i].parts == pre[i].parts + !listed_pre[i] && listed_post[i], "and the process takes part in it once");
    } else if (expect_free() > 0) {
        CHECK(got >= 0, "a new barrier is created if there is room");
        for (int i = 0; i < NB; ++i) if (i == got) { CHECK(pre[i].parts == 0 && post[i].parts == 1 && post[i].name == name && listed_post[i], "in a free place, with its name, for this process");
            CHECK(!!post[i].lewi == wants(name, opt, s, fl), "lending CPUs if it was asked to"); }
    } else CHECK(b == NULL, "or not, if there is no room");
    for (int i = 0; i < NB; ++i) if (i != got) CHECK(same(i) && listed_pre[i] == listed_post[i], "other barriers are untouched");
    CHECK(def_post == def_pre, "the default barrier is untouched");
    consistent();
    WITNESS(on && exists >= 0 && !listed_pre[0] && !listed_pre[1] && used > 0, "another process's barrier"); 
#elif OP == BARRIER || OP == ATTACH || OP == DETACH
    int k = nd(-1, NB - 1); barrier_t *arg = NULL; op_at = k;
    for (int i = 0; i < NB; ++i) if (i == k) arg = B(i);
    int eff = k < 0 ? def_pre : k; bool member = false;
    for (int i = 0; i < NB; ++i) if (i == eff && (listed_pre[i] || def_pre == i)) member = true;
    /* the default barrier of another process is never handed out */
    if (k >= 0) for (int i = 0; i < NB; ++i) if (i == k) ASSUME(pre[i].name != 0 || pre[i].parts == 0);
    for (int i = 0; i < NB; ++i) if (i == eff) B(i)->count = nd(0, B(i)->participants ? B(i)->participants - 1 : 0);
    int bc = 0; bool lw = false, last = false; for (int i = 0; i < NB; ++i) if (i == eff) { bc = B(i)->count; lw = pre[i].lewi; last = bc + 1 == pre[i].parts; }
#if OP == BARRIER
    err = node_barrier(&spd, arg);
    snap(post, listed_post, &def_post);
    CHECK(err == (!on ? DLB_ERR_NOCOMP : member ? DLB_SUCCESS : DLB_NOUPDT), "a process synchronizes in the barriers it takes part in and in no other");
    for (int i = 0; i < NB; ++i) {
        CHECK(waits[i] == (on && member && i == eff), "it waits once, there");
        CHECK(pre[i].parts == post[i].parts && pre[i].init == post[i].init && listed_pre[i] == listed_post[i], "nobody joins or leaves");
        CHECK((int)B(i)->ntimes == pre[i].ntimes + (on && member && i == eff && last), "and the last one counts it");
    }
    CHECK(def_post == def_pre, "the default barrier stays");
    CHECK(into == outof && into == (on && member && lw && !last) && mid == into, "CPUs are lent meanwhile, except by the last one, if the barrier does so");
    if (on && member) for (int i = 0; i < NB; ++i) if (i == eff) CHECK((int)B(i)->count == bc, "those inside are counted");
    consistent();
    WITNESS(on && member && lw && !last && k >= 0, "waiting in a named barrier");
#elif OP == ATTACH
    err = node_barrier_attach(&spd, arg);
    snap(post, listed_post, &def_post);
    bool can = on && !member; int where = -1;
    if (!on) CHECK(err == DLB_ERR_NOCOMP, "barriers are not enabled");
    else if (member) CHECK(err == DLB_ERR_PERM, "a process attaches once");
    else if (k >= 0) {
        for (int i = 0; i < NB; ++i) if (i == k) {
            if (pre[i].parts == 0) { CHECK(err == DLB_ERR_PERM, "a barrier without participants is gone"); can = false; }
            else { CHECK(err == pre[i].parts + 1 && post[i].parts == pre[i].parts + 1 && listed_post[i], "it takes part and is told how many do"); where = i; } }
    } else {
        if (dex >= 0) { where = dex; for (int i = 0; i < NB; ++i) if (i == dex) CHECK(def_post == dex && post[i].parts == pre[i].parts + 1 && err == post[i].parts, "it takes part in the default barrier again and is told how many do"); }
        else if (expect_free() > 0) { CHECK(def_post >= 0 && err == 1, "or it creates it"); where = def_post; for (int i = 0; i < NB; ++i) if (i == where) CHECK(pre[i].parts == 0 && post[i].parts == 1 && post[i].name == 0 && !!post[i].lewi == wants(0, opt, s, 0), "for itself"); }
        else { CHECK(err == DLB_ERR_NOMEM && def_post == -1, "unless there is no room"); can = false; }
    }
    for (int i = 0; i < NB; ++i) if (!can || i != where) CHECK(same(i) && listed_pre[i] == listed_post[i], "other barriers are untouched");
    if (k >= 0 || !can) CHECK(def_post == def_pre, "the default barrier stays");
    consistent();
    WITNESS(can && k < 0 && err == 3, "attached to the default barrier"); WITNESS(can && k >= 0 && used == 1 && err == 3, "attached to a named barrier");
#else
    for (int i = 0; i < NB; ++i) B(i)->count = 0;
    err = node_barrier_detach(&spd, arg);
    snap(post, listed_post, &def_post);
    if (!on) CHECK(err == DLB_ERR_NOCOMP, "barriers are not enabled");
    else if (!member) CHECK(err == DLB_ERR_PERM, "only participants detach");
    else for (int i = 0; i < NB; ++i) if (i == eff) CHECK(err == pre[i].parts - 1 && post[i].parts == pre[i].parts - 1 && !listed_post[i] && def_post != i, "a participant leaves and is told how many stay");
    for (int i = 0; i < NB; ++i) if (!(on && member) || i != eff) CHECK(same(i) && listed_pre[i] == listed_post[i], "other barriers are untouched");
    if (!(on && member && eff == def_pre)) CHECK(def_post == def_pre, "the default barrier stays");
    consistent();
    WITNESS(on && member && k >= 0 && used == 2 && err == 0, "the last one leaves");
#endif
#elif OP == INIT
    spd.options.barrier_id = 0; spd.barrier_info = NULL; on = true;
    node_barrier_init(&spd);
    I = spd.barrier_info;
    CHECK(I != NULL && I->max_barriers == NB, "the process has a list of barriers");
    snap(post, listed_post, &def_post);
    if (dex >= 0 || expect_free() > 0) CHECK(def_post >= 0 && (dex < 0 || def_post == dex), "and takes part in the default barrier"); else CHECK(def_post == -1, "unless there is no room");
    for (int i = 0; i < NB; ++i) {
        CHECK(listed_post[i] == 0, "and in no other");
        if (i == def_post) { CHECK(post[i].parts == pre[i].parts + 1 && post[i].name == 0, "once"); if (dex < 0) CHECK(!!post[i].lewi == wants(0, opt, s, 0), "lending CPUs if asked to"); }
        else CHECK(same(i), "other barriers are untouched");
    }
    consistent();
    WITNESS(dex >= 0, "others take part");
#elif OP == FINALIZE
    node_barrier_finalize(&spd);
    I = NULL;
    snap(post, listed_post, &def_post);
    CHECK(spd.barrier_info == NULL, "the process has no barriers");
    for (int i = 0; i < NB; ++i) {
        bool m = on && (listed_pre[i] || def_pre == i);
        if (m) CHECK(post[i].parts == pre[i].parts - 1, "it leaves all barriers it took part in"); else CHECK(same(i), "and no other");
    }
    consistent();
    WITNESS(on && used == 2 && isdef, "leaves several");
#elif OP == CLEANUP
    /* a process died: those that stay hold the remaining places */
    I = NULL; spd.barrier_info = NULL;
    cleanup_shmem(shdata, 55);
    snap(post, listed_post, &def_post);
    for (int i = 0; i < NB; ++i) {
        CHECK(post[i].parts == (pre[i].parts > 0 ? pre[i].parts - 1 : 0), "a process that died no longer takes part, free places stay free");
        CHECK((post[i].parts > 0) == (post[i].init != 0), "a barrier exists while it has participants");
    }
#ifdef OTHERS
    /* it need not have taken part in all barriers */
    for (int i = 0; i < NB; ++i) { bool in = nd(0, 1); if (!in) CHECK(same(i), "barriers the dead process took no part in are untouched"); }
#endif
    WITNESS(expect_free() == 1, "with a free place");
#endif
}
