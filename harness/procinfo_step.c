/* One DROM operation from an arbitrary process table satisfying the invariant. */
#include "vp.h"
#include <sched.h>
#include <stdio.h>
#ifndef NCPU
#define NCPU 4
#endif
#undef fopen
#define fopen(a, b) ((FILE*)NULL)      /* no /proc: the parent of a pid is unknown */
#define snprintf(...) 0
#include <string.h>
static inline void vp_copy(void *d, const void *s, size_t n) { if (n == sizeof(cpu_set_t)) *(cpu_set_t*)d = *(const cpu_set_t*)s; else memcpy(d, s, n); }
#define memcpy vp_copy
#include "support/mask_utils.h"
#define mu_to_str(m) ""
#include "LB_comm/shmem_procinfo.c"
#undef fopen
#undef memcpy
#undef mu_to_str
#undef snprintf

#define INIT 1
#define PREINIT 2
#define FINALIZE 3
#define POSTFINALIZE 4
#define RECOVER 5
#define GETMASK 6
#define SETMASK 7
#define POLL 8
#define PIDLIST 9
#define CLEANUP 10
#define EXTINIT 11
#define LISTS 12

#define PART 1      /* CPUs are partitioned */
#define SHAKE 2     /* set -> poll handshake */
#define REG 3       /* registration */
#define STEAL 4     /* stolen CPUs go back */
#define LEAVE 5     /* departure */

#ifndef MYSLOT
#define MYSLOT -1
#endif
#ifndef SYNC
#define SYNC 0
#endif
#ifndef NP
#define NP NCPU
#endif
#define PID(s) (101 + (s))
#define NEWPID 200

/* ---- environment -------------------------------------------------------- */
static int depth, vp_finalized, vp_exists_answer;
typedef unsigned long m_t;
static void setbits(cpu_set_t *m, m_t b);
#define ALL ((1ul << NCPU) - 1)

static struct { shdata_t s; pinfo_t pad[NP]; } vp_obj;
#define vp_storage vp_obj.s
static int vp_handler_obj;
_Static_assert(sizeof(shdata_t) == offsetof(shdata_t, process_info), "layout");
#define S(s) (vp_obj.pad[s])
shmem_handler_t* shmem_init(void **p, const shmem_props_t *props) { *p = &vp_storage; return (shmem_handler_t*)&vp_handler_obj; }
void shmem_finalize(shmem_handler_t *h, bool (*is_empty_fn)(void)) { vp_finalized = 1 + (is_empty_fn ? is_empty_fn() : 0); }
bool shmem_exists(const char *n, const char *k) { return vp_exists_answer; }
void shmem_lock(shmem_handler_t *h) { CHECK(depth == 0, "the lock is not taken twice"); depth++; }
void shmem_unlock(shmem_handler_t *h) { CHECK(depth == 1, "an unlock matches a lock"); depth--; }
void get_time(struct timespec *t) { t->tv_sec = 1; t->tv_nsec = 0; }
static int64_t now_ns;
static int time_calls;
/* at most two polls before a timeout */
void get_time_coarse(struct timespec *t) {
    if (time_calls++) now_ns += nd(0, 1) ? 600000000 : 1100000000;
    t->tv_sec = 0; t->tv_nsec = now_ns;
}
int64_t timespec_diff(const struct timespec *a, const struct timespec *b) { return (int64_t)b->tv_nsec - (int64_t)a->tv_nsec; }
static bool env_ran;
static bool env_left[NP];
/* while the caller waits out of the lock, the other processes poll or leave */
int usleep(useconds_t u) {
    CHECK(depth == 0, "nobody sleeps with the lock taken");
    env_ran = true;
    for (int s = 0; s < NP; ++s) {
        if (&S(s) == my_pinfo || S(s).pid == NOBODY) continue;
        int k = nd(0, 2);
        if (k == 1 && S(s).dirty) { S(s).current_process_mask = S(s).future_process_mask; S(s).dirty = false; }
#ifdef ENVLEAVE
        if (k == 2 && S(s).pid != NEWPID) {
            CPU_OR(&vp_storage.free_mask, &vp_storage.free_mask, S(s).dirty ? &S(s).future_process_mask : &S(s).current_process_mask);
            S(s) = (const pinfo_t){0};
            env_left[s] = true;
        }
#endif
    }
#ifdef ENVLEAVE   /* a process may register some free CPUs */
    for (int s = 0; s < NP; ++s) if (S(s).pid == NOBODY && !env_left[s]) {
        cpu_set_t m; setbits(&m, nd(0, ALL)); CPU_AND(&m, &m, &vp_storage.free_mask);
        if (!nd(0, 1) || CPU_COUNT(&m) == 0) break;
        CPU_XOR(&vp_storage.free_mask, &vp_storage.free_mask, &m);
        S(s) = (const pinfo_t){0};
        S(s).pid = 300 + s; S(s).current_process_mask = m; S(s).future_process_mask = m;
        env_left[s] = true;
        break;
    }
#endif
    return 0;
}

/* ---- state ---------------------------------------------------------------- */
typedef unsigned long m_t;
static m_t bits(const cpu_set_t *m) { m_t r = 0; for (int c = 0; c < NCPU; ++c) if (CPU_ISSET(c, m)) r |= 1ul << c; return r; }
static void setbits(cpu_set_t *m, m_t b) { CPU_ZERO(m); for (int c = 0; c < NCPU; ++c) if (b & (1ul << c)) CPU_SET(c, m); }
#define ALL ((1ul << NCPU) - 1)
typedef struct { pid_t pid; bool dirty, pre; m_t cur, fut, st, eff; } snap_t;
static snap_t pre[NP], post[NP];
static m_t pre_free, post_free;
static void snap(snap_t *a, m_t *f) {
    for (int s = 0; s < NP; ++s) {
        a[s].pid = S(s).pid; a[s].dirty = S(s).dirty; a[s].pre = S(s).preregistered;
        a[s].cur = bits(&S(s).current_process_mask); a[s].fut = bits(&S(s).future_process_mask); a[s].st = bits(&S(s).stolen_cpus);
        a[s].eff = a[s].dirty ? a[s].fut : a[s].cur;
    }
    *f = bits(&vp_storage.free_mask);
}
static void topology(void) {
    cpu_set_t sysm, cores[NCPU], nodes[1];
    CPU_ZERO(&sysm); CPU_ZERO(&nodes[0]);
    for (int c = 0; c < NCPU; ++c) { CPU_ZERO(&cores[c]); CPU_SET(c, &sysm); CPU_SET(c, &cores[c]); CPU_SET(c, &nodes[0]); }
    mu_testing_set_sys_masks(&sysm, cores, NCPU, nodes, 1);
}
/* every CPU is either free or in the mask of exactly one process */
static bool partition(const snap_t *a, m_t f) {
    m_t seen = f;
    for (int s = 0; s < NP; ++s) {
        if (seen & a[s].eff) return false;
        seen |= a[s].eff;
    }
    return seen == ALL;
}
static bool slot_ok(const snap_t *a, int s) {
    return IMP(a[s].pid == NOBODY, !a[s].dirty && a[s].cur == 0 && a[s].fut == 0 && a[s].st == 0)
        && IMP(!a[s].dirty, a[s].cur == a[s].fut)
        && !(a[s].st & a[s].eff);
}
static void symbolic_state(void) {
    topology();
    shdata = &vp_storage; shm_handler = (shmem_handler_t*)&vp_handler_obj;
    max_cpus = NCPU; max_processes = NP;
    subprocesses_attached = 2;
    vp_storage.flags.initialized = true;
    CPU_ZERO(&vp_storage.free_mask);
    setbits(&vp_storage.free_mask, nd(0, ALL));
    for (int s = 0; s < NP; ++s) {
        bool used = s == MYSLOT || nd(0, 1);
        S(s) = (const pinfo_t){0};
        S(s).preregistered = s != MYSLOT && nd(0, 1);   /* may be left from a failed registration */
        if (!used) continue;
        S(s).pid = PID(s);
        S(s).dirty = nd(0, 1);
        setbits(&S(s).current_process_mask, nd(0, ALL));
        if (S(s).dirty) setbits(&S(s).future_process_mask, nd(0, ALL)); else S(s).future_process_mask = S(s).current_process_mask;
        setbits(&S(s).stolen_cpus, nd(0, ALL));
    }
    my_pinfo = MYSLOT >= 0 ? &S(MYSLOT < 0 ? 0 : MYSLOT) : NULL;
}
static int find(const snap_t *a, pid_t pid) { if (pid == NOBODY) return -1; for (int s = 0; s < NP; ++s) if (a[s].pid == pid) return s; return -1; }
static int count_pid(const snap_t *a, pid_t pid) { int n = 0; for (int s = 0; s < NP; ++s) n += a[s].pid == pid; return n; }
static bool same(int s) {
    return pre[s].pid == post[s].pid && pre[s].dirty == post[s].dirty && (pre[s].pid == NOBODY || pre[s].pre == post[s].pre) && pre[s].cur == post[s].cur
        && pre[s].fut == post[s].fut && pre[s].st == post[s].st;
}

#ifndef VP_CBMC
static pid_t g_pid, g_prepid; static m_t g_mask; static int g_err, g_flags;
void vp_show(void) {
    printf("op %d pid %d prepid %d mask %lx flags %d -> %d\n", OP, g_pid, g_prepid, g_mask, g_flags, g_err);
    snap(post, &post_free);
    printf("free %lx -> %lx\n", pre_free, post_free);
    for (int s = 0; s < NP; ++s) printf("slot %d: pid %d d%d p%d cur %lx fut %lx st %lx -> pid %d d%d p%d cur %lx fut %lx st %lx\n", s,
        pre[s].pid, pre[s].dirty, pre[s].pre, pre[s].cur, pre[s].fut, pre[s].st, post[s].pid, post[s].dirty, post[s].pre, post[s].cur, post[s].fut, post[s].st);
}
#define SHOW() (g_pid = pid, g_prepid = prepid, g_mask = mask, g_err = err, g_flags = flags)
#else
#define SHOW() 0
#endif

#ifndef TGT
#define TGT -1
#endif
static pid_t nd_pid(void) { if (TGT >= 0) return PID(TGT); int k = nd(0, NP); return k == NP ? NEWPID : PID(k); }

void harness(void) {
    symbolic_state();
    snap(pre, &pre_free);
    ASSUME(partition(pre, pre_free));
    for (int s = 0; s < NP; ++s) ASSUME(slot_ok(pre, s));
    m_t mask = nd(0, ALL);
    cpu_set_t m; setbits(&m, mask);
    int err = 0; pid_t pid = 0, prepid = 0; bool ret = nd(0, 1), steal = false, nosync = false, self = false;
    cpu_set_t out; CPU_ZERO(&out); int ncpus = -1;
    (void)pid; (void)prepid; (void)nosync; (void)self; (void)ncpus; (void)steal;
    int flags = ret ? DLB_RETURN_STOLEN : 0;
    if (SYNC) flags |= DLB_SYNC_QUERY;
#if OP == INIT
    pid = nd_pid(); prepid = nd(0, 1) ? nd_pid() : 0;
    bool sharing = nd(0, 1);
    ASSUME(prepid == 0 || pid == NEWPID || pid == prepid);
    ASSUME(mask != 0 || prepid != 0);
    /* the rest of a pre-registration stays under its own pid */
    if (prepid == pid) { int q = find(pre, prepid); ASSUME(q < 0 || !pre[q].pre || (mask & pre[q].eff) == pre[q].eff || mask == 0); }
    err = sharing ? shmem_procinfo__init_with_cpu_sharing(pid, prepid, &m, "key") : shmem_procinfo__init(pid, prepid, &m, &out, "key");
#elif OP == PREINIT
    pid = nd_pid(); steal = nd(0, 1); ASSUME(mask != 0);
    err = shmem_procinfo_ext__preinit(pid, &m, flags | (steal ? DLB_STEAL_CPUS : 0));
#elif OP == FINALIZE
    pid = MYSLOT >= 0 ? PID(MYSLOT) : nd_pid();
    err = shmem_procinfo__finalize(pid, ret, "key");
#elif OP == POSTFINALIZE
    pid = nd_pid();
    err = shmem_procinfo_ext__postfinalize(pid, ret);
#elif OP == RECOVER
    pid = nd_pid();
    err = shmem_procinfo_ext__recover_stolen_cpus(pid);
#elif OP == GETMASK
    pid = nd(0, 1) ? nd_pid() : 0;
    err = shmem_procinfo__getprocessmask(pid, &out, flags);
    if (pid == 0 && MYSLOT >= 0) pid = PID(MYSLOT);
#elif OP == SETMASK
    pid = TGT < 0 && nd(0, 1) ? 0 : nd_pid(); nosync = nd(0, 1);
    cpu_set_t freed; CPU_ZERO(&freed);
    err = shmem_procinfo__setprocessmask(pid, &m, flags | (nosync ? DLB_NO_SYNC : 0), nd(0, 1) ? &freed : NULL);
    if (pid == 0 && MYSLOT >= 0) pid = PID(MYSLOT);
#elif OP == POLL
    pid = MYSLOT >= 0 ? PID(MYSLOT) : NEWPID;
    err = shmem_procinfo__polldrom(pid, nd(0, 1) ? &ncpus : NULL, &out);
#elif OP == PIDLIST
    pid_t list[NP]; int n = -1; int max_len = nd(0, NP);
    for (int i = 0; i < NP; ++i) list[i] = -7;
    err = shmem_procinfo__getpidlist(list, &n, max_len);
#elif OP == CLEANUP
    pid = nd_pid();
    cleanup_shmem(&vp_storage, pid);
#elif OP == EXTINIT
    bool was = nd(0, 1);
    if (!was) { memset(&vp_storage, 0, shmem_procinfo__size()); snap(pre, &pre_free); }
    err = shmem_procinfo_ext__init("key");
#endif
    self = MYSLOT >= 0 && pid == PID(MYSLOT);
    SHOW();
    CHECK(depth == 0, "the lock is released");
    snap(post, &post_free);
    int t = find(pre, pid), t2 = find(post, pid);   /* target before and after */
    (void)t; (void)t2;
    bool reset = OP == CLEANUP && !vp_storage.flags.initialized;  /* the last process left: the table is reset */

#if PROP == PART
    if (reset) {
        for (int s = 0; s < NP; ++s) CHECK(post[s].pid == NOBODY, "the table is only reset when it is empty");
    } else {
        CHECK(partition(post, post_free), "every CPU is free or belongs to exactly one process");
        for (int s = 0; s < NP; ++s) {
            CHECK(IMP(!env_ran || OP != SETMASK, slot_ok(post, s)) , "the record of every process is consistent");
            CHECK(IMP(!post[s].dirty, post[s].cur == post[s].fut), "a process without pending changes has one mask");
        }
    }
#if OP == SETMASK
    WITNESS(err == 0 && post_free != pre_free, "CPUs are released or taken");
#elif OP == PREINIT
    WITNESS(err == 0 && steal && (mask & ~pre_free), "CPUs are stolen");
#if SYNC
    WITNESS(err == DLB_ERR_TIMEOUT, "a synchronous steal times out");
#endif
#endif
#endif
#if PROP == SHAKE
    for (int s = 0; s < NP; ++s) {
        if (env_ran) break;
        bool mine = s == MYSLOT;
        CHECK(IMP(post[s].cur != pre[s].cur && pre[s].pid != NOBODY,
                  mine || OP == FINALIZE || OP == POSTFINALIZE || OP == CLEANUP || OP == INIT), "only a process itself changes the mask it is running with");
        CHECK(IMP(err < 0 && OP != PIDLIST && OP != CLEANUP, same(s) && pre_free == post_free), "a failed operation changes nothing");
        CHECK(IMP(post[s].dirty != pre[s].dirty && pre[s].dirty && pre[s].pid == post[s].pid, mine), "a pending change lasts until its process takes it");
        CHECK(IMP(OP == GETMASK || OP == POLL || OP == PIDLIST, mine || same(s)), "reading does not modify other processes");
        if (OP == GETMASK || OP == POLL || OP == PIDLIST) CHECK(pre_free == post_free, "reading does not release CPUs");
    }
#if OP == SETMASK
    CHECK(IMP(t < 0 && !env_ran, err == DLB_ERR_NOPROC), "an unknown process is reported");
    if (t >= 0 && !env_ran) {
        m_t other_dirty = 0;
        for (int s = 0; s < NP; ++s) if (s != t && pre[s].dirty) other_dirty |= pre[s].cur | pre[s].fut;
        if (!self) {
            CHECK((err == DLB_ERR_PDIRTY) == pre[t].dirty, "a mask is refused exactly while a previous one is pending");
            CHECK(IMP(err == 0, post[t].eff == mask), "a mask that is set becomes the one the process will take");
            CHECK(IMP(err == 0 && mask != pre[t].cur, post[t].dirty && post[t].fut == mask && post[t].cur == pre[t].cur), "a new mask is pending until the process takes it");
            CHECK(IMP(err == 0 && mask == pre[t].cur, !post[t].dirty), "setting the same mask is not a change");
        } else {
            CHECK((err == DLB_ERR_PDIRTY) == (pre[t].dirty && mask != pre[t].fut), "own mask is refused exactly while a different one is pending");
            CHECK(IMP(err == 0, post[t].eff == mask), "own mask is set");
            CHECK(IMP(err == 0 && !nosync, !post[t].dirty && post[t].cur == mask), "own mask is taken at once");
            CHECK(IMP(pre[t].dirty && mask == pre[t].fut, err == 0), "the pending mask can be taken by setting it");
        }
        CHECK(IMP(err == DLB_ERR_PERM, (mask & other_dirty) != 0), "a mask is refused only if it contains CPUs that others have not released yet");
        CHECK(err == 0 || err == DLB_ERR_PDIRTY || err == DLB_ERR_PERM, "no other result is possible");
        WITNESS(err == 0 && post[t].dirty, "a mask becomes pending");
        WITNESS(err == DLB_ERR_PERM, "a mask cannot be stolen");
    }
    if (env_ran && t >= 0) {
        CHECK(IMP(err == 0, post[t].pid == pid && !post[t].dirty), "a synchronous change succeeds once the process has taken it");
        bool any_left = false; for (int s = 0; s < NP; ++s) any_left |= env_left[s];
        CHECK(err == 0 || err == DLB_ERR_TIMEOUT || err == DLB_ERR_NOPROC || (any_left && err == DLB_ERR_PERM), "waiting ends in success, departure or timeout");
        CHECK(IMP(err == DLB_ERR_NOPROC, post[t].pid != pid), "a departure is only reported if it happened");
        WITNESS(err == 0, "a synchronous change succeeds");
        WITNESS(err == DLB_ERR_TIMEOUT, "a synchronous change times out");
    }
#endif
#if OP == POLL
    if (MYSLOT >= 0) {
        CHECK(err == (pre[MYSLOT < 0 ? 0 : MYSLOT].dirty ? DLB_SUCCESS : DLB_NOUPDT), "polling succeeds exactly when a change is pending");
        snap_t *a = &pre[MYSLOT < 0 ? 0 : MYSLOT], *b = &post[MYSLOT < 0 ? 0 : MYSLOT];
        CHECK(IMP(a->dirty, bits(&out) == a->fut && b->cur == a->fut && !b->dirty && b->fut == a->fut), "polling takes the pending mask");
        CHECK(IMP(a->dirty && ncpus != -1, ncpus == __builtin_popcountl(a->fut)), "polling reports the number of CPUs of the new mask");
        CHECK(b->st == a->st && b->pid == a->pid, "polling changes nothing else");
        WITNESS(err == 0, "a pending mask is taken");
    } else CHECK(err == DLB_ERR_NOPROC, "an unregistered process has nothing to poll");
#endif
#if OP == GETMASK
    if (t < 0) CHECK(err == DLB_ERR_NOPROC, "an unknown process is reported");
    else if (self) {
        CHECK(err == (pre[t].dirty ? DLB_NOTED : DLB_SUCCESS), "getting the own mask tells whether it is new");
        CHECK(bits(&out) == pre[t].eff && post[t].cur == pre[t].eff && !post[t].dirty, "getting the own mask takes the pending one");
    } else if (!env_ran) {
        CHECK(err == 0 && bits(&out) == pre[t].eff, "the mask of a process is the one it has or is about to take");
    } else {
        CHECK(err == 0 || err == DLB_ERR_TIMEOUT || (err == DLB_ERR_NOPROC && env_left[t]), "waiting ends in success, timeout or departure");
        CHECK(IMP(env_left[t], err != 0), "a process that left has no mask");
        CHECK(IMP(err == 0, bits(&out) == post[t].cur && !post[t].dirty), "a synchronous query gets the mask in use");
        WITNESS(err == 0, "a synchronous query succeeds");
    }
#endif
#endif
#if PROP == REG
    for (int s = 0; s < NP; ++s) CHECK(IMP(post[s].pid != NOBODY, count_pid(post, post[s].pid) == 1), "a process is registered at most once");
    int free_slots = count_pid(pre, NOBODY);
#if OP == PREINIT
    CHECK(IMP(t >= 0, err == DLB_ERR_INIT), "a registered process cannot be registered again");
    CHECK(IMP(t < 0 && free_slots == 0, err == DLB_ERR_NOMEM), "a full table is reported");
    if (t < 0 && free_slots > 0 && !env_ran) {
        CHECK(IMP(!steal, (err == 0) == ((mask & ~pre_free) == 0)), "a mask is registered exactly when its CPUs are free");
        CHECK(IMP(err == 0, t2 >= 0 && post[t2 < 0 ? 0 : t2].cur == mask && !post[t2 < 0 ? 0 : t2].dirty && post[t2 < 0 ? 0 : t2].pre), "the process is pre-registered with its mask");
        CHECK(err == 0 || err == DLB_ERR_PERM, "no other result is possible");
        for (int s = 0; s < NP; ++s) CHECK(IMP(s != t2 && !steal, same(s)), "other processes are not affected");
        WITNESS(err == 0, "a process is pre-registered"); WITNESS(err == DLB_ERR_PERM, "a pre-registration is refused");
    }
    if (err != 0) CHECK(t >= 0 || t2 < 0, "a process that could not be registered is not left in the table");
#endif
#if OP == INIT
    int q = prepid ? find(pre, prepid) : -1;
    if (sharing) { CHECK(err == DLB_ERR_NOCOMP, "sharing and non-sharing processes are not mixed"); }
    else if (q >= 0 && pre[q].pre) {   /* inherits */
        m_t pm = pre[q].eff;
        bool keep = mask == 0 || mask == pm, grow = !keep && (mask & pm) == pm, shrink = !keep && !grow;
        CHECK(IMP(keep, err == DLB_NOTED), "a pre-registration is inherited");
        CHECK(IMP(!keep && pre[q].dirty, err == DLB_ERR_PDIRTY), "a pre-registration with pending changes cannot be resized");
        CHECK(IMP(!keep && !pre[q].dirty && (mask & ~pm & ~pre_free), err < 0), "CPUs of others cannot be taken");
        CHECK(IMP(!keep && !pre[q].dirty && !(mask & ~pm & ~pre_free) && (grow || free_slots > 0), err == DLB_NOTED), "a pre-registration is resized when the CPUs are available");
        CHECK(IMP(err == DLB_NOTED, t2 >= 0 && post[t2 < 0 ? 0 : t2].eff == (keep ? pm : mask) && !post[t2 < 0 ? 0 : t2].pre), "the process gets the inherited mask");
        CHECK(IMP(err == DLB_NOTED, bits(&out) == (keep ? pm : mask)), "the inherited mask is reported");
        CHECK(IMP(err == DLB_NOTED && shrink && pid != prepid, post[q].pid == prepid && post[q].pre && post[q].eff == (pm & ~mask)), "the rest of the mask stays reserved");
        CHECK(IMP(err == DLB_NOTED, my_pinfo == &S(t2 < 0 ? 0 : t2)), "the process knows its own record");
        WITNESS(err == DLB_NOTED && keep, "inheritance"); WITNESS(err == DLB_NOTED && grow, "inheritance with expansion");
        WITNESS(err == DLB_NOTED && shrink && (mask & ~pm), "inheritance of a part with expansion"); WITNESS(err == DLB_NOTED && shrink && !(mask & ~pm), "inheritance of a part");
    } else if (q >= 0) CHECK(err == DLB_ERR_INIT, "only a pre-registered process can be inherited");
    else {
        CHECK(IMP(t >= 0, err == DLB_ERR_INIT), "a registered process cannot be registered again");
        CHECK(IMP(t < 0 && free_slots == 0, err == DLB_ERR_NOMEM), "a full table is reported");
        CHECK(IMP(t < 0 && free_slots > 0, err == ((mask & ~pre_free) ? DLB_ERR_PERM : DLB_SUCCESS)), "a mask is registered exactly when its CPUs are free");
        CHECK(IMP(t < 0 && err == 0, t2 >= 0 && post[t2 < 0 ? 0 : t2].cur == mask && !post[t2 < 0 ? 0 : t2].dirty && my_pinfo == &S(t2 < 0 ? 0 : t2)), "the process is registered with its mask");
        WITNESS(err == 0, "a process registers");
    }
    for (int s = 0; s < NP; ++s) {
        CHECK(IMP(s != t2 && s != q, same(s)), "other processes are not affected");
        CHECK(IMP(err < 0, same(s) && post_free == pre_free), "a failed registration changes nothing");
    }
    CHECK(subprocesses_attached == (err < 0 ? 2 : 3), "a failed registration detaches");
#endif
#if OP == PIDLIST
    int total = NP - free_slots, seen = 0;
    CHECK(err == 0 && n == (total < max_len ? total : max_len), "the list has every registered process, up to its capacity");
    for (int i = 0; i < NP; ++i) {
        if (i < n) { int f = find(pre, list[i]); CHECK(list[i] != NOBODY && f >= 0, "the list only has registered processes"); 
                     for (int j = 0; j < i; ++j) CHECK(list[j] != list[i], "no process is listed twice"); }
        else CHECK(list[i] == -7, "the rest of the list is not written");
    }
    (void)seen;
    WITNESS(n == 3 && max_len == 3 && total == 4, "a list is truncated");
#endif
#if OP == EXTINIT
    if (!was) CHECK(post_free == ALL, "every CPU is free when the table is created");
    else for (int s = 0; s < NP; ++s) CHECK(same(s) && pre_free == post_free, "attaching changes nothing");
#endif
#endif
#if PROP == STEAL
#if OP == PREINIT || OP == SETMASK
    for (int s = 0; s < NP && !env_ran; ++s) if (s != t2 && pre[s].pid != NOBODY && err == 0) {
        m_t lost = pre[s].eff & mask;
        m_t given = OP == SETMASK && ret ? (pre[t < 0 ? 0 : t].cur & ~mask & pre[s].st) : 0;    /* the target gives them up */
        CHECK(IMP(lost, post[s].dirty && post[s].cur == pre[s].cur), "a process that loses CPUs is told, and keeps running with them until it reacts");
        CHECK((post[s].eff & ~given) == (pre[s].eff & ~mask), "a process loses exactly the CPUs that are taken");
        CHECK((post[s].st & ~given) == ((pre[s].st | lost) & ~given), "a process remembers the CPUs taken from it");
        WITNESS(lost, "CPUs are stolen");
    }
    if (err < 0 && err != DLB_ERR_TIMEOUT) for (int s = 0; s < NP && !env_ran; ++s) CHECK(IMP(s != t2, same(s)), "a failed steal takes nothing");
    if (err == DLB_ERR_TIMEOUT && OP == PREINIT) {
        for (int s = 0; s < NP; ++s) CHECK(IMP(pre[s].pid != NOBODY && !env_left[s], post[s].pid == pre[s].pid && post[s].eff == pre[s].eff && post[s].st == pre[s].st), "a steal that times out is undone");
        CHECK(t2 < 0, "the thief is not registered");
        WITNESS(1, "a steal times out");
    }
    if (OP == PREINIT && env_ran && err == 0) {
        for (int s = 0; s < NP; ++s) CHECK(IMP(s != t2, (post[s].cur & mask & ~pre_free) == 0), "a synchronous steal succeeds once nobody runs on the CPUs");
        WITNESS(1, "a synchronous steal succeeds");
    }
#endif
#if OP == FINALIZE || OP == POSTFINALIZE || (OP == SETMASK && !SYNC)
    if (t >= 0 && err == 0) {
        m_t gone = OP == SETMASK ? ((pre[t].dirty ? 0 : pre[t].cur) & ~mask) : pre[t].eff, back = 0;
        for (int s = 0; s < NP; ++s) if (s != t) {
            m_t mine = gone & pre[s].st;
            back |= mine;
            if (ret) {
                bool others = false;
                for (int r = 0; r < NP; ++r) if (r != s && r != t && (pre[r].st & mine)) others = true;
                CHECK(IMP(!others, (post[s].eff & mine) == mine), "stolen CPUs go back to the process they were taken from");
                CHECK(IMP(!others && mine, post[s].dirty && !(post[s].st & mine)), "the process is told about the returned CPUs");
                WITNESS(mine, "a stolen CPU goes back");
            } else CHECK(IMP(OP != SETMASK, same(s)), "CPUs are not given back unless requested");
        }
        CHECK((post_free & gone) == (ret ? gone & ~back : gone), "CPUs that nobody claims become free");
    }
#endif
#if OP == RECOVER
    if (t < 0) CHECK(err == DLB_ERR_NOPROC, "an unknown process is reported");
    else {
        CHECK(err == (pre[t].st ? DLB_SUCCESS : DLB_NOUPDT), "the result tells whether there was anything to recover");
        m_t got = pre[t].st & pre_free;
        CHECK(post[t].eff == (pre[t].eff | got) && post[t].st == (pre[t].st & ~got) && post_free == (pre_free & ~got), "exactly the stolen CPUs that are free are recovered");
        CHECK(IMP(got, post[t].dirty), "the process is told about the recovered CPUs");
        WITNESS(got, "a stolen CPU is recovered");
    }
    for (int s = 0; s < NP; ++s) CHECK(IMP(s != t, same(s)), "other processes are not affected");
#endif
#endif
#if PROP == LEAVE
    if (OP != CLEANUP) CHECK(err == (t >= 0 ? DLB_SUCCESS : DLB_ERR_NOPROC), "an unknown process is reported");
    CHECK(t2 < 0, "a process that left is not in the table");
    if (t >= 0) {
        CHECK(slot_ok(post, t), "its record is empty");
        if (!reset && (OP == CLEANUP || !ret)) CHECK(post_free == (pre_free | pre[t].eff), "its CPUs are free");
        if (!reset && OP != CLEANUP && ret) CHECK(IMP(1, (post_free & ~pre_free & ~pre[t].eff) == 0), "only its CPUs become free");
        if (OP == FINALIZE) CHECK(my_pinfo == NULL && subprocesses_attached == 1, "the process is detached");
        WITNESS(pre[t].eff && pre[t].dirty, "a process leaves with a pending mask");
    }
    for (int s = 0; s < NP; ++s) CHECK(IMP(s != t && (OP == CLEANUP || !ret || t < 0), same(s)), "other processes are not affected");
    for (int s = 0; s < NP; ++s) CHECK(IMP(s != t, post[s].pid == pre[s].pid && post[s].cur == pre[s].cur && (pre[s].eff & ~post[s].eff) == 0), "no process loses anything when another one leaves");
#endif
}
