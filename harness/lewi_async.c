/* One LeWI operation (process level, no masks) from an arbitrary shared state. */
#include "vp.h"
#include <sched.h>
#include <stdlib.h>
#include <string.h>
#ifndef NP
#define NP 3
#endif
#ifndef K
#define K 6
#endif
#include "support/mask_utils.h"
#define mu_get_system_size() NP
#include "LB_comm/shmem_lewi_async.c"
#include "LB_policies/lewi_async.c"
#include "LB_core/spd.h"
#undef mu_get_system_size

#define O_INIT 1
#define O_FINALIZE 2
#define O_ENABLE 3
#define O_DISABLE 4
#define O_INTO 5
#define O_OUT 6
#define O_LEND 7
#define O_LENDCPUS 8
#define O_RECLAIM 9
#define O_ACQUIRE 10
#define O_BORROW 11
#define O_BORROWCPUS 12
#define O_CLEANUP 13

#define CONSERVE 1
#define NOTIFY 2
#define REQUEST 3
#define RECLAIMED 4
#define GONE 5

/* stands for qsort: any order of equal elements */
void vp_sort(void *base, size_t n, size_t sz, int (*cmp)(const void*, const void*)) {
    lewi_request_t *a = base;
    CHECK(n <= NP, "the queue holds one request per process");
    for (size_t i = 1; i < NP; ++i) if (i < n)
        for (size_t j = i; j > 0; --j) {
            int c = cmp(&a[j-1], &a[j]);
            if (c > 0 || (c == 0 && nd(0, 1))) { lewi_request_t t = a[j-1]; a[j-1] = a[j]; a[j] = t; }
        }
}

static struct { lewi_async_shdata_t s; lewi_process_t pad[NP]; } vp_obj;
_Static_assert(sizeof(lewi_async_shdata_t) == offsetof(lewi_async_shdata_t, processes), "layout");
#define P(i) (vp_obj.pad[i])
#define PID(s) (101 + (s))
#define ME PID(MY)
static int handler_obj, depth, finalized;
shmem_handler_t* shmem_init(void **p, const shmem_props_t *props) { *p = &vp_obj.s; return (shmem_handler_t*)&handler_obj; }
void shmem_finalize(shmem_handler_t *h, bool (*fn)(void)) { finalized = 1 + (fn ? fn() : 0); }
void shmem_lock(shmem_handler_t *h) { CHECK(depth == 0, "the lock is not taken twice"); depth++; }
void shmem_unlock(shmem_handler_t *h) { CHECK(depth == 1, "an unlock matches a lock"); depth--; }

static long told[NP]; static int ntold[NP], nself, nalien;
static subprocess_descriptor_t spd;
int update_threads(const pm_interface_t *pm, int n) {
    CHECK(depth == 0, "the runtime is called without holding the lock");
    told[MY] = n; nself++; return DLB_SUCCESS; }
void shmem_async_set_num_cpus(pid_t pid, int n) {
    CHECK(depth == 0, "other processes are called without holding the lock");
    int s = pid - 101;
    if (s < 0 || s >= NP) { nalien++; return; }
    told[s] = n; ntold[s]++;
}

typedef struct { bool live[NP]; long ini[NP], cur[NP], req[NP]; int nreq[NP]; long idle, attached, head, head_reqs; bool wf; } snap_t;
static snap_t a, b;
static void snap(snap_t *x) {
    x->idle = vp_obj.s.idle_cpus; x->attached = vp_obj.s.attached_nprocs; x->head = vp_obj.s.proc_list_head;
    x->head_reqs = vp_obj.s.requests.head;
    x->wf = x->head_reqs <= NP && x->head <= NP;
    for (int i = 0; i < NP; ++i) {
        x->live[i] = P(i).pid != 0;
        x->ini[i] = P(i).initial_ncpus; x->cur[i] = P(i).current_ncpus;
        x->wf &= P(i).pid == 0 || P(i).pid == PID(i);
        x->wf &= P(i).pid == 0 || i < x->head;
        x->req[i] = 0; x->nreq[i] = 0;
    }
    for (int k = 0; k < NP; ++k) if (k < x->head_reqs) {
        lewi_request_t *r = &vp_obj.s.requests.queue[k];
        int s = r->pid - 101;
        if (s < 0 || s >= NP || r->howmany == 0) x->wf = false;
        else { x->req[s] += r->howmany; x->nreq[s]++; }
    }
    for (int i = 0; i < NP; ++i) x->wf &= x->nreq[i] <= 1;
}
static long sum(const long *v, const bool *l) { long r = 0; for (int i = 0; i < NP; ++i) if (l[i]) r += v[i]; return r; }
#define LIVE(x) ((x)->live[0] + (x)->live[1] + (NP > 2 ? (x)->live[2 % NP] : 0) + (NP > 3 ? (x)->live[3 % NP] : 0))
#define SLACK(x) (sum((x)->cur, (x)->live) + (x)->idle - sum((x)->ini, (x)->live))
#define PENDING(x) ((x)->req[0] + (x)->req[1] + (NP > 2 ? (x)->req[2 % NP] : 0) + (NP > 3 ? (x)->req[3 % NP] : 0))

#ifndef VP_CBMC
static int g_err; static long g_arg, g_prev;
void vp_show(void) {
    printf("op %d by process %d (slot %d), argument %ld, saved requests %ld -> result %d\n", OP, ME, MY, g_arg, g_prev, g_err);
    printf("idle %ld -> %ld\n", a.idle, b.idle);
    for (int i = 0; i < NP; ++i) printf("slot %d: live %d initial %ld current %ld requested %ld -> live %d initial %ld current %ld requested %ld, told %ld (%d times)\n", i,
        a.live[i], a.ini[i], a.cur[i], a.req[i], b.live[i], b.ini[i], b.cur[i], b.req[i], told[i], ntold[i]);
}
#define SHOW() (g_err = err, g_arg = arg, g_prev = prev0)
#else
#define SHOW() 0
#endif

void harness(void) {
    shdata = &vp_obj.s; shm_handler = (shmem_handler_t*)&handler_obj;
    subprocesses_attached = 2; max_processes = NP; node_size = NP;
    vp_obj.s.idle_cpus = nd(0, K); vp_obj.s.proc_list_head = NP;
    int nlive = 0;
    for (int i = 0; i < NP; ++i) {
        P(i) = (lewi_process_t){0};
        bool live = OP == O_INIT ? (i != MY && nd(0, 1)) : (i == MY || nd(0, 1));
        if (OP == O_INIT) ASSUME(i > MY || live || i == MY);  /* the first empty slot is MY */
        if (!live) continue;
        nlive++;
        P(i).pid = PID(i); P(i).initial_ncpus = nd(0, K); P(i).current_ncpus = nd(0, K);
        told[i] = P(i).current_ncpus;
    }
    vp_obj.s.attached_nprocs = nlive;
    /* pending requests: at most one per process, in any order */
    int n = nd(0, NP), off = nd(0, NP - 1); bool rev = nd(0, 1);
    for (int k = 0, w = 0; k < NP; ++k) if (k < n) {
        int s = rev ? (off + NP - k) % NP : (off + k) % NP;
        if (P(s).pid == 0) continue;
        vp_obj.s.requests.queue[w].pid = P(s).pid; vp_obj.s.requests.queue[w].howmany = nd(1, K); w++;
        vp_obj.s.requests.head = w;
    }
    if (OP != O_INIT) my_process = nd(0, 1) ? &P(MY) : NULL;
    snap(&a);
    ASSUME(SLACK(&a) >= 0 && SLACK(&a) <= K);
#ifndef CRASHED
    ASSUME(a.idle == 0 || a.head_reqs == 0);   /* idle CPUs only while nobody asks for any */
#endif
    static lewi_info_t info;
    spd.id = ME;
    spd.lewi_info = &info;
    info.prev_requested = nd(0, K);
    long prev0 = info.prev_requested;
    spd.options.lewi_keep_cpu_on_blocking_call = nd(0, 1);
    bool keep = spd.options.lewi_keep_cpu_on_blocking_call;
    int err = 0; long arg = 0;
#if OP == O_INIT
    arg = spd.lewi_ncpus = nd(0, K);
    err = lewi_async_Init(&spd);
#elif OP == O_FINALIZE
    spd.lewi_info = malloc(sizeof(lewi_info_t));
    err = lewi_async_Finalize(&spd);
#elif OP == O_ENABLE
    err = lewi_async_Enable(&spd);
#elif OP == O_DISABLE
    err = lewi_async_Disable(&spd);
#elif OP == O_INTO
    err = lewi_async_IntoBlockingCall(&spd);
#elif OP == O_OUT
    err = lewi_async_OutOfBlockingCall(&spd);
#elif OP == O_LEND
    err = lewi_async_Lend(&spd);
#elif OP == O_LENDCPUS
    arg = nd(-2, K + 1);
    err = lewi_async_LendCpus(&spd, arg);
#elif OP == O_RECLAIM
    err = lewi_async_Reclaim(&spd);
#elif OP == O_ACQUIRE
    arg = nd(-2, K);
    err = lewi_async_AcquireCpus(&spd, arg);
#elif OP == O_BORROW
    err = lewi_async_Borrow(&spd);
#elif OP == O_BORROWCPUS
    arg = nd(-2, K);
    err = lewi_async_BorrowCpus(&spd, arg);
#elif OP == O_CLEANUP
    shdata = nd(0, 1) ? &vp_obj.s : NULL;    /* the segment may not be opened yet */
    if (shdata == NULL) my_process = NULL;
    cleanup_shmem(&vp_obj.s, ME);
#endif
    snap(&b); SHOW();
    CHECK(depth == 0, "the lock is released");
    CHECK(b.wf, "every pending request belongs to one process and asks for CPUs");
    bool crash = OP == O_CLEANUP, in = OP == O_INIT, out = OP == O_FINALIZE || OP == O_CLEANUP;
    (void)crash; (void)in; (void)out; (void)keep; (void)err; (void)arg; (void)prev0;
    for (int i = 0; i < NP; ++i) {
        CHECK(b.live[i] == ((a.live[i] && !(out && i == MY)) || (in && i == MY)), "a process is registered exactly while it takes part");
        if (b.live[i] && a.live[i]) CHECK(b.ini[i] == a.ini[i], "the CPUs a process owns never change");
    }
#if PROP == CONSERVE
    CHECK(b.idle >= 0 && b.idle <= 8 * K, "the idle count does not wrap");
    for (int i = 0; i < NP; ++i) CHECK(b.cur[i] <= 8 * K, "the count of a process does not wrap");
    if (!crash) CHECK(SLACK(&b) == SLACK(&a), "CPUs in use plus idle CPUs equal the CPUs contributed");
    else CHECK(SLACK(&b) >= SLACK(&a), "the CPUs used by a dead process are not lost");
    CHECK(b.attached == LIVE(&b), "the number of processes is right");
    for (int i = 0; i < NP; ++i) if (i != MY && a.live[i] && b.live[i])
        CHECK(b.cur[i] >= (a.cur[i] < a.ini[i] ? a.cur[i] : a.ini[i]), "nobody loses CPUs of its own to others");
    if (OP == O_LENDCPUS) {
        CHECK(IMP(arg < 0 || arg > a.cur[MY], err == DLB_ERR_PERM), "lending more than one has is refused");
        CHECK(IMP(arg > 0 && arg <= a.cur[MY], err == DLB_SUCCESS && b.cur[MY] == a.cur[MY] - arg), "lending N gives up N");
        CHECK(IMP(arg == 0, err == DLB_NOUPDT), "lending none changes nothing");
    }
    if (OP == O_LEND) CHECK(b.cur[MY] == (a.cur[MY] > 1 ? 1 : a.cur[MY]), "lend keeps one CPU");
    if (OP == O_INTO) CHECK(b.cur[MY] == (keep ? (a.cur[MY] > 1 ? 1 : a.cur[MY]) : 0), "blocking keeps one CPU or none");
    if (OP == O_BORROWCPUS && arg >= 0) CHECK(b.cur[MY] - a.cur[MY] == (arg < a.idle ? arg : a.idle), "borrowing N takes as many as are idle, up to N");
    if (OP == O_BORROWCPUS && arg < 0) CHECK(b.cur[MY] == a.cur[MY], "borrowing a negative amount changes nothing");
    if (OP == O_BORROW) CHECK(b.cur[MY] - a.cur[MY] == a.idle, "borrow takes every idle CPU");
    if (OP == O_BORROW || OP == O_BORROWCPUS) CHECK((err == DLB_SUCCESS) == (b.cur[MY] != a.cur[MY]), "borrow reports whether it got any CPU");
    if (OP == O_BORROW || OP == O_BORROWCPUS || OP == O_ENABLE || OP == O_ACQUIRE) CHECK(b.cur[MY] >= a.cur[MY], "asking for CPUs never takes CPUs away");
    if (OP == O_ACQUIRE && arg > 0) CHECK(b.cur[MY] - a.cur[MY] <= arg + prev0, "no more than asked for");
    if (err < 0) for (int i = 0; i < NP; ++i) CHECK(b.cur[i] == a.cur[i], "a refused operation moves no CPU");
#ifndef CRASHED
    if (!crash) CHECK(b.idle == 0 || b.head_reqs == 0, "no CPU stays idle while somebody asks for one");
#endif
    WITNESS(b.idle != a.idle, "CPUs move");
#elif PROP == NOTIFY
    CHECK(nalien == 0, "only registered processes are told");
    for (int i = 0; i < NP; ++i) {
        if (i == MY) {
            if (!crash) CHECK(told[i] == (out ? a.ini[i] : b.cur[i]), "the caller runs with the CPUs it has");
            CHECK(ntold[i] == 0, "the caller is not told through the helper thread");
        } else if (b.live[i]) {
            CHECK(told[i] == b.cur[i], "every process whose CPUs change is told its new number");
            CHECK(ntold[i] <= 1, "at most one call per process");
            CHECK(IMP(b.cur[i] == a.cur[i], ntold[i] == 0), "a process whose CPUs do not change is not disturbed");
        } else CHECK(ntold[i] == 0, "nobody is told on behalf of an empty slot");
    }
    CHECK(nself <= 1, "the caller is told once");
    WITNESS(nself + ntold[0] + ntold[1] > 0, "somebody is told");
#elif PROP == REQUEST
    if (OP == O_ACQUIRE && arg > 0) {
        CHECK(b.cur[MY] - a.cur[MY] + b.req[MY] == arg + prev0 + a.req[MY], "what is not granted at once is recorded, with earlier requests");
        CHECK(err == (b.req[MY] > a.req[MY] ? DLB_NOTED : DLB_SUCCESS), "the result says whether a request is pending");
        CHECK(info.prev_requested == 0, "saved requests are submitted once");
    }
    if (OP == O_ACQUIRE && arg == DLB_DELETE_REQUESTS) CHECK(b.req[MY] == 0 && info.prev_requested == 0 && err == DLB_SUCCESS, "deleting requests leaves none");
    if (OP == O_ENABLE) CHECK(b.cur[MY] - a.cur[MY] + b.req[MY] == prev0 + a.req[MY] && info.prev_requested == 0, "enabling asks again for what was requested");
    if (OP == O_ACQUIRE && arg < 0 && arg != DLB_DELETE_REQUESTS) CHECK(err < 0 && b.req[MY] == a.req[MY], "a wrong number is refused");
    if (OP == O_LEND || OP == O_LENDCPUS || OP == O_INTO) {
        long lent = a.cur[MY] - b.cur[MY], excess = a.cur[MY] > a.ini[MY] ? a.cur[MY] - a.ini[MY] : 0;
        if (lent > 0) {
            CHECK(b.req[MY] == 0, "a process that lends no longer asks");
            long p = a.req[MY] + (excess < lent ? excess : lent);
            CHECK(info.prev_requested == (p ? p : prev0), "what it was asking for, and the borrowed CPUs it gives up, are saved");
        } else CHECK(b.req[MY] == a.req[MY] && info.prev_requested == prev0, "nothing lent, nothing changed");
    }
    if (OP == O_DISABLE) {
        CHECK(b.req[MY] == 0, "a disabled process does not ask for CPUs");
        long p = a.req[MY] + (a.cur[MY] > a.ini[MY] ? a.cur[MY] - a.ini[MY] : 0);
        CHECK(info.prev_requested == (p ? p : prev0), "its requests are saved for when it is enabled");
    }
    if (OP == O_RECLAIM || OP == O_OUT) {
        bool did = a.cur[MY] < a.ini[MY];
        long extra = b.cur[MY] - a.ini[MY];
        if (did) CHECK(extra + b.req[MY] == prev0 + a.req[MY] && info.prev_requested == 0, "saved requests are submitted again");
        else CHECK(b.req[MY] == a.req[MY] && info.prev_requested == prev0, "nothing to reclaim, nothing changed");
    }
    if (out || in) CHECK(b.req[MY] == 0, "a process that joins or leaves has no request");
    for (int i = 0; i < NP; ++i) if (i != MY) {
        long got = b.cur[i] - a.cur[i];
        if (got >= 0) CHECK(b.req[i] == a.req[i] - got, "a CPU handed to a process settles one of its requests");
        else CHECK(b.req[i] == a.req[i] - got, "a process whose CPU is reclaimed has it recorded as a request");
    }
    WITNESS(PENDING(&b) != PENDING(&a) || OP == O_INIT, "requests change");
#elif PROP == RECLAIMED
    if (OP == O_RECLAIM || OP == O_OUT || OP == O_DISABLE) {
        CHECK(b.cur[MY] >= a.ini[MY], "the owner has at least its CPUs");
        CHECK(IMP(OP == O_DISABLE, b.cur[MY] == a.ini[MY]), "disabling leaves exactly the own CPUs");
        CHECK(IMP(OP != O_DISABLE && a.cur[MY] >= a.ini[MY], err == DLB_NOUPDT && b.cur[MY] == a.cur[MY]), "nothing to reclaim");
        CHECK(err == DLB_SUCCESS || err == DLB_NOUPDT, "reclaiming succeeds");
    }
    if (OP == O_ACQUIRE && arg > 0) {
        long want = arg + prev0, miss = a.ini[MY] - a.cur[MY];
        CHECK(b.cur[MY] >= (want < miss ? a.cur[MY] + want : a.ini[MY] < a.cur[MY] ? a.cur[MY] : a.ini[MY]), "own CPUs are obtained whoever has them");
    }
    if (OP == O_FINALIZE) CHECK(told[MY] == a.ini[MY], "a process leaves with its own CPUs");
    for (int i = 0; i < NP; ++i) if (i != MY && b.live[i] && b.cur[i] < a.cur[i]) {
        CHECK(b.cur[i] >= a.ini[i], "only CPUs above what a process owns are taken from it");
        CHECK(a.idle - b.idle >= 0 && b.idle == 0, "CPUs are taken from others only when none is idle");
    }
    WITNESS(NP > 1 && b.cur[(MY + 1) % NP] < a.cur[(MY + 1) % NP], "a CPU is taken from somebody");
#elif PROP == GONE
    CHECK(!b.live[MY] && b.req[MY] == 0, "nothing remains of a process that left");
    CHECK(P(MY).pid == 0 && P(MY).current_ncpus == 0 && P(MY).initial_ncpus == 0, "its record is empty");
    if (crash) {
        long more = 0;
        for (int i = 0; i < NP; ++i) if (i != MY) more += b.cur[i] - a.cur[i];
        CHECK(b.idle + more >= a.idle + (a.cur[MY] > a.ini[MY] ? a.cur[MY] - a.ini[MY] : 0), "the borrowed CPUs of a dead process can be used by others");
    }
    WITNESS(a.req[MY] > 0 && a.cur[MY] > a.ini[MY], "it had requests and borrowed CPUs");
#endif
}
