/* Symbolic pre-state, invariant and environment for the LeWI CPU table.
 * The real shmem_cpuinfo.c is included, so its private structures are visible;
 * only its public entry points are called. */
#include "vp.h"
#ifndef NCPU
#define NCPU 4
#endif
#ifndef TOPO            /* 0: 4 cores x 1, 1: 2 cores x 2, 2: 2 cores x 2 interleaved */
#define TOPO 0
#endif
#ifndef ASYNC
#define ASYNC 0
#endif
#include <sched.h>
#include "LB_comm/shmem_cpuinfo.c"

enum { P0 = 101, P1 = 102, P2 = 103 };
#define ME P0

/* ---- environment -------------------------------------------------------- */
__thread subprocess_descriptor_t *thread_spd = NULL;
static int vp_lock_depth;
static void (*vp_at_lock)(void), (*vp_at_unlock)(void);
static int vp_finalized, vp_exists_answer = 1;
#ifdef VP_HEAP   /* exact-size object, so that any access out of it is seen */
static shdata_t *vp_heap;
#define vp_storage (*vp_heap)
static void vp_install(void) { vp_heap = calloc(1, sizeof(shdata_t) + NCPU*sizeof(cpuinfo_t)); shdata = vp_heap; }
#else
static shdata_t vp_storage = { .node_info = { [NCPU-1] = {0} } };
static void vp_install(void) { shdata = &vp_storage; }
#endif
static int vp_handler_obj;
shmem_handler_t* shmem_init(void **shdata_ptr, const shmem_props_t *props) {
    *shdata_ptr = &vp_storage;
    return (shmem_handler_t*)&vp_handler_obj;
}
void shmem_finalize(shmem_handler_t *h, bool (*is_empty_fn)(void)) {
    vp_finalized = 1 + (is_empty_fn ? is_empty_fn() : 0);
}
bool shmem_exists(const char *n, const char *k) { return vp_exists_answer; }
void shmem_lock(shmem_handler_t *h) {
    CHECK(vp_lock_depth == 0, "shared memory lock is not taken twice");
    vp_lock_depth++;
    if (vp_at_lock) vp_at_lock();
}
void shmem_unlock(shmem_handler_t *h) {
    CHECK(vp_lock_depth == 1, "shared memory unlock matches a lock");
    vp_lock_depth--;
    if (vp_at_unlock) vp_at_unlock();
}
static int64_t vp_now = 5000;
int64_t get_time_in_ns(void) { vp_now += nd(0, 1); return vp_now; }
void get_time(struct timespec *t) { t->tv_sec = 1; t->tv_nsec = 0; }

/* ---- topology ----------------------------------------------------------- */
static int core_of(int c) {
#if TOPO == 0
    return c;
#elif TOPO == 1
    return c / 2;
#else
    return c % (NCPU/2);
#endif
}
#define SMT (TOPO != 0)
#define NCORES (SMT ? NCPU/2 : NCPU)
static void set_topology(void) {
    cpu_set_t sysm, cores[NCPU], nodes[2];
    CPU_ZERO(&sysm); CPU_ZERO(&nodes[0]); CPU_ZERO(&nodes[1]);
    for (int c = 0; c < NCPU; ++c) CPU_ZERO(&cores[c]);
    for (int c = 0; c < NCPU; ++c) {
        CPU_SET(c, &sysm);
        CPU_SET(c, &cores[core_of(c)]);
        CPU_SET(c, &nodes[core_of(c) < (NCORES+1)/2 ? 0 : 1]);
    }
    mu_testing_set_sys_masks(&sysm, cores, NCORES, nodes, 2);
}

/* ---- symbolic state ------------------------------------------------------ */
static pid_t nd_pid0(void) { int k = nd(0, 3); return k == 0 ? 0 : k == 1 ? P0 : k == 2 ? P1 : P2; }
static pid_t nd_pid(void) { int k = nd(1, 3); return k == 1 ? P0 : k == 2 ? P1 : P2; }
static void nd_mask(cpu_set_t *m) {
    CPU_ZERO(m);
    for (int c = 0; c < NCPU; ++c) if (nd(0, 1)) CPU_SET(c, m);
}
#define N(c) (vp_storage.node_info[c])
static bool in_free(int c) { return CPU_ISSET(c, &vp_storage.free_cpus); }
static bool in_occ(int c) { return CPU_ISSET(c, &vp_storage.occupied_cores); }

typedef struct { pid_t owner, guest; cpu_state_t state; bool freec, occ; } snap_t;
static snap_t pre[NCPU];
static void take_snap(void) {
    for (int c = 0; c < NCPU; ++c) {
        pre[c].owner = N(c).owner; pre[c].guest = N(c).guest; pre[c].state = N(c).state;
        pre[c].freec = in_free(c); pre[c].occ = in_occ(c);
    }
}

static int post_mortem;

/* requests: the number of entries of each queue is concrete per query, their
 * contents are symbolic */
#ifndef QSHAPE
#define QSHAPE 0
#endif
#ifndef QGLOBAL
#define QGLOBAL 0
#endif
static const int qshape[NCPU] = { QSHAPE };
static bool requested_cpu(pid_t p, int c) {
    return queue_pid_t_search(&N(c).requests, p) != NULL;
}
static bool requested_global(pid_t p) {
    return queue_lewi_mask_request_t_search(&vp_storage.lewi_mask_requests, p) != NULL;
}

/* who owns and who uses each CPU: all symbolic, or one concrete class per CPU
 * so that the temporary arrays of the code under test have concrete sizes */
#ifndef PAT
#define PAT 0
#endif
static const int pat[NCPU] = { PAT };
static void nd_owner_guest(int c) {
    switch (pat[c]) {
        case 1: N(c).owner = ME; N(c).guest = NOBODY; break;
        case 2: N(c).owner = ME; N(c).guest = c & 1 ? P1 : P2; break;
        case 3: N(c).owner = ME; N(c).guest = ME; break;
        case 4: N(c).owner = P1; N(c).guest = NOBODY; break;
        case 5: N(c).owner = P2; N(c).guest = ME; break;
        case 6: N(c).owner = P1; N(c).guest = P2; break;
        case 7: N(c).owner = NOBODY; N(c).guest = NOBODY; break;
        case 8: N(c).owner = P2; N(c).guest = NOBODY; break;
        case 9: N(c).owner = NOBODY; N(c).guest = ME; break;
        default: N(c).owner = nd_pid0(); N(c).guest = nd_pid0();
    }
}

static void symbolic_state(void) {
    set_topology();
    vp_install();
    node_size = NCPU;
    shm_handler = (shmem_handler_t*)&vp_handler_obj;
    subprocesses_attached = 1;
    vp_storage.flags.initialized = true;
    vp_storage.flags.queues_enabled = ASYNC;
    vp_storage.flags.hw_has_smt = SMT;
    post_mortem = nd(0, 1);
    cpu_is_public_post_mortem = post_mortem;
    respect_cpuset = true;
    vp_storage.timestamp_cpu_lent = nd(0, 2000);
    CPU_ZERO(&vp_storage.free_cpus);
    CPU_ZERO(&vp_storage.occupied_cores);
    queue_lewi_mask_request_t_init(&vp_storage.lewi_mask_requests);
    for (int c = 0; c < NCPU; ++c) {
        N(c).id = c;
        N(c).core_id = core_of(c);
        nd_owner_guest(c);
        N(c).state = nd(0, 2);
        if (nd(0, 1)) CPU_SET(c, &vp_storage.free_cpus);
        if (nd(0, 1)) CPU_SET(c, &vp_storage.occupied_cores);
        queue_pid_t_init(&N(c).requests);
#if ASYNC
        for (int i = 0; i < qshape[c]; ++i)
            queue_pid_t_enqueue(&N(c).requests, nd_pid());
#endif
    }
#if ASYNC
    for (int i = 0; i < QGLOBAL; ++i) {
        lewi_mask_request_t r = { .pid = nd_pid(), .howmany = nd(1, 3) };
        nd_mask(&r.allowed);
        queue_lewi_mask_request_t_enqueue(&vp_storage.lewi_mask_requests, r);
    }
#endif
}

/* Invariant of every reachable table, on the current state */
static bool inv_cpu(int c) {
    pid_t o = N(c).owner, g = N(c).guest; cpu_state_t s = N(c).state;
    return (o != NOBODY || s != CPU_BUSY)
        && (o == NOBODY || s != CPU_DISABLED)
        && N(c).id == c && N(c).core_id == core_of(c);
}
static bool inv_free(int c) {
    pid_t g = N(c).guest; cpu_state_t s = N(c).state;
    return IMP(s != CPU_DISABLED && g == NOBODY, in_free(c)) && IMP(in_free(c), g == NOBODY);
}
static bool inv_occ(int c) {
    pid_t o = N(c).owner, g = N(c).guest;
    for (int d = 0; d < NCPU; ++d) if (core_of(d) == core_of(c) && in_occ(d) != in_occ(c)) return false;
    return IMP(o != NOBODY && g != NOBODY && g != o, in_occ(c));
}
/* one core belongs to one process (whole-core masks) */
static bool inv_core_owner(int c) {
    for (int d = 0; d < NCPU; ++d)
        if (core_of(d) == core_of(c) && N(d).owner != N(c).owner) return false;
    return true;
}
/* a process never waits for a CPU of its own */
static bool inv_req(int c) {
#if ASYNC
    queue_pid_t *q = &N(c).requests;
    for (int i = 0; i < VP_QUEUE_CAP; ++i)
        if ((size_t)i < queue_pid_t_size(q) && N(c).owner != NOBODY
                && q->items[(q->front + i) % VP_QUEUE_CAP] == N(c).owner) return false;
#endif
    return true;
}
static void assume_inv(void) {
    for (int c = 0; c < NCPU; ++c) {
        ASSUME(inv_cpu(c)); ASSUME(inv_free(c)); ASSUME(inv_occ(c)); ASSUME(inv_core_owner(c)); ASSUME(inv_req(c));
        ASSUME(IMP(N(c).owner == NOBODY && N(c).state == CPU_LENT, post_mortem));
    }
}
static array_cpuinfo_task_t tasks;
static cpuinfo_task_t task_items[4*NCPU+4];
static void init_tasks(void) {
    tasks.items = task_items; tasks.count = 0; tasks.capacity = 4*NCPU+4;
}
static bool has_task(cpuinfo_action_t a, pid_t p, int c) {
    for (int i = 0; i < 4*NCPU+4; ++i)
        if ((size_t)i < tasks.count && task_items[i].action == a && task_items[i].pid == p && task_items[i].cpuid == c)
            return true;
    return false;
}
static array_cpuid_t arr; static cpuid_t arr_items[NCPU+8];
/* arbitrary duplicate-free priority list of CPUs */
static void nd_array(void) {
    arr.items = arr_items; arr.capacity = NCPU; arr.count = nd(0, NCPU);
    unsigned seen = 0;
    for (int i = 0; i < NCPU; ++i) {
        arr_items[i] = nd(0, NCPU-1);
        if ((size_t)i < arr.count) {
            ASSUME(!(seen & (1u << arr_items[i])));
            seen |= 1u << arr_items[i];
        }
    }
}
static bool in_array(int c) {
    for (int i = 0; i < NCPU; ++i) if ((size_t)i < arr.count && arr_items[i] == c) return true;
    return false;
}
