/* One operation of one process from an arbitrary table satisfying the
 * invariant.  PROP selects which contract is asserted, OP the operation. */
#include "cpuinfo_common.h"
#define LEND_CPU 1
#define LEND_MASK 2
#define RECLAIM_ALL 3
#define RECLAIM_CPU 4
#define RECLAIM_CPUS 5
#define RECLAIM_MASK 6
#define ACQUIRE_CPU 7
#define ACQUIRE_SUBSET 8
#define ACQUIRE_NCPUS 9
#define BORROW_CPU 10
#define BORROW_SUBSET 11
#define BORROW_NCPUS 12
#define RETURN_ALL 13
#define RETURN_CPU 14
#define RETURN_MASK 15
#define DEREGISTER 16
#define RESET 17
#define UPDATE_MAX 18
#define OWNERSHIP 19
#define CHECK_AVAIL 20
#define RETURN_ASYNC 21
#define REMOVE_REQS 22
#define FINALIZE 23
#define POSTFINALIZE 24
#define CLEANUP 25
#define INIT 26
#define PREINIT 27
/* property groups */
#define EXCL 1     /* nobody is evicted; tasks are coherent with the table */
#define PERM 2     /* only lent CPUs are granted; ownership/state belong to the owner */
#define BACK 3     /* the owner gets its CPUs back */
#define AVAIL 4    /* idle lent CPUs stay available */
#define CORE 5     /* SMT cores are not shared */
#define LEAVE 6    /* departure leaves no trace */
#define LIMIT 7    /* requested amounts and max parallelism */
#define REQ 8      /* request queues */
#define OWN 9      /* ownership changes */

#define HAS_TASKS (OP != CHECK_AVAIL && OP != RETURN_ASYNC && OP != REMOVE_REQS && OP < FINALIZE)
#define KEEPS_OWNER (OP <= RETURN_MASK || OP == RESET || OP == UPDATE_MAX || OP == CHECK_AVAIL || OP == RETURN_ASYNC || OP == REMOVE_REQS)

#ifndef CPUARG
#define CPUARG nd(0, NCPU-1)
#endif
#ifndef SPREADARG
#define SPREADARG 0
#endif
#ifndef COUNTARG
#define COUNTARG nd(0, NCPU)
#endif
#ifndef ORDER
#define ORDER 0,1,2,3
#endif

/* independent statement of core eligibility on the pre-state */
static bool core_ok_pre(pid_t p, int c) {
    for (int d = 0; d < NCPU; ++d) {
        if (core_of(d) != core_of(c)) continue;
        if (pre[d].guest != NOBODY && pre[d].guest != p) return false;
        if (SMT && pre[d].state == CPU_BUSY && pre[d].owner != p) return false;
    }
    return true;
}
static bool borrowable_pre(pid_t p, int c) {   /* by a non-owner */
    return pre[c].guest == NOBODY && pre[c].state == CPU_LENT && pre[c].owner != p && core_ok_pre(p, c);
}
static bool borrowable_post(pid_t p, int c) {
    if (N(c).guest != NOBODY || N(c).state != CPU_LENT || N(c).owner == p) return false;
    for (int d = 0; d < NCPU; ++d) {
        if (core_of(d) != core_of(c)) continue;
        if (N(d).guest != NOBODY && N(d).guest != p) return false;
        if (SMT && N(d).state == CPU_BUSY && N(d).owner != p) return false;
    }
    return true;
}
static int count_guest_pre(pid_t p) { int n = 0; for (int c = 0; c < NCPU; ++c) n += pre[c].guest == p; return n; }
static int count_guest(pid_t p) { int n = 0; for (int c = 0; c < NCPU; ++c) n += N(c).guest == p; return n; }
static int count_owned(pid_t p) { int n = 0; for (int c = 0; c < NCPU; ++c) n += N(c).owner == p; return n; }

static const pid_t pids[3] = { P0, P1, P2 };
#if ASYNC
static bool pre_req_cpu[3][NCPU], pre_req_glob[3][NCPU];
static int pre_howmany[3], pre_qglob;
static void snap_reqs(void) {
    for (int p = 0; p < 3; ++p) {
        for (int c = 0; c < NCPU; ++c) {
            pre_req_cpu[p][c] = requested_cpu(pids[p], c);
            for (int i = 0; i < QGLOBAL; ++i) {
                lewi_mask_request_t *r = &vp_storage.lewi_mask_requests.items[i];
                if (r->pid == pids[p] && CPU_ISSET(c, &r->allowed)) pre_req_glob[p][c] = true;
            }
        }
        for (int i = 0; i < QGLOBAL; ++i)
            if (vp_storage.lewi_mask_requests.items[i].pid == pids[p])
                pre_howmany[p] += vp_storage.lewi_mask_requests.items[i].howmany;
    }
}
static int sum_howmany(pid_t p) {
    int n = 0;
    queue_lewi_mask_request_t *q = &vp_storage.lewi_mask_requests;
    for (int i = 0; i < VP_QUEUE_CAP; ++i) {
        size_t pos = (q->front + i) % VP_QUEUE_CAP;
        if ((size_t)i < queue_lewi_mask_request_t_size(q) && q->items[pos].pid == p) n += q->items[pos].howmany;
    }
    return n;
}
static int cpu_reqs(pid_t p, int c) {
    int n = 0; queue_pid_t *q = &N(c).requests;
    for (int i = 0; i < VP_QUEUE_CAP; ++i)
        if ((size_t)i < queue_pid_t_size(q) && q->items[(q->front + i) % VP_QUEUE_CAP] == p) ++n;
    return n;
}
#endif

static int err, cpu = -1, req = -1, maxp, use_req, use_last, thrd, ncpus_arg;
static int64_t last; static unsigned umax;
static cpu_set_t mask; static bool spread;

static void nd_order(void) {
    static const cpuid_t order[NCPU] = { ORDER };
    arr.items = arr_items; arr.capacity = NCPU; arr.count = COUNTARG;
    for (int i = 0; i < NCPU; ++i) arr_items[i] = order[i];   /* the rest is padding */
}
/* the mask argument: symbolic, or one concrete value per query */
static void arg_mask(void) {
    CPU_ZERO(&mask);
#ifdef MASKARG
    for (int c = 0; c < NCPU; ++c) if ((MASKARG) & (1 << c)) CPU_SET(c, &mask);
#else
    nd_mask(&mask);
#endif
}
static bool core_aligned(const cpu_set_t *m) {
    for (int c = 0; c < NCPU; ++c) for (int d = 0; d < NCPU; ++d)
        if (core_of(c) == core_of(d) && CPU_ISSET(c, m) != CPU_ISSET(d, m)) return false;
    return true;
}

static void do_op(void) {
    CPU_ZERO(&mask);
#if OP == LEND_CPU
    cpu = CPUARG; err = shmem_cpuinfo__lend_cpu(ME, cpu, &tasks);
#elif OP == LEND_MASK
    arg_mask(); err = shmem_cpuinfo__lend_cpu_mask(ME, &mask, &tasks);
#elif OP == RECLAIM_ALL
    err = shmem_cpuinfo__reclaim_all(ME, &tasks);
#elif OP == RECLAIM_CPU
    cpu = CPUARG; err = shmem_cpuinfo__reclaim_cpu(ME, cpu, &tasks);
#elif OP == RECLAIM_CPUS
    ncpus_arg = nd(0, NCPU+1); err = shmem_cpuinfo__reclaim_cpus(ME, ncpus_arg, &tasks);
#elif OP == RECLAIM_MASK
    arg_mask(); err = shmem_cpuinfo__reclaim_cpu_mask(ME, &mask, &tasks);
#elif OP == ACQUIRE_CPU
    cpu = CPUARG; err = shmem_cpuinfo__acquire_cpu(ME, cpu, &tasks);
#elif OP == ACQUIRE_SUBSET
    nd_order();
    for (int i = 0; i < NCPU; ++i) ASSUME(IMP((size_t)i < arr.count, pre[arr_items[i]].owner == ME));
    err = shmem_cpuinfo__acquire_from_cpu_subset(ME, &arr, &tasks);
#elif OP == BORROW_CPU
    cpu = CPUARG; err = shmem_cpuinfo__borrow_cpu(ME, cpu, &tasks);
#elif OP == BORROW_SUBSET
    nd_order(); err = shmem_cpuinfo__borrow_from_cpu_subset(ME, &arr, &tasks);
#elif OP == BORROW_NCPUS || OP == ACQUIRE_NCPUS
    nd_order();
    use_req = nd(0, 1); req = nd(-1, NCPU+1); maxp = nd(0, NCPU+1);
    use_last = ASYNC ? 0 : nd(0, 1); last = nd(0, 3000);
    spread = SPREADARG;
    ncpus_arg = req;
#if OP == BORROW_NCPUS
    err = shmem_cpuinfo__borrow_ncpus_from_cpu_subset(
#else
    /* owned CPUs come first in a priority array */
    for (int i = 0; i + 1 < NCPU; ++i)
        ASSUME(IMP((size_t)i + 1 < arr.count && pre[arr_items[i+1]].owner == ME, pre[arr_items[i]].owner == ME));
    err = shmem_cpuinfo__acquire_ncpus_from_cpu_subset(
#endif
        ME, use_req ? &req : NULL, &arr, spread ? LEWI_AFFINITY_SPREAD_IFEMPTY : LEWI_AFFINITY_AUTO,
        maxp, use_last ? &last : NULL, &tasks);
#elif OP == RETURN_ALL
    err = shmem_cpuinfo__return_all(ME, &tasks);
#elif OP == RETURN_CPU
    cpu = CPUARG; err = shmem_cpuinfo__return_cpu(ME, cpu, &tasks);
#elif OP == RETURN_MASK
    arg_mask(); err = shmem_cpuinfo__return_cpu_mask(ME, &mask, &tasks);
#elif OP == DEREGISTER
    err = shmem_cpuinfo__deregister(ME, &tasks);
#elif OP == RESET
    err = shmem_cpuinfo__reset(ME, &tasks);
#elif OP == UPDATE_MAX
    umax = nd(1, NCPU+1); err = shmem_cpuinfo__update_max_parallelism(ME, umax, &tasks);
#elif OP == OWNERSHIP
    arg_mask(); ASSUME(core_aligned(&mask));
    shmem_cpuinfo__update_ownership(ME, &mask, &tasks);
#elif OP == CHECK_AVAIL
    cpu = CPUARG; err = shmem_cpuinfo__check_cpu_availability(ME, cpu);
#elif OP == RETURN_ASYNC
    cpu = CPUARG; ASSUME(pre[cpu].guest == ME && pre[cpu].owner != ME);
    shmem_cpuinfo__return_async_cpu(ME, cpu);
#elif OP == REMOVE_REQS
    shmem_cpuinfo__remove_requests(ME);
#elif OP == FINALIZE
    subprocesses_attached = 2;
    err = shmem_cpuinfo__finalize(ME, "key", 0);
#elif OP == POSTFINALIZE
    err = shmem_cpuinfo_ext__postfinalize(ME);
#elif OP == CLEANUP
    cleanup_shmem(shdata, ME);
#elif OP == INIT
    arg_mask(); ASSUME(core_aligned(&mask));
    for (int c = 0; c < NCPU; ++c) ASSUME(pre[c].owner != ME && pre[c].guest != ME);
    thrd = nd(0, 1);
    subprocesses_attached = 2;
    err = shmem_cpuinfo__init(ME, thrd ? P2 : 0, &mask, "key", 0);
#elif OP == PREINIT
    arg_mask(); ASSUME(core_aligned(&mask));
    for (int c = 0; c < NCPU; ++c) ASSUME(pre[c].owner != ME && pre[c].guest != ME);
    thrd = nd(0, 1);
    err = shmem_cpuinfo_ext__preinit(ME, &mask, thrd ? DLB_STEAL_CPUS : 0);
#endif
}

/* Other processes run until the lock is taken and again after it is released:
 * the table at the lock is arbitrary (RACE), and nothing is written out of it. */
#ifndef RACE
#define RACE 0
#endif
static bool locked_once, changed_before, changed_after;
static snap_t at_unlock[NCPU];
static bool same_snap(const snap_t *a, int c) {
    return a[c].owner == N(c).owner && a[c].guest == N(c).guest && a[c].state == N(c).state
        && a[c].freec == in_free(c) && a[c].occ == in_occ(c);
}
static void save_snap(snap_t *a) {
    for (int c = 0; c < NCPU; ++c) {
        a[c].owner = N(c).owner; a[c].guest = N(c).guest; a[c].state = N(c).state;
        a[c].freec = in_free(c); a[c].occ = in_occ(c);
    }
}
static void on_lock(void) {
    for (int c = 0; c < NCPU; ++c)
        if (!same_snap(locked_once ? at_unlock : pre, c)) changed_before = true;
#if RACE
    if (!locked_once) {
        CPU_ZERO(&vp_storage.free_cpus);
        CPU_ZERO(&vp_storage.occupied_cores);
        for (int c = 0; c < NCPU; ++c) {
            nd_owner_guest(c);
            N(c).state = nd(0, 2);
            if (nd(0, 1)) CPU_SET(c, &vp_storage.free_cpus);
            if (nd(0, 1)) CPU_SET(c, &vp_storage.occupied_cores);
        }
        assume_inv();
        take_snap();
    }
#endif
    locked_once = true;
}
static void on_unlock(void) { save_snap(at_unlock); }
#define ATOMIC (PROP == EXCL && OP < FINALIZE)

void harness(void) {
    symbolic_state();
    assume_inv();
    take_snap();
#if ASYNC
    snap_reqs();
#endif
#if ATOMIC || RACE
    vp_at_lock = on_lock; vp_at_unlock = on_unlock;
    save_snap(at_unlock);
#endif
    init_tasks();
    do_op();
    CHECK(vp_lock_depth == 0, "the shared memory lock is released");
#if OP == FINALIZE || OP == POSTFINALIZE || OP == CLEANUP || OP == DEREGISTER
    const bool leaving = true;
#else
    const bool leaving = false;
#endif
    for (int c = 0; c < NCPU; ++c) {
        pid_t g = pre[c].guest, g2 = N(c).guest, o = pre[c].owner, o2 = N(c).owner;
        cpu_state_t s = pre[c].state, s2 = N(c).state;
        (void)g; (void)g2; (void)o; (void)o2; (void)s; (void)s2;
#if ATOMIC
        CHECK(!changed_before && same_snap(at_unlock, c), "the table is only modified while it is locked");
#endif
#if PROP == EXCL
        /* a process using a CPU only stops using it by its own operation */
        if (OP == INIT && thrd)
            CHECK(IMP(g2 != g && g != NOBODY, g == P2 && g2 == ME), "only the pre-registered pid is replaced");
        else
            CHECK(IMP(g2 != g && g != NOBODY, g == ME), "the user of a CPU is not evicted by somebody else");
#if HAS_TASKS
        if (OP != OWNERSHIP || c != -1) {
            CHECK(IMP(g2 != g && g2 != NOBODY && !(OP >= RETURN_ALL && OP <= RETURN_MASK && s == CPU_BUSY && g2 == o) && OP != OWNERSHIP,
                      has_task(ENABLE_CPU, g2, c)), "a process that is given a CPU is told to enable it");
            CHECK(IMP(has_task(ENABLE_CPU, P0, c), g2 == P0 || (o2 == P0 && s2 == CPU_BUSY && g2 != NOBODY) || leaving),
                  "a process only enables a CPU it holds or has reclaimed");
            CHECK(IMP(has_task(ENABLE_CPU, P1, c), g2 == P1), "another process is only enabled on a CPU it holds");
            CHECK(IMP(has_task(ENABLE_CPU, P2, c), g2 == P2), "another process is only enabled on a CPU it holds");
            CHECK(!has_task(DISABLE_CPU, NOBODY, c) && !has_task(ENABLE_CPU, NOBODY, c), "no task is addressed to nobody");
            CHECK(IMP(has_task(DISABLE_CPU, P1, c), g == P1 && g2 == P1), "only the current user of a reclaimed CPU is asked to disable it");
            CHECK(IMP(has_task(DISABLE_CPU, P2, c), g == P2 && g2 == P2), "only the current user of a reclaimed CPU is asked to disable it");
            CHECK(IMP(has_task(DISABLE_CPU, P0, c), g2 != P0), "a process never disables a CPU the table says it is using");
            CHECK(IMP(has_task(DISABLE_CPU, P1, c) || has_task(DISABLE_CPU, P2, c),
                      (o2 == ME && s2 == CPU_BUSY) || (OP == RECLAIM_CPU && o == ME && core_of(c) == core_of(cpu)) || (OP == DEREGISTER && o == ME)),
                  "only the owner of a CPU (or core) can ask others to leave it");
            CHECK(IMP((OP == RETURN_ALL || OP == RETURN_CPU || OP == RETURN_MASK || OP == RESET) && g == ME && g2 != ME,
                      has_task(DISABLE_CPU, ME, c)), "giving a CPU up disables it");
        }
        WITNESS(OP >= BORROW_CPU && OP <= BORROW_NCPUS && g == NOBODY && g2 == ME, "an idle CPU is taken");
        WITNESS(OP >= RECLAIM_ALL && OP <= RECLAIM_MASK && g == P1 && g2 == P1 && has_task(DISABLE_CPU, P1, c), "a CPU in use is asked back");
#endif
        WITNESS(g != NOBODY && g == g2, "a CPU in use keeps its user");
#endif
#if PROP == PERM
        CHECK(inv_req(c), "no process waits for a CPU of its own");
        CHECK(inv_cpu(c), "state, owner and user of every CPU stay consistent");
#if KEEPS_OWNER
        CHECK(o2 == o, "LeWI operations never change the owner of a CPU");
        CHECK(IMP(s2 != s, o == ME), "only the owner changes the state of a CPU");
        CHECK(IMP(g2 != g && g2 != NOBODY && g2 != o2, s2 == CPU_LENT), "only lent CPUs are handed to other processes");
        CHECK(IMP(g2 != g && g2 != NOBODY && g2 != o2 && o != ME, s == CPU_LENT), "only CPUs lent by their owner are handed to other processes");
        CHECK(IMP(g2 == ME && g != ME && o != ME, s == CPU_LENT && g == NOBODY), "a foreign CPU is obtained only while lent and idle");
        CHECK(IMP(s2 == CPU_DISABLED, g2 == NOBODY || g2 == g), "an unregistered CPU is never handed out");
        WITNESS(OP >= ACQUIRE_CPU && OP <= BORROW_NCPUS && OP != ACQUIRE_SUBSET && o == P1 && g2 == ME && g == NOBODY, "a foreign CPU is obtained");
        WITNESS((OP == LEND_CPU || OP == LEND_MASK) && o == ME && s == CPU_BUSY && s2 == CPU_LENT, "an owned CPU is lent");
#else
        CHECK(IMP(g2 != g && g2 != NOBODY && g2 != o2, s2 == CPU_LENT), "only lent CPUs are handed to other processes");
        CHECK(IMP(o2 != o && o != ME && o != NOBODY, o2 == ME && ((OP == OWNERSHIP && CPU_ISSET(c, &mask))
                || (OP == PREINIT && thrd && CPU_ISSET(c, &mask)) || (OP == INIT && thrd && o == P2 && CPU_ISSET(c, &mask)))),
              "a CPU changes owner only through an ownership operation that names it");
        CHECK(IMP(o2 != o && o2 != NOBODY, o2 == ME), "ownership is only taken by the caller");
#endif
#endif
#if PROP == AVAIL || PROP == LEAVE
        for (int p = 1; p < 3; ++p)
            CHECK(IMP(borrowable_post(pids[p], c) && !borrowable_pre(pids[p], c), vp_storage.timestamp_cpu_lent >= 5000), "a CPU that becomes available is announced to processes that failed to borrow");
#endif
#if PROP == AVAIL
        CHECK(IMP(s2 != CPU_DISABLED && g2 == NOBODY, in_free(c)), "every idle lent CPU is in the set of free CPUs");
        CHECK(IMP(in_free(c), g2 == NOBODY), "a CPU in the set of free CPUs is not in use");
        WITNESS(s2 == CPU_LENT && g2 == NOBODY && g != NOBODY, "a CPU becomes idle");
#if OP == LEND_CPU || OP == LEND_MASK
        bool arg = OP == LEND_CPU ? c == cpu : CPU_ISSET(c, &mask);
        CHECK(IMP(arg && o == ME, s2 == CPU_LENT), "lending an owned CPU marks it as lent");
        CHECK(IMP(arg && g == ME && !ASYNC, g2 == NOBODY || (s == CPU_BUSY && o != ME && g2 == o)), "the lender stops using the CPU");
        CHECK(IMP(arg && g == ME && o != ME && s == CPU_BUSY, g2 == o), "giving up a reclaimed CPU hands it to its owner");
        CHECK(IMP(!arg && !SMT, g2 == g && s2 == s), "other CPUs are not affected");
        CHECK(IMP(!arg && g != NOBODY, g2 == g) && IMP(!arg, s2 == s), "CPUs in use that were not named are not affected");
        CHECK(err == DLB_SUCCESS, "lending succeeds");
#endif
#if OP == BORROW_CPU
        CHECK(IMP(c == cpu && borrowable_pre(ME, c), err == DLB_SUCCESS && g2 == ME), "an idle lent CPU can be borrowed");
        CHECK(IMP(c == cpu && err != DLB_SUCCESS, err == DLB_NOUPDT && g2 == g), "a failed borrow has no effect");
        CHECK(IMP(c != cpu, g2 == g && s2 == s), "other CPUs are not affected");
#endif
#if OP == BORROW_SUBSET
        CHECK(IMP(!SMT && in_array(c) && borrowable_pre(ME, c), g2 == ME), "every idle lent CPU asked for is borrowed");
        CHECK(IMP(SMT && in_array(c) && borrowable_pre(ME, c) && core_of(0) >= 0
                  && borrowable_pre(ME, TOPO == 1 ? c ^ 1 : (c + NCPU/2) % NCPU), g2 == ME), "every idle lent core asked for is borrowed");
#endif
#if OP == RETURN_ASYNC
        CHECK(IMP(c == cpu && s == CPU_BUSY, g2 == o) && IMP(c == cpu && s != CPU_BUSY, g2 == NOBODY), "a returned CPU goes to its owner or becomes idle");
#endif
#endif
#if PROP == BACK
        CHECK(inv_occ(c), "every CPU used by other than its owner is tracked as occupied");
#if OP == RECLAIM_CPU || OP == RECLAIM_ALL || OP == RECLAIM_MASK || OP == RESET || OP == ACQUIRE_CPU || OP == ACQUIRE_SUBSET
        bool arg = OP == RECLAIM_CPU || OP == ACQUIRE_CPU ? c == cpu : OP == RECLAIM_MASK ? CPU_ISSET(c, &mask)
                 : OP == ACQUIRE_SUBSET ? in_array(c) : true;
        CHECK(IMP(arg && o == ME && (g != ME || OP == RECLAIM_CPU), s2 == CPU_BUSY), "a reclaimed CPU is marked as wanted by its owner");
        CHECK(IMP(arg && o == ME && (g == NOBODY || g == ME), g2 == ME), "an idle or own CPU is recovered at once");
        CHECK(IMP(arg && o == ME && g != NOBODY && g != ME, g2 == g && has_task(DISABLE_CPU, g, c) && has_task(ENABLE_CPU, ME, c)),
              "the user of a reclaimed CPU is told to leave and the owner to enable");
        if (OP == RECLAIM_CPU || (OP == ACQUIRE_CPU && o == ME)) {
            CHECK(IMP(arg && o == ME, err == (g == ME ? DLB_NOUPDT : g == NOBODY ? DLB_SUCCESS : DLB_NOTED)), "the result tells whether the CPU was recovered, pending or already held");
            CHECK(IMP(arg && o != ME && OP == RECLAIM_CPU, err == DLB_ERR_PERM && g2 == g && s2 == s), "a foreign CPU cannot be reclaimed");
        }
        if (OP == RECLAIM_ALL) CHECK(IMP(o == ME && g != ME && g != NOBODY, err == DLB_NOTED), "pending CPUs are reported");
        WITNESS(arg && o == ME && g == P2 && s == CPU_LENT && s2 == CPU_BUSY, "a lent CPU in use is reclaimed");
        WITNESS(arg && o == ME && g == NOBODY && g2 == ME, "an idle CPU is recovered");
#endif
#if OP == RETURN_ALL || OP == RETURN_CPU || OP == RETURN_MASK || OP == RETURN_ASYNC
        bool arg = OP == RETURN_CPU || OP == RETURN_ASYNC ? c == cpu : OP == RETURN_MASK ? CPU_ISSET(c, &mask) : true;
        CHECK(IMP(arg && g == ME && o != ME && s == CPU_BUSY, g2 == o), "a reclaimed CPU that is returned goes to its owner");
        CHECK(IMP(arg && g == ME && o != ME && s != CPU_BUSY, g2 == ME || g2 == NOBODY), "a CPU nobody asked back is kept or becomes idle when it is returned");
        CHECK(IMP(o == ME, g2 == g && s2 == s), "returning never gives up an owned CPU");
        CHECK(IMP(arg && OP != RETURN_ASYNC && g == ME && o != NOBODY && o != ME && s == CPU_LENT && !SMT, g2 == ME), "a CPU nobody asked back is kept");
        CHECK(IMP(!arg || g != ME, g2 == g && s2 == s), "other CPUs are not affected");
        if (OP == RETURN_CPU) CHECK(IMP(arg, err == (g != ME ? DLB_ERR_PERM : g2 != ME ? DLB_SUCCESS : DLB_NOUPDT)), "the result tells whether the CPU was returned");
        WITNESS(g == ME && o == P1 && g2 == P1, "a CPU is returned to its owner");
#endif
#if OP == LEND_CPU || OP == LEND_MASK
        CHECK(IMP((OP == LEND_CPU ? c == cpu : CPU_ISSET(c, &mask)) && g == ME && o != ME && s == CPU_BUSY, g2 == o), "a reclaimed CPU that is lent back goes to its owner");
#endif
#endif
#if PROP == CORE
        for (int d = 0; d < NCPU; ++d) if (d != c && core_of(d) == core_of(c)) {
            CHECK(IMP(g2 != g && g2 != NOBODY && g2 != o2, N(d).guest == NOBODY || N(d).guest == g2), "a borrowed hardware thread does not share its core with another process");
            CHECK(IMP(g2 != g && g2 != NOBODY && g2 != o2, !(N(d).state == CPU_BUSY && N(d).owner != g2)), "no hardware thread is borrowed from a core its owner is reclaiming");
            CHECK(IMP(OP == RECLAIM_CPU && c == cpu && o == ME && g != NOBODY && g != ME && pre[d].guest != NOBODY && pre[d].guest != ME,
                      has_task(DISABLE_CPU, pre[d].guest, d)), "reclaiming a hardware thread asks the whole core back");
            CHECK(IMP((OP == RETURN_ALL || OP == RETURN_MASK || OP == RETURN_CPU) && g == ME && o != NOBODY && o != ME && s == CPU_LENT && pre[d].state == CPU_BUSY
                      && (OP == RETURN_ALL || (OP == RETURN_CPU && c == cpu) || (OP == RETURN_MASK && CPU_ISSET(c, &mask))),
                      g2 == NOBODY), "the other threads of a reclaimed core are given up too");
            WITNESS(g2 == ME && g == NOBODY && N(d).guest == ME && o == P1, "a whole core is borrowed");
        }
#endif
#if PROP == LEAVE
        CHECK(IMP(OP != DEREGISTER || true, o2 != ME && g2 != ME), "a departed process owns and uses no CPU");
#if ASYNC
        CHECK(!requested_cpu(ME, c), "a departed process leaves no CPU request");
        CHECK(cpu_reqs(P1, c) == 0 || pre_req_cpu[1][c], "no request appears");
#endif
        CHECK(IMP(o == ME, o2 == NOBODY && s2 == (post_mortem ? CPU_LENT : CPU_DISABLED)), "the CPUs it owned become unregistered, or public if so configured");
        CHECK(IMP(o != ME, o2 == o && s2 == s), "CPUs of other owners keep owner and state");
        CHECK(IMP(g != ME && g != NOBODY, g2 == g), "other processes keep the CPUs they use");
        CHECK(IMP(s2 == CPU_LENT && g2 == NOBODY, in_free(c)), "the lent CPUs it used become available again");
        CHECK(IMP(g == ME && o != ME && s == CPU_BUSY, g2 == o || g2 == NOBODY), "the reclaimed CPUs it used are left to their owners");
        CHECK(inv_cpu(c) && inv_occ(c) && IMP(in_free(c), g2 == NOBODY), "the table stays consistent");
        WITNESS(o == ME && g == ME && s == CPU_BUSY, "an owned CPU is released");
        WITNESS(o == P1 && g == ME && s == CPU_LENT && g2 == NOBODY, "a borrowed CPU is released");
#endif
#if PROP == OWN
        bool in = CPU_ISSET(c, &mask);
#if OP == OWNERSHIP
        CHECK(IMP(in, o2 == ME && s2 == (o == ME ? s : CPU_BUSY)), "the CPUs of the new mask belong to the process");
        CHECK(IMP(!in, o2 == (o == ME ? NOBODY : o)), "CPUs out of the new mask are released");
        CHECK(IMP(!in && o == ME, g2 == (g == ME ? NOBODY : g) && s2 == CPU_DISABLED), "a released CPU is no longer registered");
        CHECK(IMP(!in && o == ME && g == ME, has_task(DISABLE_CPU, ME, c)), "a released CPU in use is disabled");
        CHECK(IMP(in && o != ME && g != ME && g != NOBODY, g2 == g && has_task(DISABLE_CPU, g, c)), "the user of an acquired CPU is told to leave");
        CHECK(IMP(in && o != ME, has_task(ENABLE_CPU, ME, c)), "an acquired CPU is enabled");
        CHECK(IMP(in && o != ME && g == NOBODY, g2 == ME && !in_free(c)), "an idle acquired CPU is in use at once");
        CHECK(IMP(!in && o != ME && g == ME && s == CPU_BUSY, g2 == o && has_task(DISABLE_CPU, ME, c)), "a CPU its owner wants is returned");
        CHECK(inv_occ(c), "every CPU used by other than its owner is tracked as occupied");
        CHECK(inv_cpu(c) && inv_free(c), "the table stays consistent");
        WITNESS(in && o == P1 && g == P1, "a CPU of another process is acquired");
        WITNESS(!in && o == ME && g == P2, "a lent CPU is released");
#endif
#if OP == INIT || OP == PREINIT
        bool clash = false;
        for (int d = 0; d < NCPU; ++d)
            if (CPU_ISSET(d, &mask) && pre[d].owner != NOBODY && pre[d].owner != ME && !(OP == INIT && thrd && pre[d].owner == P2)) clash = true;
        if (OP == PREINIT && thrd) clash = false;
        CHECK(err == (clash ? DLB_ERR_PERM : DLB_SUCCESS), "registration fails exactly when a CPU belongs to somebody else");
        CHECK(IMP(clash, o2 == o && g2 == g && s2 == s), "a failed registration changes nothing");
        CHECK(IMP(!clash && in, o2 == ME && s2 == CPU_BUSY && g2 == (g == NOBODY || (OP == INIT && thrd && g == P2) ? ME : g)), "registered CPUs belong to the process");
        CHECK(IMP(!clash && !in, o2 == o && g2 == g && s2 == s), "other CPUs are not affected");
        CHECK(inv_cpu(c) && inv_free(c), "the table stays consistent");
        CHECK(inv_occ(c), "every CPU used by other than its owner is tracked as occupied");
        WITNESS(clash, "a clash");
        WITNESS(!clash && in && o == NOBODY, "a CPU is registered");
#endif
#endif
    }
#if PROP == LIMIT
    int before = count_guest_pre(ME), after = count_guest(ME), noted = 0;
    for (int c = 0; c < NCPU; ++c) noted += has_task(ENABLE_CPU, ME, c) && N(c).guest != ME;
    int slack = SMT ? 1 : 0;   /* cores are taken whole */
    (void)before; (void)after; (void)noted; (void)slack;
#if OP == BORROW_NCPUS || OP == ACQUIRE_NCPUS
    CHECK(IMP(use_req && ncpus_arg <= 0, err == DLB_NOUPDT && after == before && tasks.count == 0), "asking for no CPUs does nothing");
    CHECK(IMP(use_req && ncpus_arg > 0, after - before + noted <= ncpus_arg + slack), "no more CPUs than requested are taken");
    if (arr.count == NCPU) {
        CHECK(IMP(maxp > 0 && before <= maxp, after + noted <= maxp + slack), "max parallelism is not exceeded");
        CHECK(IMP(maxp > 0 && before >= maxp, after == before && noted == 0), "nothing is taken at max parallelism");
    }
    WITNESS(use_req && ncpus_arg == 1 && after == before + 1, "one CPU is obtained");
    WITNESS(maxp == 2 && after == 2 && before == 0, "limited to two");
#if OP == BORROW_NCPUS
    /* as many as possible: non-SMT, no limits hit */
    int avail = 0, taken = after - before;
    for (int c = 0; c < NCPU; ++c) avail += in_array(c) && pre[c].guest == NOBODY && (borrowable_pre(ME, c));
    int want = use_req ? ncpus_arg : NCPU;
    if (maxp > 0 && maxp - before < want && arr.count == NCPU) want = maxp - before;
    CHECK(IMP(!SMT && !use_last && want > 0 && (maxp == 0 || arr.count == NCPU), taken >= (avail < want ? avail : want)), "a request is served with all the idle lent CPUs it needs");
    CHECK(IMP(err == DLB_SUCCESS, taken > 0) && IMP(taken > 0, err == DLB_SUCCESS), "success means that CPUs were obtained");
    WITNESS(!SMT && avail >= 2 && want == 2 && taken == 2, "two CPUs borrowed");
#endif
#if OP == ACQUIRE_NCPUS
    CHECK(IMP(err == DLB_SUCCESS, after > before), "success means that CPUs were obtained");
    CHECK(IMP(after + noted > before && !ASYNC, err == DLB_SUCCESS || err == DLB_NOTED), "obtained CPUs are reported");
#endif
#endif
#if OP == RECLAIM_CPUS
    CHECK(after - before + noted <= ncpus_arg + slack, "no more CPUs than requested are reclaimed");
    int lentn = 0; for (int c = 0; c < NCPU; ++c) lentn += pre[c].owner == ME && pre[c].guest != ME;
    CHECK(IMP(1, after - before + noted >= (lentn < ncpus_arg ? lentn : ncpus_arg)), "as many CPUs as requested are reclaimed while there are lent ones");
    CHECK(IMP(noted > 0, err == DLB_NOTED) && IMP(noted == 0 && after > before, err == DLB_SUCCESS) && IMP(noted == 0 && after == before, err == DLB_NOUPDT), "the result reflects what was reclaimed");
    WITNESS(ncpus_arg == 1 && after + noted == before + 1, "one CPU is reclaimed");
#endif
#if OP == UPDATE_MAX
    CHECK((unsigned)after <= umax, "after lowering max parallelism the process uses at most that many CPUs");
    CHECK(IMP((unsigned)before <= umax && count_owned(ME) <= (int)umax && (unsigned)before + 0 <= umax
              && (unsigned)(count_owned(ME)) + (unsigned)before <= umax, after == before), "a process below the limit keeps its CPUs");
    for (int c = 0; c < NCPU; ++c)
        CHECK(IMP(pre[c].guest == ME && N(c).guest != ME, has_task(DISABLE_CPU, ME, c)), "dropped CPUs are disabled");
    WITNESS(umax == 1 && before == 3, "two CPUs are dropped");
#endif
#if OP == RESET
    for (int c = 0; c < NCPU; ++c) {
        CHECK(IMP(N(c).guest == ME, pre[c].owner == ME), "after a reset only owned CPUs are used");
        CHECK(IMP(pre[c].owner == ME, N(c).state == CPU_BUSY), "after a reset every owned CPU is wanted back");
        CHECK(IMP(pre[c].owner != ME && pre[c].guest == ME, has_task(DISABLE_CPU, ME, c)), "borrowed CPUs are disabled");
    }
    WITNESS(before >= 2 && after == 1, "reset drops CPUs");
#endif
#endif
#if PROP == REQ
    for (int c = 0; c < NCPU; ++c) {
        for (int p = 1; p < 3; ++p)
            CHECK(IMP(N(c).guest != pre[c].guest && N(c).guest == pids[p] && N(c).owner != pids[p], pre_req_cpu[p][c] || pre_req_glob[p][c]),
                  "a CPU is only pushed to a process that asked for it");
#if OP == LEND_CPU
        if (c == cpu && (pre[c].owner == ME || pre[c].guest == ME) && (pre[c].owner == ME || pre[c].state == CPU_LENT) && N(c).guest == NOBODY)
            for (int p = 1; p < 3; ++p) {
                bool elig = true;
                for (int d = 0; d < NCPU; ++d) if (core_of(d) == core_of(c)) {
                    pid_t dg = (d == c) ? NOBODY : pre[d].guest; cpu_state_t ds = d == c ? CPU_LENT : pre[d].state;
                    if (dg != NOBODY && dg != pids[p]) elig = false;
                    if (SMT && ds == CPU_BUSY && pre[d].owner != pids[p]) elig = false;
                }
                CHECK(!(elig && (pre_req_cpu[p][c] || pre_req_glob[p][c])), "a lent CPU does not stay idle while a process is waiting for it");
            }
        WITNESS(c == cpu && N(c).guest == P1 && pre[c].guest == ME, "a waiting process is served");
#endif
    }
    for (int p = 1; p < 3; ++p) {
        int gained = 0;
        for (int c = 0; c < NCPU; ++c) {
            bool got = N(c).guest == pids[p] && pre[c].guest != pids[p];
            gained += got;
            CHECK(IMP(pre_req_cpu[p][c] && !got, requested_cpu(pids[p], c)), "the request of a CPU lasts until it is served");
        }
        CHECK(pre_howmany[p] - sum_howmany(pids[p]) <= gained, "a request of N CPUs lasts until they are served");
    }
#if OP == REMOVE_REQS || OP == DEREGISTER || OP == RESET
    for (int c = 0; c < NCPU; ++c) if (OP == REMOVE_REQS || pre[c].owner != ME) CHECK(cpu_reqs(ME, c) == 0, "removed requests are gone");
    CHECK(sum_howmany(ME) == 0, "removed global requests are gone");
    for (int p = 1; p < 3; ++p) if (OP == REMOVE_REQS) {
        CHECK(sum_howmany(pids[p]) == pre_howmany[p], "requests of other processes are kept");
        for (int c = 0; c < NCPU; ++c) CHECK((cpu_reqs(pids[p], c) > 0) == pre_req_cpu[p][c], "CPU requests of other processes are kept");
    }
#endif
#if OP == ACQUIRE_CPU
    CHECK(IMP(err == DLB_NOTED && pre[cpu].owner != ME, requested_cpu(ME, cpu)), "a noted acquisition is queued");
    CHECK(IMP(err == DLB_SUCCESS, N(cpu).guest == ME), "success means the CPU was obtained");
    CHECK(IMP(pre[cpu].owner != ME && pre[cpu].guest != ME && N(cpu).guest != ME && pre[cpu].state != CPU_DISABLED, err == DLB_NOTED || err == DLB_ERR_REQST), "a busy CPU is requested or the failure is reported");
    WITNESS(err == DLB_NOTED && pre[cpu].owner != ME, "a request is queued");
#endif
#if OP == ACQUIRE_NCPUS
    { int got = 0, own = 0;
      for (int c = 0; c < NCPU; ++c) { got += pre[c].guest != ME && N(c).guest == ME; own += has_task(ENABLE_CPU, ME, c) && N(c).guest != ME; }
      int want = ncpus_arg;
      CHECK(IMP(use_req && ncpus_arg > 0 && maxp == 0 && !SMT && err != DLB_ERR_REQST && err != DLB_NOUPDT, sum_howmany(ME) == pre_howmany[0] + want - got - own), "what could not be obtained is requested for later");
      CHECK(IMP(use_req && ncpus_arg > 0 && maxp == 0 && got + own < want - 0 && !SMT, err == DLB_NOTED || err == DLB_ERR_REQST), "pending requests are reported");
      WITNESS(use_req && ncpus_arg == 2 && got == 1 && err == DLB_NOTED, "a remainder is requested"); }
#endif
#if OP == RETURN_ASYNC
    CHECK(requested_cpu(ME, cpu) || queue_pid_t_size(&N(cpu).requests) == VP_QUEUE_CAP-1, "a process that loses a borrowed CPU is queued for it again");
#endif
#endif
#if PROP == CHKAV
#endif
#if OP == CHECK_AVAIL && PROP == PERM
    CHECK(IMP(err == DLB_SUCCESS, N(cpu).guest == ME), "an available CPU is held by the caller");
    CHECK(IMP(err == DLB_ERR_PERM, pre[cpu].owner != ME && pre[cpu].state != CPU_LENT && N(cpu).guest == pre[cpu].guest), "permission errors mean a foreign CPU that is not lent");
    for (int c = 0; c < NCPU; ++c) CHECK(IMP(c != cpu, N(c).guest == pre[c].guest), "other CPUs are not affected");
#endif
#if PROP == LEAVE && ASYNC
    CHECK(!requested_global(ME), "a departed process leaves no request");
    CHECK(sum_howmany(P1) <= pre_howmany[1] && sum_howmany(P2) <= pre_howmany[2], "requests of other processes do not grow");
#endif
#if PROP == OWN && (OP == INIT || OP == PREINIT)
#endif
}
