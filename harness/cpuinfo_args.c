/* Arguments that name CPUs out of the node: rejected or ignored, never used as
 * an index (the table is an exact-size heap object, so CBMC's pointer checks and
 * ASan see any access out of it). */
#define VP_HEAP
#include "cpuinfo_common.h"
#define LEND_CPU 1
#define RECLAIM_CPU 2
#define ACQUIRE_CPU 3
#define BORROW_CPU 4
#define RETURN_CPU 5
#define CHECK_AVAIL 6
#define LEND_MASK 7
#define RECLAIM_MASK 8
#define RETURN_MASK 9
#define OWNERSHIP 10
#define PREINIT 11
/* one concrete table: the arguments are what varies */
static void concrete_state(void) {
    set_topology();
    vp_install();
    node_size = NCPU;
    shm_handler = (shmem_handler_t*)&vp_handler_obj;
    subprocesses_attached = 1;
    vp_storage.flags.initialized = true;
    vp_storage.flags.queues_enabled = ASYNC;
    vp_storage.flags.hw_has_smt = SMT;
    queue_lewi_mask_request_t_init(&vp_storage.lewi_mask_requests);
    for (int c = 0; c < NCPU; ++c) {
        N(c).id = c; N(c).core_id = core_of(c);
        nd_owner_guest(c);
        N(c).state = N(c).owner == NOBODY ? CPU_DISABLED : N(c).guest == N(c).owner ? CPU_BUSY : CPU_LENT;
        if (N(c).owner != NOBODY && N(c).guest == NOBODY) CPU_SET(c, &vp_storage.free_cpus);
        if (N(c).owner != NOBODY && N(c).guest != NOBODY && N(c).guest != N(c).owner) CPU_SET(c, &vp_storage.occupied_cores);
        queue_pid_t_init(&N(c).requests);
    }
    take_snap();
}
void harness(void) {
    concrete_state();
    init_tasks();
    int err = DLB_ERR_UNKNOWN, cpu = -1;
    cpu_set_t mask; CPU_ZERO(&mask);
#if OP <= CHECK_AVAIL
#ifdef CPUARG
    cpu = CPUARG;
#else
    cpu = nd(-2147483647L-1, 2147483647L);
#endif
    bool bad = cpu < 0 || cpu >= NCPU;
#else
    bool bad = false, inside = false;
    static const int bits[5] = { 0, 1, NCPU, NCPU+1, 63 };
#ifdef MASKARG
#define PICK(i) ((MASKARG) & (1 << (i)))
#else
#define PICK(i) nd(0, 1)
#endif
    for (int i = 0; i < 5; ++i) if (PICK(i)) { CPU_SET(bits[i], &mask); if (i >= 2) bad = true; else inside = true; }
    (void)inside;
#if OP == PREINIT || OP == OWNERSHIP
    if (SMT) ASSUME(CPU_ISSET(0, &mask) == CPU_ISSET(1, &mask));
#endif
#endif
#if OP == LEND_CPU
    err = shmem_cpuinfo__lend_cpu(ME, cpu, &tasks);
#elif OP == RECLAIM_CPU
    err = shmem_cpuinfo__reclaim_cpu(ME, cpu, &tasks);
#elif OP == ACQUIRE_CPU
    err = shmem_cpuinfo__acquire_cpu(ME, cpu, &tasks);
#elif OP == BORROW_CPU
    err = shmem_cpuinfo__borrow_cpu(ME, cpu, &tasks);
#elif OP == RETURN_CPU
    err = shmem_cpuinfo__return_cpu(ME, cpu, &tasks);
#elif OP == CHECK_AVAIL
    err = shmem_cpuinfo__check_cpu_availability(ME, cpu);
#elif OP == LEND_MASK
    err = shmem_cpuinfo__lend_cpu_mask(ME, &mask, &tasks);
#elif OP == RECLAIM_MASK
    err = shmem_cpuinfo__reclaim_cpu_mask(ME, &mask, &tasks);
#elif OP == RETURN_MASK
    err = shmem_cpuinfo__return_cpu_mask(ME, &mask, &tasks);
#elif OP == OWNERSHIP
    shmem_cpuinfo__update_ownership(ME, &mask, &tasks); err = DLB_SUCCESS;
#elif OP == PREINIT
    err = shmem_cpuinfo_ext__preinit(ME, &mask, nd(0, 1) ? DLB_STEAL_CPUS : 0);
#endif
    CHECK(vp_lock_depth == 0, "the shared memory lock is released");
    CHECK(vp_storage.free_cpus.__bits[0] < (1ul << NCPU) && vp_storage.occupied_cores.__bits[0] < (1ul << NCPU), "only CPUs of the node enter the CPU sets");
    for (size_t i = 0; i < NCPU*2; ++i) if (i < tasks.count) CHECK(task_items[i].cpuid >= 0 && task_items[i].cpuid < NCPU, "callbacks only name CPUs of the node");
#if OP <= CHECK_AVAIL
    CHECK(IMP(bad, err < 0), "a CPU out of the node is rejected");
    CHECK(IMP(bad, tasks.count == 0), "a rejected operation does nothing");
    for (int c = 0; c < NCPU; ++c)
        CHECK(IMP(bad, pre[c].owner == N(c).owner && pre[c].guest == N(c).guest && pre[c].state == N(c).state), "a rejected operation changes nothing");
    WITNESS(bad && err < 0, "a bad CPU");
    WITNESS(!bad && err == DLB_SUCCESS, "a good CPU");
#else
    WITNESS(bad && inside && err == DLB_SUCCESS, "a partially bad mask");
#endif
    free(vp_heap);
}
