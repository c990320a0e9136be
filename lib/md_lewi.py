from meta import meta
LA_F = ["src/LB_comm/shmem_lewi_async.c", "src/LB_policies/lewi_async.c", "src/support/queues.c"]
LA_STATE = [("LeWI table in shared memory (processes without masks)", "CPUs owned and used by every process, idle CPUs, one pending request per process at most; requests a process saved while lending")]
LA_BOUND = ("one call of the policy interface from an arbitrary table satisfying the invariant (shown to be kept): 3 process slots (thorough: 4, caller in any slot), each empty or with 0..6 owned and 0..6 used CPUs, "
            "0..6 idle CPUs, requests of 1..6 CPUs in any queue order, any order of equal requests in sorting, 0..6 saved requests, numbers of CPUs -2..7 as arguments")
LA_OUT = "more than 4 processes or more CPUs; the helper thread that delivers the new number; the lock, the segment and the thread runtime are stand-ins; a full request queue (256 processes)"
LA_NOTE = ("Bounded but exhaustive within the bounds: one symbolic call of the real lewi_async.c + shmem_lewi_async.c + queues.c from an arbitrary invariant-satisfying table, decided by CBMC with unwinding assertions; "
           "trusts CBMC, a stand-in for qsort that tries every order of equal keys, and the stated invariant.")
LA_WHY = "The tests follow a few scripted sequences with 2-4 processes; the guarantee must hold for every split of CPUs and requests the processes can reach."
LA_ASM = ["operations on the table run under the shared-memory lock", "CPUs in use plus idle CPUs are at least the CPUs contributed in the initial table; idle CPUs only while there is no request (except after a crash)"]


def la(pid, title, statement, text, mech, over=("inputs", "histories")):
    meta(pid, title, statement, list(over), text, LA_WHY, LA_F, mech, LA_BOUND, LA_OUT, LA_NOTE, LA_STATE,
         "the lewi_async policy calls: their result, the number of threads the caller and the others are told, and the table afterwards", LA_ASM)


la("L01", "LeWI without masks: CPUs are never created nor lost",
   "With the asynchronous LeWI policy for processes (--lewi --mode=async, no CPU masks), after any call the CPUs used by all processes plus the idle CPUs equal the CPUs contributed by the registered processes, counts never wrap, "
   "nobody loses CPUs of its own to others, and no CPU stays idle while a process asks for one. Lending N gives up exactly N, or is refused if the process has fewer; Lend keeps one CPU, borrowing takes as many idle CPUs as there are up to N, "
   "negative amounts are never honoured, and a refused call moves no CPU. When a process dies, the CPUs it had borrowed are not lost.",
   "every call, reachable table and argument",
   [("lend/borrow/reclaim", "src/LB_comm/shmem_lewi_async.c: shmem_lewi_async__lend_cpus, __lend_keep_cpus, __borrow_cpus, __acquire_cpus, __reclaim, __reset"), ("serving requests", "src/LB_comm/shmem_lewi_async.c: lend_ncpus_to_shmem; src/support/queues.c: queue_lewi_reqs_pop_ncpus")],
   over=("inputs", "histories", "crash_points"))
la("L02", "LeWI without masks: every process is told exactly its new number of CPUs",
   "After any call of the asynchronous LeWI policy for processes, the caller runs with the number of CPUs the table gives it, every other process whose number changed is notified once with its new number, "
   "no process whose number is unchanged is notified, and nobody is called while the shared-memory lock is held.",
   "every call, reachable table and argument",
   [("notifications", "src/LB_policies/lewi_async.c: lewi_async_set_num_threads, shmem_async_set_num_cpus calls"), ("new numbers", "src/LB_comm/shmem_lewi_async.c: lend_ncpus_to_shmem, reclaim_from_shmem")])
la("L03", "LeWI without masks: requests are recorded, served and withdrawn exactly",
   "In the asynchronous LeWI policy for processes: what AcquireCpus cannot grant at once is added to the process's pending request (DLB_NOTED), each CPU handed to a process settles one CPU of its request, and a process from which borrowed CPUs are reclaimed has them added to its request. "
   "A process that lends, disables LeWI or finishes no longer has a pending request; what it asked for plus the borrowed CPUs it gave up is saved, and is submitted again exactly once by its next acquire, reclaim of CPUs, or enable. "
   "Deleting requests leaves none. A process has at most one pending entry.",
   "every call, reachable table and argument",
   [("requests", "src/support/queues.c: queue_lewi_reqs_push, _remove, _pop_ncpus; src/LB_policies/lewi_async.c: prev_requested")])
la("L04", "LeWI without masks: a process always gets its own CPUs back",
   "In the asynchronous LeWI policy for processes, reclaiming, leaving a blocking call or disabling gives the process at least (disabling: exactly) the CPUs it contributed, whoever has them, and acquiring gives it those of its own CPUs it asks for. "
   "CPUs are taken only from processes that use more than they contributed, only down to what they contributed, and only when no CPU is idle.",
   "every call, reachable table and argument",
   [("reclaim", "src/LB_comm/shmem_lewi_async.c: reclaim_from_shmem, shmem_lewi_async__reclaim, reset_process")])
la("L05", "LeWI without masks: nothing remains of a process that finished or died",
   "After a process finalizes the asynchronous LeWI policy for processes, or is cleaned up after dying, its record is empty, it has no pending request, and the CPUs it had borrowed can be used by others.",
   "every reachable table at the moment of departure",
   [("departure", "src/LB_comm/shmem_lewi_async.c: shmem_lewi_async__finalize, cleanup_shmem")], over=("histories", "crash_points"))

LL_F = ["src/LB_comm/comm_lend_light.c", "src/LB_policies/lewi.c"]
LL_STATE = [("pool of idle CPUs", "number of idle CPUs (negative: CPUs owed to owners), number of processes; in each process: CPUs in use, own CPUs, enabled, max parallelism, greedy")]
LL_BOUND = ("one policy call by a process with 1..6 own CPUs and 0..18 in use, while the other processes (as one, owning 0..12 CPUs plus up to 6 when joining) change the pool by any amount in -6..6 or join before any access to the shared data, up to 4 times per call; "
            "pool -18..18, numbers of CPUs -2..12 as arguments")
LL_OUT = "weaker memory models (accesses are interleaved, not reordered); death of a process that had borrowed CPUs (the pool keeps no per-process record); more interference per call"
LL_NOTE = ("Bounded: one symbolic call of the real lewi.c + comm_lend_light.c with arbitrary interference of the other processes between any two accesses to the pool, decided by CBMC; "
           "the encoded comm_lend_light.c is /repo's with every access to the shared structure wrapped so that the interference can happen there.")


def ll(pid, title, statement, text, mech):
    meta(pid, title, statement, ["schedules", "inputs", "histories"], text,
         "The pool is updated without locks by all processes at once; tests run one process. The accounts must balance for every interleaving.", LL_F, mech, LL_BOUND, LL_OUT, LL_NOTE, LL_STATE,
         "the lewi policy calls: result, number of threads set, pool afterwards", ["the other processes keep the same accounts: each change of the pool is matched by a change of what they use"])


ll("L06", "Basic LeWI: the pool balances whatever the processes do concurrently",
   "With the basic LeWI policy (--lewi, no masks, polling mode), after any call by a process, and whatever other processes do to the pool at the same time, the CPUs in use by all processes plus the pool (which may be negative while borrowed CPUs are owed) equal the CPUs the attached processes own. "
   "A process that finalizes returns what it borrowed and takes back what it lent; joining, also concurrently with others joining and lending, loses nothing.",
   "every call, pool, greedy or not, and interleaving with the accesses of others",
   [("lock-free pool", "src/LB_comm/comm_lend_light.c: releaseCpus, acquireCpus, checkIdleCpus, ConfigShMem"), ("policy", "src/LB_policies/lewi.c")])
ll("L07", "Basic LeWI: a process gets what the call promises, and no more",
   "In the basic LeWI policy, Lend keeps one CPU and a blocking call one or none as configured; Reclaim and leaving a blocking call give at least the own CPUs (exactly those unless greedy); disabling leaves exactly the own CPUs. "
   "Borrowing takes only CPUs that are idle at that moment, never more than asked for or than max parallelism allows; it gives CPUs back only when the pool is owed CPUs and never own ones. Max parallelism is enforced at once. "
   "Zero or negative limits and negative amounts change nothing, and the runtime is never told a negative number or one different from the CPUs held.",
   "every call, pool, option and interleaving with the accesses of others",
   [("borrow", "src/LB_comm/comm_lend_light.c: checkIdleCpus; src/LB_policies/lewi.c: lewi_BorrowCpus"), ("limits", "src/LB_policies/lewi.c: lewi_SetMaxParallelism, lewi_DisableDLB")])
