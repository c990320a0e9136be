from meta import meta, na

CPU_F = ["src/LB_comm/shmem_cpuinfo.c", "src/LB_comm/shmem_cpuinfo.h", "src/support/mask_utils.c", "src/support/queue_template.h"]
CPU_STATE = [("CPU table in shared memory", "owner, current user, owner's view (unregistered / wanted / lent) and request queue of every CPU; sets of free and occupied CPUs; queue of global requests")]
CPU_BOUND = ("one operation from an arbitrary table satisfying the invariant (every reachable table does: the operations are shown to keep it); "
             "4 CPUs as 4 cores x 1 or 2 cores x 2 hardware threads (thorough: also interleaved numbering), 3 processes plus nobody, any owner/user/state "
             "assignment, at most 2 entries per request queue (sizes fixed per query, contents symbolic), CPU arguments and masks symbolic or one concrete value per query")
CPU_OUT = ("more than 4 CPUs or 3 processes, fuller request queues, cores with more than 2 threads; asynchronous mode with two global requests on "
           "SMT; lowering max parallelism while requests are queued (solver memory); the lock itself and the shared-memory segment are replaced by stand-ins")
CPU_WHY = ("The tests drive a few scripted sequences of 2-4 processes on 2-8 CPUs; the guarantee must hold for every table the node can reach, "
           "every caller, CPU, mask and every set of pending requests.")
CPU_NOTE = ("Bounded but exhaustive within the bounds: one symbolic step of each operation of the real shmem_cpuinfo.c from an arbitrary invariant-satisfying "
            "table, decided by CBMC's SAT solver with unwinding assertions; trusts CBMC, the cpu_set_t/lock/segment stand-ins and the stated invariant.")
CPU_ASM = ["operations on the CPU table are atomic (they run under the shared-memory lock)", "the shared memory holds a table satisfying the invariant checked by C01-C09",
           "the CPUs of one core belong to one process (whole-core masks)"]


def cpu(pid, title, statement, text, mech, over=("inputs", "histories"), why=CPU_WHY, bounds=CPU_BOUND, outside=CPU_OUT, note=CPU_NOTE):
    meta(pid, title, statement, list(over), text, why, CPU_F, mech, bounds, outside, note, CPU_STATE,
         "the shmem_cpuinfo operations: their result, the enable/disable requests they produce, and the table afterwards", CPU_ASM)


cpu("C01", "A CPU has one user at a time, and nobody else can take it away from it",
    "Whatever operation a process performs, a CPU in use by another process stays in use by it until that process itself gives it up, so two processes never hold the same CPU. "
    "The enable and disable requests an operation produces agree with who holds each CPU afterwards: a process is told to enable a CPU only if it now holds it or has reclaimed it as its owner, every process that is handed a CPU is told, "
    "only the current user of a CPU is asked to leave it, only on behalf of its owner, and no request is addressed to nobody.",
    "every operation of the LeWI interface, registration, ownership update, departure and cleanup; every reachable table; every argument",
    [("lend/reclaim/acquire/borrow/return", "src/LB_comm/shmem_cpuinfo.c: lend_cpu, reclaim_cpu, acquire_cpu, borrow_cpu, return_cpu"),
     ("new user of a released CPU", "src/LB_comm/shmem_cpuinfo.c: find_new_guest")])
cpu("C02", "Only CPUs lent by their owner are given to others; ownership stays put",
    "A process obtains a CPU it does not own only while the owner has lent it and nobody is using it, and a CPU that is not registered by any process is never handed out. "
    "Lending, reclaiming, acquiring, borrowing, returning and resetting never change who owns a CPU, and only the owner changes whether its CPU is lent or wanted back. "
    "A CPU changes owner only through an ownership operation that names it, and then only in favour of the caller.",
    "every operation, reachable table and argument",
    [("lend state", "src/LB_comm/shmem_cpuinfo.c: find_new_guest, borrow_cpu, acquire_cpu"), ("ownership", "src/LB_comm/shmem_cpuinfo.c: register_process, deregister_cpu, shmem_cpuinfo__update_ownership")])
cpu("C03", "An owner that reclaims its CPUs gets them back",
    "Reclaiming an owned CPU marks it as wanted; it is recovered at once if it is idle, and otherwise its user is asked to leave and the result says that the CPU is pending. "
    "When the user of a wanted CPU returns or lends it, the CPU goes to its owner and to nobody else; returning gives up neither owned CPUs nor CPUs nobody asked back. "
    "Every CPU used by a process other than its owner remains tracked so that reclaim-all, reclaim-by-mask and return-all find it.",
    "every reclaim and return variant, reachable table and argument",
    [("reclaim", "src/LB_comm/shmem_cpuinfo.c: reclaim_cpu, reclaim_core, shmem_cpuinfo__reclaim_*"), ("return", "src/LB_comm/shmem_cpuinfo.c: return_cpu, shmem_cpuinfo__return_*"),
     ("occupied CPUs", "src/LB_comm/shmem_cpuinfo.c: update_occupied_cores")])
cpu("C04", "Idle lent CPUs are never lost: they stay available to be taken",
    "After every operation, each registered CPU that nobody uses is in the set of free CPUs, and no CPU in use is in it. "
    "Lending a CPU makes its lender stop using it and affects no other CPU in use; an idle lent CPU whose core is not used or wanted by others is obtained by whoever borrows it, and a failed borrow changes nothing.",
    "every operation, reachable table and argument",
    [("free set", "src/LB_comm/shmem_cpuinfo.c: lend_cpu, borrow_cpu, acquire_cpu, return_cpu"), ("borrow", "src/LB_comm/shmem_cpuinfo.c: shmem_cpuinfo__borrow_cpu, shmem_cpuinfo__borrow_from_cpu_subset")])
cpu("C05", "Hardware threads of one core are not shared by different borrowers",
    "On nodes with several hardware threads per core, a CPU is given to a process other than its owner only if every other thread of the core is idle or used by that same process and none is wanted back by its owner. "
    "Reclaiming one thread of a core from a borrower asks back the whole core, and a borrower that returns its CPUs also gives up the other threads of a core being reclaimed.",
    "every operation, reachable table and argument on 2-way SMT topologies",
    [("core eligibility", "src/LB_comm/shmem_cpuinfo.c: core_is_eligible, borrow_core, acquire_core, shmem_cpuinfo__reclaim_cpu")])
cpu("C06", "A process that leaves, is removed, or dies leaves no trace in the CPU table",
    "After a process deregisters, finalizes, is finalized by an administrator or is cleaned up after dying, it owns and uses no CPU and has no pending request of any kind. "
    "The CPUs it owned become unregistered, or public if so configured; the lent CPUs it was using become available again; other processes keep their CPUs, ownership and lend state.",
    "every reachable table at the moment of departure (any point of the process's history)",
    [("departure", "src/LB_comm/shmem_cpuinfo.c: shmem_cpuinfo__deregister, shmem_cpuinfo__finalize, shmem_cpuinfo_ext__postfinalize, cleanup_shmem")],
    over=("histories", "crash_points"))
cpu("C07", "Requests for N CPUs and max parallelism are respected exactly",
    "An operation asking for N CPUs obtains at most N (rounded up to whole cores with SMT), never exceeds the caller's max parallelism, and does nothing when asked for none; borrowing N takes as many idle lent CPUs as are needed and available. "
    "Reclaiming N CPUs reclaims exactly N while that many are lent. "
    "Lowering max parallelism leaves the process with at most that many CPUs, and a reset leaves it using only owned CPUs with all of them wanted back.",
    "every requested amount, limit, priority list, affinity mode and reachable table",
    [("limits", "src/LB_comm/shmem_cpuinfo.c: shmem_cpuinfo__borrow_ncpus_from_cpu_subset, shmem_cpuinfo__acquire_ncpus_from_cpu_subset, shmem_cpuinfo__reclaim_cpus, shmem_cpuinfo__update_max_parallelism, shmem_cpuinfo__reset")])
cpu("C08", "Asynchronous requests are served only to those who asked, and are not forgotten",
    "In asynchronous mode a CPU is pushed to another process only if that process had requested that CPU or any CPU of a set containing it; a CPU that is lent does not stay idle while an eligible process is waiting for it. "
    "An acquisition that cannot be served is recorded as a request (or its failure reported), what was asked for but not obtained remains requested, and a process that has to give a borrowed CPU back is queued for it again. "
    "Removing a process's requests removes all of its requests and only those.",
    "every content of the request queues, reachable table, lender and CPU",
    [("request queues", "src/LB_comm/shmem_cpuinfo.c: find_new_guest, lend_cpu, acquire_cpu, shmem_cpuinfo__acquire_ncpus_from_cpu_subset, shmem_cpuinfo__remove_requests, shmem_cpuinfo__return_async_cpu")])
cpu("C09", "Registration and ownership changes leave the CPU table exact",
    "Registering a process fails exactly when one of its CPUs belongs to another process (unless it steals or replaces its own pre-registration), changes nothing when it fails, and otherwise gives it exactly the CPUs of its mask. "
    "When a process's mask is updated, exactly the CPUs of the new mask belong to it, released CPUs are unregistered, current users of newly owned CPUs are told to leave, and the sets of free and occupied CPUs stay exact.",
    "every mask and reachable table",
    [("register", "src/LB_comm/shmem_cpuinfo.c: register_process, shmem_cpuinfo__init, shmem_cpuinfo_ext__preinit"), ("update ownership", "src/LB_comm/shmem_cpuinfo.c: shmem_cpuinfo__update_ownership")])
cpu("C10", "CPU ids and masks beyond the node are rejected or ignored without corruption",
    "An operation that names a single CPU which does not exist on the node (negative or too large) returns an error and changes nothing. "
    "CPUs beyond the node in a mask are ignored: they are never used to access the table, never enter the sets of CPUs, and never appear in callbacks.",
    "every 32-bit CPU id, and masks with any combination of CPUs inside and outside the node",
    [("argument checks", "src/LB_comm/shmem_cpuinfo.c: shmem_cpuinfo__*_cpu, shmem_cpuinfo__*_cpu_mask, register_process")], over=("inputs",),
    why="Tests pass a few bad ids; memory safety must hold for every id and mask.",
    bounds="4 CPUs (4x1 and 2x2), three concrete tables, any 32-bit CPU id (for lending: the boundary values -2^31, -1, 0, 4, 2^31-1), masks over CPUs {0,1,4,5,63} (for lending: four masks); exact-size heap table with pointer and bounds checks",
    outside="masks with more than 64 bits; acquire/borrow with priority arrays (internal, built from node CPUs)",
    note="All ids and masks within the bounds decided by CBMC with pointer and bounds checks on an exact-size table; ASan replay of counterexamples.")

# ---- DROM -------------------------------------------------------------------
PROC_F = ["src/LB_comm/shmem_procinfo.c", "src/LB_comm/shmem_procinfo.h", "src/support/mask_utils.c"]
PROC_STATE = [("process table in shared memory", "pid, running mask, pending mask and its flag, CPUs taken away (stolen), pre-registered flag of every process; set of free CPUs")]
PROC_BOUND = ("one operation from an arbitrary process table satisfying the invariant (shown to be kept): 4 CPUs, 4 process slots, any assignment of CPUs to free / running / pending masks, "
              "any stolen sets, any target pid (registered or not), any mask, any flags; the caller is unregistered or sits in slot 0 or 2; synchronous waits see 1 or 2 polls, between which the other "
              "processes take their pending masks, leave, or register free CPUs")
PROC_OUT = ("more than 4 CPUs / processes; the parent-process lookup through /proc; shared CPUs mode; a process that inherits only a part of its own pre-registration under its own pid; CPU masks beyond the node; "
            "several administrators changing the same process during one synchronous wait")
PROC_NOTE = ("Bounded but exhaustive within the bounds: one symbolic operation of the real shmem_procinfo.c from an arbitrary invariant-satisfying table, decided by CBMC with unwinding assertions; "
             "trusts CBMC, the stand-ins for cpu_set_t, lock, clock and sleep, and the stated invariant.")
PROC_WHY = "The tests follow a few scripted process sequences; the guarantee must hold for every table, mask, target and interleaving of polls with the operation."
PROC_ASM = ["operations on the process table run under the shared-memory lock", "time is an arbitrary non-decreasing clock; processes act between the polls of a synchronous wait"]


def drom(pid, title, statement, text, mech, over=("inputs", "histories"), **kw):
    meta(pid, title, statement, list(over), text, kw.get("why", PROC_WHY), PROC_F, mech, PROC_BOUND, PROC_OUT, PROC_NOTE, PROC_STATE,
         "the shmem_procinfo operations: their result, their output masks and lists, and the table afterwards", PROC_ASM)


drom("D01", "DROM: every CPU is free or belongs to exactly one process",
     "Whatever DROM operation is performed (register, pre-register, inherit, set or get a mask, poll, steal, recover, finalize, clean up, with or without synchronous waiting), every CPU of the node is afterwards either free or "
     "in the effective mask (pending mask if there is one, running mask otherwise) of exactly one process: no CPU is lost or held twice.",
     "every operation, reachable table, target, mask, flag and interleaving of the other processes with synchronous waits",
     [("register/unregister CPUs", "src/LB_comm/shmem_procinfo.c: register_mask, unregister_mask"), ("stealing", "src/LB_comm/shmem_procinfo.c: steal_mask, set_new_mask")], over=("inputs", "histories", "schedules"))
drom("D02", "DROM: a new mask stays pending until its process takes it",
     "Setting the mask of another process leaves the mask it runs with untouched and makes the new one pending; it is refused with DLB_ERR_PDIRTY exactly while another change is pending. Polling succeeds exactly when a change is pending, returns it with its number of CPUs and makes it the running mask. "
     "A process sets its own mask at once (unless DLB_NO_SYNC) or takes the pending one by setting it. A failed operation changes nothing, and a synchronous set or query ends in success once the process has taken the change, in timeout, or in DLB_ERR_NOPROC if it left.",
     "every reachable table, target, mask, flags, and schedule of polls and departures",
     [("set mask", "src/LB_comm/shmem_procinfo.c: shmem_procinfo__setprocessmask, shmem_procinfo__setprocessmask_self"), ("poll", "src/LB_comm/shmem_procinfo.c: shmem_procinfo__polldrom"), ("get mask", "src/LB_comm/shmem_procinfo.c: shmem_procinfo__getprocessmask")],
     over=("inputs", "histories", "schedules"))
drom("D03", "DROM: processes are registered once, exactly with the mask they are granted",
     "A pid is registered at most once. Registration and pre-registration succeed exactly when the CPUs are free (or are taken with DLB_STEAL_CPUS), report a full table, and change nothing when they fail. "
     "A process started with a pre-registration inherits exactly the reserved mask, or the mask it asks for when that only adds free CPUs or leaves CPUs reserved; the rest stays reserved. The pid list has every registered process once and never exceeds its capacity.",
     "every reachable table, pid, pre-registered pid, mask and list capacity",
     [("init", "src/LB_comm/shmem_procinfo.c: shmem_procinfo__init_"), ("preinit", "src/LB_comm/shmem_procinfo.c: shmem_procinfo_ext__preinit"), ("pid list", "src/LB_comm/shmem_procinfo.c: shmem_procinfo__getpidlist")])
drom("D04", "DROM: stolen CPUs are taken openly and go back where they came from",
     "Stealing takes exactly the requested CPUs; each process that loses some is told (a change becomes pending) and keeps running with them until it reacts, and the loss is remembered. A steal that fails or times out is undone completely. "
     "With DLB_RETURN_STOLEN a process that gives CPUs up or finishes returns them to the process they were taken from, otherwise they become free; recovering takes exactly the stolen CPUs that are free.",
     "every reachable table, thief, mask, flags and schedule of the victims",
     [("steal and roll back", "src/LB_comm/shmem_procinfo.c: steal_mask, set_new_mask"), ("give back", "src/LB_comm/shmem_procinfo.c: unregister_mask, shmem_procinfo_ext__recover_stolen_cpus")], over=("inputs", "histories", "schedules"))
drom("D05", "DROM: a process that finishes or dies releases exactly its CPUs",
     "After a process finalizes, is finalized by an administrator or is cleaned up after dying, it is not in the table and the CPUs of its effective mask are free (or returned, if requested); no other process loses a CPU, changes its running mask or is removed. "
     "An unknown pid is reported and changes nothing.",
     "every reachable table at the moment of departure, including pending masks and stolen CPUs",
     [("departure", "src/LB_comm/shmem_procinfo.c: shmem_procinfo__finalize, shmem_procinfo_ext__postfinalize, cleanup_shmem")], over=("histories", "crash_points"))
from md_lewi import *  # noqa
from md_mask import *  # noqa
from md_talp import *  # noqa
from md_talp2 import *  # noqa
from md_barrier import *
from md_shmem import *
from md_policy import *
from md_api import *
