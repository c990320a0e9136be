from meta import meta
N = "Bounded but exhaustive within the bounds: the real functions run from an arbitrary state, decided by CBMC with unwinding assertions; counterexamples are replayed natively."
meta("S01", "Attached processes share one segment, which lives as long as it is in use",
     "The first process to attach creates and initializes a shared memory segment once, later ones use it unchanged, never shrinking it; another version is refused without blocking the rest. Attached processes are listed once, dead ones cleaned up once under the lock. Only the last process to leave removes an empty segment, never one that another process is attaching to, whatever the interleaving. Locks and files are released.",
     ["schedules", "histories", "crash_points"], "every process list, dead process, version, size and state of creation, and every step of one process at which another attaches or leaves", "Tests attach two processes one after the other; the races need a process to attach while the last one leaves.",
     ["src/LB_comm/shmem.c"], [("attaching", "src/LB_comm/shmem.c: shmem_init, shmem_consistency_check_pids, shmem_consistency_check_version"), ("leaving", "src/LB_comm/shmem.c: shmem_finalize, shmem_consistency_remove_pid")],
     "lists of 3 (thorough: 4) places; one other process attaches or leaves completely between any two system calls, locks or unlocks of the process under test", "crash in the middle of creating a segment, more processes than places in the list, file names, forced removal (dlb_shm, dlb_clean), interleavings where both processes are preempted", N,
     observe="files, mappings, locks, process list, cleanups", state=[("files", "segments by inode: linked, size, mapped"), ("list", "attached processes")],
     assumptions=["shm_open, ftruncate, fstat, mmap, munmap, shm_unlink, kill and mutexes are modelled"])
