from meta import meta
N = "Bounded but exhaustive within the bounds: the real functions run from an arbitrary state, decided by CBMC with unwinding assertions; counterexamples are replayed natively."
meta("B01", "A node barrier has one instance per name and waits for all of its participants",
     "Registering or attaching makes the process a participant once, the count returned is that of all participants, and a barrier always waits for exactly its current participants. Detaching, finalizing or dying gives up the process's place and the last one frees the barrier. Errors change nothing. Waiting processes hold no other lock and lend CPUs exactly when the call, option or selection asks.",
     ["inputs", "histories", "crash_points"], "every table of barriers, process list, operation, flag and name", "Tests use one or two barriers in fixed orders.",
     ["src/LB_comm/shmem_barrier.c", "src/LB_core/node_barrier.c"], [("table", "src/LB_comm/shmem_barrier.c: shmem_barrier__register, shmem_barrier__attach, shmem_barrier__detach, shmem_barrier__barrier, cleanup_shmem"), ("process", "src/LB_core/node_barrier.c: node_barrier_init, node_barrier_register, node_barrier, node_barrier_attach, node_barrier_detach, node_barrier_finalize, parse_lewi_barrier")],
     "one operation on a table of 3 (thorough: 4) barriers, up to 3 participants, 4 names, 6 selections; pairs of arbitrary names of up to 3 letters and around the longest length", "pthread_barrier_wait itself and simultaneous operations of several processes (each operation holds the barrier's or the table's lock), timeouts of the lock", N,
     observe="returned codes, table and list of barriers, participants each pthread barrier waits for", state=[("table", "barriers with name, participants, flags"), ("list", "barriers the process takes part in")])
