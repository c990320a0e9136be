from meta import meta
N = "Bounded but exhaustive within the bounds: the real functions run from an arbitrary state, decided by CBMC with unwinding assertions; counterexamples are replayed natively."
meta("T06", "The shared table of TALP regions keeps every process's regions apart",
     "Registering a region adds it once per process and name, in a free place, while there is one, and looking it up or listing it finds exactly the registered ones with the times last published. Publishing changes that region only. A process that leaves or dies takes all its regions and no others with it; lists are sorted by process and never exceed the space given.",
     ["inputs", "histories", "crash_points"], "every table content, operation, process, name, id and list size", "Tests register a few regions of one or two processes.",
     ["src/LB_comm/shmem_talp.c"], [("table", "src/LB_comm/shmem_talp.c: shmem_talp__register, shmem_talp__get_*, shmem_talp__set_*"), ("departure", "src/LB_comm/shmem_talp.c: shmem_talp__finalize, cleanup_shmem"), ("attaching", "src/LB_comm/shmem_talp.c: shmem_talp__init")],
     "one operation on a table of 4 (thorough: 6) places, 3 processes, 3 names, times up to 2^40", "names of maximal length, text output, concurrent accesses (each operation is one critical section; times are single atomic stores)", N,
     observe="returned codes, lists, regions of the table", state=[("table", "places with process, name, times and average CPUs; unique per process and name; count of places in use")])
meta("T07", "TALP metrics and times are exact, within range and include every process",
     "Metrics of a node total exactly the times of all processes that used the region, exist only then, and a process shares its times until all others of the node have read them without losing regions shared before. Efficiencies are numbers from 0 to 1, exactly 1 when there is nothing to lose. Sums, differences and multiples of times are exact and normalized.",
     ["inputs", "schedules"], "every set of times within the bounds, every moment at which another process may read", "Tests use one process and a few times; divisions by zero and early removal need particular ones.",
     ["src/LB_core/DLB_talp.c", "src/support/perf_metrics.h", "src/support/mytime.c"], [("node metrics", "src/LB_core/DLB_talp.c: talp_query_pop_node_metrics, talp_collect_pop_node_metrics"), ("models", "src/support/perf_metrics.h: perf_metrics__infer_mpi_model, perf_metrics__compute_hybrid_model_v1/v2, talp_base_metrics_to_pop_metrics"), ("times", "src/support/mytime.c: diff_time, add_time, mult_time, timespec_diff")],
     "totals: 3 processes, times up to 2^50; efficiencies: 2 processes equally long in the region up to 1023 units, application metrics of one process with times up to 63 units; times up to 3 s with every nanosecond (sums of microseconds: thorough)", "MPI reductions, metrics of processes with different elapsed times, version 1 and 2 models over several processes", N,
     observe="dlb_node_metrics_t, dlb_pop_metrics_t, struct timespec, what other processes would read")
