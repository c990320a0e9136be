from meta import meta
TF = ["src/LB_core/DLB_talp.c", "src/LB_core/talp_types.h", "src/LB_core/DLB_talp.h"]
NOTE = "Bounded but exhaustive within the bounds: the real DLB_talp.c runs from an arbitrary state of its regions and samples under a symbolic clock, decided by CBMC with unwinding assertions and memory-safety checks; counterexamples are replayed natively under ASan/UBSan."
NOPAPI = "PAPI counters (built without), MPI reductions, the text written at the end, the ordered-tree library (a map stand-in where regions are created or all destroyed)"
SEQ = (("open", "the regions that are started, in the order they were opened, each once"), ("samples", "per thread: time pending in each state since the regions were last updated, current state and when it was last updated"))
meta("T01", "TALP regions start, stop and reset exactly as documented",
     "Starting a stopped enabled region, stopping a started one (or the innermost one), resetting and updating succeed exactly when the region's state allows, otherwise report no update and change nothing. Elapsed time is stop minus start, one measurement per stop, the open regions form a stack without duplicates, other regions are untouched, and finalizing closes and reports every region once.",
     ["inputs", "histories"], "every state of all regions and threads, every operation, region and clock", "Tests call a handful of sequences; applications nest, overlap and reset regions in any order.",
     TF, [("region calls", "src/LB_core/DLB_talp.c: monitoring_region_start, monitoring_region_stop, monitoring_region_reset, monitoring_regions_force_update"), ("initialisation and end", "src/LB_core/DLB_talp.c: talp_mpi_init, talp_mpi_finalize, talp_openmp_init, talp_finalize")],
     "one operation from any state; 3 regions, 2 threads (thorough: 4 and 3), any order of open regions, times up to 2^40; finalizing with 0, 2 or 3 open regions", NOPAPI, NOTE, state=SEQ, assumptions=["clocks do not run backwards"], observe="returned codes, public dlb_monitor_t fields, list of open regions, recorded output")
meta("T02", "Every thread's time goes to exactly one state of every open region",
     "From one event to the next, all of a thread's time is counted in exactly one place: useful, MPI, outside of parallel, or waiting in a parallel region, according to the state it was in, and once, in every region open at that time and in no other. Counts of MPI calls, parallels and tasks grow by exactly one per event. A thread that appears starts with no time.",
     ["inputs", "histories"], "every state of regions and samples, every event, thread and clock", "Tests compare some counters after fixed sequences; lost or doubled time shows only in particular combinations.",
     TF, [("samples", "src/LB_core/DLB_talp.c: talp_update_sample, talp_set_sample_state, talp_aggregate_samples, talp_get_thread_sample"), ("events", "src/LB_core/DLB_talp.c: talp_into_sync_call, talp_out_of_sync_call, talp_openmp_*")],
     "one event of one thread from any state; 2 threads (thorough: 4), 3 regions, times up to 2^40 ns", NOPAPI, NOTE, state=SEQ, assumptions=["clocks do not run backwards"], observe="times and counts of all regions plus those pending in samples")
meta("T03", "Time in parallel regions is split as defined between its losses",
     "When a parallel region ends, idle time of its threads is scheduling (what the least idle thread lost) and load imbalance (the rest), idle time of the process's other threads is serialization, all of it counted once in the regions open; afterwards all threads of the team are outside again and counts of parallels are right, also for nested parallel regions.",
     ["inputs", "histories"], "every sample state, team size, nesting level and clock", "The split depends on the minimum over threads and who belongs to the team.",
     TF, [("parallel regions", "src/LB_core/DLB_talp.c: talp_openmp_parallel_begin, talp_openmp_into_parallel_function, talp_openmp_parallel_end, talp_flush_sample_subset_to_regions")],
     "2, 3 threads (thorough 5), teams of 1 to 4, levels 1 and 2, 2 or 3 regions, times up to 2^40 ns", "teams whose threads move between teams meanwhile; " + NOPAPI, NOTE, state=SEQ, assumptions=["clocks do not run backwards"], observe="times of all regions, states of the threads")
meta("T04", "TALP's accounting is exact when threads use it concurrently",
     "While one thread starts, stops, updates regions or changes state, another may do the same at any point: the time of all threads is neither lost nor counted twice, two threads never both start or both stop the same region, one stop is one measurement, the elapsed time of a region stays stop minus start, and samples of new threads never contribute arbitrary values.",
     ["schedules"], "every point at which another thread's whole operation may happen, every state, every pair of operations listed", "Depends on instructions interleaving in a window of nanoseconds.",
     TF, [("concurrency", "src/LB_core/DLB_talp.c: talp_update_sample, talp_aggregate_samples, talp_get_thread_sample, monitoring_region_start, monitoring_region_stop")],
     "two threads, one whole operation of the second between any two accesses to time or state, mutex operations or clock readings of the first; 2 or 3 regions, samples and times 0..3", "more than one interfering operation, weak memory effects; " + NOPAPI, NOTE, state=SEQ, assumptions=["clocks do not run backwards"], observe="times of the global region plus those pending in samples, returned codes")
meta("T05", "TALP regions have one identity per name and are selected as asked",
     "Registering a name (case aside, up to its maximum length) twice gives the same region, different names different ones, the reserved names are the global region, unnamed ones are always new; a new region is zeroed and its name is kept, also when threads register concurrently. The list of selected regions enables exactly those it names, or all, or all it does not exclude.",
     ["inputs", "schedules"], "every name within the bounds, every selection text of the length, a concurrent registration at any lock or tree operation", "Tests use some names; long, empty, repeated and reserved ones and races are easy to miss.",
     TF, [("names", "src/LB_core/DLB_talp.c: monitoring_region_register, monitoring_region_initialize, parse_monitor_name, key_compare_func, monitoring_region_is_global"), ("selection", "src/LB_core/DLB_talp.c: parse_region_select, talp_init")],
     "two (thorough: three) registrations of named, maximal length, empty, null, reserved names; selections of 4 (thorough: 6) characters with each kind of prefix over an alphabet of letters, commas and case; texts all and global", "longer selections; string functions of libc and the tree are small models", NOTE, observe="region handles, names, enabled flags")
