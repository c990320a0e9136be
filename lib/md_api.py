from meta import meta
N = "Bounded but exhaustive within the bounds: the real functions run from an arbitrary state, decided by CBMC with unwinding assertions; counterexamples are replayed natively."
meta("A01", "API calls work only when they may, and then do exactly what was asked",
     "Before initialization or after finalization no LeWI call does anything and an error is returned. Without LeWI, while it is disabled, or when the policy lacks the operation, the call is refused with its own error and changes nothing. Otherwise the policy performs exactly that operation, once, for the calling process or handler, with the caller's arguments, and its answer is returned. Observer threads and unattached threads never trigger LeWI or TALP.",
     ["inputs", "configurations", "histories"], "every LeWI entry point, plain and by handler, argument, option set and life-cycle state", "Tests call a few entry points in a few states.",
     ["src/apis/DLB_interface.c", "src/apis/DLB_interface_sp.c", "src/LB_core/DLB_kernel.c", "src/LB_core/lb_funcs.c", "src/LB_core/spd.c"],
     [("gate", "src/LB_core/DLB_kernel.c: lend, reclaim, acquire_cpus, borrow_cpus_in_mask, return_cpu_mask, check_cpu_availability, set_max_parallelism, set_lewi_enabled, into_sync_call, out_of_sync_call"), ("entry points", "src/apis/DLB_interface.c: DLB_Lend, DLB_AcquireCpusInMask, DLB_Enable; src/apis/DLB_interface_sp.c: DLB_Lend_sp"), ("table", "src/LB_core/lb_funcs.c: set_lb_funcs")],
     "23 operations, plain and by handler, 4 life-cycle states, every combination of modules, modes and affinities; 3 enable/disable calls", "the policies (decided by the L and P properties), calls of several threads at once, initialization that fails halfway, Fortran and MPI wrappers", N,
     observe="calls to the policy with their arguments, returned codes", state=[("options", "modules, mode, affinity"), ("state", "initialized, LeWI enabled")])
meta("A02", "Initialization attaches what the options need; finalization detaches it all",
     "Initialization picks the policy its options ask for, registers the process and its CPUs exactly when masks matter, attaches exactly the modules asked for under its identifier, key and color, and refuses classic LeWI with modules that need masks. A process is initialized once. Finalization detaches everything once, and the process can start again. When DROM gives a process a new mask, CPU ownership, the mask it knows and, if asked, its callback follow exactly.",
     ["inputs", "configurations", "histories"], "every combination of modules, mode, affinity, color, preinitialization, given mask and answer of DROM", "Tests initialize with a few option sets.",
     ["src/LB_core/DLB_kernel.c", "src/apis/DLB_interface.c", "src/apis/DLB_interface_sp.c"],
     [("life cycle", "src/LB_core/DLB_kernel.c: Initialize, Finish; src/apis/DLB_interface.c: DLB_Init, DLB_Finalize; src/apis/DLB_interface_sp.c: DLB_Init_sp, DLB_Finalize_sp"), ("DROM", "src/LB_core/DLB_kernel.c: poll_drom, poll_drom_update, drom_setprocessmask")],
     "one process or subprocess, one initialization and finalization (and another initialization), one DROM change", "initialization that fails halfway (a shared memory full or taken), DLB_PreInit, releasing CPUs to Slurm, MPI", N,
     observe="attachments of each module, masks, callbacks, returned codes", state=[("attached", "modules attached, for whom"), ("mask", "the process mask")])
meta("A03", "A registered callback is called exactly once per change, with its own argument",
     "What is registered is read back, unknown callbacks are refused, and none survives finalization. Threads asked for are limited to 1..CPUs of the node. Enabling or disabling CPUs reaches the process whenever some registered callback allows it: the specific one, the one for sets, one CPU at a time, or the active mask; exactly one of them, once per CPU or set, with the argument it was registered with.",
     ["inputs", "configurations"], "every subset of registered callbacks, CPU, mask and thread count", "Tests register all callbacks, or one.",
     ["src/LB_numThreads/numThreads.c"], [("callbacks", "src/LB_numThreads/numThreads.c: pm_callback_set, pm_callback_get, update_threads, set_mask, set_process_mask, add_mask, add_process_mask, enable_cpu, enable_cpu_set, disable_cpu, disable_cpu_set")],
     "4 CPUs, all 9 callbacks in any combination, one call", "what the callbacks do", N, observe="callbacks invoked, arguments, returned codes", state=[("callbacks", "registered functions and arguments")])
