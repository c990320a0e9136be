from meta import meta
N = "Bounded but exhaustive within the bounds: the real functions run from an arbitrary state, decided by CBMC with unwinding assertions; counterexamples are replayed natively."
meta("P01", "Each LeWI call does exactly its operation and tells who gains or loses CPUs",
     "Each LeWI call asks the CPU table for exactly the operation, CPUs, count and limits the caller and the affinity allow, and returns its answer. For every CPU that changes hands the process concerned is told exactly once: by its callbacks, or in async mode by a message to the other process. A blocked thread lends its CPUs except a core it keeps and gets them back silently; CPUs lost meanwhile are given up at once (async) or on return.",
     ["inputs", "histories"], "every call, argument, answer of the table and list of CPU changes, mode, affinity, ownership and pending set", "Tests fix the mode, masks and sharing pattern.",
     ["src/LB_policies/lewi_mask.c"], [("policy", "src/LB_policies/lewi_mask.c: resolve_cpuinfo_tasks, lewi_mask_UpdateOwnershipInfo, lewi_mask_IntoBlockingCall, lewi_mask_OutOfBlockingCall, lewi_mask_LendCpuMask, lewi_mask_ReclaimCpuMask, lewi_mask_AcquireCpusInMask, lewi_mask_BorrowCpusInMask, lewi_mask_Return, lewi_mask_ReturnCpu, lewi_mask_ReturnCpuMask, lewi_mask_UpdateOwnership, lewi_mask_SetMaxParallelism")],
     "4 CPUs on 2 NUMA nodes (with and without SMT), up to 3 (thorough: 4) CPU changes per answer, two processes, one call from an arbitrary pending set; affinities auto, mask, nearby-first, nearby-only, spread-ifempty",
     "the CPU table and the message queue, which the C and D properties decide, are replaced by recorders; asking to borrow a non-positive number of CPUs; threads of one process calling at the same time", N,
     observe="calls to the CPU table, callbacks, messages to other processes, returned codes", state=[("pending", "CPUs lost while blocked, not yet returned"), ("priority", "CPUs by affinity")],
     assumptions=["the CPU table only reports changes with the codes its own properties allow"])
