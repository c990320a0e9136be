from meta import meta
MF = ["src/support/mask_utils.c", "src/support/mask_utils.h"]
NOTE = "Bounded but exhaustive within the bounds: one symbolic execution of the real mask_utils.c functions against an independent definition, decided by CBMC with unwinding assertions and memory-safety checks."
meta("M01", "CPU set operations mean what they say on machines of any size",
     "For machines of up to 1024 CPUs, every set operation (union, intersection, difference, symmetric difference, equality, (proper) sub- and superset, intersection test, count, single, first, last, next and next unset CPU) gives exactly the set, number or CPU its name promises, also when the result overwrites an operand, and changes nothing else.",
     ["inputs"], "every pair of sets, every CPU and every machine size 1..1024", "Tests use small machines and a few masks; word boundaries and machine sizes that are not multiples of 64 matter everywhere masks are used.",
     MF, [("set algebra", "src/support/mask_utils.c: mu_and .. mu_substract, mu_is_subset .., mu_count"), ("iteration", "src/support/mask_utils.c: mu_get_first_cpu, mu_get_last_cpu, mu_get_next_cpu, mu_get_next_unset")],
     "sets of 1024 CPUs (16 words), machine size 1..1024, sets within the machine, any position -2..1023", "CPUs beyond the machine's size inside a set", NOTE, observe="results of the mu_* functions")
meta("M02", "Cores and NUMA nodes of CPUs are looked up exactly",
     "Given a machine, every CPU number is mapped to its core and the core's CPUs, and any number that is not a CPU (or core) to none, without reading outside the tables. The cores or NUMA nodes touched by or contained in a set, the count, last and removal of complete cores, adding and removing a core, and the next CPU of a later core are exactly those of the machine.",
     ["inputs", "configurations"], "every assignment of CPUs to cores and NUMA nodes, every set, every number", "Tests use regular machines; real ones have offline CPUs, interleaved threads and uneven nodes.",
     MF, [("topology", "src/support/mask_utils.c: init_system_masks, mu_get_core_id, mu_get_core_mask, mu_get_nodes_*, mu_get_cores_*, mu_count_cores, mu_take_last_coreid, mu_get_cpu_next_core")],
     "6 CPUs in 3 cores and 2 NUMA nodes, 4 CPUs in 4 cores and 4 nodes (thorough: also 5/2/1 and 6/6/1), any assignment of CPUs to cores and nodes including CPUs in none; CPU and core arguments from -3 to 2 beyond the last", "larger machines, hwloc discovery", NOTE, observe="results of the mu_* topology functions")
meta("M03", "CPU orders used to place threads are strict, total and as documented",
     "The comparison of CPUs by ownership and by affinity is a strict total order for every process mask and affinity levels (irreflexive, antisymmetric, transitive, no two CPUs tie), and is the documented one: owned CPUs or nearer levels first, then CPUs after the first owned one, then wrapping around; within each, by core and CPU.",
     ["inputs", "configurations"], "every machine, mask, affinity levels and triple of CPUs", "Sorting with an inconsistent order is undefined and depends on the input order; tests only sort a few lists.",
     MF, [("orders", "src/support/mask_utils.c: cmp_cpuids, mu_cmp_cpuids_by_ownership, mu_cmp_cpuids_by_affinity")],
     "6 CPUs in 3 cores, 4 CPUs in 4 cores (thorough: 5/2, 6/6), any assignment of CPUs to cores, any mask, 0..3 affinity levels each within the next", "larger machines", NOTE, observe="the comparison functions")
meta("M04", "CPU masks survive being written and read as text",
     "The text DLB writes for a mask (lists with ranges, quoted, hexadecimal) names exactly its CPUs and stays within its buffer. Reading a list, binary or hexadecimal text gives exactly the CPUs it names that the machine has; any other text, however malformed, gives an empty mask or at least only CPUs of the machine, always terminates and never reads or writes outside its buffers. Two texts are equivalent exactly when they name the same CPUs.",
     ["inputs"], "every mask and every text within the bounds", "Tests try some dozens of texts.",
     MF, [("writing", "src/support/mask_utils.c: mu_to_str, mu_get_quoted_mask, mu_parse_to_slurm_format"), ("reading", "src/support/mask_utils.c: mu_parse_mask, mu_equivalent_masks")],
     "writing: masks of 7 to 13 CPUs, quoted buffers of 2, 6, 18 bytes; reading: all texts of up to 5 bytes, lists of up to 5 characters, up to 6 binary or 4 hexadecimal digits (thorough: 17-20 hexadecimal and 65-68 binary digits, beyond one 64-bit word)",
     "longer texts (over 1024 characters are not read), texts with commas between hexadecimal digits; regular expressions, printf and strtoul are small models under the solver", NOTE, observe="the texts and masks returned")
meta("M05", "The machine read from system files is right for any core numbering",
     "Without hwloc, the machine read from /sys has one core per group of sibling CPUs with exactly those CPUs, whatever the core ids (repeated across packages, with gaps, larger than the number of CPUs, missing), and every CPU belongs to its NUMA node, also when some nodes have no CPUs; no table is read or written out of bounds.",
     ["inputs", "configurations"], "every grouping of CPUs into cores, core ids, NUMA nodes", "The tests read the machine they run on.",
     MF, [("discovery", "src/support/mask_utils.c: parse_system_files")],
     "3 CPUs (thorough: 4), any partition into cores, core ids -1..29 and 65535, NUMA nodes 0..2 with or without CPUs, 2 (thorough: 5) orders of the directory entries", "hwloc discovery, files that cannot be parsed, more CPUs; system calls on files are stand-ins", NOTE, observe="mu_get_core_id, mu_get_core_mask, mu_get_core_mask_by_coreid, mu_get_nodes_* after mu_testing_init_nohwloc")
