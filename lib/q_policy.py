from props import Q, prop
OPS = ["LEND", "LENDCPU", "LENDMASK", "RECLAIM", "RECLAIMCPU", "RECLAIMCPUS", "RECLAIMMASK", "ACQCPU", "ACQCPUS", "ACQMASK", "ACQIN", "BORROW", "BORCPU", "BORCPUS",
       "BORMASK", "BORIN", "RET", "RETCPU", "RETMASK", "CHECKAV", "OWNER", "INTO", "OUT", "SETMAX", "ENABLE", "DISABLE", "FINI"]
AFF = dict(AUTO="LEWI_AFFINITY_AUTO", NFIRST="LEWI_AFFINITY_NEARBY_FIRST", NONLY="LEWI_AFFINITY_NEARBY_ONLY", SPREAD="LEWI_AFFINITY_SPREAD_IFEMPTY", MASK="LEWI_AFFINITY_MASK")
def pol(o, smt=0, aff=None, nt=3, **kw):
    return Q("%s%s%s%s" % (o, "-smt" if smt else "", "-" + aff.lower() if aff else "", "-%dtasks" % nt if nt != 3 else ""), "lewi_mask.c",
             ["OP=O_" + o, "SMT=%d" % smt, "VP_SYS_BITS=4", "VP_MEMCMP4", "NT=%d" % nt, "VP_FATAL_IS_VIOLATION"] + (["AFF=" + AFF[aff]] if aff else []),
             ["@stubs/env.c", "support/mask_utils.c", "support/gslist.c"], [6, 10], unwindset=[r"mu_get_last_cpu\.\d+:!8"], **dict(dict(solver="cadical"), **kw))
prop("P01", [pol(o) for o in OPS] + [pol(o, 1) for o in ("INTO", "OUT")] + [pol("ACQIN", 0, a) for a in AFF] + [pol(o, 0, a) for o in ("OWNER", "BORIN") for a in ("NONLY", "SPREAD")]
     + [pol(o, 0, None, 4, thorough=True) for o in ("RECLAIMMASK", "DISABLE", "OWNER", "OUT", "RETMASK", "LENDMASK")])
