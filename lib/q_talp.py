from props import Q, prop, PROPS
TUS = ["@stubs/env.c", "support/gslist.c", "support/gtree.c"]
ROPS = ["START", "STOP", "RESET", "UPDATE", "MPI_INIT", "MPI_FINI", "OMP_INIT"]
TOPS = ["INTO_MPI", "OUT_MPI", "PBARRIER", "SYNC_IN", "SYNC_OUT", "TASK_CREATE", "TASK_COMPLETE", "TASK_SWITCH", "TH_BEGIN", "TH_END"]


def step(prop_, op, nt=2, nr=3, extra=(), tag="", **kw):
    return Q("%s-%s-t%d-r%d%s" % (prop_, op, nt, nr, tag), "talp.c", ["OP=O_%s" % op, "PROP=%s" % prop_, "NT=%d" % nt, "NR=%d" % nr, "VP_FATAL_IS_VIOLATION"] + list(extra), TUS,
             [nt + nr + 1, 14], **dict(dict(solver="cadical"), **kw))


prop("T01", [step("REGION", o) for o in ROPS] + [step("REGION", o) for o in ("OUT_MPI", "TH_BEGIN")] + [step("REGION", o, 3, 4, thorough=True) for o in ROPS]
     + [step("REGION", o, 2, 3, ["NEWTHREAD"], "-new") for o in ("START", "STOP", "TH_BEGIN")])
NEW = [step("TIME", o, 2, 3, ["NEWTHREAD"], "-new") for o in ("TH_BEGIN", "START", "STOP")]
prop("T02", [step("TIME", o, extra=["CUR=0"]) for o in ROPS + TOPS] + [step("TIME", o, 4, 3, thorough=True) for o in ROPS + TOPS] + NEW)
PAR = [step("TIME", "PFUNC", extra=["LEVEL=%d" % l], tag="-level%d" % l) for l in (1, 2)]
PAR += [step("TIME", "PBEGIN", extra=["LEVEL=%d" % l, "TEAM=%d" % t], tag="-level%d-team%d" % (l, t)) for l in (1, 2) for t in (1, 3)]
PAR += [step("TIME", "PEND", nt=n, nr=2, extra=["CUR=0", "LEVEL=%d" % l, "TEAM=%d" % t], tag="-level%d-team%d" % (l, t), thorough=n > 3) for l in (1, 2) for t, n in ((1, 2), (2, 3), (3, 3), (4, 5))]
prop("T03", PAR)


def conc(op, env, same=True, opened=1, extra=(), nt=2, **kw):
    tg, nr = (1, 2) if same else (2, 3)
    return Q("CONC-%s-while-%s-%s-open%d%s" % (op, env, "same" if same else "other", opened, "-new" if "NEWTHREAD" in extra else ""), "talp.c",
             ["CONC", "TMAX=%d" % kw.pop("tmax", 3), "OP=O_%s" % op, "ENVOP=O_%s" % env, "PROP=CONC_", "NT=%d" % nt, "NR=%d" % nr, "TGT2=%d" % tg, "OPEN=%d" % opened, "VP_FATAL_IS_VIOLATION"] + list(extra),
             TUS, [nr + 1, 14], **dict(dict(solver="cadical", cbmc=["--object-bits", "11"]), **kw))


CON = [conc(o, e, True, 1 if o == "START" else 3) for o, e in (("START", "START"), ("STOP", "STOP"))]
CON += [conc(o, e, False, n) for o, n in (("START", 1), ("STOP", 3)) for e in ("START", "STOP") for n in (n, n + 4)]
CON += [conc(o, e, True, 3) for o in ("UPDATE", "INTO_MPI", "SYNC_OUT") for e in ("UPDATE", "INTO_MPI", "STOP")]
CON += [conc(o, e, True, 1) for o in ("UPDATE", "INTO_MPI", "SYNC_OUT") for e in ("START",)]
CON += [conc(o, "UPDATE", True, 1, ["NEWTHREAD"]) for o in ("TH_BEGIN", "START")]
prop("T04", CON)


TUS2 = ["@stubs/env.c", "support/gslist.c"]


def fin(o, **kw):
    return Q("FINALIZE-open%d" % o, "talp.c", ["OP=O_FINALIZE", "PROP=0", "NT=2", "NR=3", "OPEN=%d" % o, "VP_MAP_CAP=4", "VP_FATAL_IS_VIOLATION"], TUS2, [9, 14], **dict(dict(solver="cadical", cbmc=["--object-bits", "11"], memsafe=True), **kw))


def sel(name, defs, **kw):
    return Q("SELECT-" + name, "talp_names.c", ["MODE=SELECT", "VP_FATAL_IS_VIOLATION"] + defs, TUS2, [20], **dict(dict(solver="cadical"), **kw))


def reg(kinds, extra=(), tag="", **kw):
    return Q("REGISTER-%s%s" % ("".join(map(str, kinds)), tag), "talp_names.c", ["MODE=REGISTER", "NREG=%d" % len(kinds), "KINDS={%s}" % ",".join(map(str, kinds)), "VP_FATAL_IS_VIOLATION", "VP_MAP_CAP=%d" % (len(kinds) + 2)] + list(extra), TUS2, [26],
             **dict(dict(solver="cadical", cbmc=["--object-bits", "11"]), **kw))


NAMES = [sel("pre%d-l%d" % (p, l), ["PRE=%d" % p, "L=%d" % l], thorough=l > 4) for p in (0, 1, 2) for l in (4, 6)]
NAMES += [sel("all-pre%d" % p, ["PRE=%d" % p, 'TEXT="all"', "LISTED=0", "ALL_=1"]) for p in (0, 1, 2)]
NAMES += [sel("global-pre%d" % p, ["PRE=%d" % p, 'TEXT="a,gLobal"', "GLOBAL", "LISTED=1", "ALL_=0"]) for p in (0, 1, 2)]
NAMES += [reg(k) for k in ((4, 4), (2, 4), (3, 0), (0, 1), (5, 0), (0, 5))] + [reg((4, 4, 4), thorough=True)]
NAMES += [reg((4, 4), ["SHMEM"], "-shmem"), reg((6,), ["RACE"], "-race")]
prop("T05", NAMES)
PROPS["T01"]["queries"] += [fin(o) for o in (0, 3, 7)]
