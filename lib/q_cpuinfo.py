from props import Q, prop
OPS = dict(LEND_CPU=1, LEND_MASK=2, RECLAIM_ALL=3, RECLAIM_CPU=4, RECLAIM_CPUS=5, RECLAIM_MASK=6, ACQUIRE_CPU=7,
           ACQUIRE_SUBSET=8, ACQUIRE_NCPUS=9, BORROW_CPU=10, BORROW_SUBSET=11, BORROW_NCPUS=12, RETURN_ALL=13,
           RETURN_CPU=14, RETURN_MASK=15, DEREGISTER=16, RESET=17, UPDATE_MAX=18, OWNERSHIP=19, CHECK_AVAIL=20,
           RETURN_ASYNC=21, REMOVE_REQS=22, FINALIZE=23, POSTFINALIZE=24, CLEANUP=25, INIT=26, PREINIT=27)
GROUP = dict(EXCL=1, PERM=2, BACK=3, AVAIL=4, CORE=5, LEAVE=6, LIMIT=7, REQ=8, OWN=9)
TUS = ["@stubs/env.c", "support/mask_utils.c"]
CPU_OPS = {"LEND_CPU", "RECLAIM_CPU", "ACQUIRE_CPU", "BORROW_CPU", "RETURN_CPU", "CHECK_AVAIL", "RETURN_ASYNC"}
MASK_OPS = {"LEND_MASK", "RECLAIM_MASK", "RETURN_MASK", "OWNERSHIP", "INIT", "PREINIT"}
ARR_OPS = {"ACQUIRE_SUBSET", "ACQUIRE_NCPUS", "BORROW_SUBSET", "BORROW_NCPUS"}
# operations that may serve requests, i.e. walk the queues
QUEUE_OPS = {"LEND_CPU", "LEND_MASK", "DEREGISTER", "RESET", "UPDATE_MAX"}


# loops over the CPUs of a core: two of them; over the words of a mask: one
UNW = [r"has_task\.0:!21", r"mu_get_last_cpu\.\d+:!8", r"mu_get_(next|first)_(cpu|unset)\.0:2",
       r"(core_is_eligible|core_is_occupied|borrow_core|acquire_core|reclaim_core)\.\d+:3",
       r"(harness|inv_\w+|take_snap|symbolic_state|set_topology|core_ok_pre|cpu_reqs|sum_howmany|count_\w+|in_array|nd_\w+|arg_mask|snap_reqs|core_aligned|do_op)(\$link\d+)?\.\d+:!6"]


def step(group, op, topo, asyn=0, extra="", tag="", unwind=5, **kw):
    n = 4
    defs = ["OP=%d" % OPS[op], "PROP=%d" % GROUP[group], "TOPO=%d" % topo, "ASYNC=%d" % asyn, "VP_QUEUE_CAP=3",
            "VP_SYS_BITS=4", "VP_MEMCMP4"] + [x for x in extra.split(";") if x]
    name = "%s-%s-t%d-%s%s" % (group, op, topo, "async" if asyn else "poll", ("-" + tag) if tag else "")
    return Q(name, "cpuinfo_step.c", defs, TUS, [unwind, 14, 40],
             unwindset=UNW, **kw)


PATS = ["1,1,4,4", "1,2,8,8", "2,2,4,6", "3,1,7,7", "8,5,2,1", "4,4,8,8"]
PATS_TH = ["1,1,1,1", "4,4,4,4", "3,3,4,4", "1,3,5,8", "2,1,6,6", "4,6,1,1", "4,4,3,2", "7,9,3,3", "2,2,9,7", "5,8,7,7"]
# for an operation that drops CPUs
PATS_MAX = ["3,3,3,3", "3,3,5,5", "3,1,9,5", "2,3,5,8", "5,5,9,9"]
PATS_MAX_TH = ["5,5,3,3", "9,5,3,2", "1,1,5,5", "3,2,3,1"]
ORDERS = {0: ["0,1,2,3"], 1: ["0,1,2,3", "2,0,3,1"], 2: ["0,2,1,3", "3,0,1,2"]}


def family(group, ops, topos=(0, 1), asyn=True, poll=True, thorough_topos=(2,)):
    """one query per operation x topology x mode x concrete shape"""
    qs = []
    for op in ops:
        for t in list(topos) + list(thorough_topos):
            th = dict(thorough=True) if t in thorough_topos else {}
            for asy in (0, 1):
                if asy == 0 and (not poll or op in ("RETURN_ASYNC", "REMOVE_REQS")): continue
                if asy == 1 and (not asyn or op in ("RETURN_ALL", "RETURN_CPU", "RETURN_MASK", "CHECK_AVAIL")): continue
                if asy == 0: shapes = [("0,0,0,0", 0)]
                elif op == "LEND_CPU": shapes = [("2,1,0,0", 0), ("1,0,1,0", 1 if t else 2)]   # two global requests can only be served one after another: t0
                elif op in QUEUE_OPS: shapes = [("2,1,0,0", 0), ("0,0,0,0", 1)]
                else: shapes = [("1,1,0,0", 1)]
                orders = ORDERS[t] if op in ARR_OPS else ["0,1,2,3"]
                if op in CPU_OPS: args = [("c%d" % c, "CPUARG=%d" % c) for c in ((0, 2) if t == 0 else (0, 1))] if asy else [("", "")]
                elif op in MASK_OPS:
                    own = op in ("OWNERSHIP", "INIT", "PREINIT") and t
                    ms = [0x3, 0xf] if t == 1 or not own else [0x5, 0xf]
                    if not own and op != "LEND_MASK": ms = [0x6, 0xf]
                    args = [("m%x" % m, "MASKARG=0x%x" % m) for m in ms]
                    if not own: args += [("m%x" % m, "MASKARG=0x%x" % m, True) for m in (0x1, 0x9, 0xe)]
                    if not asy and op != "LEND_MASK": args.append(("msym", "", True))
                elif op == "ACQUIRE_NCPUS":
                    args = [("p%d" % i, "COUNTARG=4;PAT=" + p) for i, p in enumerate(PATS)] + [("q%d" % i, "COUNTARG=%d;PAT=%s" % (4 - i % 2, p), True) for i, p in enumerate(PATS_TH)]
                    if not asy and t == 0: args.append(("psym", "", True))
                elif op == "UPDATE_MAX":
                    args = [("p%d" % i, "PAT=" + p) for i, p in enumerate(PATS_MAX)] + [("q%d" % i, "PAT=" + p, True) for i, p in enumerate(PATS_MAX_TH)]
                    if not asy: args.append(("psym", "", t == 1))
                elif op == "BORROW_NCPUS": args = [("", ""), ("sp", "SPREADARG=1;PAT=1,2,4,4", True), ("sq", "SPREADARG=1;PAT=3,5,4,4", True)]
                else: args = [("", "")]
                # at most one CPU can be handed over while a global request exists
                if asy and op in ("DEREGISTER", "RESET"):
                    args = [("", "")]
                    args1 = [("", "", True), ("p0", "PAT=2,5,6,4"), ("p1", "PAT=3,2,8,6")]
                elif asy and op == "UPDATE_MAX":
                    args1 = []   # exceeds the memory budget
                elif asy and op == "LEND_MASK":
                    args1 = [("m1", "MASKARG=0x1"), ("m6", "MASKARG=0x6"), ("m3", "MASKARG=0x3", True), ("mf", "MASKARG=0xf", True)]
                else: args1 = args
                for si, (s, g) in enumerate(shapes):
                    for oi, o in enumerate(orders):
                        for a in (args1 if g else args):
                            tag = "".join(["s%d" % si if asy else "", "o%d" % oi if len(orders) > 1 else "", a[0]])
                            kw = dict(th)
                            if len(a) > 2 and a[2]: kw["thorough"] = True
                            if oi and asy and op == "ACQUIRE_NCPUS": kw["thorough"] = True
                            if group != "LIMIT" and a[0] == "psym": kw["thorough"] = True
                            if group in ("EXCL", "PERM") and op == "DEREGISTER" and g and a[0] == "p1": kw["thorough"] = True
                            defs = ["QSHAPE=" + s, "QGLOBAL=%d" % g] if asy else []
                            qs.append(step(group, op, t, asy, ";".join(defs + ["ORDER=" + o, a[1]]), tag, **kw))
    return qs


LEWI = ["LEND_CPU", "LEND_MASK", "RECLAIM_ALL", "RECLAIM_CPU", "RECLAIM_CPUS", "RECLAIM_MASK", "ACQUIRE_CPU",
        "ACQUIRE_SUBSET", "ACQUIRE_NCPUS", "BORROW_CPU", "BORROW_SUBSET", "BORROW_NCPUS", "RETURN_ALL", "RETURN_CPU",
        "RETURN_MASK", "RESET", "UPDATE_MAX", "CHECK_AVAIL", "RETURN_ASYNC"]
ALLOPS = LEWI + ["DEREGISTER", "OWNERSHIP", "FINALIZE", "POSTFINALIZE", "CLEANUP", "INIT", "PREINIT"]

# other processes act between the call and the lock
def races(group):
    return [step(group, op, t, 0, "QSHAPE=0,0,0,0;RACE=1;ORDER=0,1,2,3" + (";MASKARG=0xf" if op == "RETURN_MASK" else ""), "race")
            for op in ("CHECK_AVAIL", "BORROW_CPU", "ACQUIRE_CPU", "RECLAIM_CPU", "RETURN_CPU", "RECLAIM_ALL", "RETURN_MASK", "BORROW_NCPUS") for t in (0, 1)]


prop("C01", family("EXCL", ALLOPS) + races("EXCL"))
prop("C02", family("PERM", ALLOPS) + races("PERM"))
prop("C03", family("BACK", LEWI))
prop("C04", family("AVAIL", LEWI))
prop("C05", family("CORE", LEWI, topos=(1,)))
prop("C06", family("LEAVE", ["DEREGISTER", "FINALIZE", "POSTFINALIZE", "CLEANUP"]))
prop("C07", family("LIMIT", ["BORROW_NCPUS", "ACQUIRE_NCPUS", "RECLAIM_CPUS", "UPDATE_MAX", "RESET"]))
prop("C08", family("REQ", ["LEND_CPU", "LEND_MASK", "ACQUIRE_CPU", "ACQUIRE_NCPUS", "RETURN_ASYNC", "REMOVE_REQS", "RESET"], poll=False))
prop("C09", family("OWN", ["OWNERSHIP", "INIT", "PREINIT"]))

ARGOPS = ["LEND_CPU", "RECLAIM_CPU", "ACQUIRE_CPU", "BORROW_CPU", "RETURN_CPU", "CHECK_AVAIL", "LEND_MASK", "RECLAIM_MASK",
          "RETURN_MASK", "OWNERSHIP", "PREINIT"]


def argq(op, t, asy, pi, pat, tag="", extra=None, **kw):
    return Q("ARGS-%s-t%d-%s-p%d%s" % (op, t, "async" if asy else "poll", pi, tag), "cpuinfo_args.c",
             ["OP=%d" % (ARGOPS.index(op) + 1), "TOPO=%d" % t, "ASYNC=%d" % asy, "VP_QUEUE_CAP=2", "VP_SYS_BITS=4", "VP_MEMCMP4",
              "QSHAPE=0,0,0,0", "PAT=" + pat] + ([extra] if extra else []), TUS, [6, 14, 70], memsafe=True,
             unwindset=[r"harness.*:!9"] + UNW, **kw)


def argfamily():
    qs = []
    for pi, p in enumerate(["3,3,4,4", "1,2,8,8", "5,5,7,7"]):
        for op in ARGOPS:
            for t in (0, 1):
                kw = dict(thorough=True) if pi and not (pi == t + 1) else {}
                if op == "LEND_CPU":    # symbolic index writes exceed the budget: boundary values
                    for k in ("-2147483647-1", "-1", "0", "4", "2147483647"):
                        qs.append(argq(op, t, 0, pi, p, "c" + k.split("-1")[0] if k != "-1" else "cm1", "CPUARG=(%s)" % k, **kw))
                elif op == "LEND_MASK":
                    for k in (0x4, 0x5, 0x10, 0x1f): qs.append(argq(op, t, 0, pi, p, "m%x" % k, "MASKARG=%d" % k, **kw))
                else:
                    qs.append(argq(op, t, 0, pi, p, **kw))
                    qs.append(argq(op, t, 1, pi, p, thorough=True))
    return qs


prop("C10", argfamily())
