from props import Q, prop
OPS = dict(INIT=1, PREINIT=2, FINALIZE=3, POSTFINALIZE=4, RECOVER=5, GETMASK=6, SETMASK=7, POLL=8, PIDLIST=9, CLEANUP=10, EXTINIT=11)
GROUP = dict(PART=1, SHAKE=2, REG=3, STEAL=4, LEAVE=5)
TUS = ["@stubs/env.c", "support/mask_utils.c"]


def step(group, op, my=-1, sync=0, extra=(), tag="", **kw):
    return Q("%s-%s-%s%s%s" % (group, op, "admin" if my < 0 else "slot%d" % my, "-sync" if sync else "", tag), "procinfo_step.c",
             ["OP=%d" % OPS[op], "PROP=%d" % GROUP[group], "MYSLOT=%d" % my, "SYNC=%d" % sync, "VP_SYS_BITS=4", "VP_MEMCMP4"] + list(extra),
             TUS, [5, 12, 30], solver="cadical", cost=9 if op == "SETMASK" else 1, **kw)


def fam(group, ops):
    qs = []
    for op in ops:
        mys = [-1, 0, 2]
        if op in ("INIT", "EXTINIT"): mys = [-1]
        if op in ("PREINIT", "RECOVER", "POSTFINALIZE", "CLEANUP", "PIDLIST"): mys = [-1]
        for my in mys:
            heavy = op == "SETMASK"
            qs.append(step(group, op, my, thorough=heavy and my == 2))
            if op in ("SETMASK", "PREINIT", "GETMASK"):
                qs.append(step(group, op, my, 1, thorough=heavy))
                qs.append(step(group, op, my, 1, ["ENVLEAVE"], "-leave", thorough=heavy and my == 2))
    return qs


ALL = list(OPS)
prop("D01", fam("PART", [o for o in ALL if o not in ("PIDLIST", "EXTINIT")]))
prop("D02", fam("SHAKE", ["SETMASK", "POLL", "GETMASK", "RECOVER"]))
prop("D03", fam("REG", ["INIT", "PREINIT", "PIDLIST", "EXTINIT"]))
prop("D04", fam("STEAL", ["PREINIT", "SETMASK", "FINALIZE", "POSTFINALIZE", "RECOVER"]))
prop("D05", fam("LEAVE", ["FINALIZE", "POSTFINALIZE", "CLEANUP"]))
