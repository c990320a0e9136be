from props import Q, prop
OPS = dict(INIT=1, FINALIZE=2, ENABLE=3, DISABLE=4, INTO=5, OUT=6, LEND=7, LENDCPUS=8, RECLAIM=9, ACQUIRE=10, BORROW=11, BORROWCPUS=12, CLEANUP=13)
GROUP = dict(CONSERVE=1, NOTIFY=2, REQUEST=3, RECLAIMED=4, GONE=5)
TUS = ["@stubs/env.c", "support/queues.c"]


def step(group, op, my=0, np=3, extra=(), tag="", **kw):
    return Q("%s-%s-slot%d-p%d%s" % (group, op, my, np, tag), "lewi_async.c",
             ["OP=O_%s" % op, "PROP=%d" % GROUP[group], "MY=%d" % my, "NP=%d" % np, "VP_FATAL_IS_VIOLATION", "qsort=vp_sort", "VP_LEWI_REQS_SIZE=%d" % (np + 1)] + list(extra), TUS, [6, 12, 30], **dict(dict(solver="cadical"), **kw))


def fam(group, ops):
    qs = []
    for op in ops:
        qs.append(step(group, op, 1))
        qs.append(step(group, op, 0, thorough=True))
        qs.append(step(group, op, 2, 4, thorough=True))
        if group == "CONSERVE" and op != "INIT": qs.append(step(group, op, 1, 3, ["CRASHED"], "-crashed", thorough=op not in ("RECLAIM", "LENDCPUS", "CLEANUP")))
    return qs


ALL = list(OPS)
prop("L01", fam("CONSERVE", ALL))
prop("L02", fam("NOTIFY", ALL))
prop("L03", fam("REQUEST", ALL))
prop("L04", fam("RECLAIMED", ["FINALIZE", "DISABLE", "OUT", "RECLAIM", "ACQUIRE"]))
prop("L05", fam("GONE", ["FINALIZE", "CLEANUP"]))


def light(group, op, env=True, **kw):
    return Q("%s-%s%s" % (group, op, "" if env else "-alone"), "lewi_light.c", ["OP=O_%s" % op, "PROP=%s" % group, "VP_FATAL_IS_VIOLATION"] + ([] if env else ["NOENV"]),
             TUS, [4, 10], solver="cadical", **kw)


LOPS = ["INIT", "FINALIZE", "ENABLE", "DISABLE", "INTO", "OUT", "LEND", "SETMAX", "UNSETMAX", "RECLAIM", "BORROW", "BORROWCPUS"]
prop("L06", [light("POOL", o) for o in LOPS])
prop("L07", [light("OWN", o) for o in LOPS] + [light("OWN", o, False) for o in ("BORROW", "BORROWCPUS")])
