from props import Q, prop
def api(n, case, extra=(), **kw):
    return Q(n, "api.c", ["CASE=%d" % case, "VP_SYS_BITS=4", "VP_FATAL_IS_VIOLATION"] + list(extra), ["@stubs/env.c"], [7, 12], **dict(dict(solver="cadical"), **kw))
prop("A01", [api("GATE-%d%s" % (o, "-sp" if sp else ""), 1, ["OPN=%d" % o, "VIA_SP=%d" % sp]) for sp in (0, 1) for o in range(1, 24)] + [ api("ENABLE", 2), api("SYNC", 3), api("PASS", 6)])
prop("A02", [api("LIFE", 5), api("DROM", 4)])
prop("A03", [Q(n, "pm.c", ["CASE=%d" % (i + 1), "VP_SYS_BITS=4", "VP_MEMCMP4", "VP_FATAL_IS_VIOLATION"], ["@stubs/env.c", "support/mask_utils.c"], [10, 20], unwindset=[r"mu_get_last_cpu\.\d+:!8"], solver="cadical") for i, n in enumerate(["SETGET", "THREADS", "MASKS", "ENABLE", "DISABLE"])])
