from props import Q, prop, PROPS
BOPS = ("REGISTER", "BARRIER", "ATTACH", "DETACH", "INIT", "FINALIZE", "CLEANUP")
def bq(o, n, nm=1, sel=0, **kw):
    return Q("%s-%d%s%s" % (o, n, {0: "-default", 1: ""}.get(nm, "-name%d" % nm), "-sel%d" % sel if sel else ""), "barrier.c", ["OP=" + o, "NB=%d" % n, "NAME=%d" % nm, "SEL=%d" % sel], ["@stubs/env.c"], [n + 6, 36], **dict(dict(memsafe=True, solver="cadical"), **kw))
prop("B01", [bq(o, 3) for o in BOPS] + [bq("REGISTER", 3, 0), bq("REGISTER", 3, 1, 3), bq("INIT", 3, 1, 5)] + [bq("SELECT", 1, n, s) for n in (0, 1, 2) for s in range(6)] + [Q("NAMES", "barrier.c", ["OP=NAMES", "NB=2"], ["@stubs/env.c"], [8, 36], memsafe=True, solver="cadical"), Q("NAMES-long", "barrier.c", ["OP=NAMES", "NB=2", "LONG"], ["@stubs/env.c"], [36], memsafe=True, solver="cadical")] + [dict(bq("CLEANUP", 2, 1, finding="barrier-cleanup"), name="CLEANUP-others", defs=["OP=CLEANUP", "NB=2", "OTHERS"])] + [bq(o, 4, thorough=True) for o in BOPS])
