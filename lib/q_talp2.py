from props import Q, prop, PROPS
T6 = [(o, c, t) for o in ("REGISTER", "GETREGION", "REGIONLIST", "PIDLIST", "TIMES", "FINALIZE", "CLEANUP", "INIT") for c, t in ((4, False), (6, True))]
prop("T06", [Q("%s-%d" % (o, c), "shmem_talp.c", ["OP=" + o, "CAP=%d" % c], ["@stubs/env.c"], [c + 4, 140], thorough=t, memsafe=True, solver="cadical", unwindset=["memset.*:4"]) for o, c, t in T6])
NS = ["@stubs/env.c", "support/gslist.c", "support/gtree.c"]


def node(name, defs, unwind=(8, 20), tus=NS, **kw):
    return Q(name, "talp_node.c", defs, list(tus), list(unwind), **dict(dict(solver="cadical"), **kw))


prop("T07", [node("SUMS", ["MODE=QUERY", "SUMS", "NP=3"]), node("EFF", ["MODE=QUERY", "NP=2", "TMAX=1023"]), node("EFF-product", ["MODE=QUERY", "NP=2", "TMAX=63", "PRODUCT"], thorough=True), node("COLLECT", ["MODE=COLLECT", "NP=2"], memsafe=True)]
     + [node("APP-v%d" % m, ["MODE=APP", "NP=2", "MODEL=%d" % m, "TMAX=63"]) for m in (1, 2)] + [node("TIME-%s" % n, ["MODE=TIMEM", "WHAT=%d" % w, "SEC=%d" % sec], thorough=w == 5) for sec in (3,) for w, n in ((1, "diff"), (2, "add"), (3, "mult"), (4, "tvdiff"), (5, "tvadd"))])
