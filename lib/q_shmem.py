from props import Q, prop, PROPS
def sq(o, n, h=None, g=1, **kw):
    return Q("%s-%d%s" % (o, n, "" if h is None else "-step%d-%d" % (h, g)), "shmem.c", ["OP=" + o, "NP=%d" % n, "VP_NO_DEBUG"] + ([] if h is None else ["HOOK=%d" % h, "SEG=%d" % g]), [], [18], **dict(dict(memsafe=True, unwindset=[r"shmem_init\.:3"], solver="cadical"), **kw))
RACES = [(o, h, g) for o, hs, gs in (("RACE_LEAVE", (4, 7, 8), (1,)), ("RACE_ATTACH", (0, 1, 2, 4, 7), (0, 1, 2)), ("RACE_BOTH", (4, 7, 8), (1,))) for h in hs for g in gs]
prop("S01", [sq(o, 3) for o in ("ATTACH", "LEAVE")] + [sq(o, 3, h, g) for o, h, g in RACES] + [sq(o, 4, thorough=True) for o in ("ATTACH", "LEAVE")] + [sq(o, 4, h, g, thorough=True) for o, h, g in RACES])
