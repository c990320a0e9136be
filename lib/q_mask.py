from props import Q, prop
E = ["@stubs/env.c"]
def mq(mode, sub, unwind, tag="", **kw):
    return Q("%s-%d%s" % (mode, sub, tag), "mask.c", ["MODE=%s" % mode, "SUB=%d" % sub] + kw.pop("defs", []), E, unwind, **dict(dict(memsafe=True, solver="cadical"), **kw))
prop("M01", [mq("ALG", i, [17, 70], defs=["VP_CPUSET_WORDS=16"], unwindset=[r"mu_get_last_cpu\.0:!64"]) for i in (1, 2, 3, 4)])
SHAPES = [(6, 3, 2), (4, 4, 4), (5, 2, 1), (6, 6, 1)]
def topo(mode, sub, **kw):
    return [mq(mode, sub, [9, 20], "-%dcpus-%dcores-%dnodes" % s, defs=["NC=%d" % s[0], "NCORES=%d" % s[1], "NNODES=%d" % s[2]], thorough=i > 1, **kw) for i, s in enumerate(SHAPES)]
prop("M02", sum((topo("TOPO", i) for i in (1, 2, 3)), []))
prop("M03", sum((topo("ORDER", i, memsafe=False) for i in (1, 2)), []))
def sq(name, mode, unwind, defs, unwindset=(), **kw):
    return Q(name, "mask_str.c", ["MODE=%s" % mode, "VP_SMALL_INTS"] + defs, E, unwind, unwindset=list(unwindset) + ["vp_(regexec|class|regcomp|vfmt).*:!16"], **dict(dict(memsafe=True, solver="cadical"), **kw))
W2 = ["VP_CPUSET_WORDS=2"]
prop("M04", [sq("text", "ROUND", [12, 40, 70], ["NB=8", "VP_CPU_SETSIZE=16"], memsafe=False, unwindset=[r"(harness|vp_strlen|meaning)[.].*:22"])] +
            [sq("quoted-%d" % n, "QUOTED", [12, 70], ["NB=7", "QLEN=%d" % n], unwindset=["(harness|meaning)[.].*:%d" % (n + 2)]) for n in (2, 6, 18)] +
            [sq("slurm-%d" % n, "SLURM", [20, 70], ["NB=%d" % n]) for n in (5, 8, 13)] +
            [sq("list", "LIST", [9, 40], ["NB=7", "LEN=5"]),
             sq("binary", "BITS_", [10, 40], ["NB=5", "LEN=8", "FORM=0", "MINLEN=1"], memsafe=False),
             sq("hex", "BITS_", [13, 40], ["NB=11", "LEN=6", "FORM=1", "MINLEN=1"], memsafe=False),
             sq("old-binary", "BITS_", [10, 40], ["NB=5", "LEN=8", "FORM=2", "MINLEN=2"], memsafe=False),
             sq("any", "BITS_", [9, 40], ["NB=7", "LEN=5", "FORM=3"]),
             sq("long-hex", "BITS_", [66, 140], W2 + ["NB=78", "LEN=22", "FORM=1", "MINLEN=17", "VP_STRMAX=24"], thorough=True),
             sq("long-binary", "BITS_", [74, 140], W2 + ["NB=68", "LEN=70", "FORM=0", "MINLEN=65", "VP_STRMAX=72"], thorough=True),
             sq("equivalent", "EQUIV", [8, 40], ["NB=4", "LEN=4"], memsafe=False)])
ORD = [(3, "0,1,2", "2,0,1"), (3, "2,0,1", "0,1,2"), (4, "1,3,0,2", "1,2,0"), (4, "3,2,1,0", "2,1,0"), (4, "0,2,1,3", "0,2,1")]
prop("M05", [Q("sysfs-%d-%s-%s" % (n, o.replace(",", ""), no.replace(",", "")), "mask_sysfs.c", ["NC=%d" % n, "ORDER=%s" % o, "NORDER=%s" % no, "VP_SMALL_INTS", "VP_CPU_SETSIZE=8"], E, [8, 40], memsafe=True, solver="cadical", thorough=n > 3,
                   unwindset=["(path_is|vp_vfmt|vp_snprintf)[.].*:!75", "(strcpy|strcmp|strncmp|memcpy|strlen|vp_strlen)[.].*:!12"]) for n, o, no in ORD])
