"""Which queries decide which property."""
import os, re

PROPS = {}
CPUINFO_TUS = ["@stubs/env.c", "support/mask_utils.c"]


def generate(inc, repo):
    """headers derived from /repo with smaller capacities"""
    d = os.path.join(inc, "support"); os.makedirs(d, exist_ok=True)
    q = open(os.path.join(repo, "src/support/queues.h")).read()
    q = re.sub(r"(QUEUE_LEWI_REQS_SIZE\s*=\s*)\d+", r"\1 VP_LEWI_REQS_SIZE", q)
    q = re.sub(r"(QUEUE_PROC_REQS_SIZE\s*=\s*)\d+", r"\1 VP_PROC_REQS_SIZE", q)
    q = re.sub(r"(QUEUE_PIDS_SIZE\s*=\s*)\d+", r"\1 VP_PIDS_SIZE", q)
    caps = "".join("#ifndef %s\n#define %s %d\n#endif\n" % (m, m, v) for m, v in (("VP_LEWI_REQS_SIZE", 256), ("VP_PROC_REQS_SIZE", 4096), ("VP_PIDS_SIZE", 8)))
    open(os.path.join(d, "queues.h"), "w").write(caps + q)
    # accesses to the pool of the basic LeWI policy are made visible to the harness
    c = open(os.path.join(repo, "src/LB_comm/comm_lend_light.c")).read()
    open(os.path.join(inc, "gen_comm_lend_light.c"), "w").write(re.sub(r"\bshdata->(\w+)", r"VP_SHARED(shdata->\1)", c))
    # so are the accesses to a TALP sample that its own thread shares with others
    c = open(os.path.join(repo, "src/LB_core/DLB_talp.c")).read()
    open(os.path.join(inc, "gen_DLB_talp.c"), "w").write(re.sub(r"\b(\w*sample)->(last_updated_timestamp|state)\b", r"VP_POINT(\1)->\2", c))


def Q(name, harness, defs, tus, unwind, **kw):
    d = dict(name=name, harness=harness, defs=list(defs), tus=list(tus), unwind=unwind)
    d.update(kw)
    return d


def prop(pid, queries, **kw):
    names = [q["name"] for q in queries]
    assert len(set(names)) == len(names), names
    PROPS[pid] = dict(queries=queries, **kw)


from queries import *  # noqa
