#!/usr/bin/env python3
"""Solver-based checks of DLB.  usage: check.py <PROPERTY> [--tier quick|thorough]
   [--only REGEX] [--keep] [-v]

Every run regenerates the encoding from /repo's working tree: goto-cc compiles
the harness together with the real sources, CBMC executes it symbolically and a
SAT solver decides every assertion for all values of the symbolic inputs within
the unwinding bounds.  A refuted CHECK is replayed against the real code,
compiled natively with sanitizers, before it is reported."""
import argparse, json, os, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor, as_completed

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("DLB_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "lib"))
import props, meta  # noqa

MEM_LIMIT = 7 << 30
procs = set(); plock = threading.Lock()


def run(cmd, timeout, cwd, out=None, mem=MEM_LIMIT):
    import resource
    def pre():
        os.setsid()
        if mem: resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    f = open(out, "w") if out else subprocess.PIPE
    p = subprocess.Popen(cmd, cwd=cwd, stdout=f, stderr=subprocess.STDOUT, preexec_fn=pre, text=True, errors="replace")
    with plock: procs.add(p)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o or ""
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, 9)
        except OSError: pass
        p.communicate()
        return "timeout", ""
    finally:
        with plock: procs.discard(p)
        if out: f.close()


class Result:
    def __init__(self, q):
        self.q = q; self.status = {}; self.vectors = {}; self.unwind_fail = []
        self.time = 0.0; self.solver = 0.0; self.vars = 0; self.clauses = 0; self.steps = 0
        self.violations = []; self.undecided = None; self.error = None
        self.witness_ok = []; self.witness_missing = []; self.unwind_used = None
        self.functions = 0; self.spurious = []; self.findings = []; self.vccs = 0


def prepare(work):
    inc = os.path.join(work, "gen"); os.makedirs(os.path.join(inc, "apis"))
    src = open(os.path.join(REPO, "src/apis/dlb.h.in")).read()
    src = src.replace("@DLB_VERSION_HEXA@", "0x030500")
    open(os.path.join(inc, "apis/dlb.h"), "w").write(src)
    open(os.path.join(inc, "dlb.h"), "w").write(src)
    props.generate(inc, REPO)
    return inc


def flags(q, inc):
    f = ["-I", os.path.join(VERIF, "stubs"), "-I", inc, "-I", os.path.join(VERIF, "harness"),
         "-I", os.path.join(REPO, "src"), "-I", os.path.join(REPO, "src/apis"),
         "-DHAVE_CONFIG_H", "-D_GNU_SOURCE"]
    return f + ["-D" + d for d in q["defs"]]


def srcs(q):
    s = [os.path.join(VERIF, "harness", q["harness"]), os.path.join(VERIF, "stubs", "vp_main.c")]
    for t in q["tus"]:
        s.append(os.path.join(VERIF, t[1:]) if t.startswith("@") else os.path.join(REPO, "src", t))
    return s


def native_build(q, inc, d):
    exe = os.path.join(d, "native")
    if os.path.exists(exe): return exe, ""
    cmd = ["gcc", "-std=gnu11", "-g", "-O0", "-w", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
           "-fno-omit-frame-pointer"] + flags(q, inc) + q.get("nflags", []) + srcs(q) + ["-o", exe, "-lm", "-lpthread"]
    rc, o = run(cmd, 120, d, mem=None)
    return (exe if rc == 0 else None), o


def native_run(exe, vec, want, d, name, timeout=20):
    vf = os.path.join(d, name + ".vec")
    open(vf, "w").write("\n".join(str(v) for v in vec) + "\n")
    env_cmd = ["env", "ASAN_OPTIONS=detect_leaks=0:abort_on_error=0:exitcode=99", "UBSAN_OPTIONS=halt_on_error=1:exitcode=98",
               exe, vf] + ([want] if want else [])
    return run(env_cmd, timeout, d, mem=None) + (vf,)


PROP_RE = re.compile(r"^\[(?P<id>[^\]]+)\] (?:line \d+ |file \S+ line \d+ )?(?P<desc>.*): (?P<st>SUCCESS|FAILURE|UNKNOWN|ERROR)$")


def trace_value(line):
    """the bits printed after the value; its own spelling varies"""
    m = re.search(r"\(([01]{8}(?: [01]{8})*)\)\s*$", line)
    if m:
        b = m[1].replace(" ", ""); v = int(b, 2)
        return v - (1 << len(b)) if b[0] == "1" else v
    return int(re.match(r"  vp_nd_val=(-?\d+)", line)[1])


def parse(out):
    status, vectors, cur, unk = {}, {}, None, False
    solver = 0.0; v = c = steps = vccs = 0
    fin = False
    with open(out, errors="replace") as f:
        for line in f:
            if line.startswith("  vp_nd_val="):
                if cur is not None:
                    vectors[cur].append(trace_value(line))
            elif line.startswith("["):
                m = PROP_RE.match(line.rstrip("\n"))
                if m: status[m["id"]] = (m["desc"], m["st"])
            elif line.startswith("Trace for "):
                cur = line[10:].strip().rstrip(":"); vectors[cur] = []
            elif line.startswith("Violated property"):
                cur = None
            elif line.startswith("VERIFICATION"):
                fin = True
            elif line.startswith("Runtime Solver:") or line.startswith("Runtime decision procedure"):
                if "decision" in line: solver += float(line.split(":")[1].strip().rstrip("s"))
            elif " variables, " in line:
                m = re.match(r"(\d+) variables, (\d+) clauses", line)
                if m: v = max(v, int(m[1])); c = max(c, int(m[2]))
            elif line.startswith("size of program expression"):
                steps = int(line.split()[4])
            elif line.startswith("Generated "):
                vccs = int(line.split()[1])
    return fin, status, vectors, solver, v, c, steps, vccs


def unwindset(q, loops, rung):
    """per-loop bounds: regexes over the loop names that exist in this build"""
    res = []
    for l in loops:
        for pat in q.get("unwindset", []):
            rx, n = pat.rsplit(":", 1)
            fixed = n.startswith("!")
            if re.fullmatch(rx, l) and (rung == 0 or fixed):
                res.append("%s:%s" % (l, n.lstrip("!"))); break
    return res


def solve(q, inc, work, tier, deadline, verbose):
    r = Result(q); t0 = time.time()
    d = os.path.join(work, q["name"]); os.makedirs(d)
    gb = os.path.join(d, "h.gb")
    cmd = ["goto-cc", "-DVP_CBMC=1"] + flags(q, inc) + srcs(q) + ["-o", gb]
    rc, o = run(cmd, 120, d)
    if rc != 0 or not os.path.exists(gb):
        r.error = "goto-cc failed: " + o[-1500:]; return r
    rc, o = run(["goto-instrument", "--show-loops", gb], 60, d)
    loops = re.findall(r"^Loop (\S+):", o, re.M)
    ladder = q["unwind"] if isinstance(q["unwind"], list) else [q["unwind"], 3*q["unwind"]+4]
    limit = q.get("timeout", 240 if tier == "quick" else 700)
    for i, u in enumerate(ladder):
        left = deadline - time.time()
        if left < 15: r.undecided = "time budget of the check exhausted"; break
        cb = ["cbmc", gb, "--drop-unused-functions", "--no-standard-checks", "--unwinding-assertions",
              "--no-malloc-may-fail", "--unwind", str(u), "--trace", "--verbosity", "8"]
        us = unwindset(q, loops, i)
        if us: cb += ["--unwindset", ",".join(us)]
        cb += q.get("cbmc", [])
        if q.get("memsafe"): cb += ["--bounds-check", "--pointer-check", "--div-by-zero-check"]
        sv = q.get("solver") or os.environ.get("VP_SOLVER")
        if sv: cb += ["--sat-solver", sv]
        out = os.path.join(d, "out.%d.txt" % u)
        rc, _ = run(cb, min(limit, left), d, out=out)
        fin, status, vectors, solver, v, c, steps, vccs = parse(out)
        r.solver += solver; r.unwind_used = u
        if rc == "timeout" or not fin or not status:
            tail = "" if rc == "timeout" else open(out, errors="replace").read()[-400:]
            r.undecided = "solver budget exceeded (unwind %d, rc %s) %s" % (u, rc, tail)
            if not fin and rc not in ("timeout",) and re.search(r"(?i)(conversion|parsing|invariant|error:)", tail):
                r.error = "cbmc: " + tail
            if r.status: pass
            break
        r.undecided = None
        r.vars, r.clauses, r.steps, r.vccs = v, c, steps, vccs
        r.status, r.vectors = status, vectors
        fails = {k: s for k, s in status.items() if s[1] == "FAILURE"}
        unw = [k for k, s in fails.items() if "unwinding assertion" in s[0] or "recursion unwinding" in s[0]]
        nobody = [k for k, s in fails.items() if "no body for" in s[0] or "no-body" in k]
        if nobody:
            r.error = "function without body reached: %s" % [status[k][0] for k in nobody]; break
        r.unwind_fail = unw
        bad = [k for k, s in fails.items() if not s[0].startswith("WITNESS") and k not in unw]
        exe = None
        if verbose and fails: print("  ", q["name"], "u=%d" % u, [status[k][0] for k in bad + unw], flush=True)
        wit = [k for k, s in status.items() if s[0].startswith("WITNESS")]
        if bad or unw or wit:
            exe, o = native_build(q, inc, d)
            if exe is None:
                r.error = "native build failed: " + o[-1500:]; break
        novd = sum(1 for s in status.values() if s[1] in ("ERROR", "UNKNOWN"))
        if novd: r.undecided = "no verdict for %d assertions (out of memory?)" % novd
        for k in bad:
            desc = status[k][0]
            want = desc[6:] if desc.startswith("CHECK ") else None
            rc, o, vf = native_run(exe, vectors.get(k, []), want, d, k)
            rep = (rc == 10) if want else (rc in (98, 99, -11, -6, 139, 134))
            if want and rc in (98, 99, -11, -6): rep = True
            if rep: r.violations.append((desc, vectors.get(k, []), o[-1500:]))
            else: r.spurious.append((desc, vectors.get(k, []), rc, o[-300:]))
        if r.violations or novd: break
        if unw and i + 1 < len(ladder): continue
        if unw:
            for k in unw:
                rc, o, vf = native_run(exe, vectors.get(k, []), None, d, k)
                if rc == "timeout":
                    r.violations.append(("termination: " + status[k][0], vectors.get(k, []), "native replay did not finish in 20 s"))
                elif rc in (10, 98, 99, -11, -6):
                    r.violations.append((status[k][0], vectors.get(k, []), o[-1500:]))
            if not r.violations: r.undecided = "unwinding bound %d not sufficient for %s" % (u, [k for k in unw])
        by = {}
        for k in wit:
            by.setdefault(status[k][0], []).append(k)
        for desc, ks in by.items():
            got = [k for k in ks if status[k][1] == "FAILURE"]
            if not got: r.witness_missing.append(desc); continue
            want = desc[8:]
            rc, o, vf = native_run(exe, vectors.get(got[0], []), want, d, got[0])
            if rc == 11: r.witness_ok.append((want, vectors.get(got[0], [])))
            else: r.spurious.append((desc, vectors.get(got[0], []), rc, o[-300:]))
        break
    rc, o = run(["goto-instrument", "--reachable-call-graph", gb], 60, d) if q.get("_fn") else (0, "")
    r.time = time.time() - t0
    return r


def encoded_functions(gb_list, work):
    fns = set()
    for gb in gb_list:
        rc, o = run(["goto-instrument", "--drop-unused-functions", gb, gb + ".s"], 60, work)
        rc, o = run(["goto-instrument", "--list-goto-functions", gb + ".s"], 60, work)
        for l in o.splitlines():
            m = re.match(r"^(\w+) /\*", l) or re.match(r"^(\w+)$", l.strip())
            if m: fns.add(m[1])
    return fns


def selftest():
    """the tools are there and the headers can be generated"""
    work = tempfile.mkdtemp(prefix="vp_setup_")
    try:
        prepare(work)
        for c in (["cbmc", "--version"], ["goto-cc", "--version"], ["gcc", "--version"]):
            rc, o = run(c, 60, work)
            if rc != 0: print("missing:", c[0]); return 1
    finally:
        shutil.rmtree(work, ignore_errors=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    return 0


def main():
    ap = argparse.ArgumentParser()
    if "--selftest" in sys.argv: return selftest()
    ap.add_argument("prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only"); ap.add_argument("--keep", action="store_true"); ap.add_argument("-v", action="store_true")
    ap.add_argument("-j", type=int, default=8)
    a = ap.parse_args()
    pid = a.prop
    if pid not in props.PROPS: print("unknown property", pid); return 2
    t0 = time.time()
    budget = 840 if a.tier == "quick" else 3300
    deadline = t0 + budget
    P = props.PROPS[pid]
    queries = [q for q in P["queries"] if a.tier == "thorough" or not q.get("thorough")]
    if a.only: queries = [q for q in queries if re.search(a.only, q["name"])]
    work = tempfile.mkdtemp(prefix="vp_%s_" % pid)
    results = []
    try:
        inc = prepare(work)
        queries.sort(key=lambda q: -q.get("cost", 1))
        with ThreadPoolExecutor(a.j) as ex:
            futs = [ex.submit(solve, q, inc, work, a.tier, deadline, a.v) for q in queries]
            for f in as_completed(futs):
                r = f.result(); results.append(r)
                if a.v:
                    print("%-40s %6.1fs vars=%d vccs=%d u=%s%s%s%s%s" % (r.q["name"], r.time, r.vars, r.vccs, r.unwind_used,
                          " VIOL %s" % [x[0] for x in r.violations] if r.violations else "",
                          " SPURIOUS %s" % [(x[0], x[2], x[3]) for x in r.spurious] if r.spurious else "",
                          " UNDECIDED %s" % r.undecided if r.undecided else "",
                          " MISSINGWIT %s" % r.witness_missing if r.witness_missing else "")
                          + (" ERROR %s" % r.error if r.error else ""), flush=True)
        fns = set()
        reps = {}
        for r in results: reps.setdefault((r.q["harness"], tuple(x for x in r.q["defs"] if x.startswith("OP="))), os.path.join(work, r.q["name"], "h.gb"))
        gbs = [g for g in reps.values() if os.path.exists(g)]
        with ThreadPoolExecutor(a.j) as ex:
            for s in ex.map(lambda g: encoded_functions([g], work), gbs): fns |= s
        repo_fns = real_functions(fns, P, results)
        return report(pid, P, a, results, t0, repo_fns)
    finally:
        with plock:
            for p in list(procs):
                try: os.killpg(p.pid, 9)
                except OSError: pass
        if not a.keep: shutil.rmtree(work, ignore_errors=True)
        else: print("kept", work)


def real_functions(fns, P, results):
    """names of encoded functions that are defined in /repo's sources"""
    files = set()
    for r in results:
        for t in r.q["tus"]:
            if not t.startswith("@"): files.add(os.path.join(REPO, "src", t))
        h = open(os.path.join(VERIF, "harness", r.q["harness"])).read()
        for m in re.finditer(r'#include [<"]([\w/]+\.c)[>"]', h): files.add(os.path.join(REPO, "src", m[1]))
        for m in re.finditer(r'#include "(\w+\.h)"', h):
            hp = os.path.join(VERIF, "harness", m[1])
            if os.path.exists(hp):
                for m2 in re.finditer(r'#include [<"]([\w/]+\.c)[>"]', open(hp).read()): files.add(os.path.join(REPO, "src", m2[1]))
    text = ""
    for f in files:
        if os.path.exists(f): text += open(f, errors="replace").read()
    words = set(re.findall(r"\b(\w+)\s*\(", text))
    return sorted(f for f in fns if f in words and not f.startswith(("vp_", "CPU_", "__")) and f not in ("malloc", "free", "memcpy", "memset", "harness", "main"))


def report(pid, P, a, results, t0, fns):
    rc = 0
    M = meta.META.get(pid, {})
    known = load_known(pid)
    viols, kfound = [], []
    for r in results:
        for desc, vec, o in r.violations:
            key = "%s %s" % (r.q["name"], desc)
            k = next((k for k in known if r.q.get("finding") == k["id"] and re.search(k["check"], desc)), None)
            if k: kfound.append(k)
            else: viols.append((r, desc, vec, o))
    for k in {k["id"]: k for k in kfound}.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    rd = os.path.join(VERIF, "replays"); os.makedirs(rd, exist_ok=True)
    for f in os.listdir(rd):
        if f.startswith(pid + "-") and not a.only: os.unlink(os.path.join(rd, f))
    for i, (r, desc, vec, o) in enumerate(viols[:20]):
        path = os.path.join(rd, "%s-%s-%d.json" % (pid, r.q["name"], i))
        json.dump({"property": pid, "query": r.q["name"], "refuted": desc, "vector": vec, "harness": r.q["harness"],
                   "defs": r.q["defs"], "tus": r.q["tus"], "native_output": o, "nflags": r.q.get("nflags", []),
                   "replay_with": "python3 /verif/replay.py " + path}, open(path, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  refuted: %s [%s]\n  %s" % (desc, r.q["name"], o.strip().replace("\n", "\n  ")[-600:]))
        rc = 1
    errors = [r for r in results if r.error]
    und = [r for r in results if r.undecided and not r.violations]
    spur = [(r, s) for r in results for s in r.spurious]
    for r in errors: print("ERROR query %s: %s" % (r.q["name"], r.error))
    for r in und: print("UNDECIDED query %s: %s" % (r.q["name"], r.undecided))
    for r, s in spur: print("UNREPRODUCED query %s: %s (native rc %s) %s" % (r.q["name"], s[0], s[2], s[3]))
    nchecks = sum(1 for r in results for s in r.status.values() if s[0].startswith("CHECK") or r.q.get("memsafe"))
    proved = sum(1 for r in results for s in r.status.values() if s[1] == "SUCCESS" and not s[0].startswith("WITNESS"))
    wits = sum(len(r.witness_ok) for r in results)
    missing = sorted({(r.q["name"], w) for r in results for w in r.witness_missing})
    samples = [{"query": r.q["name"], "witness": w, "vector": v[:200]} for r in results for w, v in r.witness_ok][:12]
    ev = {
        "property": pid, "tier": a.tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": P.get("level", "other"),
        "wall_s": round(time.time() - t0, 2), "violations": len(viols),
        "assumptions": M.get("assumptions", []),
        "coverage": {
            "explanation": "Symbolic execution (CBMC) of the real functions; every assertion decided by a SAT solver for all "
                           "values of the symbolic inputs within the bounds. Witness assertions are refuted on purpose and "
                           "their models replayed natively against the real code to validate the encoding and rule out vacuity. "
                           + P.get("explanation", ""),
            "queries": len(results), "queries_decided": sum(1 for r in results if r.status and not r.undecided),
            "obligations_discharged": proved, "check_assertions": nchecks,
            "vccs": sum(r.vccs for r in results), "steps": sum(r.steps for r in results),
            "max_variables": max([r.vars for r in results] or [0]), "max_clauses": max([r.clauses for r in results] or [0]),
            "solver_s": round(sum(r.solver for r in results), 2), "cpu_s": round(sum(r.time for r in results), 2),
            "functions_encoded": fns, "n_functions_encoded": len(fns),
            "bounds": M.get("bounds", ""), "outside_bounds": M.get("outside", ""),
            "unwind": sorted({r.unwind_used for r in results if r.unwind_used}),
            "witnesses_replayed_natively": wits,
            "witnesses_unreached": ["%s: %s" % m for m in missing],
            "undecided": [{"query": r.q["name"], "why": r.undecided[:300]} for r in und],
            "unreproduced": [{"query": r.q["name"], "what": s[0]} for r, s in spur],
            "known_findings_seen": sorted({k["what"] for k in kfound}),
            "samples": samples or [{"query": r.q["name"], "obligations": [s[0] for s in r.status.values()][:5]} for r in results[:5]],
        },
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if not a.only:
        json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    nund = len(und)
    print("%s: %d queries, %d obligations discharged, %d witnesses validated, %d undecided, %.1fs wall, %.1fs solver"
          % (pid, len(results), proved, wits, nund, time.time() - t0, sum(r.solver for r in results)))
    if rc == 0 and errors: return 2
    if rc == 0 and results and nund == len(results): return 2
    # every witness name must be reached in at least one query that contains it (no vacuity)
    reached = {w for r in results for w, _ in r.witness_ok}
    allw = {s[0][8:] for r in results for s in r.status.values() if s[0].startswith("WITNESS")}
    if rc == 0 and allw - reached and not a.only and not und and not spur:
        print("VACUITY: witnesses never reached:", sorted(allw - reached))
    return rc


def load_known(pid):
    res = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) id=(\S+) check=/(.*?)/ (.*)", l.strip())
            if m and m[1] == pid: res.append({"id": m[2], "check": m[3], "what": m[4]})
    return res


if __name__ == "__main__":
    sys.exit(main())
