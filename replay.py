#!/usr/bin/env python3
"""replay.py FILE: runs a recorded counterexample natively (ASan/UBSan) against
/repo's current sources and prints what happened."""
import json, os, shutil, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
v = json.load(open(sys.argv[1]))
work = tempfile.mkdtemp(prefix="vp_replay_")
try:
    inc = check.prepare(work)
    q = {"name": v["query"], "harness": v["harness"], "defs": v["defs"], "tus": v["tus"], "nflags": v.get("nflags", [])}
    exe, o = check.native_build(q, inc, work)
    if exe is None: print(o); sys.exit(2)
    want = v["refuted"][6:] if v["refuted"].startswith("CHECK ") else None
    rc, o, _ = check.native_run(exe, v["vector"], want, work, "replay")
    print(o); print("refuted:", v["refuted"]); print("native exit:", rc, "(10: assertion failed, 98/99: sanitizer)")
finally:
    shutil.rmtree(work, ignore_errors=True)
