#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from lib/metadata.py."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import meta, props
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for pid, m in sorted(meta.META.items()):
        assert len(m["title"]) <= 80, (pid, len(m["title"]))
        mech = [{"name": n, "where": w} for n, w in m["mechanism"]]
        a = {"files": m["files"], "mechanism": mech}
        if m["state"]: a["state"] = [{"name": n, "meaning": t} for n, t in m["state"]]
        if m["observe"]: a["observe_at"] = m["observe"] if isinstance(m["observe"], list) else [m["observe"]]
        f.write(json.dumps({"id": pid, "title": m["title"], "statement": m["statement"],
                            "quantifier": {"over": m["over"], "text": m["text"]},
                            "why_tests_cant": m["why"], "anchors": a}) + "\n")
na = dict(meta.NA)
checks = []
for pid in sorted(meta.META):
    if pid in na: continue
    if pid not in props.PROPS: print("no check for", pid); continue
    m = meta.META[pid]
    checks.append({"property": pid, "quick_cmd": "python3 check.py %s --tier quick" % pid,
                   "thorough_cmd": "python3 check.py %s --tier thorough" % pid,
                   "evidence_file": "evidence/%s.json" % pid,
                   "technique": "bounded symbolic execution of the real C functions (CBMC) decided by a SAT solver, counterexamples replayed natively",
                   "level": "other", "level_note": m["note"]})
for pid in props.PROPS:
    if pid not in meta.META: print("no metadata for", pid)
json.dump({"version": 1, "setup_cmd": "python3 check.py --selftest",
           "hooks": {"guard": "none", "enable": "no hooks are needed: the harnesses include or link /repo's sources as they are", "source_commits": []},
           "checks": checks, "not_applicable": [{"property": p, "reason": r} for p, r in meta.NA],
           "notes": "Every check regenerates its encoding from /repo's current sources; see DESIGN.md. Known findings and fixes: known_findings.txt."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(meta.META), "properties")

# the generated parts of DESIGN.md
import re
def section(text, name, body):
    return re.sub(r"(<!-- %s -->\n).*?(<!-- /%s -->)" % (name, name), lambda m: m[1] + body + m[2], text, flags=re.S)
b = ""
for pid, m in sorted(meta.META.items()):
    b += "### %s %s\n" % (pid, m["title"])
    if pid in na:
        b += "Not applicable: %s\n\n" % na[pid]; continue
    q = props.PROPS.get(pid, {"queries": []})["queries"]
    b += "%s\n\n- *decided by*: %d queries (%d in the quick tier) with %s. %s\n- *bounds*: %s\n- *outside*: %s\n- *why tests cannot*: %s\n" % (
        m["statement"], len(q), sum(1 for x in q if not x.get("thorough")),
        ", ".join(sorted({"`harness/%s`" % x["harness"] for x in q})), m["note"], m["bounds"], m["outside"], m["why"])
    if m["assumptions"]: b += "- *assumes*: %s\n" % "; ".join(m["assumptions"])
    b += "\n"
for pid, r in meta.NA:
    if pid not in meta.META: b += "### %s\nNot applicable: %s\n\n" % (pid, r)
s = "| bug | property | needs | breaks | caught by |\n|---|---|---|---|---|\n"
cf = os.path.join(V, "tools", "caught.json")
caught = json.load(open(cf)) if os.path.exists(cf) else {}
sd = os.path.join(V, "seeded")
for d in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    mf = os.path.join(sd, d, "meta.json")
    if os.path.exists(mf):
        mm = json.load(open(mf))
        s += "| %s | %s | %s | %s | %s |\n" % (d, mm["property"], mm["needs"], mm["what_it_breaks"], caught.get(d, "?"))
t = open(os.path.join(V, "DESIGN.md")).read()
t = section(section(t, "props", b), "seeds", s)
open(os.path.join(V, "DESIGN.md"), "w").write(t)
