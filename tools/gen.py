#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table, so that they stay in step."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, NA = [], []

def prop(id, title, statement, over, qtext, why, files, mechanism, state=None, level_note="", technique=None, na=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism], "hook_needed": None}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m} for n, m in state]
    assert len(title) <= 80, title
    P.append((d, technique, level_note, na))

exec(open(os.path.join(here, "tools", "table.py")).read())

with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for d, *_ in P:
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
checks, na = [], []
for d, tech, note, reason in P:
    if reason:
        na.append({"property": d["id"], "reason": reason})
        continue
    checks.append({
        "property": d["id"],
        "quick_cmd": f"bash check.sh {d['id']} quick",
        "thorough_cmd": f"bash check.sh {d['id']} thorough",
        "technique": tech or "deterministic simulation with seeded fault injection against a reference model",
        "level": "exploration",
        "level_note": note,
    })
m = {"version": 1, "setup_cmd": "bash check.sh build", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the seams are the Read/Write/Seek type parameters of the library and, for the programs, "
              "the C library's system call wrappers, which the simulator's executable defines itself."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
