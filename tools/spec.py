#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json: python3 tools/spec.py"""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, check=None, na=None, state=None):
    d = {"id": id, "title": title, "statement": " ".join(statement.split()),
         "quantifier": {"over": over, "text": " ".join(text.split())},
         "why_tests_cant": " ".join(why.split()),
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append((d, check, " ".join(na.split()) if na else None))


exec(open(os.path.join(V, "tools", "props.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for d, c, na in P:
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")

checks, nas = [], []
for d, c, na in P:
    if c:
        cmd = "PYTHONHASHSEED=0 python3-vt sa/harness.py %s --tier " % d["id"]
        checks.append({"property": d["id"], "quick_cmd": cmd + "quick", "thorough_cmd": cmd + "thorough",
                       "technique": c[0], "level": "other", "level_note": " ".join(c[1].split())})
    else:
        nas.append({"property": d["id"], "reason": na or "check under construction"})
m = {"version": 1,
     "setup_cmd": "python3-vt -m compileall -q sa && clang-18 --version && opt-18 --version",
     "checks": checks, "not_applicable": nas,
     "notes": "All checks are static: clang -O0 IR of the current /repo sources (source tree and committed amalgamations) is "
              "read by a path-sensitive abstract interpreter (sa/absint.py) and rules over its effects (sa/checks/*)."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(checks), "claimed")
