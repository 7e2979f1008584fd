#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand after editing)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=(), state=(), claim=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, observe=list(observe), state=list(state), claim=claim, na=na))
L = "src/lib/"
I = "include/ratjs/"
exec(open(os.path.join(V, "tools", "props_table.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        o = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["text"]},
             "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "state": [dict(name=a, meaning=b, where=c) for a, b, c in p["state"]],
                         "mechanism": [dict(name=a, where=b) for a, b in p["mech"]],
                         "observe_at": p["observe"], "hook_needed": None}}
        f.write(json.dumps(o) + "\n")
TECH = ("contract-based deductive verification: requires/ensures/assigns contracts on the real C functions, enforced with "
        "goto-instrument --dfcc and discharged by CBMC (CaDiCaL); ")
man = {"version": 1,
       "setup_cmd": "python3 /verif/tools/setup.py",
       "checks": [], "not_applicable": []}
for p in P:
    if p["claim"]:
        c = p["claim"]
        man["checks"].append({"property": p["id"], "quick_cmd": "cd /verif && python3 check.py " + p["id"],
                              "thorough_cmd": "cd /verif && VERIF_TIER=thorough python3 check.py " + p["id"],
                              "technique": TECH + c["how"], "level": c["level"], "level_note": c["note"]})
    else:
        man["not_applicable"].append({"property": p["id"], "reason": p["na"] or "not built yet"})
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
