#!/usr/bin/env python3
"""Writes DESIGN.md: hand-written prose (tools/design_head.md) and, per property, what the unit files register."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
man = json.load(open(os.path.join(V, "MANIFEST.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
units = {}
assume = {}
for f in sorted(glob.glob(os.path.join(V, "units", "*.c"))):
    b = os.path.basename(f)[:-2]
    dflt = {}
    ass, us = [], []
    for l in open(f):
        m = re.match(r"//@(assume|default|unit|bounded)\s+(.*)", l.rstrip())
        if not m:
            continue
        if m[1] == "assume":
            ass.append(m[2])
        else:
            kv = dict(x.split("=", 1) for x in re.findall(r'\S+="[^"]*"|\S+=\S+', m[2]))
            if m[1] == "default":
                dflt.update(kv)
            else:
                d = dict(dflt); d.update(kv); us.append(d)
    for d in us:
        for p in d.get("props", "").split(","):
            units.setdefault(p, []).append((b, d)); assume.setdefault(p, [])
            for a in ass:
                if a not in assume[p]:
                    assume[p].append(a)
bugs = {}
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(f)); bugs.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(f)), m))
kf = {}
for l in open(os.path.join(V, "known-findings.txt")):
    m = re.match(r"(fixed|KNOWN-FINDING): property=(\S+) (.*)", l)
    if m:
        kf.setdefault(m[2], []).append(m[1] + ": " + m[3])
checks = {c["property"]: c for c in man["checks"]}
out = [open(os.path.join(V, "tools", "design_head.md")).read()]
out.append("\n## Per property\n")
for p in props:
    i = p["id"]
    if i not in checks:
        continue
    c = checks[i]
    out.append("### %s %s\n" % (i, p["title"]))
    out.append("Decided by: " + c["technique"].split("; ", 1)[1] + ". Level: " + c["level"] + ".  \nLimits: " + c["level_note"] + "\n")
    fns, bd = {}, []
    for b, d in units.get(i, []):
        for fn in (d.get("fns") or d.get("enforce", "")).split(","):
            if fn:
                fns.setdefault(b, [])
                if fn not in fns[b]:
                    fns[b].append(fn)
        if d.get("bounded"):
            bd.append("%s:%s (%s)" % (b, d.get("name"), d["bounded"].strip('"').replace("_", " ")))
    out.append("Functions under contract: " + "; ".join("`units/%s.c`: %s" % (b, ", ".join(x)) for b, x in sorted(fns.items())) + ".\n")
    if bd:
        out.append("Bounded stand-ins (not counted as proved): " + "; ".join(sorted(set(bd))) + ".\n")
    if assume.get(i):
        out.append("Assumed: " + "; ".join(assume[i]) + ".\n")
    if bugs.get(i):
        out.append("Planted: " + "; ".join("%s (%s) - %s" % (b, m["what_it_breaks"], m.get("caught", "caught")) for b, m in bugs[i]) + ".\n")
    if kf.get(i):
        out.append("Found: " + "; ".join(kf[i]) + ".\n")
out.append("\n## Not applicable\n")
for n in man["not_applicable"]:
    t = next(p["title"] for p in props if p["id"] == n["property"])
    out.append("- **%s %s**: %s" % (n["property"], t, n["reason"]))
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out) + "\n")
