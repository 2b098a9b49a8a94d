#!/usr/bin/env python3
"""Regenerates DESIGN.md: the prose below, then one entry per property from the tables of genmanifest.py,
properties.jsonl, tools/not_applicable.json, seeded/*/meta.json and known_findings.txt."""
import json, os, glob, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
m = json.load(open(os.path.join(here, "MANIFEST.json")))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl")) if l.strip()]
title = {p["id"]: p["title"] for p in props}
gen = open(os.path.join(here, "tools", "genmanifest.py")).read()
ns = {"__file__": os.path.join(here, "tools", "genmanifest.py")}
exec(gen.split("NA = json.load")[0], ns)
claimed = ns["CLAIMED"]
na = {e["property_id"] if "property_id" in e else e.get("id"): e["reason"] for e in m["not_applicable"]}
seeded = {}
for f in sorted(glob.glob(os.path.join(here, "seeded", "*", "meta.json"))):
    d = json.load(open(f)); seeded.setdefault(d["property"], []).append((os.path.basename(os.path.dirname(f)), d))
fixed = {}
for l in open(os.path.join(here, "known_findings.txt")):
    x = re.match(r"fixed: property=(C\d+) (\w+) (.*)", l)
    if x: fixed.setdefault(x[1], []).append((x[2], x[3].strip()))
out = [open(os.path.join(here, "tools", "design_head.md")).read().rstrip(), "", "# The properties", ""]
for p in props:
    i = p["id"]
    out += [f"## {i} {title[i]}", ""]
    if i in claimed:
        out += [f"*Decided by:* {claimed[i][0]}.", "", claimed[i][1], ""]
        if i in seeded:
            out += ["*Planted, and caught by this check:* " + "; ".join(f"`{n}` (needs {d['needs'].rstrip('.')})" for n, d in seeded[i]) + ".", ""]
        if i in fixed:
            out += ["*Genuine defects it found, repaired:* " + "; ".join(f"{t} ({c})" for c, t in fixed[i]) + ".", ""]
    else:
        out += ["*Not applicable:* " + na.get(i, "?"), ""]
open(os.path.join(here, "DESIGN.md"), "w").write("\n".join(out))
