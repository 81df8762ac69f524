#!/usr/bin/env python3
"""DESIGN.md = tools/design_head.md + a section per property + findings + planted bugs."""
import json, os, glob, re
os.chdir(os.path.join(os.path.dirname(__file__), ".."))
P = [json.loads(l) for l in open("properties.jsonl")]
M = {c["property"]: c for c in json.load(open("MANIFEST.json"))["checks"]}
NA = json.load(open("MANIFEST.json"))["not_applicable"]
D = {}
cur = None
for l in open("tools/design_props.md"):
    m = re.match(r"^## (\w+)\s*$", l)
    if m: cur = m.group(1); D[cur] = ""
    elif cur: D[cur] += l
out = [open("tools/design_head.md").read(), "\n## Properties\n"]
for p in P:
    i = p["id"]
    out.append(f"\n### {i} {p['title']}\n\n{p['statement']}\n\n*Quantified over*: {p['quantifier']['text']}. *Anchors*: {', '.join(p['anchors']['files'])}.\n\n{D.get(i, '').strip()}\n")
if NA:
    out.append("\n## Not decided by model checking\n\n" + "".join(f"* {n['property']}: {n['reason']}\n" for n in NA))
if os.path.exists("tools/design_shim.md"): out.append("\n" + open("tools/design_shim.md").read())
out.append("\n## Defects found in the code\n\nEach was shown with a failing input against the real code. `KNOWN_FINDINGS.txt`:\n\n" + "".join("* " + l for l in open("KNOWN_FINDINGS.txt") if not l.startswith("#")))
out.append("\n## Planted bugs\n\nConfirmed with `tools/mkseed.py` (builds, passes the 46 tests, demonstration fails with it and passes without). All were written from the property; the last column is the outcome of the property's quick check.\n\n| bug | property | needs | caught |\n|---|---|---|---|\n")
res = json.load(open("tools/seed_results.json")) if os.path.exists("tools/seed_results.json") else {}
for d in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(d)); i = d.split("/")[1]
    out.append(f"| {i} | {m['property']} | {m['needs']} | {res.get(i, '?')} |\n")
if os.path.exists("tools/design_tail.md"): out.append("\n" + open("tools/design_tail.md").read())
open("DESIGN.md", "w").write("".join(out))
miss = [p["id"] for p in P if p["id"] not in D]
if miss: print("no design text for", miss)
