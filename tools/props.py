#!/usr/bin/env python3
"""Single source of properties.jsonl, checks.tsv and MANIFEST.json: python3 tools/props.py"""
import json, os, sys
os.chdir(os.path.join(os.path.dirname(__file__), ".."))
PROPS, NA = [], []
def prop(id, title, statement, text, tests, files, mech, pkg=None, over=("inputs", "histories"), note="", technique=None, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    assert statement.count(". ") <= 3, id
    p = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": list(over), "text": text}, "why_tests_cant": tests,
         "anchors": {"files": list(files), "mechanism": [{"name": a, "where": b} for a, b in mech]}}
    if state: p["anchors"]["state"] = [{"name": a, "meaning": m, "where": w} for a, m, w in state]
    if observe: p["anchors"]["observe_at"] = list(observe)
    PROPS.append((p, pkg, note, technique))
def na(id, reason): NA.append({"property": id, "reason": reason})
sys.path.insert(0, "tools")
import props_math, props_pallets  # noqa
for m in (props_math, props_pallets): m.define(prop, na)
with open("properties.jsonl", "w") as f:
    for p, *_ in PROPS: f.write(json.dumps(p, ensure_ascii=False) + "\n")
checks = []
with open("checks.tsv", "w") as f:
    for p, pkg, note, tech in PROPS:
        if not pkg: continue
        i = p["id"]
        f.write(f"{i}\t{pkg}\n")
        checks.append({"property": i, "quick_cmd": f"bash run.sh {i}", "thorough_cmd": f"bash run.sh {i} --thorough",
                       "technique": tech, "level": "model_checking", "level_note": note})
pk = sorted({p for _, p, *_ in PROPS if p})
json.dump({"version": 1,
           "setup_cmd": "bash setup.sh " + " ".join(pk),
           "checks": checks, "not_applicable": NA,
           "notes": "No hooks in /repo: the checkers compile /repo's unmodified sources through shadow manifests in mc/repo against the runtime shim in mc/shim. See DESIGN.md. KNOWN_FINDINGS.txt lists the defects found (all listed as fixed were repaired by 'fix:' commits in /repo)."},
          open("MANIFEST.json", "w"), indent=1, ensure_ascii=False)
ids = [p["id"] for p, *_ in PROPS]
assert len(set(ids)) == len(ids)
assert {p["id"] for p, k, *_ in PROPS if not k} == {x["property"] for x in NA}, "unclaimed properties need a reason"
print(len(PROPS), "properties,", len(checks), "checks,", pk)
