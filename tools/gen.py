#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run after editing it)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, note, tech, observe=None, claimed=True, hook=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe: d["anchors"]["observe_at"] = observe
    if hook: d["anchors"]["hook_needed"] = hook
    P.append((d, note, tech, claimed))
exec(open(os.path.join(V, "tools", "props.py")).read())
for d,*_ in P:
    for f in d["anchors"]["files"]:
        if not os.path.exists("/repo/"+f): print("MISSING", d["id"], f)
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for d, *_ in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
checks = []
na = []
for d, note, tech, claimed in P:
    i = d["id"]
    if not os.path.exists(os.path.join(V, "harness", "src", "bin", i.lower() + ".rs")):
        na.append(dict(property=i, reason="checker not built yet")); continue
    if not claimed:
        na.append(dict(property=i, reason=note)); continue
    checks.append(dict(property=i, quick_cmd=f"./check.sh {i}", thorough_cmd=f"VERIF_TIER=thorough ./check.sh {i}",
        technique=tech, level="exploration", level_note=note))
m = dict(version=1, setup_cmd="./setup.sh",
  hooks=dict(guard="none (no instrumentation was added to /repo: every property is observable at the public API)", enable="plain build of /repo's working tree by path dependency", source_commits=[]),
  checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(checks), "checks;", len(na), "not claimed:", [x["property"] for x in na])
