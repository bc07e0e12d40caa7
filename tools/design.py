#!/usr/bin/env python3
"""Assembles DESIGN.md: the introduction and notes below, the property table of props.py, the
workload descriptions the checkers print in their evidence, and the table of planted bugs."""
import json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
man = {c["property"]: c for c in json.load(open(f"{ROOT}/MANIFEST.json"))["checks"]}
props = [json.loads(l) for l in open(f"{ROOT}/properties.jsonl")]

INTRO = open(f"{ROOT}/tools/design_intro.md").read()
NOTES = {}
cur = None
for line in open(f"{ROOT}/tools/design_notes.md"):
    m = re.match(r"## (C\d\d)", line)
    if m: cur = m.group(1); NOTES[cur] = []
    elif cur: NOTES[cur].append(line)
out = [INTRO, "\n## Per property\n"]
for p in props:
    i = p["id"]
    src = f"{ROOT}/harness/src/bin/{i.lower()}.rs"
    rule = ""
    if os.path.exists(src):
        m = re.search(r'Ctx::new\("%s", "(.*)"\)' % i, open(src).read())
        rule = m.group(1) if m else ""
    out.append(f"### {i} {p['title']}\n")
    if i in man:
        out.append(f"*Deciding method:* {man[i]['technique']}. {man[i]['level_note']}\n")
    else:
        out.append("*Not claimed*; see not_applicable in MANIFEST.json.\n")
    if rule: out.append(f"*Observed executions:* {rule}\n")
    n = "".join(NOTES.get(i, [])).strip()
    if n: out.append(f"*Notes:* {n}\n")
out.append(open(f"{ROOT}/tools/design_end.md").read())
seeded = f"{ROOT}/seeded"
if os.path.isdir(seeded):
    res = {}
    if os.path.exists(f"{ROOT}/tools/caught.json"): res = json.load(open(f"{ROOT}/tools/caught.json"))
    out.append("\n## Planted bugs and the checks that catch them\n\nEach was written from a property's statement and the code, validated (compiles, all stable tests pass,\nits demonstration passes without it and fails with it) and run against the check.\n\n| change | needs | breaks | caught by |\n|---|---|---|---|")
    for d in sorted(os.listdir(seeded)):
        if not os.path.exists(f"{seeded}/{d}/meta.json"): continue
        m = json.load(open(f"{seeded}/{d}/meta.json"))
        out.append(f"| {d} | {m['needs']} | {m['what_it_breaks']} | {res.get(d, '?')} |")
open(f"{ROOT}/DESIGN.md", "w").write("\n".join(out) + "\n")
