#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, the properties, the annotations of the harnesses, tools/design_notes.json,
known_findings.txt and tools/detection.txt."""
import json, glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
o = [open(V + "/tools/design_head.md").read()]
notes = json.load(open(V + "/tools/design_notes.json")); man = json.load(open(V + "/MANIFEST.json"))
na = {x["property"]: x["reason"] for x in man["not_applicable"]}
o.append("\n## The properties one by one\n")
for l in open(V + "/properties.jsonl"):
    p = json.loads(l); i = p["id"]; o.append("\n### %s – %s\n" % (i, p["title"]))
    if i in na: o.append("Not applicable: " + na[i] + "\n"); continue
    o.append(notes[i] + "\n")
    for f in sorted(glob.glob(V + "/harness/%s_*.cpp" % i.lower())):
        s = open(f).read(); o.append("\n* Harness `harness/%s`, entries: %s" % (os.path.basename(f), ", ".join("`%s`" % x for x in sorted(set(re.findall(r'HARNESS\((\w+)\)', s))))))
        for k, t in (("bounds", "Bounds"), ("assume", "Assumption")):
            for b in re.findall(r'//\s*@%s\s+(.*)' % k, s): o.append("* %s: %s" % (t, b.strip()))
    o.append("")
o.append("\n## Planted changes and what catches them\n\n" + open(V + "/tools/detection.txt").read())
o.append("\n## Genuine defects found and repaired\n\nAll were found by a check on the original tree, replayed natively, repaired by a `fix:` commit and are still looked for.\n")
for l in open(V + "/known_findings.txt"):
    m = re.match(r'(fixed: )?property=(\S+) (\S+) (.*)', l.strip())
    if m: o.append("* %s `%s` %s" % (m.group(2), m.group(3), m.group(4)))
o.append("\n" + open(V + "/tools/design_tail.md").read())
open(V + "/DESIGN.md", "w").write("\n".join(o))
