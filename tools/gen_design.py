#!/usr/bin/env python3
"""Appends the tables (planted bugs, repairs) to tools/design_head.md and writes DESIGN.md."""
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(ROOT, "tools", "design_head.md")) as f:
    text = f.read()
caught = {}
p = os.path.join(ROOT, "tools", "caught.txt")
if os.path.exists(p):
    with open(p) as f:
        for line in f:
            m = re.match(r"(\S+) (C\d\d) exit=(\d) violations=(\d+)(?: clause=(\S+))?", line)
            if m:
                caught[m.group(1)] = (m.group(3) == "1", m.group(5) or "")
rows = []
for d in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    with open(os.path.join(ROOT, "seeded", d, "meta.json")) as f:
        m = json.load(f)
    c = caught.get(d)
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"],
                                           "not run" if c is None else "%s: `%s`" % (m["property"], c[1]) if c[0] else "missed"))
text += "\n## Planted bugs and what catches them\n\nRun in quick mode; the clause is the one of the specification that rejected the recorded step first.\n\n"
text += "| id | property | breaks | caught by |\n|---|---|---|---|\n" + "\n".join(rows) + "\n"
with open(os.path.join(ROOT, "known_findings.json")) as f:
    k = json.load(f)
text += "\n## Defects of openscm found and repaired\n\nFound by the checks on the original tree (each a `fix:` commit in /repo); %s\n\n" % (
    "none is left unrepaired." if not k["findings"] else "those which are left are listed after them.")
for x in k["fixed"]:
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", x)
    text += "* %s, %s: %s\n" % m.groups()
for x in k["findings"]:
    text += "* not repaired: %s\n" % json.dumps(x)
with open(os.path.join(ROOT, "DESIGN.md"), "w") as f:
    f.write(text)
