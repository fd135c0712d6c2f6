#!/usr/bin/env python3
"""Write the table of planted bugs in DESIGN.md from the output of 'tools/plant.py --check-only':  tools/matrix.py FILE"""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = {}
for line in open(sys.argv[1]):
    m = re.match(r"(\S+) .*?check (\w+): (\w+)\s*(?:case=(\w+))?", line)
    if m:
        rows[m[1]] = m.groups()[1:]
out = ["| planted bug | needs | reported by |", "|---|---|---|"]
for i, (p, res, c) in sorted(rows.items()):
    needs = json.load(open(os.path.join(V, "seeded", i, "meta.json")))["needs"].replace("|", "/")
    out.append("| %s | %s | %s |" % (i, needs, "%s, case %s" % (p, c) if res == "CAUGHT" else "missed"))
f = os.path.join(V, "DESIGN.md")
s = open(f).read()
a, b = "<!-- planted -->\n", "<!-- /planted -->\n"
if a not in s:
    s = s.replace("\nMATRIX\n", "\n" + a + b)
s = s[:s.index(a) + len(a)] + "\n".join(out) + "\n" + s[s.index(b):]
open(f, "w").write(s)
