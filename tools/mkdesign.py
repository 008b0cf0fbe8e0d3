#!/usr/bin/env python3
"""Refreshes the tables of DESIGN.md: planted changes from seeded/*/meta.json and tools/catches.txt,
measured costs from tools/costs.txt (written by tools/costs.sh)."""
import glob, json, os, re
top = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
got = dict(l.split(None, 1) for l in open(os.path.join(top, "tools", "catches.txt")) if l.strip())
rows = ["<!-- matrix -->", "| change | property | what it breaks | caught by |", "|---|---|---|---|"]
for m in sorted(glob.glob(os.path.join(top, "seeded", "*", "meta.json"))):
    i, d = os.path.basename(os.path.dirname(m)), json.load(open(m))
    rows.append("| %s | %s | %s | %s |" % (i, d["property"], d["what_it_breaks"], got.get(i, "not yet run").strip()))
rows.append("<!-- end -->")
p = os.path.join(top, "DESIGN.md")
s = open(p).read()
s = s.replace("@@MATRIX@@", "<!-- matrix -->\n<!-- end -->")
s = re.sub(r"<!-- matrix -->.*?<!-- end -->", lambda _: "\n".join(rows), s, flags=re.S)
rows = ["<!-- costs -->", "| check | result | traces of the code | model states | seconds |", "|---|---|---|---|---|"]
for l in sorted(open(os.path.join(top, "tools", "costs.txt"))):
    m = re.match(r"(\w+): (\w+); (\d+) traces\b[^,]*, (\d+) model states, ([\d.]+) s", l)
    if m:
        rows.append("| %s | %s | %s | %s | %.0f |" % (m.group(1), m.group(2), m.group(3), m.group(4), float(m.group(5))))
rows.append("<!-- endcosts -->")
s = re.sub(r"<!-- costs -->.*?<!-- endcosts -->", lambda _: "\n".join(rows), s, flags=re.S)
open(p, "w").write(s)
