#!/usr/bin/env python3
"""Rewrites the "Seeded bugs" section of DESIGN.md from seeded/ and results.json."""
import glob, json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = json.load(open(os.path.join(H, "tools/results.json")))
rows = []
for d in sorted(glob.glob(os.path.join(H, "seeded/*/meta.json"))):
    n = os.path.basename(os.path.dirname(d))
    m = json.load(open(d))
    r = res.get(n)
    rows.append("| %s | %s | %s | %s | %s |" % (n, m["property"], m["what_it_breaks"], m["needs"],
                "not run" if r is None else "caught" if r["caught"] else "MISSED"))
c = sum(1 for r in rows if r.endswith("| caught |"))
s = open(os.path.join(H, "DESIGN.md")).read()
i = s.index("## Seeded bugs")
s = s[:i] + """## Seeded bugs

`tools/bugs.py` holds the planted changes, `tools/plant.py make ID` confirms one
in a scratch copy (builds, passes the tests, its demonstration fails only with
it), `tools/plant.py run ID` applies it to /repo, runs the quick check of its
property and reverts it. %d of %d are caught by the quick check of the property
they break.

| bug | property | what it breaks | needs | quick check |
|---|---|---|---|---|
%s
""" % (c, len(rows), "\n".join(rows))
open(os.path.join(H, "DESIGN.md"), "w").write(s)
print(c, len(rows))
