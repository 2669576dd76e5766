#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % i))
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "/"), m.get("caught_by", m["property"])))
d = open(V + "/DESIGN.md").read()
new = "<!-- table -->\n" + "\n".join(rows) + "\n<!-- /table -->"
d = re.sub(r"^MATRIX$|<!-- table -->.*?<!-- /table -->", lambda _: new, d, flags=re.S | re.M)
open(V + "/DESIGN.md", "w").write(d)
