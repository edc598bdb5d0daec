#!/usr/bin/env python3
"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(os.path.join(here, "seeded"))):
    m = json.load(open(os.path.join(here, "seeded", d, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "/"), m.get("caught_by", m["property"])))
p = os.path.join(here, "DESIGN.md")
t = open(p).read()
tab = "<!-- seeds -->\n| id | property | needs, to manifest | caught by |\n|----|----|----|----|\n" + "\n".join(rows) + "\n<!-- /seeds -->"
t = re.sub(r"<!-- seeds -->.*?<!-- /seeds -->", lambda _: tab, t, flags=re.S)
open(p, "w").write(t)
