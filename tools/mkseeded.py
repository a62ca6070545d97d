#!/usr/bin/env python3
"""Rewrites the list of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | what it breaks | needs | caught by |", "|---|---|---|---|"]
for i in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", i, "meta.json")))
    c = lambda s: " ".join(s.split()).replace("|", "\\|")
    rows.append("| %s | %s | %s | %s |" % (i, c(m["what_it_breaks"]), c(m["needs"]), m["property"] + " quick"))
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
s = re.sub(r"<!-- seeded -->.*<!-- /seeded -->", lambda _: "<!-- seeded -->\n" + "\n".join(rows) + "\n<!-- /seeded -->", s, flags=re.S)
open(p, "w").write(s)
