#!/usr/bin/env python3
"""tools/mkdesign.py: refresh the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/caught.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
c = json.load(open(V + "/tools/caught.json")) if os.path.exists(V + "/tools/caught.json") else {}
rows = ["| bug | property | what it breaks | caught by |", "|---|---|---|---|"]
for s in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/" + s + "/meta.json"))
    rows.append("| %s | %s | %s | %s |" % (s, m["property"], m["what_it_breaks"], c.get(s, "not run")))
d = open(V + "/DESIGN.md").read()
d = re.sub(r"<!-- seeds -->.*?<!-- /seeds -->", lambda _: "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->", d, flags=re.S)
open(V + "/DESIGN.md", "w").write(d)
