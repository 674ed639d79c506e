#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/caught.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = json.load(open(V + "/tools/caught.json"))
rows = ["| planted bug | property | needs | caught by | first missed? |", "|---|---|---|---|---|"]
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(m))
    j = json.load(open(m))
    c = caught.get(i, {})
    rows.append("| %s | %s | %s | %s | %s |" % (i, j["property"], j["needs"].replace("|", "/"), ", ".join(c.get("by", [j["property"]])) or "nothing", c.get("missed", "")))
p = V + "/DESIGN.md"
t = open(p).read()
t = re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->", t, flags=re.S)
open(p, "w").write(t)
