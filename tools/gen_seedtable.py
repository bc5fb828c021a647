#!/usr/bin/env python3
"""Rewrite the table of planted bugs in DESIGN.md (between the SEEDS markers) from seeded/*/meta.json."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(root + "/seeded")):
    f = "%s/seeded/%s/meta.json" % (root, d)
    if not os.path.exists(f):
        continue
    m = json.load(open(f))
    one = lambda s: re.sub(r"\s+", " ", str(s)).replace("|", "/")
    caught = m.get("caught_by", m["property"])
    rows.append((m["property"], d, one(m["what_it_breaks"]), one(m["needs"]), caught))
rows.sort()
out = ["| property | planted bug | breaks | needs | caught by |", "|---|---|---|---|---|"]
out += ["| %s | %s | %s | %s | %s |" % r for r in rows]
p = root + "/DESIGN.md"
s = open(p).read()
if "SEEDTABLE" in s:
    s = s.replace("SEEDTABLE", "<!-- SEEDS -->\n<!-- /SEEDS -->")
s = re.sub(r"<!-- SEEDS -->.*?<!-- /SEEDS -->", lambda _: "<!-- SEEDS -->\n" + "\n".join(out) + "\n<!-- /SEEDS -->", s, flags=re.S)
open(p, "w").write(s)
print(len(rows), "seeds")
