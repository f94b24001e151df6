#!/usr/bin/env python3
"""Rewrites the table of planted changes in DESIGN.md (development aid)."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
extra = {}
p = H + "/tools/also_caught.json"
if os.path.exists(p): extra = json.load(open(p))
for i in sorted(os.listdir(H + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (H, i)))
    r = extra.get(i, {})
    rows.append("| %s | %s | %s | %s |" % (i, m["needs"], "%s: %s" % (m["property"], r.get("kind", "caught")), ", ".join(r.get("also", [])) or "–"))
t = open(H + "/DESIGN.md").read()
a, rest = t.split("<!-- seeds -->\n")[0], t.split("<!-- /seeds -->")[1]
t = a + "<!-- seeds -->\n| change | needs, in order to show | caught by (violation class) | other checks that see it |\n|---|---|---|---|\n" + "\n".join(rows) + "\n<!-- /seeds -->" + rest
open(H + "/DESIGN.md", "w").write(t)
