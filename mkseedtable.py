#!/usr/bin/env python3
# Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (documentation only).
import glob, json, os, re
here = os.path.dirname(os.path.abspath(__file__))
rows = ["| bug | property | needs | breaks |", "|---|---|---|---|"]
for d in sorted(glob.glob(here + "/seeded/*/")):
    m = json.load(open(d + "meta.json"))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(d[:-1]), m["property"], m["needs"], m["what_it_breaks"]))
p = here + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"<!-- table: .*?-->\n.*?<!-- end -->", lambda _: "<!-- table: mkseedtable.py -->\n" + "\n".join(rows) + "\n<!-- end -->", s, flags=re.S)
open(p, "w").write(s)
