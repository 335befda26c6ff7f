#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md, section 5."""
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = ["| planted bug | property | what it breaks | needs |", "|---|---|---|---|"]
for d in sorted(x for x in os.listdir(R + "/seeded") if x[0] != "."):
    m = json.load(open(R + "/seeded/%s/meta.json" % d))
    c = lambda s: " ".join(str(s).split()).replace("|", "\\|")
    out.append("| %s | %s | %s | %s |" % (d, m["property"], c(m["what_it_breaks"]), c(m["needs"])))
p = R + "/DESIGN.md"
s = open(p).read()
a, b = s.index("<!-- seeds -->\n") + 15, s.index("<!-- /seeds -->")
open(p, "w").write(s[:a] + "\n".join(out) + "\n" + s[b:])
