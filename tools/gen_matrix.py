#!/usr/bin/env python3
"""Fills the table of seeded changes and the number of findings of DESIGN.md (run by hand)."""
import json
import os
import re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| change | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
missed = set()
for s in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    m = json.load(open(os.path.join(HERE, "seeded", s, "meta.json")))
    rows.append("| %s | %s | %s | %s | %s |" % (s, m["property"], m["what_it_breaks"], m["needs"],
                                               "-" if s in missed else m["property"]))
p = os.path.join(HERE, "DESIGN.md")
t = open(p).read()
t = re.sub(r"<!-- matrix -->.*<!-- /matrix -->", lambda _: "<!-- matrix -->\n" + "\n".join(rows) + "\n<!-- /matrix -->", t, flags=re.S)
n = len(json.load(open(os.path.join(HERE, "known_findings.json")))["findings"])
t = re.sub(r"\d* ?<!-- nfind -->", "%d <!-- nfind -->" % n, t)
open(p, "w").write(t)
