#!/usr/bin/env python3
"""known_findings.json: "fixed" entries are resolved against the git log of /repo by subject."""
import json
import os
import subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], stdout=subprocess.PIPE).stdout.decode().splitlines()
exec(open(os.path.join(HERE, "tools", "findings.py")).read())
out = []
for props, subject, what in FIXED:
    h = [l.split()[0] for l in log if l.split(" ", 1)[1].startswith("fix: " + subject)]
    assert len(h) == 1, (subject, h)
    for p in props.split():
        out.append({"property": p, "status": "fixed", "commit": h[0], "what": what,
                    "entry": "fixed: property=%s %s %s" % (p, h[0], what)})
for k in KNOWN:
    out.append(dict(k, status="known"))
subjects = [l for l in log if " fix: " in l and "line endings" not in l]
assert len(subjects) == len({o["commit"] for o in out if o["status"] == "fixed"}), "a fix commit is not recorded"
json.dump({"findings": out}, open(os.path.join(HERE, "known_findings.json"), "w"), indent=1)
print(len(out), "findings")
