#!/usr/bin/env python3
"""Nothing to build: checks that the tools and the specifications are in place."""
import os
import subprocess
import sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
for f in sorted(os.listdir(os.path.join(VERIF, "specs"))):
    if f.endswith(".tla"):
        p = subprocess.run(["java", "-cp", TLA, "tla2sany.SANY", f], cwd=os.path.join(VERIF, "specs"),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            print(p.stdout.decode()[-2000:])
            sys.exit("specification %s does not parse" % f)
print("specifications parse")
