#!/usr/bin/env python3
"""
Plant and try a change (development aid; no check uses it).
  mkseed.py new SPEC.py       SPEC.py defines ID, PROPERTY, EDITS = [(file, old, new)], DEMO, NEEDS, BREAKS
  mkseed.py try ID [PROP...]  apply to /repo: build, stable tests, demo, checks; undo
"""
import json
import os
import subprocess
import sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, **kw):
    p = subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    return p.returncode, p.stdout.decode("utf8", "replace")


def new(path):
    g = {}
    exec(open(path).read(), g)
    d = os.path.join(VERIF, "seeded", g["ID"])
    os.makedirs(d, exist_ok=True)
    rc, out = sh("rm -rf /tmp/seedrepo && git -C /repo worktree prune && git clone -q /repo /tmp/seedrepo")
    assert rc == 0, out
    for f, old, newt in g["EDITS"]:
        p = os.path.join("/tmp/seedrepo", f)
        s = open(p, newline="").read()
        if "\r\n" in s:
            old, newt = old.replace("\n", "\r\n"), newt.replace("\n", "\r\n")
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, "w", newline="").write(s.replace(old, newt))
    rc, diff = sh("git -C /tmp/seedrepo diff --binary")
    open(os.path.join(d, "patch.diff"), "wb").write(subprocess.run(
        ["git", "-C", "/tmp/seedrepo", "diff"], stdout=subprocess.PIPE).stdout)
    open(os.path.join(d, "demo.py"), "w").write(g["DEMO"].lstrip("\n"))
    open(os.path.join(d, "demo.sh"), "w").write(
        '#!/bin/bash\n# run with cwd /repo: exit 0 if the behaviour is right\nexport MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 '
        'PYTHONPATH="$PWD/src"\nd=$(cd "$(dirname "$0")" && pwd)\nt=$(mktemp -d)\ntrap \'rm -rf "$t"\' EXIT\n'
        'cd "$t" && timeout 250 /opt/venv/bin/python "$d/demo.py"\n')
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": g["PROPERTY"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1)
    sh("rm -rf /tmp/seedrepo")
    return g["ID"]


def stable():
    rc, out = sh("bash /opt/vp/build.sh >/dev/null 2>&1; bash /opt/vp/test.sh /tmp/seedtest.json")
    base = json.load(open("/opt/vp/BASELINE.json"))
    res = json.load(open("/tmp/seedtest.json"))
    want = set(base.get("stable") or base.get("passed") or base.get("pass") or base["tests"])
    got = set(res.get("passed") or res.get("pass") or [])
    return sorted(want - got)


def try_(ident, props):
    d = os.path.join(VERIF, "seeded", ident)
    assert sh("git -C /repo status --porcelain")[1] == "", "dirty /repo"
    rc, out = sh("bash %s/demo.sh" % d, cwd="/repo")
    print("demo unpatched:", rc, out[-500:] if rc else "")
    rc, out = sh("git -C /repo apply %s/patch.diff" % d)
    assert rc == 0, out
    try:
        if "notest" not in props:
            print("stable tests lost:", stable())
        rc, out = sh("bash %s/demo.sh" % d, cwd="/repo")
        print("demo patched:", rc, out.strip().splitlines()[-1:] if out.strip() else "")
        for p in props or [json.load(open(d + "/meta.json"))["property"]]:
            if p == "notest":
                continue
            rc, out = sh("VERIF_SEED=1 VERIF_TIER=quick python3 %s/run_check.py %s" % (VERIF, p))
            print("check", p, rc, "\n".join(l[:300] for l in out.strip().splitlines()[-4:]))
    finally:
        sh("git -C /repo checkout -- .")


if __name__ == "__main__":
    if sys.argv[1] == "new":
        for f in sys.argv[2:]:
            print(new(f))
    else:
        try_(sys.argv[2], sys.argv[3:])
