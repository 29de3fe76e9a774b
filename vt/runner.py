"""
Common machinery of all checks: run drivers (real code -> trace), run TLC (trace -> verdict,
model -> state space), collect verdicts, write evidence, report.
"""
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPECS = os.path.join(VERIF, "specs")
DRIVERS = os.path.join(VERIF, "vt", "drivers")
PY = "/opt/venv/bin/python"
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = min(8, os.cpu_count() or 8)


class MachineryError(Exception):
    pass


def driver_env():
    env = dict(os.environ)
    env.update(PYTHONPATH=REPO + "/src:" + DRIVERS, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
               MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1")
    env.pop("VERIF_REPLAY", None)
    return env


def run(cmd, env=None, timeout=600, cwd=None):
    try:
        p = subprocess.run(cmd, env=env, cwd=cwd, timeout=timeout, stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        return p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")
    except subprocess.TimeoutExpired as e:
        return None, (e.stdout or b"").decode("utf8", "replace"), (e.stderr or b"").decode("utf8", "replace")


def tlc(work, module, cfg, env=None, workers=1, extra=(), timeout=600, mem="2g", fast=False):
    meta = tempfile.mkdtemp(dir=work)
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
           *(["-XX:TieredStopAtLevel=1"] if fast else []), "-Xmx" + mem, "-Xss16m",
           "-Djava.io.tmpdir=" + meta, "-DTLA-Library=" + SPECS, "-cp", TLA, "tlc2.TLC", "-workers", str(workers),
           "-metadir", meta, "-noGenerateSpecTE", "-config", cfg, *extra, module]
    e = dict(os.environ)
    e.update(env or {})
    rc, out, err = run(cmd, env=e, timeout=timeout, cwd=meta)
    shutil.rmtree(meta, ignore_errors=True)
    return rc, out, err


def tla_json(line, tag):
    """PrintT prints a TLA+ string: strip quotes and unescape."""
    s = line.strip()
    if s.startswith('"'):
        s = s[1:-1].replace('\\"', '"').replace("\\\\", "\\")
    return json.loads(s[len(tag):])


class Check:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.quick = self.tier != "thorough"
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="verif_%s_" % prop)
        self.states = self.transitions = 0      # TLC: model checking and trace validation
        self.model = []                         # per model: name, distinct states, generated
        self.lines = 0                          # trace lines validated
        self.traces = 0                         # complete histories validated
        self.ops = {}                           # operation -> count over all trace lines
        self.bad = []                           # failures
        self.samples = []
        self.notes = []
        self.parts = []

    # ------------------------------------------------------------------ traces
    def shards(self, name, driver, configs, module, prop=None, timeout=800, env=None):
        """each config: one driver process and one TLC process validating what it recorded"""
        prop = prop or self.prop

        def one(k):
            out = os.path.join(self.work, "%s_%d.ndjson" % (name, k))
            cf = os.path.join(self.work, "%s_%d.json" % (name, k))
            scratch = tempfile.mkdtemp(dir=self.work)
            c = dict(configs[k], scratch=scratch)
            json.dump(c, open(cf, "w"))
            rc, so, se = run([PY, os.path.join(DRIVERS, driver), out, cf], env=driver_env(), timeout=timeout,
                             cwd=scratch)
            shutil.rmtree(scratch, ignore_errors=True)
            if rc != 0:
                if rc is not None and rc < 0 or rc is None or not os.path.exists(out):
                    # the interpreter died inside the library, or never came back
                    return self._died(name, k, rc, se, out)
                raise MachineryError("driver %s shard %d exit %s\n%s" % (driver, k, rc, se[-3000:]))
            n = sum(1 for _ in open(out))
            if n == 0:
                return []
            e = {"TRACE_FILE": out, "PROP": prop}
            e.update(env or {})
            cfg = os.path.join(SPECS, module + ".cfg")
            rc, so, se = tlc(self.work, os.path.join(SPECS, module + ".tla"), cfg, env=e, timeout=timeout,
                             fast=n < 15000)
            return self._verdict(name, k, out, n, rc, so, se)

        with ThreadPoolExecutor(NPROC) as ex:
            res = list(ex.map(one, range(len(configs))))
        for r in res:
            self.bad += r
        self.parts.append(name)

    def _died(self, name, k, rc, se, out):
        if rc is None:
            raise MachineryError("driver of part %s shard %d timed out" % (name, k))
        if rc == -9:
            raise MachineryError("driver of part %s shard %d was killed" % (name, k))
        if rc is not None and rc < 0:
            return [{"part": name, "shard": k, "h": -1, "op": "process", "args": [], "exc": "signal %d" % -rc,
                     "clauses": ["crash"], "history": tail(out, 40), "stderr": se[-2000:]}]
        raise MachineryError("driver %s shard %d exit %s\n%s" % (name, k, rc, se[-3000:]))

    def _verdict(self, name, k, out, n, rc, so, se):
        bad, done = [], None
        for line in so.splitlines():
            if line.startswith('"@@BAD '):
                bad.append(tla_json(line, "@@BAD "))
            elif line.startswith('"@@DONE '):
                done = line.strip().strip('"').split()[1:]
        if rc not in (0, None) and done is None:
            m = re.findall(r"(\d+) states generated, \d+ distinct", so)
            if m and re.search(r"^Error: ", so, re.M) and not re.search(r"OutOfMemory|StackOverflow|Java heap|IOException", so):
                # the specification has no meaning for what this line holds
                k_ = min(int(m[-1]), n)
                row = [json.loads(r) for r in open(out).read().splitlines()[:k_]]
                why = re.search(r"^Error: .*?(?=^Error: The behavior)", so, re.M | re.S)
                b = row[-1]
                return bad_rows(bad, row) + [{"part": name, "shard": k, "h": b["h"], "op": b["op"], "args": b["args"], "exc": b["exc"],
                    "line": k_, "clauses": ["not evaluable"], "history": [d for d in row[-400:] if d["h"] == b["h"]],
                    "stderr": why.group(0)[:1000] if why else ""}]
        if rc != 0 or done is None or int(done[0]) != n or int(done[1]) != n:
            raise MachineryError("trace validation of part %s shard %d did not finish (rc=%s done=%s lines=%d)\n%s\n%s"
                                 % (name, k, rc, done, n, so[-3000:], se[-1000:]))
        m = re.search(r"(\d+) states generated, (\d+) distinct", so)
        hs = set()
        rows = open(out).read().splitlines()
        for r in rows:
            d = json.loads(r)
            hs.add(d["h"])
            self.ops[d["op"]] = self.ops.get(d["op"], 0) + 1
        self.lines += n
        self.traces += len(hs)
        if m:
            self.states += int(m.group(2))
            self.transitions += int(m.group(1)) - 1
        if rows and len(self.samples) < 3:
            self.samples.append({"part": name, "trace_line": shorten(json.loads(rows[min(len(rows) - 1, 7)]))})
        res = []
        for i, b in enumerate(bad):
            hist = []
            if i < 40:
                h, n0 = b["h"], max(0, b["line"] - 400)
                hist = [d for d in map(json.loads, rows[n0:b["line"]]) if d["h"] == h]
            b.update(part=name, shard=k, history=hist)
            res.append(b)
        return res

    # ------------------------------------------------------------------ models
    def model_check(self, name, module, cfg_text, workers=NPROC, timeout=600, collect=None, extra=(), mem="4g",
                    ok_timeout=False):
        """exhaustive TLC run of a design model; returns the collected printed lines"""
        cfg = os.path.join(self.work, name + ".cfg")
        open(cfg, "w").write(cfg_text)
        path = module if os.path.isabs(module) else os.path.join(SPECS, module + ".tla")
        rc, so, se = tlc(self.work, path, cfg, workers=workers, timeout=timeout, extra=extra, mem=mem)
        if rc is None and not ok_timeout:
            raise MachineryError("model %s timed out" % name)
        if rc not in (0, None):
            raise MachineryError("model %s: TLC exit %s\n%s\n%s" % (name, rc, so[-3000:], se[-1000:]))
        m = re.findall(r"(\d+) states generated.*?(\d+) distinct", so)
        sims = re.findall(r"The number of states generated: (\d+)", so)
        if m:
            g, d = int(m[-1][0]), int(m[-1][1])
        elif sims:
            g = d = int(sims[-1])
        else:
            g = d = 0
        self.states += d
        self.transitions += g
        self.model.append({"model": name, "distinct_states": d, "transitions": g})
        if collect:
            return [tla_json(x, collect) for x in so.splitlines() if x.startswith('"' + collect)]
        return []

    # ------------------------------------------------------------------ verdict
    def finish(self, assumptions=(), extra=None):
        known = load_known(self.prop)
        fresh, seen = [], {}
        for b in self.bad:
            hit = None
            for kf in known:
                if matches(kf, b):
                    hit = kf
                    break
            if hit is None:
                fresh.append(b)
            else:
                seen[hit["id"]] = hit
        for kf in known:
            print("KNOWN-FINDING: property=%s %s: %s%s" % (self.prop, kf["id"], kf["what"],
                  "" if kf["id"] in seen else " (not reached in this run)"))
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "trace_lines": self.lines,
               "operations": self.ops, "models": self.model, "parts": self.parts,
               "samples": self.samples or [{"model": self.model}]}
        cov.update(extra or {})
        if self.notes:
            cov["notes"] = self.notes
        ev = {"property": self.prop, "tier": self.tier if self.tier in ("quick", "thorough") else "quick",
              "seed": self.seed, "level": "model_checking", "coverage": cov, "assumptions": list(assumptions),
              "wall_s": round(time.time() - self.t0, 2), "violations": len(fresh)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w"), indent=1)
        shutil.rmtree(self.work, ignore_errors=True)
        if fresh:
            d = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(d, exist_ok=True)
            fresh.sort(key=lambda b: len(b.get("history", [])) or 10 ** 6)
            path = os.path.join(d, self.prop + ".json")
            json.dump({"property": self.prop, "seed": self.seed, "failures": fresh[:5],
                       "all": [shorten({k: v for k, v in b.items() if k != "history"}) for b in fresh[:200]]},
                      open(path, "w"), indent=1)
            for b in fresh[:5]:
                print("  failed: part=%s history=%s op=%s args=%s exc=%s clauses=%s" % (
                    b.get("part"), b.get("h"), b.get("op"), json.dumps(b.get("args"))[:200], b.get("exc"),
                    b.get("clauses")))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        print("OK property=%s traces=%d lines=%d states=%d transitions=%d wall=%.1fs" % (
            self.prop, self.traces, self.lines, self.states, self.transitions, time.time() - self.t0))
        return 0

    def abort(self):
        shutil.rmtree(self.work, ignore_errors=True)


def bad_rows(bad, rows):
    for b in bad:
        b.update(history=[d for d in rows[max(0, b["line"] - 400):b["line"]] if d["h"] == b["h"]])
    return bad


def tail(path, n):
    try:
        return open(path).read().splitlines()[-n:]
    except OSError:
        return []


def shorten(o, n=3000):
    s = json.dumps(o)
    return o if len(s) <= n else s[:n] + "..."


def load_known(prop):
    """committed findings: entries of status "known" suppress exactly the failures they describe"""
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"] if k["property"] == prop and k["status"] == "known"]


def matches(kf, b):
    m = kf["match"]
    for key, want in m.items():
        if key == "clauses":
            if not set(b["clauses"]) <= set(want):
                return False
        elif b.get(key) != want:
            return False
    return True


def main(argv, table):
    prop = argv[1]
    if len(argv) > 2 and argv[2] in ("quick", "thorough"):
        os.environ["VERIF_TIER"] = argv[2]
    c = Check(prop)
    try:
        fn, assumptions = table[prop]
        fn(c)
        return c.finish(assumptions)
    except MachineryError as e:
        print("ERROR: %s" % e, file=sys.stderr)
        if c.bad:                      # a violation was already found: that stands
            return c.finish(assumptions)
        c.abort()
        return 2
    except BaseException:
        c.abort()
        raise
