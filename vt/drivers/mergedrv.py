"""
Overlays of drawings. usage: mergedrv.py OUT CONFIG
CONFIG: {"seed", "first", "histories", "kinds": ["general", "touching"]}
Supporting lines are x=c, y=c, x+y=c, x-y=c with even c, so every crossing is a lattice point.
"""
import json
import random
import sys
import common
from common import Log, limit, Hang, exc_name
import polydrv
from polydrv import project, pgm, EMPTY, onseg, DIRS

from bgem.polygons import merge
from bgem import undo


class NoLog:
    def put(self, rec):
        self.last = rec


def build(rng, n, size, extra):
    """a drawing made through the public API"""
    se = polydrv.Session(NoLog(), 0)
    while len(se.S()) < n:
        if se.dead:
            return None
        u = rng.random()
        if u < 0.35:
            polydrv.op_square(se, rng, size)
        else:
            polydrv.op_add_line(se, rng, size)
        if rng.random() < 0.1:
            polydrv.op_delete_segment(se, rng)
    for _ in range(extra):
        for _ in range(20):
            q = polydrv.r_coord(rng, size)
            if polydrv.clear_point(se, q):
                se.add_point(*q)
                break
    return None if se.dead else se


def touches(a, b):
    """a vertex of one drawing in the interior of a segment of the other, or equal/overlapping parts"""
    for x, y in ((a, b), (b, a)):
        P, S, Q = x.P(), x.S(), y.P()
        for s, t in S.values():
            for q in Q.values():
                if onseg(q, P[s], P[t]):
                    return True
    return bool(set(a.P().values()) & set(b.P().values()))


def pairs(m):
    return sorted([k + 1, -1 if v is None else v + 1] for k, v in m.items() if v is not None)


def case(log, h, op, ds):
    for d in ds:
        pgm.disable_undo()
    ins = [project(d.pd) for d in ds]
    rec = {"h": h, "op": op, "args": [], "exc": "", "ins": ins, "ins2": ins, "st": EMPTY, "maps": [], "ident": 0}
    try:
        with limit(20):
            if op == "single":
                dec, ms, mo = merge.intersect_single(ds[0].pd, ds[1].pd)
                rec["ident"] = 1
                maps = [ms, mo]
            else:
                dec, maps = merge.intersect_decompositions([d.pd for d in ds])
        rec["st"] = project(dec)
        rec["ins2"] = [project(d.pd) for d in ds]
        rec["maps"] = [[pairs(m) for m in one] for one in maps]
    except (Exception, Hang) as e:
        rec["exc"] = exc_name(e)
    log.put(rec)


def main():
    out, conf = sys.argv[1:3]
    conf = json.load(open(conf))
    common.silence()
    log = Log(out)
    i = 0
    while i < conf["histories"] and not common.stop():
        rng = random.Random("%d/%d" % (conf["seed"], conf["first"] + i))
        kind = conf["kinds"][i % len(conf["kinds"])]
        i += 1
        for _ in range(30):
            polydrv.BIG[0] = rng.random() < 0.25
            n = rng.choice((1, 2, 2, 2, 2, 2, 3, 3))
            size = rng.choice((6, 8, 10))
            ds = [build(rng, rng.randrange(1, 9), size, rng.randrange(0, 3)) for _ in range(n)]
            if any(d is None for d in ds):
                continue
            t = any(touches(a, b) for k, a in enumerate(ds) for b in ds[:k])
            if kind == "general" and t:
                # shift the drawings apart: no touching (points still on the even lattice)
                continue
            break
        else:
            continue
        if n == 1 or rng.random() < 0.5:
            case(log, conf["first"] + i, "many", ds)
        else:
            case(log, conf["first"] + i, "single", ds[:2])
    log.close()


if __name__ == "__main__":
    common.guarded(main)
