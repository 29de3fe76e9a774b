"""
Measures of elements and quality statistics. usage: qualitydrv.py OUT CONFIG
CONFIG: {"mode": "replay"|"random", "seed", "first", "histories", "shapes", "scratch"}
"""
import json
import os
import random
import sys
import common
from common import Log, limit, Hang, exc_name

import numpy as np
import yaml
from bgem.gmsh.gmsh_io import GmshIO
from bgem.gmsh.heal_mesh import HealMesh, Line, Triangle, Tetrahedron

S = 4096
BASE = {"p": [], "vec": [], "len2": [], "meas": 0, "faces": [], "normals": [], "ratio": 0, "flat": 0, "gamma": 0, "flow": 0,
        "skew": 0, "skewn": [0, 0, 0], "common": [0, 0, 0], "els": [], "tol": 0, "tols": "", "bins": [], "yaml": []}
common.FAILREC.update(BASE)
ODD = -99999


def whole(v, mult=1):
    """an integer, or a value that fails every clause when it is not one"""
    v = float(v) * mult
    if not np.isfinite(v) or abs(v) > 1e8:
        return ODD
    r = round(v)
    return int(r) if abs(v - r) < 1e-3 else ODD


def scaled(v, mult=S):
    v = float(v) * mult
    return int(round(v)) if np.isfinite(v) and abs(v) < 1e8 else ODD


def place(rng, p):
    """the element scaled, shifted and turned: lattice rotations are undone in the record"""
    s = rng.choice((1.0, 1.0, 0.125, 64.0, 1000.0, 1e-3))
    t = [rng.choice((0, 0, 3, -7)) for _ in range(3)]
    return s, np.array([[s * (c + d) for c, d in zip(q, t)] for q in p])


def shape(log, h, rng, p):
    p = [list(q) for q in p]
    rng.shuffle(p)
    s, x = place(rng, p)
    rec = dict(BASE, h=h, op="shape", args=[s], exc="", p=p)
    try:
        with limit(60), np.errstate(all="ignore"):
            e = {2: Line, 3: Triangle, 4: Tetrahedron}[len(p)](x.copy())
            order = ["vec", "len2", "meas", "ratio", "flat", "gamma", "flow", "faces", "normals", "skew", "common"]
            rng.shuffle(order)      # values are cached: any order of questions gives the same answers
            for k in order:
                if k == "vec":
                    rec[k] = [[whole(c / s) for c in v] for v in e.edge_vectors]
                elif k == "len2":
                    rec[k] = [whole((v / s) ** 2, 1024) for v in e.edge_lens]
                elif k == "meas":
                    rec[k] = whole((e.measure / s) ** 2 if len(p) == 2 else 4 * (e.measure / s ** 2) ** 2 if len(p) == 3
                                   else 6 * e.measure / s ** 3, 1024)
                elif k == "ratio":
                    rec[k] = scaled(e.small_edge_ratio())
                elif len(p) > 2 and k == "flat":
                    rec[k] = scaled(e.flat_indicator())
                elif len(p) > 2 and k == "gamma":
                    rec[k] = scaled(e.gmsh_gamma())
                elif len(p) > 2 and k == "flow":
                    rec[k] = scaled(e.smooth_grad_error_indicator())
                elif len(p) == 4 and k == "faces":
                    rec[k] = [whole(4 * (a / s ** 2) ** 2, 1024) for a in e.face_areas]
                elif len(p) == 4 and k == "normals":
                    rec[k] = [[whole(c / s ** 2) for c in v] for v in e.face_normals]
                elif len(p) == 4 and k == "skew":
                    a, b = np.array(p[1]) - p[0], np.array(p[3]) - p[2]
                    if np.any(np.cross(a, b)):
                        d, n = e.skew_line_dist()
                        rec["skew"], rec["skewn"] = scaled(d / s), [scaled(c) for c in n]
                elif len(p) == 4 and k == "common":
                    rec[k] = [scaled(c, 1024) for c in e.common_normal()]
            if not np.array_equal(e.nodes, x):
                raise ValueError("nodes changed")
    except (Exception, Hang) as ex:
        rec["exc"] = exc_name(ex)
    log.put(rec)


def listed(hist, bad):
    return {"hist": [int(x) for x in hist], "bad": sorted(int(x) for x in bad)}


def r_points(rng, n, side):
    while True:
        p = [[rng.randrange(side + 1) for _ in range(3)] for _ in range(n)]
        if rng.random() < 0.1 and n > 2:
            p[1] = list(p[0])           # coincident nodes
            return p
        if len(set(map(tuple, p))) == n:
            return p


def statistics(log, h, rng, path):
    io = GmshIO()
    els, nid, eid = [], 0, 0
    for _ in range(rng.randrange(1, 14)):
        n = rng.choice((1, 2, 3, 3, 4, 4, 4))
        p = r_points(rng, n, 2)
        s, x = place(rng, p)
        ids = []
        for q in x:
            nid += rng.choice((1, 1, 5))
            io.nodes[nid] = [float(c) for c in q]
            ids.append(nid)
        eid += rng.choice((1, 1, 4))
        io.elements[eid] = ({1: 15, 2: 1, 3: 2, 4: 4}[n], [1, 2], ids)
        els.append([eid, p])
    tol = rng.choice((0.01, 0.5, 0.25, 0.9, 0.02, None))
    rec = dict(BASE, h=h, op="stats", args=[str(tol)], exc="", els=els, tol=int((tol or 0.01) * S), tols=repr(tol or 0.01),
               gamma={"hist": [], "bad": []}, flow={"hist": [], "bad": []})
    fix = lambda v: -1 if v == np.inf else whole(v, 2 ** 15)
    try:
        with limit(60), np.errstate(all="ignore"):
            hm = HealMesh(io, path)
            hist, bins, bad = hm.quality_statistics(**({} if tol is None else {"bad_el_tol": tol}))
            rec["gamma"] = listed(hist["gamma_stats"], bad["gamma_stats"])
            rec["flow"] = listed(hist["flow_stats"], bad["flow_stats"])
            rec["bins"] = [fix(v) for v in bins]
            if rng.random() < 0.6:
                hm.stats_to_yaml(path, **({} if tol is None else {"el_tol": tol}))
                with open(path) as f:
                    y = yaml.safe_load(f)
                rec["yaml"] = ([listed(y[k]["hist"], y[k]["bad_elements"]) for k in ("gamma_stats", "flow_stats")]
                               + [[fix(v) for v in y[k]["bins"]] for k in ("gamma_stats", "flow_stats")]
                               + [repr(y[k]["bad_el_tol"]) for k in ("gamma_stats", "flow_stats")] + [len(y)])
    except (Exception, Hang) as ex:
        rec["exc"] = exc_name(ex)
    log.put(rec)


def main():
    out, conf = sys.argv[1:3]
    conf = json.load(open(conf))
    common.silence()
    log = Log(out)
    path = os.path.join(conf["scratch"], "mesh.yaml")
    if conf["mode"] == "replay":
        for i, p in enumerate(conf["shapes"]):
            shape(log, conf["first"] + i, random.Random("%d/%s" % (conf["seed"], p)), p)
    else:
        for i in range(conf["histories"]):
            if common.stop():
                break
            rng = random.Random("%d/%d" % (conf["seed"], i))
            if rng.random() < 0.4:
                while True:
                    n = rng.choice((3, 4, 4))
                    p = r_points(rng, n, 3)
                    if len(set(map(tuple, p))) == n:
                        break
                shape(log, conf["first"] + i, rng, p)
            else:
                statistics(log, conf["first"] + i, rng, path)
    log.close()


if __name__ == "__main__":
    common.guarded(main)
