"""
Mesh files. usage: mshdrv.py OUT CONFIG
CONFIG: {"mode": "random"|"replay", "seed", "first", "histories", "meshes", "scratch"}
"""
import json
import math
import os
import random
import sys
import common
from common import Log, limit, Hang, exc_name

import numpy as np
from bgem.gmsh.gmsh_io import GmshIO

NNODES = {1: 2, 2: 3, 3: 4, 4: 4, 5: 8, 6: 6, 7: 5, 8: 3, 9: 6, 11: 10, 15: 1}


def canon(v):
    """canonical text of a number"""
    if isinstance(v, bool) or not isinstance(v, (int, float, np.integer, np.floating)):
        return "%s:%r" % (type(v).__name__, v)
    f = float(v)
    if math.isfinite(f) and f == int(f) and abs(f) < 1e15:
        return str(int(f))
    return repr(f)


def canon_tok(t):
    try:
        return canon(float(t))
    except (TypeError, ValueError):
        return t


def lex(path):
    """token lines of a file; names are one token"""
    out, sec, k = [], "", 0
    for raw in open(path):
        s = raw.strip()
        if s.startswith("$"):
            sec, k = s, 0
            out.append([s])
            continue
        k += 1
        if sec == "$PhysicalNames" and len(s.split()) >= 3:
            a, b, c = s.split(None, 2)
            out.append([canon_tok(a), canon_tok(b), c])
        elif sec == "$ElementData" and k == 2:
            out.append([s.strip('"')])
        elif sec == "$MeshFormat":
            out.append(s.split())
        else:
            out.append([canon_tok(t) for t in s.split()])
    return out


def listed(g):
    """the mesh in memory as lists of entries"""
    return {"nodes": [[canon(i), [canon(c) for c in xyz]] for i, xyz in g.nodes.items()],
            "elems": [[canon(i), canon(t), [canon(x) for x in tags], [canon(x) for x in nodes]]
                      for i, (t, tags, nodes) in g.elements.items()],
            "phys": [[n, canon(r[0]), canon(r[1])] for n, r in g.physical.items()],
            "data": [[f, canon(ti), canon(time), [[canon_tok(i), [canon(x) for x in row]] for i, row in rows.items()]]
                     for f, d in g.element_data.items() for ti, (time, rows) in d.items()]}


NOMESH = {"nodes": [], "elems": [], "phys": [], "data": []}


def record(log, h, op, args, path, fn, mesh=None):
    rec = {"h": h, "op": op, "args": args, "exc": "", "lines": [], "mesh": mesh or NOMESH, "out": NOMESH}
    if op == "read":
        rec["lines"] = lex(path)
    try:
        with limit(20):
            out = fn()
        if op == "read":
            rec["out"] = listed(out)
        else:
            rec["lines"] = lex(path)
    except (Exception, Hang) as e:
        rec["exc"] = exc_name(e)
    log.put(rec)
    return rec["exc"] == ""


def read(path, handle):
    if handle:
        g = GmshIO()
        with open(path) as f:
            g.read(f)
        return g
    return GmshIO(path)


def write(g, path, handle):
    if handle:
        with open(path, "w") as f:
            g.write_ascii(f)
    else:
        g.filename = path
        g.write_ascii()


def round_trip(log, h, g, path, handle, args):
    if record(log, h, "write", args, path, lambda: write(g, path, handle), listed(g)):
        return record(log, h, "read", args, path, lambda: read(path, handle))


# ------------------------------------------------------------------ generators
def r_float(rng):
    u = rng.random()
    if u < 0.3:
        return float(rng.randrange(-9, 10))
    if u < 0.5:
        return rng.choice((0.1, 1 / 3, -2.5e-17, 1e22, 123456.789, 1e-300, -1e300, 4.35, 2 ** 53 + 2.0, 5e-324))
    return rng.uniform(-10, 10) * 10 ** rng.randrange(-8, 8)


def r_name(rng):
    return rng.choice(("box", '"box"', "fr_1", "well.2", '"left wall"', "left wall", "a-b", ".none", "12", "1 2 3",
                       "x y  z", "$side" if False else "side$", "é"))


def r_mesh(rng):
    g = GmshIO()
    ids = rng.sample(range(1, rng.choice((20, 400, 10 ** 7))), rng.randrange(0, 12))
    for i in ids:
        xyz = [r_float(rng) for _ in range(3)]
        if rng.random() < 0.3:
            xyz = np.array(xyz)
        g.nodes[i] = xyz
    if ids:
        for i in rng.sample(range(1, rng.choice((20, 400, 10 ** 7))), rng.randrange(0, 12)):
            t = rng.choice(sorted(NNODES))
            g.elements[i] = (t, [rng.randrange(0, 100) for _ in range(rng.choice((0, 1, 2, 2, 2, 3, 4)))],
                             [rng.choice(ids) for _ in range(NNODES[t])])
    for _ in range(rng.randrange(0, 5)):
        g.physical[r_name(rng)] = (rng.randrange(1, 100), rng.randrange(0, 4))
    return g


def sp(rng):
    return rng.choice((" ", " ", " ", "  ", "\t"))


def foreign_file(rng, path, g, version, data):
    """a mesh file as some other program might write it"""
    fmt = rng.choice((repr, lambda x: "%.16e" % x, lambda x: "%.17g" % x))

    def line(*toks):
        return sp(rng).join(str(t) for t in toks) + rng.choice(("", "", " ")) + "\n"
    sec = []
    order = (lambda d: sorted(d)) if rng.random() < 0.5 else (lambda d: rng.sample(list(d), len(d)))
    nodes = [line(i, *(fmt(float(c)) for c in g.nodes[i])) for i in order(g.nodes)]
    if version == 2:
        head = ["$MeshFormat\n", "2.2 0 8\n", "$EndMeshFormat\n"]
        if g.physical or rng.random() < 0.5:
            sec.append(["$PhysicalNames\n", "%d\n" % len(g.physical)] +
                       [line(g.physical[n][1], g.physical[n][0], n) for n in order(g.physical)] + ["$EndPhysicalNames\n"])
        sec.append(["$Nodes\n", "%d\n" % len(nodes)] + nodes + ["$EndNodes\n"])
        sec.append(["$Elements\n", "%d\n" % len(g.elements)] +
                   [line(i, e[0], len(e[1]), *e[1], *e[2]) for i in order(g.elements) for e in [g.elements[i]]] +
                   ["$EndElements\n"])
        if rng.random() < 0.3:
            sec.append(["$Other\n", "3\n", "1 2 3 4\n", "1 2 3 4 5 6 7\n", "a b c\n", "$EndOther\n"])
        for field, tidx, time, ncomp, n, rows in data:
            sec.append(["$ElementData\n", "1\n", '"%s"\n' % field, "1\n", "%r\n" % time, "3\n", "%d\n" % tidx,
                        "%d\n" % ncomp, "%d\n" % n] + [line(i, *(fmt(x) for x in row)) for i, row in rows] +
                       ["$EndElementData\n"])
        if rng.random() < 0.4:
            rng.shuffle(sec)
    else:
        head = []
        sec.append(["$NOD\n", "%d\n" % len(nodes)] + nodes + ["$ENDNOD\n"])
        sec.append(["$ELM\n", "%d\n" % len(g.elements)] +
                   [line(i, e[0], *e[1], len(e[2]), *e[2]) for i in order(g.elements) for e in [g.elements[i]]] +
                   ["$ENDELM\n"])
    with open(path, "w") as f:
        f.writelines(head)
        for s in sec:
            f.writelines(s)


def r_data(rng, broken):
    data, keys = [], set()
    for _ in range(rng.randrange(1, 5)):
        field, tidx = rng.choice(("conc", "pressure head", "v_1")), rng.choice((0, 0, 1, 2))
        if (field, tidx) in keys:
            continue
        keys.add((field, tidx))
        ncomp, n = rng.choice((1, 1, 3, 9)), rng.randrange(0, 9)
        rows = [(i, [r_float(rng) for _ in range(ncomp)]) for i in rng.sample(range(1, 300), n)]
        data.append([field, tidx, rng.choice((0.0, 0.5, 10.0, 1e-3)), ncomp, n, rows])
    if broken and data:
        d = rng.choice(data)
        u = rng.random()
        if u < 0.3:
            data.append([d[0], d[1], rng.choice((d[2], 7.0)), d[3], d[4], d[5]])      # the same step again
        elif d[5]:
            if u < 0.55:
                d[5] = d[5][:-1]            # fewer rows than announced
            elif u < 0.8:
                k = rng.randrange(len(d[5]))
                d[5][k] = (d[5][k][0], d[5][k][1] + [1.0])
            else:
                k = rng.randrange(len(d[5]))
                d[5][k] = (d[5][k][0], d[5][k][1][:-1])
    return data


def main():
    out, conf = sys.argv[1:3]
    conf = json.load(open(conf))
    common.silence()
    log = Log(out)
    path = os.path.join(conf["scratch"], "mesh.msh")
    if conf["mode"] == "replay":
        for i, m in enumerate(conf["meshes"]):
            g = GmshIO()
            num = lambda s: int(s) if s.lstrip("-").isdigit() else float(s)
            it = lambda d: d.items() if isinstance(d, dict) else []
            g.nodes = {int(k): [float(c) for c in v] for k, v in it(m["nodes"])}
            g.elements = {int(k): (int(v[0]), [num(t) for t in v[1]], [num(t) for t in v[2]]) for k, v in it(m["elems"])}
            g.physical = {k: (num(v[0]), num(v[1])) for k, v in it(m["phys"])}
            round_trip(log, conf["first"] + i, g, path, i % 2, [])
    else:
        for i in range(conf["histories"]):
            if common.stop():
                break
            rng = random.Random("%d/%d" % (conf["seed"], i))
            h = conf["first"] + i
            u = rng.random()
            handle = rng.random() < 0.5
            if u < 0.35:
                round_trip(log, h, r_mesh(rng), path, handle, ["mesh"])
            elif u < 0.7:
                g = r_mesh(rng)
                version = 1 if rng.random() < 0.25 else 2
                broken = rng.random() < 0.15
                if version == 1:
                    g.physical = {}
                    g.elements = {k: (t, (tags + [1, 1])[:2], n) for k, (t, tags, n) in g.elements.items()}
                foreign_file(rng, path, g, version, r_data(rng, broken) if version == 2 and rng.random() < 0.6 else [])
                if record(log, h, "read", ["foreign", version], path, lambda: read(path, handle)) and version == 2:
                    g2 = read(path, handle)
                    g2.element_data = {}
                    round_trip(log, h, g2, path, handle, ["reread"])
            else:
                # element data: several fields written by one call
                ids = rng.sample(range(1, 350), rng.randrange(1, 10))
                fields, mesh = {}, dict(NOMESH, data=[])
                for name in rng.sample(("conc", "pressure head", "v_1", "x"), rng.randrange(1, 4)):
                    ncomp = rng.choice((1, 1, 3, 9))
                    v = np.array([[r_float(rng) for _ in range(ncomp)] for _ in ids])
                    fields[name] = v
                    mesh["data"].append([name, "0", "0", [[canon(k), [canon(x) for x in row]] for k, row in zip(ids, v)]])
                    if ncomp == 1 and rng.random() < 0.4:
                        fields[name] = v.reshape(-1)
                arr = np.array(ids) if rng.random() < 0.5 else ids
                own = rng.random() < 0.4
                both = rng.random() < 0.3
                g = r_mesh(rng) if both else GmshIO()
                if both:
                    mesh = dict(listed(g), data=mesh["data"])

                def wr():
                    g.filename = path if own else path + ".other"
                    if both:
                        # a mesh and its element data in one file
                        with open(path, "w") as f:
                            g.write_ascii(f)
                            for name in fields:
                                g.write_element_data(f, arr, name, fields[name])
                    else:
                        g.write_fields(None if own else path, arr, fields)
                if record(log, h, "write", ["fields", sorted(fields), own], path, wr, mesh):
                    record(log, h, "read", ["fields"], path, lambda: read(path, handle))
    log.close()


if __name__ == "__main__":
    common.guarded(main)
