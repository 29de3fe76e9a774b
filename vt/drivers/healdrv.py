"""
Mesh modification and healing. usage: healdrv.py OUT CONFIG
CONFIG: {"mode": "random"|"replay"|"heal", "seed", "first", "histories", "nops", "programs", "scratch"}
"""
import json
import math
import os
import random
import sys
import common
from common import Log, limit, Hang, exc_name

import numpy as np
from bgem.gmsh.gmsh_io import GmshIO
from bgem.gmsh.heal_mesh import HealMesh

SIZE = [[15, 1], [1, 2], [2, 3], [4, 4]]
NN = dict(map(tuple, SIZE))
BASE = {"adj": [], "modif": [], "nodes": [], "els": [], "res": 0, "refused": False, "good": False, "gaveup": False,
        "short": [], "poor": [], "size": SIZE, "qual": [], "hist": [], "bad": [], "sumflow": 0, "tolq": 0,
        "defects": []}
common.FAILREC.update(BASE)


def num(v, exact):
    if exact:
        f = float(v) / exact
        if abs(f - round(f)) < 1e-6:
            f = round(f)
        return int(f) if f == int(f) else 999999937
    return repr(float(v))


def state(io, exact):
    return {"nodes": [[int(i), [num(c, exact) for c in x]] for i, x in io.nodes.items()],
            "els": [[int(i), int(t), [int(x) for x in tags], [int(n) for n in nodes]]
                    for i, (t, tags, nodes) in io.elements.items()]}


class Recorder:
    def __init__(self, log, h, io, exact, path):
        self.log, self.h, self.exact = log, h, exact
        self.call("new", [], lambda: self.make(io, path))

    def make(self, io, path):
        self.hm = None
        self.hm = HealMesh(io, path)

    def call(self, op, args, fn, more=lambda: {}, refuse=""):
        rec = dict(BASE, h=self.h, op=op, args=args, exc="")
        try:
            with limit(60):
                res = fn()
            rec["res"] = int(res) if isinstance(res, (int, np.integer)) else -1
        except (Exception, Hang) as e:
            rec["exc"] = exc_name(e)
            rec["refused"] = bool(refuse) and isinstance(e, AssertionError) and refuse in str(e)
        rec.update(more())
        if self.hm is not None:
            rec.update(state(self.hm.mesh, self.exact))
            rec["adj"] = [[int(n), sorted(map(int, s))] for n, s in self.hm.node_els.items()]
            rec["modif"] = sorted(map(int, self.hm.modified_elements))
        self.log.put(rec)
        return rec["exc"] == ""

    def op(self, o):
        hm = self.hm
        hm.reset_modified()
        name = o[0]
        if name == "add_element":
            t, tags, ns = o[1]
            fn = lambda: hm.add_element((t, list(tags), list(ns)))
        elif name == "add_node":
            fn = lambda: hm.add_node(np.array(o[1], dtype=float))
        elif name == "move_node":
            fn = lambda: hm.move_node(o[1], np.array(o[2], dtype=float))
        else:
            fn = lambda: getattr(hm, name)(*o[1:])
        return self.call(name, o[1:], fn)


# ------------------------------------------------------------------ modifications
U = 4096


def r_pos(rng):
    return [U * rng.randrange(0, 8) for _ in range(3)]


def r_element(rng, ids):
    t = rng.choice((15, 1, 1, 2, 2, 2, 4, 4))
    if len(ids) < NN[t]:
        t = 15
    return [t, [rng.randrange(1, 4) for _ in range(rng.choice((2, 2, 0, 3)))], rng.sample(sorted(ids), NN[t])]


def modifications(log, h, rng, nops, path):
    io = GmshIO()
    ids = rng.sample(range(1, rng.choice((10, 300))), rng.randrange(3, 9))
    for i in ids:
        io.nodes[i] = [float(c) for c in r_pos(rng)]
    seen = set()
    for i in rng.sample(range(1, rng.choice((20, 300))), rng.randrange(1, 15)):
        t, tags, ns = r_element(rng, ids)
        if (t, tuple(sorted(ns))) not in seen:
            seen.add((t, tuple(sorted(ns))))
            io.elements[i] = (t, tags, ns)
    r = Recorder(log, h, io, True, path)
    merges = 0
    for _ in range(nops):
        m = r.hm.mesh
        ids, els = sorted(map(int, m.nodes)), sorted(map(int, m.elements))
        u = rng.random()
        if u < 0.35 and ids:
            if els and rng.random() < 0.3:
                t, _, ns = m.elements[rng.choice(els)]      # the same again
                o = ["add_element", [int(t), [9, 9], [int(n) for n in rng.sample(list(ns), len(ns))]]]
            else:
                o = ["add_element", r_element(rng, ids)]
        elif u < 0.45 and els:
            o = ["remove_element", rng.choice(els)]
        elif u < 0.6:
            o = ["add_node", r_pos(rng)]
        elif u < 0.7:
            free = [n for n in ids if not any(n in e[2] for e in m.elements.values())]
            if not free:
                continue
            o = ["remove_node", rng.choice(free)]
        elif u < 0.85 and ids:
            o = ["move_node", rng.choice(ids), r_pos(rng)]
        elif len(ids) > 2 and merges < 10:
            merges += 1
            a, b = rng.sample(ids, 2)
            if els and rng.random() < 0.6:
                ns = [int(n) for n in m.elements[rng.choice(els)][2]]
                if len(ns) > 1:
                    a, b = rng.sample(ns, 2)
            o = ["merge_node", a, b]
        else:
            continue
        if not r.op(o):
            return


def replay(log, h, prog, path):
    io = GmshIO()
    io.nodes = {n: [1024.0 * n, 1024.0 * (n == 5), 512.0 * (n % 2)] for n in (1, 2, 3, 5)}
    io.elements = {3: (2, [7, 1], [1, 2, 3]), 4: (2, [8, 2], [3, 2, 5]), 9: (1, [9, 3], [1, 3])}
    r = Recorder(log, h, io, True, path)
    for o in prog:
        if not r.op(o):
            return


# ------------------------------------------------------------------ healing
def edges(x):
    return [math.dist(x[i], x[j]) for i in range(len(x)) for j in range(i)]


def area(a, b, c):
    return float(np.linalg.norm(np.cross(b - a, c - a))) / 2


def quality(x):
    """ratio of the radii of the inscribed and the circumscribed circle or sphere, 1 for a regular element"""
    x = np.array(x, dtype=float)
    if len(x) == 3:
        a, b, c = math.dist(x[1], x[2]), math.dist(x[2], x[0]), math.dist(x[0], x[1])
        if a * b * c == 0:
            return 0.0
        s = (a + b + c) / 2
        return 8 * (s - a) * (s - b) * (s - c) / (a * b * c)
    v = abs(float(np.linalg.det(x[1:] - x[0]))) / 6
    sa = sum(area(x[i], x[j], x[k]) for i, j, k in ((0, 1, 2), (0, 1, 3), (0, 2, 3), (1, 2, 3)))
    # circumscribed sphere: |p - x_i| equal
    try:
        p = np.linalg.solve(2 * (x[1:] - x[0]), ((x[1:] - x[0]) ** 2).sum(axis=1))
    except np.linalg.LinAlgError:
        return 0.0
    return 3 * (3 * v / sa) / float(np.linalg.norm(p)) if sa > 0 and np.linalg.norm(p) > 0 else 0.0


def assess(io, tol, gtol, f):
    """elements with an edge below f * tol, elements of quality below f * gtol"""
    short, poor = [], []
    for i, (t, _, ns) in io.elements.items():
        x = [np.array(io.nodes[n], dtype=float) for n in ns]
        if len(x) > 1 and min(edges(x)) < f * tol:
            short.append(int(i))
        if len(x) > 2 and quality(x) < f * gtol:
            poor.append(int(i))
    return short, poor


def block(rng):
    """blocks of unit cells split in simplices, with boundary elements"""
    io = GmshIO()
    dim = rng.choice((2, 3, 3))
    nx, ny, nz = rng.randrange(1, 4), rng.randrange(1, 4), rng.randrange(1, 3) if dim == 3 else 0
    step = rng.choice((1, 1, 3, 1000))
    scale = rng.choice((1.0, 1.0, 0.01, 1000.0))
    node, k = {}, 0
    for x in range(nx + 1):
        for y in range(ny + 1):
            for z in range(nz + 1):
                k += step
                node[x, y, z] = k
                io.nodes[k] = [x * scale, y * scale, z * scale]
    els = []
    for x in range(nx):
        for y in range(ny):
            if dim == 2:
                n = [node[x + i, y + j, 0] for i, j in ((0, 0), (1, 0), (1, 1), (0, 1))]
                els += [(2, [11, 1], [n[0], n[1], n[2]]), (2, [11, 1], [n[0], n[2], n[3]])]
                continue
            for z in range(nz):
                c = lambda s: node[x + s[0], y + s[1], z + s[2]]
                for p in ((0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0)):
                    s, path = [0, 0, 0], [c((0, 0, 0))]
                    for ax in p:
                        s[ax] = 1
                        path.append(c(s))
                    els.append((4, [21 + (z > 0), 1], path))
    if rng.random() < 0.7:
        faces = {}
        for t, _, ns in els:
            for i in range(len(ns)):
                f = ns[:i] + ns[i + 1:]
                faces.setdefault(tuple(sorted(f)), []).append(f)
        for f in faces.values():
            if len(f) == 1 and rng.random() < 0.8:
                els.append((len(f[0]) - 1 if dim == 2 else 2, [31, 2], f[0]))
        if rng.random() < 0.5:
            els.append((15, [41, 3], [rng.choice(list(io.nodes))]))
    if rng.random() < 0.5:
        rng.shuffle(els)
    eid = 0
    for e in els:
        eid += rng.choice((1, 1, 1, 2))
        io.elements[eid] = e
    return io, dim, scale


def spoil(rng, io, dim, scale):
    kinds = []
    for _ in range(rng.choice((0, 1, 1, 2, 3))):
        kind = rng.choice(("close", "close", "chain", "flat", "flat", "tee", "dupl", "degen", "lonely", "jitter", "sliver",
                           "sliver", "sliver", "square"))
        ids = list(io.nodes)
        n = rng.choice(ids)
        x = lambda i: np.array(io.nodes[i])
        near = sorted((i for i in ids if i != n), key=lambda i: math.dist(io.nodes[i], io.nodes[n]))
        if kind == "close":         # two nodes almost together
            io.nodes[n] = list(x(near[0]) + np.array([rng.uniform(-1, 1) for _ in range(3)]) * scale *
                               rng.choice((0, 1e-6, 1e-5, 1e-3)))
        elif kind == "chain":
            for i, m in enumerate(near[:2]):
                io.nodes[m] = list(x(n) + np.array([(i + 1) * rng.choice((0.5, 0.9, 1.2)), 0, 0]) * scale * 1e-4)
        elif kind in ("flat", "jitter"):
            for i in (ids if kind == "jitter" else [n]):
                io.nodes[i] = list(x(i) + np.array([rng.uniform(-1, 1) for _ in range(3)]) * scale *
                                   (0.2 if kind == "jitter" else 0.6))
        elif kind == "tee":         # a node almost inside an opposite edge
            es = [e for e in io.elements.values() if n in e[2] and len(set(e[2])) > 2]
            if es:
                o = [i for i in rng.choice(es)[2] if i != n]
                t = rng.uniform(0.1, 0.9)
                io.nodes[n] = list(x(o[0]) * t + x(o[1]) * (1 - t) + np.array([0, 0, scale * rng.choice((0, 1e-3, 1e-2))]))
        elif kind == "sliver" and dim == 3:
            es = [e for e in io.elements.values() if n in e[2] and len(set(e[2])) == 4]
            if es:
                o = [i for i in rng.choice(es)[2] if i != n]
                t, s = rng.choice(((rng.uniform(-0.4, 1.4), rng.uniform(-0.4, 1.4)), (rng.uniform(0.2, 0.4), rng.uniform(0.2, 0.4))))
                io.nodes[n] = list(x(o[0]) + t * (x(o[1]) - x(o[0])) + s * (x(o[2]) - x(o[0])) +
                                   np.array([0, 0, scale * rng.choice((0, 1e-3, 1e-2))]))
        else:
            eid = max(io.elements) + 1
            if kind == "dupl":
                t, _, ns = rng.choice(list(io.elements.values()))
                for k in range(rng.choice((1, 1, 2))):
                    io.elements[eid + k] = (t, [51, 1], rng.sample(list(ns), len(ns)))
            elif kind == "degen":
                t, tags, ns = rng.choice(list(io.elements.values()))
                if len(ns) > 1:
                    ns = list(ns)
                    ns[rng.randrange(1, len(ns))] = ns[0]
                    io.elements[eid] = (t, [61, 1], ns)
            else:                   # parts that touch nothing else
                k = max(io.nodes) + 1
                c = np.array([5.0, 5.0, 0.0]) * scale
                if kind == "square":
                    p = [(0, 0, 0), (1, 1, 0), (0, 1, 0), (1, 0, 0)]
                    rng.shuffle(p)
                elif rng.random() < 0.5:
                    p = [(0, 0, 0), (0, 0, 0)]
                else:
                    p = [(0, 0, 0), (1, 0, 0), (1e-7, 0, 0)]
                for i, q in enumerate(p):
                    io.nodes[k + i] = list(c + np.array(q, dtype=float) * scale)
                ns = list(range(k, k + len(p)))
                if len(p) == 3 and rng.random() < 0.5:
                    ns[2] = ns[0]
                io.elements[eid] = ({2: 1, 3: 2, 4: 4}[len(p)], [71, 1], ns)
        kinds.append(kind)
    return kinds


QS = 2 ** 25


def statistics(r, hm, rng):
    """quality as integer multiples of 2^-25: the bins of the histogram are powers of two from 2^-15 to 1"""
    tol = rng.choice((0.02, 0.1, 0.5, 0.01))
    qual = []
    for i, (t, _, ns) in hm.mesh.elements.items():
        if len(ns) > 2:
            q = quality([hm.mesh.nodes[n] for n in ns])
            if any(abs(q / b - 1) < 1e-6 for b in [tol] + [2.0 ** -k for k in range(16)]) or q < 1e-12:
                return
            if len(set(ns)) < len(ns):
                return
            qual.append([int(i), int(q * QS)])
    got = []

    def more():
        if not got:
            return {"qual": qual}
        hist, bins, bad = got[0]
        return {"qual": qual, "hist": [int(x) for x in hist["gamma_stats"]], "bad": [int(x) for x in bad["gamma_stats"]],
                "sumflow": int(sum(hist["flow_stats"])), "tolq": int(tol * QS)}
    r.call("stats", [str(tol)], lambda: got.append(hm.quality_statistics(bad_el_tol=tol)), more)


def healing(log, h, rng, path):
    io, dim, scale = block(rng)
    kinds = spoil(rng, io, dim, scale)
    r = Recorder(log, h, io, False, path)
    hm = r.hm
    if hm is None:
        return
    gtol = rng.choice((0.02, 0.003, 0.05))
    x = np.array(list(io.nodes.values()), dtype=float)
    diam = float(np.max(x.max(axis=0) - x.min(axis=0)))
    tol = 1e-4 * diam
    s, p = assess(io, tol, gtol, 1.001)
    classes = [(t, frozenset(ns)) for t, _, ns in io.elements.values()]
    good = not s and not p and len(set(classes)) == len(classes) and all(
        len(set(ns)) == len(ns) for _, _, ns in io.elements.values())
    top = max(io.elements)

    def more():
        short, poor = assess(hm.mesh, tol, gtol, 0.999)
        return {"good": good, "gaveup": hm.max_ele_id > 2 * top, "short": short, "poor": poor}
    if rng.random() < 0.5:
        statistics(r, hm, rng)
    if not r.call("heal", kinds + [str(gtol)], lambda: hm.heal_mesh(gamma_tol=gtol), more, refuse="degen side"):
        return

    def write():
        hm.write(path)
        got = GmshIO(path)
        hm.mesh.nodes, hm.mesh.elements = got.nodes, got.elements
    r.call("written", [], write)
    statistics(r, hm, rng)


# ------------------------------------------------------------------ repair of known defects
def cross(a, b):
    return np.cross(np.array(a), np.array(b))


def pieces(nodes, els, kind, q):
    """node coordinates of all elements of the repaired mesh (only to choose meshes whose repair is good)"""
    x = {n: np.array(c, dtype=float) for n, c in nodes.items()}
    a, b, c = (x[n] for n in q[:3])
    if kind == "quad":
        n = cross(b - a, x[q[3]] - c)
    elif kind == "tri":
        n = cross(b - a, c - a)
    if kind in ("quad", "tri"):
        n = n / np.linalg.norm(n)
        avg = sum(x[i] @ n for i in q) / 4
        for i in q:
            x[i] = x[i] - (x[i] @ n - avg) * n
    a, b, c = (x[n] for n in q[:3])
    if kind == "quad":
        d = x[q[3]]
        t = cross(c - a, d - c) @ cross(b - a, d - c) / (cross(b - a, d - c) @ cross(b - a, d - c))
        new = a + t * (b - a)
        cuts = [({q[0], q[1], q[2]}, q[:2]), ({q[0], q[1], q[3]}, q[:2]), ({q[2], q[3], q[0]}, q[2:]), ({q[2], q[3], q[1]}, q[2:])]
    elif kind == "tri":
        new, cuts = x[q[3]], [(set(q[:3]), q[:3])]
    else:
        u = c - b
        x[q[0]] = new = b + u * ((a - b) @ u / (u @ u))
        cuts = [(set(q[1:3]), q[1:3])]
    whole = set(q[:4]) if kind != "edge" else set(q[:3])
    out = []
    for _, _, ns in els.values():
        if whole <= set(ns):
            continue
        cut = [e for f, e in cuts if f <= set(ns)]
        if cut:
            out += [[new if i == r else x[i] for i in ns] for r in cut[0]]
        else:
            out.append([x[i] for i in ns])
    return out


def suited(nodes, els, kind, q, gtol):
    whole = set(q[:4]) if kind != "edge" else set(q[:3])
    for _, _, ns in els.values():
        x = np.array([nodes[n] for n in ns], dtype=float)
        if whole <= set(ns):
            if kind != "edge":
                if quality(x) > 0.7 * gtol or min(quality(np.delete(x, k, 0)) for k in range(4)) < 1.2 * math.sqrt(gtol):
                    return False
            elif len(ns) == 4:
                # the flat triangle has to be the worst face
                if sorted(quality(np.delete(x, k, 0)) for k in range(4))[1] < 0.2 or quality(x) > 0.7 * gtol:
                    return False
            elif quality(x) > 0.7 * gtol:
                return False
        elif len(ns) > 2 and quality(x) < 1.3 * gtol:
            return False
    if kind == "edge":
        a, b, c = (np.array(nodes[n], dtype=float) for n in q[:3])
        if not 0.1 < (a - b) @ (c - b) / ((c - b) @ (c - b)) < 0.9:
            return False
    if kind == "tri":
        p = [np.array(nodes[n], dtype=float) for n in q]
        n = cross(p[1] - p[0], p[2] - p[0])
        for i, j in ((0, 1), (1, 2), (2, 0)):
            if cross(p[j] - p[i], p[3] - p[i]) @ n <= 0 or 2 * area(p[i], p[j], p[3]) / ((p[j] - p[i]) @ (p[j] - p[i])) < 0.08:
                return False
    if kind == "quad":
        p = [np.array(nodes[n], dtype=float) for n in q]
        n = cross(p[1] - p[0], p[3] - p[2])
        for a, b, c, d in (p, p[2:] + p[:2]):
            t = cross(c - a, d - c) @ cross(b - a, d - c) / (n @ n)
            if not 0.1 < t < 0.9:
                return False
    return all(len(x) < 3 or quality(x) > 1.3 * gtol for x in pieces(nodes, els, kind, q))


def r_defect(rng):
    """a random mesh around one defect; coordinates small integers"""
    kind = rng.choice(("quad", "quad", "tri", "edge", "edge"))
    up = [rng.randrange(-3, 4), rng.randrange(-3, 4), rng.randrange(4, 12)]
    down = [rng.randrange(-3, 4), rng.randrange(-3, 4), -rng.randrange(4, 12)]
    r = lambda: rng.randrange(3, 12)
    gtols = [0.02, 0.01, 0.003]
    if kind == "quad":
        if rng.random() < 0.5:      # a warped one: the plane is known from the symmetry
            a, b, h = rng.randrange(26, 39), rng.randrange(26, 39), rng.choice((1, -1))
            p = [[-a, 0, h], [a, 0, h], [0, -b, -h], [0, b, -h]]
            up[2], down[2] = rng.randrange(20, 40), -rng.randrange(20, 40)
            gtols = [0.2, 0.16]
        else:
            p = [[-r(), 0, 0], [r(), 0, 0]]
            u, k, j = [rng.randrange(-2, 3), rng.randrange(1, 4), 0], rng.randrange(1, 4), rng.randrange(1, 4)
            p += [[-c * k for c in u], [c * j for c in u]]
        els = [(4, [1], [1, 2, 3, 5]), (4, [2], [1, 2, 4, 5]), (4, [3], [3, 4, 1, 6]), (4, [3], [3, 4, 2, 6]), (2, [4], [1, 2, 3]),
               (2, [4], [1, 2, 4]), (1, [5], [1, 3]), (1, [6], [5, 2]), (2, [7], [1, 3, 5]), (15, [8], [1]), (15, [8], [6])]
    elif kind == "tri":
        if rng.random() < 0.4:
            k, h = rng.choice((8, 12, 16, 18, 20, 24, 44, 48, 56)), rng.choice((0, 4, -4))
            if h and k < 40:
                gtols = [0.14, 0.13]
            p = [[2 * k, -k, -k], [-k, 2 * k, -k], [-k, -k, 2 * k], [h, h, h]]
            up, down = [k + 1, k, k], [-k, -k, 1 - k]
        else:
            p = [[-r(), -r(), 0], [r(), -r(), 0], [rng.randrange(-4, 5), r(), 0], [rng.randrange(-2, 3), rng.randrange(-2, 3), 0]]
        els = [(4, [1], [1, 2, 3, 6]), (4, [2], [1, 2, 4, 5]), (4, [2], [2, 3, 4, 5]), (4, [2], [3, 1, 4, 5]),
               rng.choice(((2, [4], [1, 2, 3]), (2, [4], [1, 2, 4]))), (1, [5], [1, 3]), (1, [5], [4, 5]), (15, [8], [4])]
    else:
        p = [[rng.randrange(-3, 4), 0, rng.choice((0, 0, 1)) if rng.random() < 0.3 else 0], [-r(), 0, 0], [r(), 0, 0],
             [rng.randrange(-3, 4), r(), 0]]
        els = [(4, [1], [2, 3, 4, 5]), (4, [2], [1, 2, 4, 6]), (4, [2], [1, 3, 4, 6]), (2, [4], [1, 2, 3]), (2, [4], [2, 3, 4]),
               (1, [5], [2, 3]), (15, [6], [1]), (2, [7], [2, 3, 5])]
    els = [(t, tags + [rng.randrange(1, 4)] * rng.choice((1, 1, 2)), ns) for t, tags, ns in els if rng.random() < 0.75]
    els.append((4, [9, 1], [1, 2, 3, 4]))
    return {"gtols": gtols, "defects": [[kind, [1, 2, 3] + [4] * (kind != "edge")]], "nodes": [[i + 1, c] for i, c in enumerate(p + [up, down])],
            "els": [[i + 1, list(e)] for i, e in enumerate(els)]}


def moved_to(rng, prog, ids, eids, box):
    """the same mesh with other ids, orders of nodes and elements, turned and shifted to its own box"""
    axes = rng.sample(range(3), 3)
    sign = [rng.choice((1, -1)) for _ in range(3)]
    nodes, els = {}, []
    for n, c in prog["nodes"]:
        c = [sign[k] * c[axes[k]] for k in range(3)]
        nodes[ids[n - 1]] = [c[0] + box * 300, c[1], c[2]]
    for _, (t, tags, ns) in prog["els"]:
        ns = [ids[n - 1] for n in ns]
        if rng.random() < 0.8:
            rng.shuffle(ns)
        els.append((t, list(tags), ns))
    rng.shuffle(els)
    used = {n for _, _, ns in els for n in ns}
    nodes = {n: c for n, c in nodes.items() if n in used or rng.random() < 0.5}
    defects = [[k, [ids[n - 1] for n in q]] for k, q in prog["defects"]]
    return nodes, dict(zip(eids, els)), defects


def repair(log, h, rng, progs, path):
    gtol = rng.choice(progs[0].get("gtols", (0.02, 0.01, 0.003)))
    nodes, els, defects = {}, {}, []
    n = sum(len(p["nodes"]) for p in progs)
    m = sum(len(p["els"]) for p in progs) + 12
    ids = rng.sample(range(1, rng.choice((n + 1, 3 * n, 1000))), n)
    eids = rng.sample(range(1, rng.choice((m + 1, 3 * m, 1000))), m)
    for k, p in enumerate(progs):
        x, e, d = moved_to(rng, p, ids, eids, k)
        if not suited(x, e, d[0][0], d[0][1], gtol):
            continue
        ids, eids = ids[len(p["nodes"]):], eids[len(p["els"]):]
        if d[0][0] == "quad" and any(f[0] == "quad" for f in defects):
            continue                # ids of new nodes would depend on the order
        nodes.update(x)
        els.update(e)
        defects += d
    if not defects:
        return False
    for _ in range(rng.choice((0, 0, 1, 2))):
        t, _, ns = rng.choice(list(els.values()))
        if len(set(ns)) == len(ns):
            whole = any(set(q) <= set(ns) for _, q in defects)
            if rng.random() < 0.6 and not whole:
                # the same element again: it must not be one that is split (the one kept would decide the tags of the parts)
                els[eids.pop()] = (t, [77, 1], rng.sample(ns, len(ns)))
            elif len(ns) > 1:
                ns = list(ns)
                ns[rng.randrange(1, len(ns))] = ns[0]
                els[eids.pop()] = (t, [78, 2], ns)
    if rng.random() < 0.4:
        items = list(els.items())
        rng.shuffle(items)
        els = dict(items)
    scale = rng.choice((1.0, 1.0, 0.125, 1024.0, 0.01))
    io = GmshIO()
    io.nodes = {i: [c * scale for c in x] for i, x in nodes.items()}
    io.elements = {i: (t, tags, list(ns)) for i, (t, tags, ns) in els.items()}
    r = Recorder(log, h, io, scale, path)
    hm = r.hm
    if hm is not None:
        kw = {} if gtol == 0.02 and rng.random() < 0.5 else {"gamma_tol": gtol}
        r.call("repair", [d[0] for d in defects], lambda: hm.heal_mesh(fraction_of_new_els=1000, **kw), lambda: {"defects": defects})
    return True


def merging(log, h, rng, path):
    """two nodes of a block of cells almost at the same place, or an edge much shorter than the others"""
    gtol = rng.choice((0.02, 0.01))
    while True:
        io, dim, _ = block(rng)
        x = np.array(list(io.nodes.values()))
        io.nodes = {i: [round(c / max(1e-9, x.max()) * x.max()) for c in p] for i, p in io.nodes.items()}
        if x.max() in (1, 2, 3):
            break
    unit = 60000
    nodes = {i: [int(c) * unit for c in p] for i, p in io.nodes.items()}
    n = rng.choice([i for i in nodes])
    mates = sorted({i for _, _, ns in io.elements.values() if n in ns for i in ns if i != n})
    if not mates:
        return False
    m = rng.choice(mates)
    d = rng.choice((0, 2, 4, 10, 60, 200, 300))
    u = [rng.choice((-1, 0, 1)) for _ in range(3)]
    if dim == 2:
        u[2] = 0
    if not any(u):
        return False
    at = dict(nodes)
    at[m] = [a + d * b for a, b in zip(nodes[n], u)]
    diam = max(np.ptp(np.array(list(at.values())), axis=0))
    els = io.elements
    good = lambda pos, skip: all(len(ns) < 3 or (skip and {m, n} <= set(ns)) or quality([pos[i] for i in ns]) > 1.3 * gtol
                                 for _, _, ns in els.values())
    after = dict(at)
    after[m] = after[n] = [(a + b) / 2 for a, b in zip(at[n], at[m])]
    poor = any(len(ns) > 2 and {m, n} <= set(ns) for _, _, ns in els.values())
    if not good(at, True) or not good(after, True) or not (math.dist(at[n], at[m]) < 0.9e-4 * diam or poor):
        return False
    if math.dist(at[n], at[m]) >= 0.9e-4 * diam:
        # not within the tolerance: the elements with the edge have to be poor enough
        if math.dist(at[n], at[m]) < 1.2e-4 * diam:
            return False
        for _, _, ns in els.values():
            if len(ns) > 2 and {m, n} <= set(ns) and quality([at[i] for i in ns]) > 0.7 * gtol:
                return False
    scale = rng.choice((1.0, 2.0 ** -16, 2.0 ** -20, 0.001))
    io.nodes = {i: [c * scale for c in p] for i, p in at.items()}
    r = Recorder(log, h, io, scale, path)
    hm = r.hm
    if hm is not None:
        r.call("repair", ["merge"], lambda: hm.heal_mesh(gamma_tol=gtol, fraction_of_new_els=1000), lambda: {"defects": [["merge", [n, m]]]})
    return True


def main():
    out, conf = sys.argv[1:3]
    conf = json.load(open(conf))
    common.silence()
    log = Log(out)
    path = os.path.join(conf["scratch"], "mesh.msh")
    if conf["mode"] == "replay":
        for i, prog in enumerate(conf["programs"]):
            replay(log, conf["first"] + i, prog, path)
    elif conf["mode"] == "repairs":
        for i, prog in enumerate(conf["programs"]):
            repair(log, conf["first"] + i, random.Random("%d/%d" % (conf["seed"], i)), [prog], path)
    elif conf["mode"] == "repair":
        for i in range(conf["histories"]):
            if common.stop():
                break
            rng = random.Random("%d/%d" % (conf["seed"], i))
            done = False
            while not done:
                if rng.random() < 0.3:
                    done = merging(log, conf["first"] + i, rng, path)
                else:
                    done = repair(log, conf["first"] + i, rng, [r_defect(rng) for _ in range(rng.choice((1, 1, 2, 3)))], path)
    else:
        for i in range(conf["histories"]):
            if common.stop():
                break
            rng = random.Random("%d/%d" % (conf["seed"], i))
            if conf["mode"] == "heal":
                healing(log, conf["first"] + i, rng, path)
            else:
                modifications(log, conf["first"] + i, rng, conf["nops"], path)
    log.close()


if __name__ == "__main__":
    common.guarded(main)
