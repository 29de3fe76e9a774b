"""
Shapes of GeometryOCC, their affine maps and files. usage: affinedrv.py OUT CONFIG
CONFIG: {"mode": "random"|"replay", "seed", "first", "histories", "programs"}
See specs/AffineTrace.tla. All numbers of arguments are rationals [numerator, denominator].
"""
import json
import math
import os
import random
import resource
import shutil
import sys
import tempfile
from fractions import Fraction as F

import numpy as np
import common
from common import Log, limit, Hang, exc_name, silence, guarded, stop

BASE = {"res": [], "obs": [], "seam": [], "text": "", "kept": 1}
common.FAILREC.update(BASE)
MAKES = ("simplex", "box", "rect", "frame", "cyl", "poly")


def rat(x):
    try:
        f = F(float(x)).limit_denominator(20000)
    except (TypeError, ValueError, OverflowError):
        return [0, 0]
    return [f.numerator, f.denominator] if abs(f - F(float(x))) < 1e-8 * max(1, abs(f)) and abs(f) < 1e5 else [0, 0]


def rats(v):
    return [rat(x) for x in v]


def num(q):
    return q[0] / q[1]


GIVEN = []


def nums(v):
    """a list, or an array that must not be changed by the call"""
    res = [num(q) for q in v]
    if sum(q[0] for q in v) % 3 == 0:
        GIVEN.append((np.array(res, dtype=float), res))
        return GIVEN[-1][0]
    if sum(q[0] for q in v) % 3 == 1:
        GIVEN.append((res, list(res)))
    return res


def measures(d, m):
    return [rat(m if d == 3 else m * m), rat(m / math.pi)]


class World:
    def __init__(self, g, gmsh, formats):
        self.g, self.gmsh, self.formats = g, gmsh, formats

    def clear(self):
        self.g.reinit()
        self.g._need_synchronize = False
        self.sets = []
        self.bent = False

    def entity(self, d, t):
        gm = self.gmsh.model
        level, parts = {(d, t)}, [0, 0, 0, 0]
        for k in range(d, -1, -1):
            parts[k] = len(level)
            corners = level
            level = {b for x in level for b in gm.getBoundary([x], False, False, False)} if k else set()
        m = gm.occ.getMass(d, t) if d else 0.0
        return [d, t] + measures(d, m) + [rats(gm.occ.getCenterOfMass(d, t)) if d else [],
                                         [rats(gm.getValue(0, p, [])) for _, p in sorted(corners)], parts, int(round(1000 * m))]

    def observe(self):
        self.g.all_entities()
        res = []
        for s in self.sets:
            c, m = s.center_of_mass()
            zero = int(np.ndim(c) == 0)
            if zero:
                assert c == 0 and m == 0
                c = [0, 0, 0]
            res.append([[self.entity(*x) for x in s.dim_tags], int(round(1000 * s.mass())),
                        [int(round(1000 * m * x)) for x in c], zero])
        return res

    def imported(self, name):
        gm = self.gmsh.model
        cur = gm.getCurrent()
        gm.add("imported")
        try:
            gm.occ.importShapes(name, highestDimOnly=False)
            gm.occ.synchronize()
            return [self.entity(*e) for e in gm.getEntities() if not len(gm.getAdjacencies(*e)[0])]
        finally:
            gm.remove()
            gm.setCurrent(cur)

    def counts(self, phys):
        gm = self.gmsh.model
        ents = [(d, t) for d, p in gm.getPhysicalGroups() for t in gm.getEntitiesForPhysicalGroup(d, p)] if phys else gm.getEntities()
        res = [0, 0, 0, 0]
        for d, t in ents:
            res[d] += sum(len(x) for x in gm.mesh.getElements(d, t)[1])
        return [len(gm.mesh.getNodes()[0])] + res[1:]

    def run(self, rec, op, args, default):
        """default: leave out arguments that have the default value"""
        g, S = self.g, self.sets
        zero = [[0, 1]] * 3
        opt = lambda v: [] if default and [list(q) for q in v] == zero else [nums(v)]
        if op == "simplex":
            S.append(g.make_simplex() if default and args[0] == 3 else g.make_simplex(args[0]))
        elif op == "box":
            S.append(g.box(nums(args[0]), *opt(args[1])))
        elif op == "rect":
            S.append(g.rectangle(nums(args[0]), *opt(args[1])))
        elif op == "frame":
            S.append(g.object(2, g.make_rectangle(np.array(list(nums(args[0])) + [0.0]))))
        elif op == "cyl":
            S.append(g.cylinder(num(args[0]), nums(args[1]), *opt(args[3])))
            g.all_entities()
            rec["seam"] = self.entity(*S[-1].dim_tags[0])[5]
        elif op == "poly":
            S.append(g.make_polygon([nums(p) for p in args[0]]))
        elif op == "translate":
            rec["res"] = [int(S[args[0] - 1].translate(nums(args[1])) is S[args[0] - 1])]
        elif op == "rotate":
            q = args[1]
            s = S[args[0] - 1]
            rec["res"] = [int(s.rotate(q[1:], 2 * math.atan2(math.sqrt(q[1] ** 2 + q[2] ** 2 + q[3] ** 2), q[0]), *opt(args[2])) is s)]
        elif op == "scale":
            s = S[args[0] - 1]
            rec["res"] = [int(s.scale(nums(args[1]), *opt(args[2])) is s)]
        elif op == "copy":
            S.append(S[args[0] - 1].copy())
        elif op == "group":
            S.append(g.group(*[S[i - 1] for i in args[0]]))
        elif op == "dims":
            d = S[args[0] - 1].have_common_dim()
            rec["res"] = [-1 if d is None else d]
        elif op == "brep":
            g.write_brep(*([] if args[0] == "mm" else [args[0]]))
            rec["text"] = " ".join(self.taken())
            rec["res"] = self.imported(rec["text"]) if os.path.exists(rec["text"]) else []
        elif op == "merge":
            g.remove_duplicate_entities()
            n = [0] * 4
            for d, t in g.all_entities():
                n[d] += 1
            rec["res"] = n
        elif op == "clear":
            g.keep_only()
            rec["res"] = [len(g.all_entities())]
        elif op == "files":
            g.make_mesh(S)
            rec["text"], rec["res"] = self.files(args[0])

    def taken(self):
        return sorted(os.listdir("."))

    def files(self, fmt):
        gm = self.gmsh.model
        if fmt == "":
            # in a child with little memory: what is wrong with the name or format can be fatal
            pid = os.fork()
            if pid == 0:
                try:
                    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
                    with limit(20):
                        self.g.write_mesh()
                finally:
                    os._exit(0)
            os.waitpid(pid, 0)
        else:
            self.g.write_mesh(format=self.formats[fmt])
        names = self.taken()
        if len(names) != 1 or not os.path.getsize(names[0]):
            return " ".join(names), ["", [], []]
        with open(names[0]) as f:
            words = f.read(300).split()
        head = " ".join(words[:1 if fmt in ("inp", "msh", "") else 2])
        if names[0].split(".")[-1] not in ("msh", "msh2", "unv", "vtk"):
            return names[0], [head, [], []]
        here = self.counts(True)
        cur = gm.getCurrent()
        gm.add("read")
        try:
            self.gmsh.merge(names[0])
            there = self.counts(False)
        finally:
            gm.remove()
            gm.setCurrent(cur)
        return names[0], [head, here, there]


def line(w, log, h, op, args, look, default):
    rec = dict(BASE)
    rec.update(h=h, op=op, args=args, exc="")
    for f in w.taken():
        os.remove(f)
    try:
        with limit(60):
            w.run(rec, op, args, default)
            rec["kept"] = int(all(list(a) == list(b) for a, b in GIVEN))
            del GIVEN[:]
            if look and op not in ("merge", "clear", "files"):
                rec["obs"] = w.observe()
    except (Exception, Hang) as e:
        rec["exc"] = exc_name(e) + ": " + str(e)[:80]
    log.put(rec)
    return not rec["exc"]


def q(rng, vals):
    f = F(rng.choice(vals))
    return [f.numerator, f.denominator]


HALVES = [F(k, 2) for k in range(-6, 7)]
SIDES = [F(1, 2), 1, F(3, 2), 2, 3]
QUATS = [[1, 1, 0, 0], [1, 0, 1, 0], [1, 0, 0, 1], [1, 0, 0, -1], [1, 1, 1, 1], [1, -1, 1, 1], [0, 1, 1, 0], [0, 0, 1, -1], [0, 1, 0, 0], [0, 2, 1, 0],
         [2, 0, 0, 1], [2, 1, 0, 0], [3, 0, -1, 0], [1, 0, 2, 2], [0, 0, 1, 0]]


def vec(rng, vals=HALVES):
    return [q(rng, vals) for _ in range(3)]


def centre(rng):
    return [[0, 1]] * 3 if rng.random() < 0.3 else vec(rng)


AXES = [([0, 0, 1], 1), ([0, 0, -2], 2), ([3, 0, 0], 3), ([0, 2, 0], 2), ([3, 4, 0], 5), ([0, -3, 4], 5), ([4, 0, 3], 5)]


def shape(rng):
    op = rng.choice(["simplex"] * 2 + ["box"] * 2 + ["rect", "frame", "cyl", "poly", "poly"])
    if op == "simplex":
        return op, [rng.randint(0, 3)]
    if op == "box":
        return op, [vec(rng, SIDES), centre(rng)]
    if op == "rect":
        return op, [[q(rng, SIDES), q(rng, SIDES)], centre(rng)]
    if op == "frame":
        return op, [[q(rng, SIDES), q(rng, SIDES)]]
    if op == "cyl":
        a, n = rng.choice(AXES)
        f = rng.choice([1, F(1, 2)])
        return op, [q(rng, SIDES), [q(rng, [f * x]) for x in a], q(rng, [f * n]), centre(rng)]
    # plane polygon: convex or with one vertex pulled in
    flat = rng.choice([[(0, 0), (2, 0), (1, 3)], [(0, 0), (3, 0), (4, 2), (1, 2)], [(0, 0), (4, 0), (4, 4), (1, 1)], [(0, 0), (3, 0), (3, 1), (1, 1), (1, 3), (0, 3)],
                       [(0, 0), (2, -1), (3, 1), (1, 2), (-1, 1)]])
    a, b = rng.choice([((1, 0, 0), (0, 1, 0)), ((1, 0, 1), (0, 1, 0)), ((0, 1, 0), (1, 0, -1)), ((1, 1, 0), (0, 1, 1)), ((0, 0, 1), (2, 1, 0))])
    o = [F(rng.randint(-4, 4), 2) for _ in range(3)]
    if rng.random() < 0.5:
        flat = flat[::-1]
    k = rng.randrange(len(flat))
    return op, [[[q(rng, [o[i] + u * a[i] + v * b[i]]) for i in range(3)] for u, v in flat[k:] + flat[:k]]]


def random_program(rng, nops):
    """a plan of calls; denominators and sizes stay small"""
    prog, sets, pyth, round_, grow = [], [], {}, set(), {}
    nb = 0
    kind = rng.choice(["plain"] * 6 + ["merge", "files"])
    if kind == "merge":
        s = vec(rng, SIDES)
        o = centre(rng)
        flat = rng.random() < 0.3
        for _ in range(rng.randint(1, 6)):
            k = [rng.randint(0, 2) for _ in range(3)]
            c = [F(*o[i]) + F(*s[i]) * k[i] for i in range(3)]
            # only shapes of the highest dimension are merged
            if not flat:
                prog.append(["box", [s, [q(rng, [x]) for x in c]]])
            else:
                c[2] += F(*s[2]) / 2
                prog.append(["rect", [s[:2], [q(rng, [x]) for x in c]]])
        return prog + [["merge", [s]]]
    if kind == "files":
        fmts = ["msh", "msh2", "unv", "vtk", "stl", "mesh", "su2", "inp", "vrml", "bdf", ""]
        n = rng.randint(1, 2)
        prog = [["box", [vec(rng, SIDES), [[5 * k, 1], [0, 1], [0, 1]]]] for k in range(n)]
        if rng.random() < 0.4:
            prog.append(["rect", [[q(rng, SIDES), q(rng, SIDES)], [[-7, 1], [0, 1], [0, 1]]]])
        return prog + [["files", [rng.choice(fmts)]]]
    while len(prog) < nops:
        if not sets or (len(sets) < 5 and rng.random() < 0.3):
            op, args = shape(rng)
            prog.append([op, args])
            sets.append([nb])
            pyth[nb], grow[nb] = int(op == "cyl"), F(1)
            if op == "cyl":
                round_.add(nb)
            nb += 1
            continue
        i = rng.randrange(len(sets))
        mine = sets[i]
        op = rng.choice(["translate", "rotate", "rotate", "scale", "copy", "group", "group", "dims", "brep"])
        if op == "translate":
            prog.append([op, [i + 1, vec(rng)]])
        elif op == "rotate":
            qq = rng.choice(QUATS)
            bad = int(sum(x * x for x in qq) not in (1, 2, 4))
            if bad and any(pyth[b] for b in mine):
                continue
            for b in mine:
                pyth[b] += bad
            prog.append([op, [i + 1, qq, centre(rng)]])
        elif op == "scale":
            f = [rng.choice([F(1, 2), 1, 2, 3, -1, F(3, 2)]) for _ in range(3)]
            if rng.random() < 0.2:
                f = [f[0]] * 3
            size = max(max(abs(x), 1 / abs(x)) for x in f)
            if set(mine) & round_ or any(grow[b] * size > 4 or pyth[b] for b in mine):
                continue
            for b in mine:
                grow[b] *= size
            prog.append([op, [i + 1, [q(rng, [x]) for x in f], centre(rng)]])
        elif op == "copy":
            if len(sets) > 6 or nb > 10:
                continue
            prog.append([op, [i + 1]])
            for b in mine:
                pyth[nb], grow[nb] = pyth[b], grow[b]
                if b in round_:
                    round_.add(nb)
                nb += 1
            sets.append(list(range(nb - len(mine), nb)))
        elif op == "group":
            if len(sets) < 2 or len(sets) > 6:
                continue
            ids = rng.sample(range(len(sets)), rng.choice([2, 2, min(3, len(sets))]))
            new = [b for k in ids for b in sets[k]]
            if len(set(new)) < len(new):
                continue
            prog.append([op, [[k + 1 for k in ids]]])
            sets.append(new)
        elif op == "dims":
            prog.append([op, [i + 1]])
        elif op == "brep":
            prog.append([op, [rng.choice(["shapes", "mm", "a.b"])]])
    if rng.random() < 0.2:
        prog.append(["clear", []])
    return prog


def main():
    out, conf = sys.argv[1], json.load(open(sys.argv[2]))
    import gmsh
    from bgem.gmsh.gmsh import GeometryOCC, MeshFormat
    silence()
    log = Log(out)
    w = World(GeometryOCC("mm"), gmsh, MeshFormat)
    gmsh.option.setNumber("General.Verbosity", 0)
    scratch = tempfile.mkdtemp(prefix="affine")
    os.chdir(scratch)
    try:
        n = len(conf["programs"]) if conf["mode"] == "replay" else conf["histories"]
        for k in range(n):
            if stop():
                break
            h = conf["first"] + k
            rng = random.Random(conf.get("seed", 0) * 1000003 + h)
            prog = conf["programs"][k] if conf["mode"] == "replay" else random_program(rng, rng.randint(2, conf["nops"]))
            w.clear()
            rec = dict(BASE)
            rec.update(h=h, op="new", args=[], exc="")
            log.put(rec)
            seldom = rng.random() < 0.3
            for j, (op, *args) in enumerate(prog):
                args = args[0] if conf["mode"] == "random" else args
                look = j == len(prog) - 1 or not seldom
                if not line(w, log, h, op, args, look, rng.random() < 0.5):
                    break
    finally:
        os.chdir("/")
        shutil.rmtree(scratch)
    log.close()


guarded(main)
