"""
Mesh size fields and options. usage: fielddrv.py OUT CONFIG
CONFIG: {"mode": "random"|"replay", "seed", "first", "histories", "nops", "programs"}
Lengths in 1/64. A program is a list of operations; fields are referred to by their order, vertices and edges by position.
"""
import json
import math
import random
import sys
import common
from common import Log, limit, Hang, exc_name, silence, guarded, stop

U = 64
INF = 10 ** 9
BASE = {"f": {}, "res": 0, "ids": [], "samples": [], "opts": [], "text": ""}
common.FAILREC.update(BASE)
MESH_OPTS = [("Algorithm", [1, 5, 6]), ("Algorithm3D", [1, 4, 10]), ("ToleranceEdgeLength", [0, 3, 0.25]), ("RandomFactor", [1, 2, 0.5]),
             ("CharacteristicLengthFromPoints", [0, 1]), ("CharacteristicLengthExtendFromBoundary", [0, 1, 2]),
             ("CharacteristicLengthMin", [0, 1, 0.125]), ("CharacteristicLengthMax", [100, 50, 20.5]), ("CharacteristicLengthFactor", [1, 2, 0.5]),
             ("QualityType", [0, 2]), ("MinimumCirclePoints", [5, 6]), ("MinimumCurvePoints", [3, 4]),
             ("AngleToleranceFacetOverlap", [1, 2, 0.25])]
GEOM_OPTS = [("Tolerance", [1, 2, 0.5]), ("ToleranceBoolean", [0, 1, 0.125]), ("AutoCoherence", [0, 1]), ("OCCFixSmallEdges", [0, 1]),
             ("OCCFixSmallFaces", [0, 1]), ("OCCSewFaces", [0, 1]), ("OCCFixDegenerated", [0, 1])]
NAMES = ["Mesh." + n for n, _ in MESH_OPTS] + ["Geometry." + n for n, _ in GEOM_OPTS]


class World:
    def __init__(self, g, gmsh, field, options):
        self.g, self.gmsh, self.field, self.options = g, gmsh, field, options
        self.dirt = 2

    def clear(self, bodies):
        g = self.g
        g.reinit()
        g._region_names = {}
        self.fields, self.tainted = [], []
        # the options of the module have to replace whatever is set
        for n in NAMES:
            self.gmsh.option.setNumber(n, self.dirt)
        self.dirt = 5 - self.dirt
        self.mesh_opt, self.geom_opt = self.options.Mesh(), self.options.Geometry()
        self.bodies = bodies
        self.sets = []
        for lo, hi in bodies:
            a, b = [x / U for x in lo], [x / U for x in hi]
            side, cen = [y - x for x, y in zip(a, b)], [(x + y) / 2 for x, y in zip(a, b)]
            self.sets.append(g.rectangle(side[:2], cen) if side[2] == 0 else g.box(side, cen))
        if any(p[1][0] == q[0][0] for p, q in zip(bodies, bodies[1:])):
            self.sets = list(g.fragment(*self.sets))
        g.synchronize()
        m = self.gmsh.model
        self.vertex, self.edge = {}, {}
        for d, t in m.getEntities(0):
            self.vertex[tuple(int(round(x * U)) for x in m.getValue(0, t, []))] = t
        for d, t in m.getEntities(1):
            ends = [tuple(int(round(x * U)) for x in m.getValue(0, p, [])) for _, p in m.getBoundary([(1, t)], False, False)]
            self.edge[tuple(sorted(ends))] = t

    def opts(self):
        return [[n, int(round(self.gmsh.option.getNumber(n) * 1000))] for n in NAMES]

    def closure(self, dts):
        res, todo = set(), list(dts)
        while todo:
            x = tuple(todo.pop())
            if x not in res:
                res.add(x)
                todo += self.gmsh.model.getBoundary([x], False, False, False) if x[0] > 0 else []
        return res

    def samples(self, dim, rng):
        m = self.gmsh.model
        for o in ("FromPoints", "ExtendFromBoundary", "FromCurvature"):
            self.gmsh.option.setNumber("Mesh.MeshSize" + o, 0)
        for o, v in (("CharacteristicLengthMin", 0), ("CharacteristicLengthMax", 1e22), ("CharacteristicLengthFactor", 1),
                     ("Algorithm", 6), ("Algorithm3D", 1), ("ToleranceEdgeLength", 0), ("RandomFactor", 1e-9)):
            self.gmsh.option.setNumber("Mesh." + o, v)
        seen = set()

        def size(d, t, x, y, z, lc):
            seen.add((d, t, x, y, z, lc))
            return 0.8
        m.mesh.clear()
        m.mesh.setSizeCallback(size)
        try:
            m.mesh.generate(dim)
        finally:
            m.mesh.removeSizeCallback()
        res = {}
        for d, t, x, y, z, lc in sorted(seen):
            q = [int(round(c * U)) for c in (x, y, z)]
            off = [abs(c * U - k) > 1e-6 for c, k in zip((x, y, z), q)]
            # positions known with an error only have to keep off the faces of boxes
            if any(c * U != k and abs((k + 16) % 32 - 16) < 2 for c, k in zip((x, y, z), q)):
                continue
            v = INF if lc > 1e4 else int(round(lc * U * U))
            res.setdefault(d, []).append([[d, t], q, int(not any(off)), v])
        return [s for d in sorted(res) for s in rng.sample(res[d], min(len(res[d]), 30))]

    def run(self, rec, op, args):
        f, m = self.field, self.gmsh.model
        if op == "background":
            f.set_mesh_step_field(self.fields[args[0]])
            rec["args"] = [self.fields[args[0]]]
        elif op == "mesh":
            rec["samples"] = self.samples(args[0], random.Random(rec["h"]))
            self.mesh_opt, self.geom_opt = self.options.Mesh(), self.options.Geometry()
        elif op == "opt":
            pre, name = args[0].split(".")
            obj = self.mesh_opt if pre == "Mesh" else self.geom_opt
            rec["opts"] = self.opts()
            setattr(obj, name, args[1])
            rec["args"] = [args[0], int(round(args[1] * 1000))]
            rec["opts"] = self.opts()
        elif op == "badopt":
            try:
                setattr(self.mesh_opt, args[0], None if args[1] == "None" else args[1])
            except (AssertionError, ValueError) as e:
                rec["text"] = type(e).__name__
            rec["opts"] = self.opts()
        else:
            rec["f"], call, taint = self.make(op, args)
            i = call()
            rec["res"] = int(i) if isinstance(i, int) else -1
            self.fields.append(i)
            self.tainted.append(taint)
            rec["ids"] = sorted(int(x) for x in m.mesh.field.list())

    def make(self, op, args):
        f = self.field
        if op == "nodes":
            return {"pts": args[0]}, lambda: f.distance_nodes([self.vertex[tuple(p)] for p in args[0]]), False
        if op == "edges":
            tags = [self.edge[tuple(sorted(map(tuple, s)))] for s in args[0]]
            if args[1] == 8:
                return {"segs": args[0], "n": 8}, lambda: f.distance_edges(tags), False
            return {"segs": args[0], "n": args[1]}, lambda: f.distance_edges(tags, args[1]), False
        if op == "threshold":
            k, a, sa, b, sb, sig = args
            x = {"f": self.fields[k], "a": a, "sa": sa, "b": b, "sb": sb, "sig": bool(sig)}
            if sig:
                return x, lambda: f.threshold(self.fields[k], (a / U, sa / U), (b / U, sb / U), sigmoid=True), self.tainted[k]
            return x, lambda: f.threshold(self.fields[k], (a / U, sa / U), (b / U, sb / U)), self.tainted[k]
        if op in ("min", "max"):
            ids = [self.fields[k] for k in args[0]]
            return {"fs": ids}, lambda: getattr(f, op)(ids), any(self.tainted[k] for k in args[0])
        if op == "box":
            lo, hi, vin, vout = args
            a, b = [x / U for x in lo], [x / U for x in hi]
            x = {"lo": lo, "hi": hi, "vin": vin, "vout": vout}
            return x, (lambda: f.box(a, b, vin / U)) if vout == -1 else (lambda: f.box(a, b, vin / U, vout / U)), False
        if op == "constant":
            return {"v": args[0], "rad": args[1]}, lambda: f.constant(args[0] / U, args[1] / U), False
        if op == "restrict":
            k, ids, addb = args
            sets = [self.sets[j] for j in ids]
            ents = [tuple(x) for s in sets for x in s.dim_tags]
            clo = self.closure(ents)
            if addb:
                ents += [x for e in ents for x in self.gmsh.model.getBoundary([e], False, False, False)]
            x = {"f": self.fields[k], "ents": sorted(map(list, set(ents))), "clo": sorted(map(list, clo))}
            if addb:
                return x, lambda: f.restrict(self.fields[k], *sets, add_boundary=True), True
            return x, lambda: f.restrict(self.fields[k], *sets), True
        raise KeyError(op)


def half(rng, a, b):
    return 32 * rng.randint(2 * a, 2 * b)


def pick_bodies(rng):
    res, x, apart = [], 0, rng.random() < 0.6
    for _ in range(rng.randint(1, 3)):
        lo = [x, rng.randint(0, 1), rng.randint(0, 1)]
        hi = [x + rng.randint(1, 3), lo[1] + rng.randint(1, 2), lo[2] + (rng.randint(1, 2) if rng.random() < 0.5 else 0)]
        res.append([[U * v for v in lo], [U * v for v in hi]])
        x = hi[0] + (1 if apart else 0)
    return res


def pick(rng, w):
    n = len(w.fields)
    clean = [k for k in range(n) if not w.tainted[k]]
    op = rng.choice(["nodes", "edges", "threshold", "threshold", "threshold", "min", "max", "box", "box", "constant", "restrict",
                     "restrict", "background", "background", "mesh", "opt", "badopt"])
    if op == "nodes":
        return op, [[list(p) for p in rng.sample(sorted(w.vertex), rng.randint(1, 3))]]
    if op == "edges":
        return op, [[[list(p) for p in s] for s in rng.sample(sorted(w.edge), rng.randint(1, 2))], rng.choice([4, 6, 8, 20])]
    if op == "threshold" and clean:
        a = rng.randint(0, 128)
        return op, [rng.choice(clean), a, rng.randint(1, 200), a + rng.choice([32, 64, 96, 128, 250]), rng.randint(1, 200),
                    int(rng.random() < 0.2)]
    if op in ("min", "max") and n:
        return op, [[rng.randrange(n) for _ in range(rng.randint(1, 3))]]
    if op == "box":
        lo = [half(rng, -1, 3), half(rng, -1, 1), half(rng, -1, 1)]
        return op, [lo, [v + half(rng, 1, 4) for v in lo], rng.randint(1, 200), rng.choice([-1, rng.randint(1, 200)])]
    if op == "constant":
        return op, [rng.randint(1, 200), half(rng, 1, 8)]
    if op == "restrict" and n:
        return op, [rng.randrange(n), rng.sample(range(len(w.sets)), rng.randint(1, len(w.sets))), rng.randint(0, 1)]
    if op == "background" and n:
        return op, [rng.randrange(max(0, n - 4), n)]
    if op == "mesh":
        return op, [rng.choice([1, 2, 3, 3])]
    if op == "opt":
        pre, (name, vals) = rng.choice([("Mesh.", x) for x in MESH_OPTS] + [("Geometry.", x) for x in GEOM_OPTS])
        return op, [pre + name, rng.choice(vals)]
    if op == "badopt":
        return op, rng.choice([["NoSuchOption", 1], ["algorithm", 1], ["RandomFactor", "1"], ["Algorithm", [1]], ["RandomFactor", "None"],
                               ["Mesh.Algorithm", 1]])
    return None


def main():
    conf = json.load(open(sys.argv[2]))
    import gmsh
    from bgem.gmsh import field, options
    from bgem.gmsh.gmsh import GeometryOCC
    silence()
    log = Log(sys.argv[1])
    w = World(GeometryOCC("checked"), gmsh, field, options)
    gmsh.option.setNumber("General.Verbosity", 0)
    gmsh.option.setNumber("General.Terminal", 0)

    def step(h, op, args):
        rec = dict(BASE, h=h, op=op, args=args, exc="")
        try:
            with limit(60):
                if op == "new":
                    w.clear(args)
                    rec["opts"] = w.opts()
                else:
                    w.run(rec, op, args)
                    if op == "mesh":
                        rec["opts"] = w.opts()
        except (Exception, Hang) as e:
            rec["exc"] = exc_name(e) + ": " + str(e)[:80]
        log.put(rec)
        return rec["exc"] == ""

    if conf["mode"] == "replay":
        for k, prog in enumerate(conf["programs"]):
            if stop():
                break
            for op, args in prog:
                if not step(conf["first"] + k, op, args):
                    break
        return
    for k in range(conf["histories"]):
        if stop():
            break
        h = conf["first"] + k
        rng = random.Random(conf["seed"] * 1000003 + k)
        ok = step(h, "new", pick_bodies(rng))
        n = 0
        while ok and n < conf["nops"]:
            p = pick(rng, w)
            if p is not None:
                n += 1
                ok = step(h, *p)
        if ok and w.fields:
            ok = step(h, "background", [len(w.fields) - 1]) and step(h, "mesh", [3])
    log.close()


guarded(main)
