"""Drives ObjectSet / GeometryOCC (bgem/gmsh/gmsh.py) on solids made of unit cells.

Every operation is logged with all live sets: entity, region, and the unit cells the entity covers, found by
asking the geometry kernel about the centres of the cells.  See specs/SolidTrace.tla.
"""
import itertools
import math
import os
import random
import shutil
import sys
import tempfile
import types

import numpy as np

from common import Log, limit, exc_name, silence, guarded, FAILREC, stop, Hang
import json

BASE = {"args": [], "self": 0, "tools": [], "out": [], "drop": [], "res": [], "sets": [], "text": ""}
FAILREC.update(BASE)
NAMES = {3: ["rock", "clay", "sand"], 2: ["frac", "fault", "crack"]}


MAKE = ["box", "rect", "polygon", "quad"]


class Unreadable(Exception):
    """the kernel gives contradictory answers about the shape (solids with embedded faces)"""


class World:
    def __init__(self, g, gmsh, Region, Error):
        self.g, self.gmsh, self.Region, self.Error = g, gmsh, Region, Error

    def clear(self):
        self.g.reinit()
        self.g._region_names = {}
        self.g._need_synchronize = False
        for d, r in enumerate(self.Region.default_region):
            r.name, r.dim = "default_%dd" % d, d
        self.sets, self.next, self.plan = {}, 1, None
        self.imprinted = set()

    # ---- observation
    def cells(self, dim, tag):
        model = self.gmsh.model
        try:
            box = model.getBoundingBox(dim, tag)
        except Exception:
            return [["none"]]
        lo = [int(math.floor(x + 0.25)) for x in box[:3]]
        hi = [int(math.ceil(x - 0.25)) for x in box[3:]]
        res = []
        if dim == 3:
            for c in itertools.product(*[range(a, b) for a, b in zip(lo, hi)]):
                if model.isInside(3, tag, [x + 0.5 for x in c]):
                    res.append(list(c))
        elif dim == 2:
            flat = [i for i in range(3) if abs(box[3 + i] - box[i]) < 0.25]
            for a in flat[:1]:
                rng = [[int(round(box[i]))] if i == a else range(lo[i], hi[i]) for i in range(3)]
                for c in itertools.product(*rng):
                    if model.isInside(2, tag, [x + (0 if i == a else 0.5) for i, x in enumerate(c)]):
                        res.append([a + 1] + list(c))
        if dim > 1 and abs(len(res) - model.occ.getMass(dim, tag)) > 1e-3:
            raise Unreadable()
        return res

    def observe(self):
        self.gmsh.model.occ.synchronize()
        memo = {}
        out = []
        for i, s in sorted(self.sets.items()):
            ent = []
            for k, (d, t) in enumerate(s.dim_tags):
                if (d, t) not in memo:
                    memo[d, t] = self.cells(d, t)
                r = s.regions[k] if k < len(s.regions) else None
                ent.append([d, t, -1 if r is None else r.id, "" if r is None else r.name, memo[d, t]])
            if len(s.regions) > len(s.dim_tags):
                ent.append([9, 0, 0, "excess", []])
            out.append([i, ent])
        return out

    # ---- relations of sets (used only to choose operations)
    def closure(self, i, embedded=True):
        s = self.sets[i]
        if not s.dim_tags:
            return set()
        self.gmsh.model.occ.synchronize()
        gm = self.gmsh.model
        res, todo = set(), list(map(tuple, s.dim_tags))
        while todo:
            x = todo.pop()
            if x in res:
                continue
            res.add(x)
            if x[0] > 0:
                todo += gm.getBoundary([x], False, False, False)
            if x[0] > 1 and embedded:
                todo += gm.mesh.getEmbedded(*x)
        return res

    def dims(self, i):
        return {d for d, t in self.sets[i].dim_tags}

    def movable(self, i):
        cl = self.closure(i)
        if any(cl & self.closure(j) for j in self.sets if j != i):
            return False
        seen = set()
        for d, t in self.sets[i].dim_tags:
            one = {(d, t)}
            for lev in range(d):
                b = self.gmsh.model.getBoundary([x for x in one if x[0] == d - lev], False, False, False)
                one |= set(b)
            if one & seen:
                return False
            seen |= one
        return True

    def sharers(self, used):
        """live sets whose entities are destroyed together with those of the used sets"""
        cl = set().union(*[self.closure(i) for i in used]) if used else set()
        res = []
        for j, s in self.sets.items():
            if j not in used and cl & self.closure(j):
                res.append(j)
        return res

    def entity_cells(self, i):
        return [(d, t, {tuple(c) for c in self.cells(d, t)}) for d, t in self.sets[i].dim_tags]

    def disjoint(self, ids):
        ents = [x for i in ids for x in self.entity_cells(i)]
        return all(not (a[2] & b[2]) for a, b in itertools.combinations(ents, 2) if a[0] == b[0])

    def matching_faces(self, i):
        """faces of the solids of the set meet only when they are one entity"""
        seen = {}
        for d, t in self.sets[i].dim_tags:
            if d != 3:
                return False
            for _, f in self.gmsh.model.getBoundary([(d, t)], False, False, False):
                for c in self.cells(2, f):
                    if seen.setdefault(tuple(c), f) != f:
                        return False
        return True

    # ---- operations
    def add(self, s):
        i = self.next
        self.next += 1
        self.sets[i] = s
        return i

    def allowed(self, *p):
        try:
            return self.fits(*p)
        except Unreadable:
            return False

    def fits(self, op, args, me, tools):
        S = self.sets
        if op in ("box", "rect", "new", "polygon", "quad", "fractures"):
            return True
        if me and me not in S or any(t not in S for t in tools):
            return False
        # a region stands for shapes of one dimension
        if op in ("split_by_region", "split_by_dimension", "boundary_regions", "mesh") and any(
                r.dim not in (None, d) for i in [me] + tools if i for (d, _), r in zip(S[i].dim_tags, S[i].regions)):
            return False
        if op in ("split_by_region", "split_by_dimension", "boundary_regions") and any(
                len(self.reg_dims(id(r), [me])) > 1 for r in S[me].regions):
            return False
        if op in ("copy", "mass", "set_region", "modify_regions", "split_by_region", "split_by_dimension", "small", "region_tags"):
            return bool(S[me].dim_tags) and (op not in ("set_region",) or len(self.dims(me)) == 1)
        if op == "scale" and any(abs(x) > 6 for e in self.entity_cells(me) for c in e[2] for x in c):
            return False
        if op in ("translate", "rotate", "scale"):
            return bool(S[me].dim_tags) and me not in self.imprinted and self.movable(me)
        if op == "group":
            return len(tools) > 1 and not any(set(S[a].dim_tags) & set(S[b].dim_tags)
                                              for a, b in itertools.combinations(tools, 2))
        if op in ("cut", "intersect", "fragment", "select"):
            if not S[me].dim_tags or me in tools:
                return False
            if op != "fragment" and (not tools or any(not S[t].dim_tags for t in tools)):
                return False
            if op != "fragment" and max(self.dims(me)) > min(min(self.dims(t)) for t in tools):
                return False
            if set(S[me].dim_tags) & {x for t in tools for x in S[t].dim_tags}:
                return False
            return len(tools) == len(set(tools)) and self.simple(me) and self.distinct(tools) and (
                op == "fragment" and self.free(me)
                or len(self.dims(me)) == 1 and self.disjoint([me]) and (op == "select" or self.free(me)))
        if op == "badcut":
            return (bool(S[me].dim_tags) and bool(tools) and self.dims(me) == {3} and self.dims(tools[0]) == {2}
                    and self.simple(me))
        if op == "fragment_all":
            return (len(set(tools)) == len(tools) and tools and any(S[t].dim_tags for t in tools)
                    and self.distinct(tools) and all(self.free(t) for t in tools))
        if op == "split_by_cut":
            return (bool(tools) and len(set().union(*[self.dims(t) for t in [me] + tools])) == 1 and S[me].dim_tags
                    and self.distinct(tools) and all(self.free(t) for t in [me] + tools)
                    and all(S[t].dim_tags for t in tools) and me not in tools
                    and len(set(tools)) == len(tools) and self.disjoint([me]) and self.disjoint(tools)
                    and not set(S[me].dim_tags) & {x for t in tools for x in S[t].dim_tags})
        if op in ("boundary", "boundary_regions"):
            return self.dims(me) == {3} and self.matching_faces(me)
        if op == "mesh_step":
            return bool(S[me].dim_tags)
        if op == "keep":
            return bool(tools)
        if op == "mesh":
            # without elimination everything is meshed, also the left-overs of fragmented shapes
            return (bool(tools) and (args[0] or not self.imprinted) and all(S[t].dim_tags for t in tools) and len(set(tools)) == len(tools)
                    and self.disjoint(tools) and not any(len(self.reg_dims(r, tools)) > 1 for r in
                                                         {id(r) for t in tools for r in S[t].regions}))
        return False

    def simple(self, me):
        return len(set(self.sets[me].dim_tags)) == len(self.sets[me].dim_tags)

    def distinct(self, ids):
        return len({x for t in ids for x in self.sets[t].dim_tags}) == sum(len(self.sets[t].dim_tags) for t in ids)

    def free(self, i):
        """no face of the set bounds a solid of the model (the kernel does not replace such a face)"""
        self.gmsh.model.occ.synchronize()
        gm = self.gmsh.model
        inside = {x for v in gm.getEntities(3) for x in gm.mesh.getEmbedded(*v)}
        return all(not len(gm.getAdjacencies(d, t)[0]) and (d, t) not in inside for d, t in self.sets[i].dim_tags)

    def reg_dims(self, rid, tools):
        return {d for t in tools for (d, _), r in zip(self.sets[t].dim_tags, self.sets[t].regions) if id(r) == rid}

    def consume(self, used):
        drop = self.sharers(used) if self.plan is None else self.plan
        for j in drop:
            del self.sets[j]
        return drop

    def run(self, rec, op, args, me, tools):
        self.run_op(rec, op, args, me, tools)
        # the kernel leaves imprinted edges behind when it moves fragments
        if op in ("fragment", "fragment_all", "split_by_cut", "fractures") or ({me} | set(tools)) & self.imprinted:
            self.imprinted |= set(rec["out"])

    def run_op(self, rec, op, args, me, tools):
        g, S = self.g, self.sets
        s = S.get(me)
        T = [S[t] for t in tools]
        if op == "box":
            lo, hi = args
            o = g.box([b - a for a, b in zip(lo, hi)], [(a + b) / 2 for a, b in zip(lo, hi)])
            rec["out"] = [self.add(o)]
        elif op == "rect":
            lo, hi = args
            sides = [b - a for a, b in zip(lo[:2], hi[:2])]
            arg = list(sides)
            cen = [(a + b) / 2 for a, b in zip(lo[:2], hi[:2])] + [lo[2]]
            if sides == [1, 1] and cen == [0, 0, 0]:
                o = g.rectangle()
            elif sides == [1, 1]:
                o = g.rectangle(center=cen)
            else:
                o = g.rectangle(arg, cen)
            rec["out"] = [self.add(o)]
            rec["res"] = [int(arg == sides)]
        elif op == "polygon":
            lo, hi, cut, step = args
            z = lo[2]
            pts = ([lo[:2], [hi[0], lo[1]], [hi[0], cut[1]], cut, [cut[0], hi[1]], [lo[0], hi[1]]] if cut else
                   [lo[:2], [hi[0], lo[1]], hi[:2], [lo[0], hi[1]]])
            pts = [[float(v) for v in p] + [float(z)] for p in pts]
            steps = [None, 0.75, [0.5 + 0.25 * k for k in range(len(pts))], 1][step]
            rec["out"] = [self.add(g.make_polygon(pts) if step == 0 else g.make_polygon(pts, steps))]
        elif op == "quad":
            rec["out"] = [self.add(g.object(2, g.make_rectangle(np.array([args[0], args[1], 0.0]))))]
        elif op == "fractures":
            fr = [types.SimpleNamespace(rx=f[0], ry=f[1], rotation_axis=[1, 0, 0] if f[2] == 1 else [0, 1, 0],
                                        rotation_angle=math.pi / 2 * (f[2] > 0), centre=f[3:6], region=f[6]) for f in args]
            rec["out"] = [self.add(o) for o in g.make_fractures(fr, g.rectangle())]
        elif op == "region_tags":
            s.set_region_from_dimtag()
        elif op == "copy":
            rec["out"] = [self.add(s.copy())]
        elif op == "translate":
            s.translate(args[0])
        elif op == "rotate":
            m = args[0]
            s.rotate([0, 0, 1], math.pi / 2, [m, m, 0])
        elif op == "scale":
            s.scale([2, 2, 2])
        elif op == "set_region":
            r = s.set_region(args[0])
            rec["res"] = [int(r is s)]
        elif op == "modify_regions":
            s.modify_regions(args[0] + "{}")
        elif op == "group":
            rec["out"] = [self.add(g.group(*T))]
        elif op in ("split_by_region", "split_by_dimension"):
            rec["out"] = [self.add(o) for o in getattr(s, op)()]
        elif op in ("cut", "intersect", "fragment"):
            rec["drop"] = self.consume([me])
            o = getattr(s, op)(*T)
            del S[me]
            if s.dim_tags is not None:
                rec["text"] = "self stays valid"
            rec["out"] = [self.add(o)]
        elif op == "badcut":
            try:
                s.cut(*T)
            except Exception as e:
                rec["text"] = type(e).__name__
        elif op == "fragment_all":
            rec["drop"] = self.consume(tools)
            o = g.fragment(*T)
            for t in tools:
                del S[t]
            rec["out"] = [self.add(x) for x in o]
        elif op == "split_by_cut":
            used = [me] + tools
            rec["drop"] = self.consume(used)
            o = s.split_by_cut(*T)
            for t in used:
                del S[t]
            rec["out"] = [self.add(x) for x in o]
        elif op == "select":
            try:
                rec["out"] = [self.add(s.select_by_intersect(*T))]
            except self.Error as e:
                rec["text"] = str(e).split(":")[0][:60]
        elif op == "boundary":
            rec["out"] = [self.add(s.get_boundary(combined=bool(args[0])))]
        elif op == "boundary_regions":
            rec["out"] = [self.add(o) for o in (s.get_boundary_per_region(args[0] + "{}" + args[1]) if args else
                                                s.get_boundary_per_region())]
        elif op == "small":
            s.remove_small_mass(args[0] + 0.5)
        elif op == "mass":
            c, m = s.center_of_mass()
            vals = [s.mass(), m] + [x * m for x in c]
            rec["res"] = [int(round(2 * v)) for v in vals] + [int(all(abs(2 * v - round(2 * v)) < 1e-6 for v in vals))]
        elif op == "mesh_step":
            # sizes of the points of the set and of the others, before and after
            if self.plan is not None:
                s.set_mesh_step(args[0] / 1000)
                return
            gm = self.gmsh.model
            own = sorted(x for x in self.closure(me, embedded=False) if x[0] == 0)
            rest = sorted(set(gm.getEntities(0)) - set(own))
            before = [float(gm.mesh.getSizes([x])[0]) for x in rest]
            s.set_mesh_step(args[0] / 1000)
            after = [float(gm.mesh.getSizes([x])[0]) for x in rest]
            rec["res"] = [sorted({int(round(gm.mesh.getSizes([x])[0] * 1000)) for x in own}), int(before == after)]
        elif op in ("keep", "mesh"):
            lost = [i for i in S if i not in tools]
            ents = None
            if op == "keep":
                g.keep_only(*T)
                if self.plan is None:
                    ents = set(g.all_entities())
            else:
                # values that are the documented defaults are left out
                g.make_mesh(T, **dict({} if args[1] == 3 else {"dim": args[1]}, **({} if args[0] else {"eliminate": False})))
                ents = set(self.gmsh.model.getEntities())
            # entities of the model that are not part of the given sets
            extra, missing = -1, -1
            if self.plan is None and (op == "keep" or args[0]):
                cl = set().union(*[self.closure(t) for t in tools])
                extra, missing = len(ents - cl), len(cl - ents)
            rec["res"] = [extra, missing] + (self.mesh() if op == "mesh" else [])
            if op == "keep" or args[0]:
                rec["drop"] = lost
                for j in lost:
                    del S[j]

    def mesh(self):
        """[names [dim, name], elements per name [dim, name, measure, cells], all elements of the model]"""
        d = tempfile.mkdtemp(prefix="solid")
        try:
            f = os.path.join(d, "m.msh2")
            self.g.write_mesh(f)
            lines = open(f).read().split("\n")
        finally:
            shutil.rmtree(d)
        i = lines.index("$Nodes")
        n = int(lines[i + 1])
        X = {}
        for ln in lines[i + 2:i + 2 + n]:
            w = ln.split()
            X[int(w[0])] = [float(v) for v in w[1:4]]
        names = []
        if "$PhysicalNames" in lines:
            i = lines.index("$PhysicalNames")
            for ln in lines[i + 2:i + 2 + int(lines[i + 1])]:
                dd, k, nm = ln.split(" ", 2)
                names.append((int(dd), int(k), nm.strip('"')))
        i = lines.index("$Elements")
        tot = {}
        for ln in lines[i + 2:i + 2 + int(lines[i + 1])]:
            w = list(map(int, ln.split()))
            dim = {15: 0, 1: 1, 2: 2, 4: 3}[w[1]]
            nodes = w[3 + w[2]:]
            v, cell = self.measure(dim, [X[k] for k in nodes])
            a = tot.setdefault((dim, w[3]), [0.0, set()])
            a[0] += v
            a[1].add(cell)
        groups = []
        for (dim, k) in sorted(set(tot) | {x[:2] for x in names}):
            v, cs = tot.get((dim, k), [0.0, set()])
            nm = [x[2] for x in names if x[:2] == (dim, k)]
            near = abs(v - round(v)) < 1e-6
            groups.append([dim, nm[0] if len(nm) == 1 else "?", int(round(v)) if near else -1,
                           [list(c) for c in sorted(cs)]])
        # duplicate nodes; the mesher may place nodes of coincident faces farther apart than the tolerance
        pts = [tuple(round(v, 10) for v in p) for p in X.values()]
        return [groups, len(pts) - len(set(pts))]

    @staticmethod
    def measure(dim, P):
        cen = [sum(p[i] for p in P) / len(P) for i in range(3)]
        u = [[b - a for a, b in zip(P[0], p)] for p in P[1:]]
        if dim == 3:
            a, b, c = u
            v = abs(a[0] * (b[1] * c[2] - b[2] * c[1]) - a[1] * (b[0] * c[2] - b[2] * c[0])
                    + a[2] * (b[0] * c[1] - b[1] * c[0])) / 6
            return v, tuple(int(math.floor(x)) for x in cen)
        if dim == 2:
            a, b = u
            n = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
            ax = max(range(3), key=lambda i: abs(n[i]))
            return (math.sqrt(sum(x * x for x in n)) / 2,
                    (ax + 1,) + tuple(int(round(x)) if i == ax else int(math.floor(x)) for i, x in enumerate(cen)))
        return 0.0, tuple(int(math.floor(x)) for x in cen)


def pick(rng, w):
    S = sorted(w.sets)
    ops = (["box"] * 5 + ["rect"] * 2 + ["polygon", "quad", "fractures", "region_tags", "copy", "translate", "rotate", "scale"] + ["set_region"] * 4
           + ["modify_regions", "group", "group", "split_by_region", "split_by_dimension"]
           + ["cut", "intersect", "fragment", "fragment_all", "split_by_cut", "select"] * 2
           + ["boundary", "boundary_regions", "small", "mass", "badcut", "mesh_step"])
    if len(S) < 3:
        ops = ["box", "box", "rect", "set_region"]
    if len(S) > 7:
        ops = [o for o in ops if o not in ("box", "rect", "copy", "polygon", "quad", "fractures")]
    op = rng.choice(ops)
    me, tools, args = 0, [], []
    if op == "box":
        lo = [rng.randint(0, 3) for _ in range(3)]
        args = [lo, [a + rng.randint(1, 3) for a in lo]]
    elif op == "rect":
        lo = [rng.randint(0, 3) for _ in range(2)] + [rng.randint(0, 4)]
        if rng.random() < 0.2:
            lo, hi = [0, 0, lo[2]], [1, 1, 0]
        else:
            hi = [a + rng.randint(1, 3) for a in lo[:2]] + [0]
        args = [lo, hi]
    elif op == "polygon":
        lo = [rng.randint(0, 3) for _ in range(2)] + [rng.randint(0, 4)]
        hi = [a + rng.randint(2, 3) for a in lo[:2]] + [0]
        args = [lo, hi, rng.choice([[], [rng.randint(lo[i] + 1, hi[i] - 1) for i in range(2)]]), rng.randint(0, 3)]
    elif op == "quad":
        args = [rng.randint(1, 2), rng.randint(1, 2)]
    elif op == "fractures":
        args = [[2 * rng.randint(1, 2), 2 * rng.randint(1, 2), rng.randint(0, 2), rng.randint(0, 4), rng.randint(0, 4),
                 rng.randint(0, 4), rng.choice(NAMES[2])] for _ in range(rng.randint(1, 3))]
    elif not S:
        return None
    else:
        me = rng.choice(S)
    if op == "translate":
        args = [[rng.randint(-2, 2) for _ in range(3)]]
    elif op == "rotate":
        args = [rng.choice([2, 3])]
    elif op == "set_region":
        dims = w.dims(me)
        if len(dims) != 1:
            return None
        args = [rng.choice(NAMES[list(dims)[0]])]
    elif op == "modify_regions":
        args = [rng.choice(["a_", "b "])]
    elif op == "small":
        args = [rng.randint(1, 6)]
    elif op == "boundary":
        args = [rng.randint(0, 1)]
    elif op == "boundary_regions":
        args = rng.choice([[], ["in ", ""]])
    elif op == "mesh_step":
        args = [rng.choice([750, 1250, 2000])]
    elif op in ("group", "fragment_all"):
        me, tools = 0, rng.sample(S, min(len(S), rng.randint(1 if op == "fragment_all" else 2, 3)))
    elif op in ("cut", "intersect", "fragment", "select", "split_by_cut"):
        tools = rng.sample(S, min(len(S), rng.choice([1, 1, 2] + [0] * (op == "fragment"))))
    elif op == "badcut":
        tools = [rng.choice(S)]
    return op, args, me, tools


def pick_names(rng, w):
    """disjoint bodies whose regions have equal or similar names"""
    S = sorted(w.sets)
    op = rng.choice(["box", "box", "rect", "set_region", "set_region", "set_region", "boundary_regions", "boundary_regions",
                     "group"] if len(S) > 2 else ["box", "rect"])
    if op in ("box", "rect"):
        x = 3 * w.next
        lo = [x, 0, rng.randint(0, 1)]
        return op, [lo, [x + rng.randint(1, 2), rng.randint(1, 2), (lo[2] + 1) if op == "box" else 0]], 0, []
    me, args = rng.choice(S), []
    if op == "set_region":
        dims = w.dims(me)
        if len(dims) != 1 or all(r.name[0] == "A" for r in w.sets[me].regions):
            return None
        args = [rng.choice({3: ["A", "A_0"], 2: ["A_1", "A_0_0"]}[list(dims)[0]])]
    elif op == "boundary_regions":
        args = rng.choice([["", ""], ["", ""], ["", "_0"]])
    elif op == "group":
        return op, [], 0, rng.sample(S, 2)
    return op, args, me, []


def pick_short(rng, w):
    """a shape just made is used at once"""
    S = sorted(w.sets)
    if not S:
        op = rng.choice(["box", "rect"] + 2 * ["polygon", "quad"])
        args = {"quad": [rng.randint(1, 2), rng.randint(1, 2)], "box": [[0, 1, 0], [2, 3, 1]], "rect": [[1, 0, 2], [2, 3, 0]],
                "polygon": [[0, 0, 1], [2, 3, 0], rng.choice([[], [1, 1]]), rng.randint(0, 3)]}[op]
        return op, args, 0, []
    op = rng.choice(["boundary", "mass", "small", "set_region", "copy", "mesh_step", "translate"])
    args = {"boundary": [rng.randint(0, 1)], "small": [4], "set_region": ["r2"], "mesh_step": [1250], "translate": [[1, 0, 2]]}.get(op, [])
    if op == "set_region":
        args = [NAMES[list(w.dims(S[0]))[0]][0]]
    return op, args, S[0], []


def size_ok(w):
    return sum(len(s.dim_tags) for s in w.sets.values()) <= 40


def step(w, log, h, op, args, me, tools, observe=True):
    rec = dict(BASE)
    rec.update(h=h, op=op, args=args, self=me, tools=tools, exc="")
    ok = True
    try:
        with limit(60):
            w.run(rec, op, args, me, tools)
    except Unreadable:
        return None
    except (Exception, Hang) as e:
        rec["exc"] = exc_name(e) + ": " + str(e)[:80]
        ok = False
    if observe:
        if ok:
            try:
                rec["sets"] = w.observe()
            except Unreadable:
                if op not in MAKE:
                    return None
                rec["exc"], ok = "contradictory shape", False
        log.put(rec)
    return list(rec["drop"]) if ok else None


def again(w, log, h, prog):
    """the same history without looking at the model in between"""
    w.clear()
    rec = dict(BASE)
    rec.update(h=h, op="again", args=[p[:4] for p in prog], exc="")
    try:
        r = {}
        with limit(120):
            for op, args, me, tools, drop in prog:
                r = dict(BASE)
                w.plan = drop
                w.run(r, op, args, me, tools)
        if prog[-1][0] == "mesh":
            rec["res"] = [x[:3] for x in r["res"][2]]
        rec["sets"] = w.observe()
    except (Exception, Hang) as e:
        rec["exc"] = exc_name(e) + ": " + str(e)[:80]
    log.put(rec)


def main():
    out, conf = sys.argv[1], json.load(open(sys.argv[2]))
    import gmsh
    from bgem.gmsh.gmsh import GeometryOCC, Region, BoolOperationError
    silence()
    log = Log(out)
    w = World(GeometryOCC("checked"), gmsh, Region, BoolOperationError)
    gmsh.option.setNumber("General.Verbosity", 0)

    def start(h):
        w.clear()
        rec = dict(BASE)
        rec.update(h=h, op="new", exc="")
        log.put(rec)

    if conf["mode"] == "replay":
        for k, prog in enumerate(conf["programs"]):
            if stop():
                break
            h = conf["first"] + k
            start(h)
            done = []
            for op, args, me, tools in prog + [["mesh", [int(k % 4 > 0), 3], 0, None]] * conf.get("mesh", 0):
                if tools is None:
                    tools = []
                    for i in sorted(w.sets):
                        if w.sets[i].dim_tags and w.disjoint(tools + [i]):
                            tools = tools + [i]
                if not w.allowed(op, args, me, tools):
                    break
                drop = step(w, log, h, op, args, me, tools)
                if drop is None:
                    break
                done.append([op, args, me, tools, drop])
            else:
                if k % 8 == 0:
                    again(w, log, h, done)
        return
    for k in range(conf["histories"]):
        if stop():
            break
        h = conf["first"] + k
        rng = random.Random(conf["seed"] * 1000003 + k)
        start(h)
        prog = []
        ok = True
        profile = rng.random()
        names, short = profile < 0.2, profile > 0.85
        nops = rng.randint(1, 2) if short else conf["nops"]
        for _ in range(nops * 6):
            if len(prog) >= nops or not ok:
                break
            p = (pick_short if short else pick_names if names else pick)(rng, w)
            if p is None or not w.allowed(*p) or not size_ok(w):
                continue
            drop = step(w, log, h, *p)
            ok = drop is not None
            prog.append(list(p) + [drop])
        if ok and w.sets:
            # last of all a mesh of some of the sets
            for _ in range(30 if names else 10):
                tools = rng.sample(sorted(w.sets), rng.randint(1, min(8 if names else 4, len(w.sets))))
                if not names and rng.random() < 0.25:
                    p = ("keep", [], 0, tools)
                else:
                    p = ("mesh", [int(rng.random() < 0.7), 3 if rng.random() < 0.8 else 2], 0, tools)
                if w.allowed(*p):
                    drop = step(w, log, h, *p)
                    ok = drop is not None
                    prog.append(list(p) + [drop])
                    break
        if ok and (short or rng.random() < conf.get("again", 0.5)):
            again(w, log, h, prog)
    log.close()


guarded(main)
