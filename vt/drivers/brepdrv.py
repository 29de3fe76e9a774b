"""
Models of brep_writer and the files written of them. usage: brepdrv.py OUT CONFIG
CONFIG: {"mode": "random"|"replay", "seed", "first", "histories", "programs"}
A program is a list of {"op", "args", "geo"}, as recorded in the trace.
"""
import io
import json
import os
import random
import signal
import sys
import tempfile
from fractions import Fraction as F
import common
from common import Log, limit, Hang, exc_name, silence, guarded, stop

BASE = {"res": 0, "geo": {}, "file": {}, "occ": {"n": []}}
common.FAILREC.update(BASE)


def rat(x):
    try:
        x = float(x)
        f = F(x).limit_denominator(2000)
    except (TypeError, ValueError, OverflowError):
        return [0, 0]
    return [f.numerator, f.denominator] if abs(f - F(x)) < 1e-9 and abs(f) < 1e5 else [0, 0]


def fl(r):
    return r[0] / r[1]


class Bad(Exception):
    pass


class Reader:
    """the BREP text format of OCC, version 1, of the records the writer may use"""
    def __init__(self, text):
        self.t = text.split()
        self.k = 0

    def word(self, w=None):
        if self.k >= len(self.t):
            raise Bad("end of file")
        x = self.t[self.k]
        self.k += 1
        if w is not None and x != w:
            raise Bad("%s instead of %s" % (x, w))
        return x

    def int(self):
        try:
            return int(self.word())
        except ValueError:
            raise Bad("integer")

    def num(self):
        try:
            return rat(float(self.word()))
        except ValueError:
            raise Bad("number")

    def nums(self, n):
        return [self.num() for _ in range(n)]

    def knots(self, n):
        return [[self.num(), self.int()] for _ in range(n)]

    def flag(self):
        x = self.int()
        if x not in (0, 1):
            raise Bad("flag")
        return x

    def curve(self, dim):
        self.word("7")
        r = self.flag()
        self.word("0")
        deg, np, nk = self.int(), self.int(), self.int()
        return {"deg": deg, "poles": [self.nums(dim + r) for _ in range(np)], "knots": self.knots(nk), "rat": bool(r)}

    def surface(self):
        self.word("9")
        r, q = self.flag(), self.flag()
        if r != q:
            raise Bad("rational")
        self.word("0")
        self.word("0")
        du, dv, nu, nv, ku, kv = [self.int() for _ in range(6)]
        return {"poles": [[self.nums(3 + r) for _ in range(nv)] for _ in range(nu)], "ku": self.knots(ku), "kv": self.knots(kv),
                "du": du, "dv": dv, "rat": bool(r)}

    def location(self):
        w = self.word()
        if w == "1":
            return {"t": 1, "m": self.nums(12), "pw": []}
        if w != "2":
            raise Bad("location")
        res = []
        while True:
            l = self.int()
            if l == 0:
                return {"t": 2, "m": [], "pw": res}
            res.append([l, self.int()])

    def ref(self, w):
        if w[:1] not in ("+", "-", "i", "e") or not w[1:].isdigit():
            raise Bad("reference")
        return {"o": int(w[1:]), "or": w[0], "loc": self.int()}

    def shape(self):
        k = self.word()
        r = {"k": k, "flags": "", "refs": [], "p": [], "reps": [], "surf": 0, "sloc": 0}
        if k == "Ve":
            self.num()
            r["p"] = self.nums(3)
            self.word("0")
            self.word("0")
        elif k == "Ed":
            self.num()
            for _ in range(3):
                self.flag()
            while True:
                t = self.int()
                if t == 0:
                    break
                if t == 1:
                    c, s = self.int(), 0
                elif t == 2:
                    c, s = self.int(), self.int()
                else:
                    raise Bad("representation")
                loc = self.int()
                r["reps"].append({"t": t, "c": c, "s": s, "a": self.num(), "b": self.num(), "loc": loc})
        elif k == "Fa":
            self.flag()
            self.num()
            r["surf"], r["sloc"] = self.int(), self.int()
        elif k not in ("Wi", "Sh", "So", "Cs", "Co"):
            raise Bad("kind " + k)
        r["flags"] = self.word()
        if len(r["flags"]) != 7 or set(r["flags"]) - {"0", "1"}:
            raise Bad("flags")
        while True:
            w = self.word()
            if w == "*":
                return r
            r["refs"].append(self.ref(w))

    def section(self, name, one):
        self.word(name)
        return [one() for _ in range(self.int())]

    def empty(self, name):
        self.word(name)
        self.word("0")

    def file(self):
        for w in "DBRep_DrawableShape CASCADE Topology V1, (c) Matra-Datavision".split():
            self.word(w)
        r = {"ok": True}
        r["locs"] = self.section("Locations", self.location)
        r["c2"] = self.section("Curve2ds", lambda: self.curve(2))
        r["c3"] = self.section("Curves", lambda: self.curve(3))
        self.empty("Polygon3D")
        self.empty("PolygonOnTriangulations")
        r["surfs"] = self.section("Surfaces", self.surface)
        self.empty("Triangulations")
        r["shapes"] = self.section("TShapes", self.shape)
        r["root"] = self.ref(self.word())
        if self.k != len(self.t):
            raise Bad("more text")
        return r


def read(text):
    try:
        return Reader(text).file()
    except Bad:
        return {"ok": False}


class Model:
    def __init__(self, np, bw, bs, gmsh, work):
        self.np, self.bw, self.bs, self.gmsh, self.work = np, bw, bs, gmsh, work
        self.obj, self.loc, self.c3, self.c2, self.surf = [], [bw.Location()], [], [], []
        self.cache = {}
        self.kinds = {"Ed": bw.Edge, "Wi": bw.Wire, "Fa": bw.Face, "Sh": bw.Shell, "So": bw.Solid, "Cs": bw.CompoundSolid, "Co": bw.Compound}

    def ref(self, r):
        o, orient, loc = r
        s = self.obj[o - 1]
        key = tuple(r)
        if key in self.cache and self.share:
            return self.cache[key]
        if loc == 0 and orient == "+" and o % 3 == 0:
            return s
        if loc == 0:
            x = {"+": s.p, "-": s.m, "i": s.i, "e": s.e}[orient]()
        else:
            x = self.bw.ShapeRef(s, self.bw.Orient("+-ie".index(orient) + 1), self.loc[loc])
        self.cache[key] = x
        return x

    def knots(self, kn):
        return [(fl(k), m) for k, m in kn]

    def unpacked(self, kn):
        return [fl(k) for k, m in kn for _ in range(m)]

    def do(self, rec):
        op, args, geo, bw, np = rec["op"], rec["args"], rec["geo"], self.bw, self.np
        if op == "Ve":
            p = args[0]
            self.obj.append(bw.Vertex(tuple(p) if len(p) % 2 else np.array(p, dtype=float)))
        elif op in self.kinds:
            refs = [self.ref(r) for r in args[0]]
            before = [(r.shape, r.orientation, r.location) for r in refs if isinstance(r, bw.ShapeRef)]
            if op == "Fa":
                one = refs[0] if len(refs) == 1 and args[0][0][0] % 2 else refs
                s = self.surf[args[1] - 1] if args[1] else None
                x = bw.Face(one, surface=s) if s is not None else bw.Face(one)
                if type(self.obj[args[0][0][0] - 1]) == bw.Edge:
                    self.obj.append(x.subshapes()[0])
            else:
                x = self.kinds[op](refs)
            self.obj.append(x)
            if op == "Wi":
                rec["res"] = int(bool(x.is_closed()))
            if before != [(r.shape, r.orientation, r.location) for r in refs if isinstance(r, bw.ShapeRef)]:
                rec["res"] = -1
        elif op == "append":
            x = self.obj[args[0] - 1]
            x.append(self.ref(args[1]))
            if type(x) == bw.Wire:
                rec["res"] = int(bool(x.is_closed()))
        elif op == "free":
            self.obj[args[0] - 1].set_free_shapes()
        elif op == "loc":
            self.loc.append(bw.Location(args[0]))
        elif op == "cloc":
            self.loc.append(bw.ComposedLocation([(self.loc[l], p) for l, p in args[0]]))
        elif op in ("c3", "c2"):
            P = [[fl(x) for x in p] for p in geo["poles"]]
            if args[0]:
                b = self.bs.SplineBasis(geo["deg"], np.array(self.unpacked(geo["knots"])))
                c = bw.curve_from_bs(self.bs.Curve(b, np.array(P), rational=geo["rat"]))
            else:
                c = (bw.Curve3D if op == "c3" else bw.Curve2D)(P, self.knots(geo["knots"]), geo["rat"], geo["deg"])
            (self.c3 if op == "c3" else self.c2).append(c)
        elif op == "surf":
            P = [[[fl(x) for x in p] for p in row] for row in geo["poles"]]
            if args[0]:
                bas = [self.bs.SplineBasis(geo["d" + d], np.array(self.unpacked(geo["k" + d]))) for d in "uv"]
                s = bw.surface_from_bs(self.bs.Surface(tuple(bas), np.array(P), rational=geo["rat"]))
            else:
                s = bw.Surface(P, (self.knots(geo["ku"]), self.knots(geo["kv"])), geo["rat"], (geo["du"], geo["dv"]))
            self.surf.append(s)
        elif op == "attach":
            t, e, c, s, a, b = args
            if t == 3:
                self.obj[e - 1].attach_to_3d_curve((fl(a), fl(b)), self.c3[c - 1])
            else:
                self.obj[e - 1].attach_to_2d_curve((fl(a), fl(b)), self.c2[c - 1], self.surf[s - 1])
        elif op == "plane":
            pts = [tuple(p) for p in args[0]]
            given = list(pts)
            f = {2: bw.Approx.line_3d, 3: bw.Approx.plane, 4: bw.Approx.bilinear}[len(pts)] if len(pts[0]) == 3 else bw.Approx.line_2d
            res = f(given)
            rec["res"] = int(given == pts)
            if len(pts) > 2:
                s, uv = res
                rec["file"] = {"uv": [[rat(x) for x in p] for p in uv]}
                rec["geo"] = {"poles": [[[rat(x) for x in p] for p in row] for row in s.poles], "ku": [[rat(k), m] for k, m in s.knots[0]],
                              "kv": [[rat(k), m] for k, m in s.knots[1]], "du": s.degree[0], "dv": s.degree[1], "rat": bool(s.rational)}
            else:
                rec["file"] = {"uv": []}
                rec["geo"] = {"poles": [[rat(x) for x in p] for p in res.poles], "knots": [[rat(k), m] for k, m in res.knots],
                              "deg": res.degree, "rat": bool(res.rational)}
        elif op == "print":
            x = repr(self.obj[args[0] - 1])
            assert isinstance(x, str)
        elif op == "write":
            f = io.StringIO()
            bw.write_model(f, self.obj[args[0] - 1], self.loc[args[1]])
            rec["file"] = read(f.getvalue())
            if len(args) > 2 and args[2]:
                rec["occ"] = self.occ(f.getvalue())

    def occ(self, text):
        """in a process of its own: a broken file may crash the kernel"""
        nothing = {"n": [0, 0, 0, 0], "box": [[0] * 3] * 2, "vol": 0}
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.alarm(0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(20)
            try:
                os.write(w, json.dumps(self.load(text)).encode())
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r, "rb") as f:
            x = f.read()
        os.waitpid(pid, 0)
        return json.loads(x) if x else nothing

    def load(self, text):
        g = self.gmsh
        path = os.path.join(self.work, "m.brep")
        with open(path, "w") as f:
            f.write(text)
        g.initialize(interruptible=False)
        try:
            g.option.setNumber("General.Terminal", 0)
            g.option.setNumber("Geometry.OCCBoundsUseStl", 0)
            try:
                g.model.occ.importShapes(path, highestDimOnly=False)
                g.model.occ.synchronize()
            except Exception:
                return {"n": [0, 0, 0, 0], "box": [[0] * 3] * 2, "vol": 0}
            ent = [g.model.getEntities(d) for d in range(4)]
            P = [g.model.getValue(0, t, []) for _, t in ent[0]]
            box = [[int(round(f(p[d] for p in P) * 1000)) for d in range(3)] for f in (min, max)] if P else [[0] * 3] * 2
            vol = sum(abs(g.model.occ.getMass(3, t)) for _, t in ent[3])
            return {"n": [len(x) for x in ent], "box": box, "vol": int(round(min(vol, 1e5) * 1000))}
        finally:
            g.finalize()
            os.remove(path)


# ---------------------------------------------------------------- programs
class Gen:
    def __init__(self, rng):
        self.rng = rng
        self.ops = []
        self.n = self.nl = 0
        self.pts, self.ed = {}, {}
        self.kind = {}
        self.plain = True

    def put(self, op, args, **geo):
        self.ops.append({"op": op, "args": args, "geo": geo})

    def shape(self, k, refs, surf=0):
        if k == "Fa" and self.kind[refs[0][0]] == "Ed":
            self.n += 1
            self.kind[self.n] = "Wi"
        self.put(k, [refs, surf])
        self.n += 1
        self.kind[self.n] = k
        return self.n

    def vertex(self, p):
        p = tuple(p)
        if p not in self.pts:
            self.put("Ve", [list(p)])
            self.n += 1
            self.kind[self.n] = "Ve"
            self.pts[p] = self.n
        return self.pts[p]

    def edge(self, p, q):
        """reference to the edge from p to q"""
        a, b = self.vertex(p), self.vertex(q)
        key = (min(a, b), max(a, b))
        if key not in self.ed:
            if self.rng.random() < 0.5:
                a, b = b, a
            o = self.rng.choice(["+", "+", "-"])
            self.ed[key] = (self.shape("Ed", [[a, o, 0], [b, self.rng.choice(["+", "-"]), 0]]), a)
        e, first = self.ed[key]
        return [e, "+" if first == self.vertex(p) else "-", 0]

    def loop(self, pts):
        k = self.rng.randrange(len(pts))
        pts = pts[k:] + pts[:k]
        return [self.edge(pts[i], pts[(i + 1) % len(pts)]) for i in range(len(pts))]

    def face(self, pts, explicit=False):
        """reference to the face seen counter clockwise from outside"""
        key = ("F", frozenset(tuple(p) for p in pts))
        if key in self.ed:
            return [self.ed[key][0], "-" if self.ed[key][1] == "+" else "+", 0]
        o = "+" if self.rng.random() < 0.5 else "-"
        q = pts if o == "+" else pts[::-1]
        refs = self.loop(q)
        surf = self.explicit(q, refs) if explicit else 0
        if self.rng.random() < 0.5:
            f = self.shape("Fa", refs, surf)
        elif self.rng.random() < 0.3:
            w = self.shape("Wi", refs[:-1])
            self.put("append", [w, refs[-1]])
            f = self.shape("Fa", [[w, "+", 0]], surf)
        else:
            f = self.shape("Fa", [[self.shape("Wi", refs), "+", 0]], surf)
        self.ed[key] = (f, o)
        return [f, o, 0]

    def line(self, p, q, bs, ends=(0, 1)):
        """curve through p at ends[0] and q at ends[1] over a wider or the same interval"""
        deg = self.rng.choice([1, 2, 3])
        a, b = self.rng.choice([(0, 1), (0, 2), (-1, 1)])
        poles = [[[F(p[d]) + (F(q[d]) - F(p[d])) * F(k, deg) for d in range(len(p))] for k in range(deg + 1)]][0]
        rt = self.rng.random() < 0.3
        poles = [[[x.numerator, x.denominator] for x in P] + ([[2, 1]] if rt else []) for P in poles]
        self.put("c%d" % len(p), [bs], deg=deg, poles=poles, knots=[[[a, 1], deg + 1], [[b, 1], deg + 1]], rat=rt)
        return a, b

    def explicit(self, q, refs):
        """surface of the parallelogram and curves of its edges"""
        self.plain = False
        bs = self.rng.randint(0, 1)
        e = [self.vertex(p) for p in q]
        c = [q[0], q[1], q[3] if len(q) == 4 else q[2]]
        P = [[c[0], c[2]], [c[1], [c[1][d] + c[2][d] - c[0][d] for d in range(3)]]]
        self.nsurf = getattr(self, "nsurf", 0) + 1
        self.put("surf", [bs], poles=[[[[x, 1] for x in p] for p in r] for r in P], ku=[[[0, 1], 2], [[2, 1], 2]], kv=[[[0, 1], 2], [[1, 1], 2]],
                 du=1, dv=1, rat=False)
        uv = [[0, 0], [2, 0], [2, 1], [0, 1]] if len(q) == 4 else [[0, 0], [2, 0], [0, 1]]
        at = {self.vertex(p): u for p, u in zip(q, uv)}
        pt = {self.vertex(p): p for p in q}
        for x in refs:
            key = [k for k, v in self.ed.items() if k[0] != "F" and v[0] == x[0]][0]
            first = self.ed[key][1]
            last = key[0] + key[1] - first
            bsc = self.rng.randint(0, 1)
            if self.rng.random() < 0.7:
                a, b = self.line(pt[first], pt[last], bsc)
                self.nc3 = getattr(self, "nc3", 0) + 1
                if bsc and self.rng.random() < 0.2:
                    self.put("attach", [3, x[0], self.nc3, 0, [b, 1], [a, 1]])
                self.put("attach", [3, x[0], self.nc3, 0, [a, 1], [b, 1]])
            a, b = self.line(at[first], at[last], bsc)
            self.nc2 = getattr(self, "nc2", 0) + 1
            if bs and bsc and self.rng.random() < 0.2:
                self.put("attach", [2, x[0], self.nc2, self.nsurf, [b, 1], [a, 1]])
            self.put("attach", [2, x[0], self.nc2, self.nsurf, [a, 1], [b, 1]])
        return self.nsurf

    def solid(self, faces, explicit=False):
        refs = [self.face(f, explicit and self.rng.random() < 0.4) for f in faces]
        self.rng.shuffle(refs)
        return self.shape("So", [[self.shape("Sh", refs), "+", 0]])

    def location(self):
        self.nl += 1
        return self.nl


def box(o, u, v, w):
    P = lambda a, b, c: [o[d] + a * u[d] + b * v[d] + c * w[d] for d in range(3)]
    return [[P(0, 0, 0), P(0, 1, 0), P(1, 1, 0), P(1, 0, 0)], [P(0, 0, 1), P(1, 0, 1), P(1, 1, 1), P(0, 1, 1)],
            [P(0, 0, 0), P(1, 0, 0), P(1, 0, 1), P(0, 0, 1)], [P(0, 1, 0), P(0, 1, 1), P(1, 1, 1), P(1, 1, 0)],
            [P(0, 0, 0), P(0, 0, 1), P(0, 1, 1), P(0, 1, 0)], [P(1, 0, 0), P(1, 1, 0), P(1, 1, 1), P(1, 0, 1)]]


def prism(o, u, v, w):
    P = lambda a, b, c: [o[d] + a * u[d] + b * v[d] + c * w[d] for d in range(3)]
    return [[P(0, 0, 0), P(0, 1, 0), P(1, 0, 0)], [P(0, 0, 1), P(1, 0, 1), P(0, 1, 1)], [P(0, 0, 0), P(1, 0, 0), P(1, 0, 1), P(0, 0, 1)],
            [P(0, 0, 0), P(0, 0, 1), P(0, 1, 1), P(0, 1, 0)], [P(1, 0, 0), P(0, 1, 0), P(0, 1, 1), P(1, 0, 1)]]


def tetra(o, u, v, w):
    P = lambda a, b, c: [o[d] + a * u[d] + b * v[d] + c * w[d] for d in range(3)]
    a, b, c, d = P(0, 0, 0), P(1, 0, 0), P(0, 1, 0), P(0, 0, 1)
    return [[a, c, b], [a, b, d], [a, d, c], [b, c, d]]


def pyramid(o, u, v, w):
    P = lambda a, b, c: [o[d] + a * u[d] + b * v[d] + c * w[d] for d in range(3)]
    a, b, c, d, e = P(0, 0, 0), P(1, 0, 0), P(1, 1, 0), P(0, 1, 0), P(0, 0, 1)
    return [[a, d, c, b], [a, b, e], [b, c, e], [c, d, e], [d, a, e]]


BASES = [([2, 0, 0], [0, 2, 0], [0, 0, 2]), ([1, 0, 0], [0, 3, 0], [0, 0, 2]), ([2, 1, 0], [0, 2, 0], [1, 0, 3]), ([0, 2, 0], [0, 0, 1], [3, 0, 0]),
         ([2, 0, 1], [-1, 2, 0], [0, 1, 2])]
ROT = [[[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[0, -1, 0], [1, 0, 0], [0, 0, 1]], [[0, 0, 1], [1, 0, 0], [0, 1, 0]], [[-1, 0, 0], [0, -1, 0], [0, 0, 1]]]


def some_program(rng):
    g = Gen(rng)
    o = [rng.randint(-4, 4) for _ in range(3)]
    u, v, w = rng.choice(BASES)
    explicit = rng.random() < 0.3
    solids = []
    body = rng.choice([box, prism, tetra, pyramid])
    solids.append(g.solid(body(o, u, v, w), explicit))
    if rng.random() < 0.5:
        # a second body on a side of the first, or away from it
        r = rng.random()
        neg = [-x for x in w]
        if r < 0.3:
            solids.append(g.solid(body([a + 9 for a in o], u, v, w), explicit))
        elif body is box:
            k = rng.randrange(3)
            e = [u, v, w]
            solids.append(g.solid(box([a + b for a, b in zip(o, e[k])], u, v, w), explicit))
        elif body is prism:
            # the other half of the box
            top = [a + b + c for a, b, c in zip(o, u, v)]
            solids.append(g.solid(prism(top, [-x for x in u], [-x for x in v], w), explicit))
        else:
            # mirrored below the common base
            solids.append(g.solid([f[::-1] for f in body(o, u, v, neg)], explicit))
    locs = [0]
    rigid = {0}
    for _ in range(rng.choice([0, 1, 2, 3])):
        if rng.random() < 0.15:
            g.put("loc", [rng.choice([[[1, 0, 0, 0], [0, 1, 0, 0]], [[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, "a"]],
                                      [[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1]], [1, 2, 3]]), 1])
        m = [row + [rng.randint(-3, 3)] for row in rng.choice(ROT)]
        if rng.random() < 0.2:
            m[0][0] += 1
            bad = True
        else:
            bad = False
        g.put("loc", [m, 0])
        locs.append(g.location())
        if not bad:
            rigid.add(locs[-1])
    for j in range(0 if len(locs) < 2 else rng.choice([0, 1, 1, 2])):
        pw = [[l, rng.choice([1, 1, 2, 3])] for l in rng.sample(locs[1:], min(len(locs) - 1, rng.randint(1, 3)))]
        if rng.random() < 0.25:
            pw.insert(rng.randint(0, len(pw)), [0, rng.choice([1, 2])])
        g.put("cloc", [pw])
        locs.append(g.location())
        # OCC drops a location equal to one read before
        nz = [x for x in pw if x[0]]
        if all(l in rigid for l, _ in nz) and j == 0 and (len(nz) > 1 or nz[0][1] > 1):
            rigid.add(locs[-1])
    targets = list(solids)
    if rng.random() < 0.3:
        targets.append(g.shape("Cs", [[s, "+", 0] for s in solids]))
    comp = g.shape("Co", [[s, rng.choice(["+", "+", "-"]), 0] for s in solids])
    targets.append(comp)
    occ_ok = set(targets)
    for _ in range(rng.randint(2, 7)):
        r = rng.random()
        if r < 0.4:
            t = rng.choice(targets)
            l = rng.choice(locs + locs[-1:] * 2)
            g.put("write", [t, l, int(g.plain and t in occ_ok and l in rigid and rng.random() < 0.5)])
        elif r < 0.5:
            g.put("print", [rng.randint(1, g.n)])
        elif r < 0.6:
            t = rng.randint(1, g.n)
            g.put("write", [t, rng.choice(locs), 0])
        elif r < 0.68:
            parts = [[rng.randint(1, g.n), rng.choice("++-ie"), rng.choice(locs)] for _ in range(rng.randint(0, 3))]
            parts = [p for p in parts if g.kind[p[0]] != "Co"]
            targets.append(g.shape("Co", parts))
        elif r < 0.74:
            if rng.random() < 0.6:
                g.put("free", [comp])
            x = rng.randint(1, g.n)
            # the whole is written after the part
            targets.append(g.shape("Co", [[s, "+", rng.choice(locs)] for s in solids]))
        elif r < 0.8:
            # a child of a wrong kind
            k = rng.choice(["Ed", "Wi", "Fa", "Sh", "So", "Cs", "Co"])
            refs = [[rng.randint(1, g.n), "+", 0] for _ in range(2)]
            ok = {"Ed": {"Ve"}, "Wi": {"Ed"}, "Fa": {"Wi", "Ed"}, "Sh": {"Fa"}, "So": {"Sh"}, "Cs": {"So"}, "Co": set(g.kind.values()) - {"Co"}}[k]
            if any(g.kind[x[0]] not in ok for x in refs):
                g.put(k, [refs, 0])
        elif r < 0.86:
            # open wires and faces of them
            es = [k for k, x in g.kind.items() if x == "Ed"]
            rng.shuffle(es)
            refs = [[e, rng.choice("+-"), 0] for e in es[:rng.randint(1, 2)]]
            w = g.shape("Wi", refs)
            if len(set(r[0] for r in refs)) == len(refs) and len(refs) < 3:
                g.put("Fa", [refs if rng.random() < 0.5 else [[w, "+", 0]], 0])
            targets.append(w)
        elif r < 0.9:
            x = rng.choice(targets)
            if g.kind[x] == "Co":
                y = rng.randint(1, g.n)
                if g.kind[y] == "Co" or y < x:
                    g.put("append", [x, [y, rng.choice("+-ie"), rng.choice(locs)]])
        elif r < 0.95:
            dim = rng.choice([3, 3, 3, 2])
            n = rng.choice([2, 3, 4]) if dim == 3 else 2
            g.put("plane", [[[rng.randint(-3, 3) for _ in range(dim)] for _ in range(n)]])
        else:
            deg, np = rng.randint(1, 3), rng.randint(2, 5)
            dim = rng.choice([2, 3])
            n = deg + np + 1 + rng.choice([0, 0, 0, 1, -1])
            pd = dim + rng.choice([0, 0, 0, 1])
            kn = [[[0, 1], deg + 1], [[1, 2], max(n - 2 * deg - 2, 0)], [[1, 1], deg + 1]]
            kn = [k for k in kn if k[1] > 0]
            if sum(k[1] for k in kn) == n:
                ok = n == deg + np + 1 and pd == dim
                g.put("c%d" % dim, [0], deg=deg, poles=[[[rng.randint(-2, 2), 1] for _ in range(pd)] for _ in range(np)], knots=kn, rat=False)
                if ok:
                    setattr(g, "nc%d" % dim, getattr(g, "nc%d" % dim, 0) + 1)
    if rng.random() < 0.1:
        g.put("Ve", [rng.choice([[1, 2], [], [1, 2, 3, 4]])])
    if not any(x["op"] == "write" for x in g.ops[-3:]):
        g.put("write", [comp, rng.choice(locs), 0])
    return g.ops


def main():
    conf = json.load(open(sys.argv[2]))
    import numpy as np
    from bgem.bspline import bspline as bs, brep_writer as bw
    import gmsh
    silence()
    log = Log(sys.argv[1])
    work = tempfile.mkdtemp(prefix="brep", dir=os.path.dirname(os.path.abspath(sys.argv[1])))

    def run(h, prog):
        log.put(dict(BASE, h=h, op="new", args=[], exc=""))
        m = Model(np, bw, bs, gmsh, work)
        m.share = h % 2
        for x in prog:
            rec = dict(BASE, h=h, op=x["op"], args=x["args"], geo=x["geo"], exc="")
            n = len(m.obj)
            try:
                with limit(30):
                    m.do(rec)
            except (Exception, Hang) as e:
                rec["exc"] = exc_name(e) + ": " + str(e)[:80]
                m.obj = m.obj[:n]
            log.put(rec)

    if conf["mode"] == "replay":
        for k, prog in enumerate(conf["programs"]):
            if stop():
                break
            run(conf["first"] + k, [dict({"geo": {}}, **x) for x in prog])
    else:
        for k in range(conf["histories"]):
            if stop():
                break
            rng = random.Random(conf["seed"] * 1000003 + k)
            run(conf["first"] + k, some_program(rng))
    log.close()
    for f in os.listdir(work):
        os.remove(os.path.join(work, f))
    os.rmdir(work)


guarded(main)
