"""
Drives bgem.polygons.PolygonDecomposition through operation histories and records, after every
public call, the call, its result and the full projected state (one JSON line per call).

usage: polydrv.py OUT.ndjson CONFIG.json
CONFIG: {"seed":..,"mode":"random"|"replay","histories":n,"profile":..,"programs":[...]}
All ids are logged 1-based (0 = none).
"""
import json
import random
import sys
import common
from common import limit, Log, Hang, exc_name

import numpy as np
from bgem.polygons import polygons as pgm
from bgem.polygons.decomp import PolygonChange
from bgem import undo

SCALE = 1


def ival(v):
    return int(round(float(v) * SCALE))


def oid(o):
    return 0 if o is None else o.id + 1


def project(pd):
    """Total projection: anything unexpected becomes an exception caught by the caller."""
    off = 0

    def table(idmap):
        n = max(idmap.keys(), default=-1) + 1
        t = [[] for _ in range(n)]
        return t

    pts = table(pd.points)
    for pid, p in pd.points.items():
        x, y = float(p.xy[0]) * SCALE, float(p.xy[1]) * SCALE
        if abs(x - round(x)) > 1e-5 or abs(y - round(y)) > 1e-5:
            off = 1
        inc = [[s.id + 1, int(v)] for s, v in p.segments()] if not p.is_free() else []
        pts[pid] = [int(round(x)), int(round(y)), oid(p.poly), attr_of(p), inc, 1 if p.id == pid else 0]
    segs = table(pd.segments)
    for sid, s in pd.segments.items():
        vec = [ival(v) for v in s.vector]
        row = [s.vtxs[0].id + 1, s.vtxs[1].id + 1]
        for side in (0, 1):
            n = s.next[side]
            row += [0, 0] if n is None else [oid(n[0]), int(n[1])]
        row += [oid(s.wire[0]), oid(s.wire[1]), attr_of(s), vec, 1 if s.id == sid else 0,
                1 if (pd.points.get(s.vtxs[0].id) is s.vtxs[0] and pd.points.get(s.vtxs[1].id) is s.vtxs[1]) else 0]
        segs[sid] = row
    wires = table(pd.decomp.wires)
    for wid, w in pd.decomp.wires.items():
        root = w.parent is None
        wires[wid] = [0 if root else w.parent.id + 1, oid(w.polygon),
                      oid(w.segment[0]), int(w.segment[1] or 0), sorted(c.id + 1 for c in w.childs)]
    polys = table(pd.polygons)
    for gid, g in pd.polygons.items():
        with limit(5):
            depth = g.depth()
            vs = [v.id + 1 for v in g.vertices()]
        try:
            with limit(5):
                ch = sorted(i + 1 for i in pd.get_childs(gid))
        except (Exception, Hang) as e:
            ch = [-1]
        polys[gid] = [oid(g.outer_wire), sorted(p.id + 1 for p in g.free_points), depth, vs, ch, attr_of(g)]
    return {"pts": pts, "segs": segs, "wires": wires, "polys": polys,
            "outer": pd.outer_polygon.id + 1, "off": off}


def attr_of(o):
    a = o.attr
    return 0 if a is None else int(a)


CH = {PolygonChange.none: "none", PolygonChange.shape: "shape", PolygonChange.add: "add",
      PolygonChange.remove: "remove", PolygonChange.split: "split", PolygonChange.join: "join"}


def change(pd):
    t, a, b = pd.get_last_polygon_changes()
    if t == PolygonChange.shape:
        return [CH[t], sorted(i + 1 for i in a), 0]
    return [CH[t], [] if a is None else [a + 1], 0 if b is None else b + 1]


EMPTY = {"pts": [], "segs": [], "wires": [], "polys": [], "outer": 0, "off": 0}


class Session:
    def __init__(self, log, hist, tol2=None, use_undo=False, grouped=False):
        self.log = log
        self.h = hist
        self.dead = False
        undo.stack().clear()
        if use_undo:
            pgm.enable_undo()
        else:
            pgm.disable_undo()
        self.use_undo = use_undo
        self.pd = pgm.PolygonDecomposition()
        self.tol2 = tol2 or 0
        self.cnt = 0
        self.marks = []
        self.grouped = grouped
        if tol2:
            self.pd.set_tolerance(tol2 / 2.0)
        if BIG[0]:
            self.pd.set_tolerance(1e-5)       # below the distance of a lattice point from a long segment
        self.emit("reset", [self.tol2], [], "")

    def emit(self, op, args, res, exc, extra=None):
        rec = {"h": self.h, "op": op, "args": args, "res": res, "exc": exc, "st": EMPTY,
               "chg": ["none", [], 0], "tol2": self.tol2, "from": self.cnt,
               "cnt": [undo.stack().undocount()]}
        self.cnt = rec["cnt"][0]
        if self.cnt not in self.marks:
            self.marks.append(self.cnt)
        if not exc:
            try:
                with limit(10):
                    rec["st"] = project(self.pd)
                    rec["chg"] = change(self.pd)
            except (Exception, Hang) as e:
                rec["exc"] = "project:" + exc_name(e)
                rec["st"] = EMPTY
        self.log.put(rec)
        if rec["exc"]:
            self.dead = True
        else:
            self.st = rec["st"]

    def call(self, op, args, fn, conv):
        """conv: result -> list of ints"""
        if self.dead:
            return None
        r = None
        old = self.cnt
        try:
            with limit(10):
                if self.grouped and op not in ("undo", "redo"):
                    with undo.group(op):
                        r = fn()
                else:
                    r = fn()
                res = conv(r)
            exc = ""
        except (Exception, Hang) as e:
            res, exc = [], exc_name(e)
        if op not in ("undo", "redo") and not undo.stack().canredo():
            self.marks = [m for m in self.marks if m <= old]
        self.emit(op, args, res, exc)
        return r

    # ------------------------------------------------ operations (ids are 1-based)
    def add_point(self, x, y):
        return self.call("add_point", [x, y], lambda: self.pd.add_point([x / SCALE, y / SCALE]), lambda p: [p.id + 1])

    def new_segment(self, a, b):
        return self.call("new_segment", [a, b],
                         lambda: self.pd.new_segment(self.pd.points[a - 1], self.pd.points[b - 1]),
                         lambda s: [s.id + 1])

    def delete_segment(self, s):
        return self.call("delete_segment", [s], lambda: self.pd.delete_segment(self.pd.segments[s - 1]), lambda r: [])

    def delete_point(self, p):
        return self.call("delete_point", [p], lambda: self.pd.delete_point(self.pd.points[p - 1]), lambda r: [])

    def add_line(self, x0, y0, x1, y1):
        def conv(r):
            if isinstance(r, list):
                return [s.id + 1 for s in r]
            return [-(r.id + 1)]
        return self.call("add_line", [x0, y0, x1, y1],
                         lambda: self.pd.add_line([x0 / SCALE, y0 / SCALE], [x1 / SCALE, y1 / SCALE]), conv)

    def set_attr(self, kind, i, a):
        m = [self.pd.points, self.pd.segments, self.pd.polygons][kind]
        return self.call("set_attr", [kind, i, a], lambda: self.pd.set_attr(m[i - 1], a if a else None), lambda r: [])

    def split_join(self, s0, s1, p):
        """Join two collinear-or-not segments at a degree two point, then drop the freed point."""
        def f():
            pd = self.pd
            mid = pd._join_segments(pd.points[p - 1], pd.segments[s0 - 1], pd.segments[s1 - 1])
            pd._rm_point(pd.points[p - 1])
        return self.call("join", [s0, s1, p], f, lambda r: [])

    def check_disp(self, ids, dx, dy):
        return self.call("check", [ids, dx, dy],
                         lambda: self.pd.check_displacment([self.pd.points[i - 1] for i in ids],
                                                           np.array([dx / SCALE, dy / SCALE])),
                         lambda r: [1 if r else 0])

    def move(self, ids, dx, dy):
        return self.call("move", [ids, dx, dy],
                         lambda: self.pd.move_points([self.pd.points[i - 1] for i in ids],
                                                     np.array([dx / SCALE, dy / SCALE])),
                         lambda r: [])

    def set_tol(self, tol2):
        self.tol2 = tol2
        return self.call("set_tol", [tol2], lambda: self.pd.set_tolerance(tol2 / 2.0), lambda r: [])

    # undo / redo move by whole API calls: self.marks holds the undo counts at call boundaries
    def undo(self):
        k = max([0] + [m for m in self.marks if m < self.cnt])
        n = self.cnt - k
        return self.call("undo", [n], lambda: [undo.stack().undo() for _ in range(n)], lambda r: [])

    def redo(self):
        k = min([m for m in self.marks if m > self.cnt], default=None)
        if k is None:
            return False
        n = k - self.cnt
        return self.call("redo", [n], lambda: [undo.stack().redo() for _ in range(n)], lambda r: [])

    # ------------------------------------------------ queries on the last projected state
    def P(self):
        return {i + 1: (r[0], r[1]) for i, r in enumerate(self.st["pts"]) if r}

    def S(self):
        return {i + 1: (r[0], r[1]) for i, r in enumerate(self.st["segs"]) if r}

    def npoly(self):
        return [i + 1 for i, r in enumerate(self.st["polys"]) if r]


# ---------------------------------------------------------------- exact helpers for generation
def cross(u, v):
    return u[0] * v[1] - u[1] * v[0]


def sub(p, q):
    return (p[0] - q[0], p[1] - q[1])


def sgn(a):
    return (a > 0) - (a < 0)


def onseg(q, a, b):
    return cross(sub(b, a), sub(q, a)) == 0 and min(a[0], b[0]) <= q[0] <= max(a[0], b[0]) \
        and min(a[1], b[1]) <= q[1] <= max(a[1], b[1])


def meets(a, b, c, d):
    """segments ab, cd share a point that is not a common end point"""
    o1, o2 = sgn(cross(sub(b, a), sub(c, a))), sgn(cross(sub(b, a), sub(d, a)))
    o3, o4 = sgn(cross(sub(d, c), sub(a, c))), sgn(cross(sub(d, c), sub(b, c)))
    if o1 * o2 < 0 and o3 * o4 < 0:
        return True
    for q, (p1, p2) in ((c, (a, b)), (d, (a, b)), (a, (c, d)), (b, (c, d))):
        if q != p1 and q != p2 and onseg(q, p1, p2):
            return True
    return False


def seg_ok(P, S, a, b):
    """new segment a-b (point ids) is free of conflicts"""
    pa, pb = P[a], P[b]
    for q, xy in P.items():
        if q not in (a, b) and onseg(xy, pa, pb):
            return False
    for (c, d) in S.values():
        if {a, b} == {c, d}:
            continue
        if meets(pa, pb, P[c], P[d]):
            return False
    return True


def d2_seg(q, a, b):
    """4*dist^2 to the segment as a fraction (num, den)"""
    ab, aq = sub(b, a), sub(q, a)
    dd = ab[0] ** 2 + ab[1] ** 2
    t = ab[0] * aq[0] + ab[1] * aq[1]
    if t <= 0:
        return (4 * (aq[0] ** 2 + aq[1] ** 2), 1)
    if t >= dd:
        bq = sub(q, b)
        return (4 * (bq[0] ** 2 + bq[1] ** 2), 1)
    c = cross(ab, aq)
    return (4 * c * c, dd)


# ---------------------------------------------------------------- snapping scenarios
def snap_history(se, rng, nops):
    """sparse H/V/diagonal drawing, then points dropped near its parts; odd tol2 never ties"""
    se.set_tol(1)
    for _ in range(rng.randrange(2, 6)):
        for _ in range(10):
            x = (10 * rng.randrange(0, 6), 10 * rng.randrange(0, 6))
            d = rng.choice(DIRS)
            k = 10 * rng.randrange(1, 5) * rng.choice((1, -1))
            y = (x[0] + d[0] * k, x[1] + d[1] * k)
            if 0 <= y[0] <= 60 and 0 <= y[1] <= 60 and crossings_integral(se.P(), se.S(), x, y):
                se.add_line(*x, *y)
                if rng.random() < 0.3:
                    # a parallel segment beside it, for points that are close to both
                    v, k2 = rng.randrange(2, 12) * rng.choice((1, -1)), rng.randrange(-3, 4)
                    o = (k2 * d[0] - v * d[1], k2 * d[1] + v * d[0])
                    a, b = [(c[0] + o[0], c[1] + o[1]) for c in (x, y)]
                    if all(-20 <= c <= 80 for c in a + b) and not se.dead and crossings_integral(se.P(), se.S(), a, b):
                        se.add_line(*a, *b)
                break
        if se.dead:
            return
    for _ in range(rng.randrange(0, 4)):
        xy = (10 * rng.randrange(0, 7) + 2 * rng.randrange(-1, 2), 10 * rng.randrange(0, 7))
        if clear_point(se, xy):
            se.add_point(*xy)
        if se.dead:
            return
    for _ in range(nops):
        if se.dead:
            return
        if rng.random() < 0.2:
            se.set_tol(rng.choice((1, 3, 5, 7, 9, 13)))
            continue
        P, S = se.P(), se.S()
        t2 = se.tol2 ** 2
        for _ in range(30):
            u = rng.random()
            if u < 0.4 and P:
                c = P[rng.choice(sorted(P))]
            elif u < 0.8 and S:
                a, b = S[rng.choice(sorted(S))]
                w = rng.random()
                c = (P[a][0] + w * (P[b][0] - P[a][0]), P[a][1] + w * (P[b][1] - P[a][1]))
            else:
                c = (rng.randrange(-10, 70), rng.randrange(-10, 70))
            q = (int(c[0]) + rng.randrange(-8, 9), int(c[1]) + rng.randrange(-8, 9))
            if (q[0] + q[1]) % 2:
                continue
            if any(4 * ((q[0] - p[0]) ** 2 + (q[1] - p[1]) ** 2) < t2 for p in P.values()):
                break
            near = []
            for a, b in S.values():
                n, den = d2_seg(q, P[a], P[b])
                if n < t2 * den:
                    near.append((P[b][0] - P[a][0], P[b][1] - P[a][1]))
            if all(v[0] * near[0][1] == v[1] * near[0][0] for v in near):
                break
        else:
            continue
        se.add_point(*q)
        if not se.dead and len(se.S()) > 16:
            op_delete_segment(se, rng)


def wedge_history(se, rng):
    """two arms of a thin wedge crossed by a line: crossings closer than the tolerance are merged"""
    k = 2 * rng.randrange(5, 12)
    j, m = rng.randrange(1, 4), rng.randrange(1, 4)
    tol2 = rng.choice((1, 3, 5, 7, 9))
    ox, oy = 2 * rng.randrange(0, 10), 2 * rng.randrange(0, 10)
    sw, fx, fy = rng.random() < 0.5, rng.choice((1, -1)), rng.choice((1, -1))

    def T(x, y):
        x, y = fx * x, fy * y
        if sw:
            x, y = y, x
        return x + ox, y + oy
    se.set_tol(tol2)
    arms = [(T(0, 0), T(2 * k, 2 * j)), (T(0, 0), T(2 * k, -2 * m))]
    for a, b in arms:
        if se.dead:
            return
        if rng.random() < 0.5:
            a, b = b, a
        se.add_line(*a, *b)
    if se.dead:
        return
    h = 30 + 2 * rng.randrange(0, 5)
    a, b = T(k, -h), T(k, h)
    if rng.random() < 0.5:
        a, b = b, a
    se.add_line(*a, *b)


# ---------------------------------------------------------------- random histories
BIG = [False]      # drawings of long and short segments: clusters of points far apart


def r_coord(rng, n=12):
    if BIG[0]:
        return tuple(2 * (rng.choice((0, 0, 500, 1000)) + rng.randrange(0, 5)) for _ in "xy")
    return 2 * rng.randrange(0, n + 1), 2 * rng.randrange(0, n + 1)


def clear_point(se, xy):
    """not on an existing point or segment"""
    P, S = se.P(), se.S()
    return all(q != xy for q in P.values()) and not any(onseg(xy, P[a], P[b]) for a, b in S.values())


def op_add_point(se, rng, on=0.15):
    P, S = se.P(), se.S()
    u = rng.random()
    if u < on and S:
        # a lattice point on an existing segment (a split), if there is one
        a, b = S[rng.choice(sorted(S))]
        cand = [q for q in lattice_on(P[a], P[b])]
        if cand:
            se.add_point(*rng.choice(cand))
            return
    if u > 0.95 and P:
        se.add_point(*P[rng.choice(sorted(P))])
        return
    for _ in range(20):
        xy = r_coord(rng)
        if clear_point(se, xy):
            se.add_point(*xy)
            return


def lattice_on(a, b):
    dx, dy = b[0] - a[0], b[1] - a[1]
    from math import gcd
    g = gcd(abs(dx), abs(dy))
    sx, sy = dx // g, dy // g
    out = []
    for k in range(1, g):
        q = (a[0] + k * sx, a[1] + k * sy)
        if q[0] % 2 == 0 and q[1] % 2 == 0:
            out.append(q)
    return out


def in_dirs(u):
    return u[0] == 0 or u[1] == 0 or abs(u[0]) == abs(u[1])


def op_new_dir_segment(se, rng):
    """only horizontal, vertical and diagonal segments: keeps every later crossing integral"""
    op_new_segment(se, rng, 60, in_dirs)


def op_new_segment(se, rng, tries=30, cond=None):
    P, S = se.P(), se.S()
    if len(P) < 2:
        return
    ids = sorted(P)
    for _ in range(tries):
        a, b = rng.sample(ids, 2)
        if cond is not None and not cond(sub(P[a], P[b])):
            continue
        if seg_ok(P, S, a, b):
            if any({a, b} == set(s) for s in S.values()) and rng.random() < 0.9:
                continue
            se.new_segment(a, b)
            return


def op_delete_segment(se, rng):
    S = se.S()
    if S:
        se.delete_segment(rng.choice(sorted(S)))


def op_delete_point(se, rng):
    P = se.P()
    if P:
        se.delete_point(rng.choice(sorted(P)))


DIRS = [(1, 0), (0, 1), (1, 1), (1, -1)]


def op_add_line(se, rng, n=12):
    for _ in range(20):
        x, y = r_coord(rng, n)
        P = se.P()
        if P and rng.random() < 0.4:
            x, y = P[rng.choice(sorted(P))]
        d = rng.choice(DIRS)
        k = 2 * rng.randrange(1, 10) * rng.choice((1, -1))
        if BIG[0]:
            k, n = k + rng.choice((0, 1000, 2000, -1000, -2000)), 1010
            if k == 0:
                continue
        x1, y1 = x + d[0] * k, y + d[1] * k
        if 0 <= x1 <= 2 * n and 0 <= y1 <= 2 * n:
            se.add_line(x, y, x1, y1)
            return


def op_square(se, rng, n=12):
    """closed square (maybe nested in / around others), by points + segments"""
    for _ in range(20):
        r = rng.randrange(1, 6)
        x, y = 2 * rng.randrange(0, n + 1 - r), 2 * rng.randrange(0, n + 1 - r)
        if BIG[0]:
            x, y = r_coord(rng)
            r = r if rng.random() < 0.5 else rng.randrange(495, 505)
        c = [(x, y), (x + 2 * r, y), (x + 2 * r, y + 2 * r), (x, y + 2 * r)]
        if rng.random() < 0.5:
            c = [(x + r, y), (x + 2 * r, y + r), (x + r, y + 2 * r), (x, y + r)]
            if r % 2:
                continue
        P, S = se.P(), se.S()
        Q = dict(P)
        idx = []
        for i, q in enumerate(c):
            found = [k for k, v in P.items() if v == q]
            if not found and not clear_point(se, q):
                break
            k = found[0] if found else 1000 + i
            Q[k] = q
            idx.append(k)
        else:
            ok = all(seg_ok(Q, S, idx[i], idx[(i + 1) % 4]) for i in range(4))
            if not ok:
                continue
            ids = []
            for i, q in enumerate(c):
                if idx[i] >= 1000:
                    p = se.add_point(*q)
                    if se.dead:
                        return
                    ids.append(p.id + 1)
                else:
                    ids.append(idx[i])
            order = list(range(4))
            rng.shuffle(order)
            for i in order:
                if se.dead:
                    return
                a, b = ids[i], ids[(i + 1) % 4]
                if rng.random() < 0.5:
                    a, b = b, a
                se.new_segment(a, b)
            return


def op_join(se, rng):
    S = se.S()
    deg = {}
    for k, (a, b) in S.items():
        deg.setdefault(a, []).append(k)
        deg.setdefault(b, []).append(k)
    P = se.P()
    cand = []
    for p, ss in deg.items():
        if len(ss) != 2:
            continue
        s0, s1 = ss
        e0 = [v for v in S[s0] if v != p][0]
        e1 = [v for v in S[s1] if v != p][0]
        if e0 == e1:
            continue
        if cross(sub(P[p], P[e0]), sub(P[e1], P[p])) != 0:
            continue
        cand.append((s0, s1, p))
    if cand:
        s0, s1, p = rng.choice(sorted(cand))
        if rng.random() < 0.5:
            s0, s1 = s1, s0
        se.split_join(s0, s1, p)


def op_attr(se, rng):
    st = se.st
    kind = rng.randrange(3)
    rows = [st["pts"], st["segs"], st["polys"]][kind]
    ids = [i + 1 for i, r in enumerate(rows) if r]
    if ids:
        se.set_attr(kind, rng.choice(ids), rng.randrange(0, 6))


def crossings_integral(P, S, x, y):
    """every proper crossing of line x-y with the drawing is a lattice point"""
    u = sub(y, x)
    for a, b in S.values():
        pa, v = P[a], sub(P[b], P[a])
        den = cross(u, v)
        if den == 0:
            continue
        t = cross(sub(pa, x), v)
        if (u[0] * t) % den or (u[1] * t) % den:
            tt = t / den
            ss = cross(sub(pa, x), u) / den
            if -0.01 <= tt <= 1.01 and -0.01 <= ss <= 1.01:
                return False
    return True


def op_any_line(se, rng, n=12):
    """a line of any direction between lattice points whose crossings stay on the lattice"""
    P, S = se.P(), se.S()
    for _ in range(40):
        x, y = r_coord(rng, n), r_coord(rng, n)
        if P and rng.random() < 0.4:
            x = P[rng.choice(sorted(P))]
        if x != y and crossings_integral(P, S, x, y):
            se.add_line(*x, *y)
            return


def comp_of(S, p):
    done, todo = set(), {p}
    while todo:
        done |= todo
        todo = {v for s in S.values() if set(s) & todo for v in s} - done
    return done


def pick_block(se, rng):
    P, S = se.P(), se.S()
    if not P:
        return None
    p = rng.choice(sorted(P))
    u = rng.random()
    if u < 0.4:
        ids = {p}
    elif u < 0.7:
        c = sorted(comp_of(S, p))
        ids = set(rng.sample(c, rng.randrange(1, len(c) + 1)))
    else:
        ids = comp_of(S, p)
    d = (2 * rng.randrange(-3, 4), 2 * rng.randrange(-3, 4))
    if d == (0, 0):
        d = (2, 0)
    return sorted(ids), d


def op_check(se, rng):
    b = pick_block(se, rng)
    if b:
        se.check_disp(b[0], *b[1])


def op_move(se, rng):
    for _ in range(6):
        b = pick_block(se, rng)
        if not b:
            return
        ids, d = b
        r = se.check_disp(ids, *d)
        if se.dead:
            return
        P, S = se.P(), se.S()
        Q = {p: (xy[0] + d[0], xy[1] + d[1]) if p in ids else xy for p, xy in P.items()}
        if len(set(Q.values())) < len(Q):
            continue
        ok = r is True and all(seg_ok(Q, {k: v for k, v in S.items() if k != s}, *S[s]) for s in S)
        if ok:
            se.move(ids, *d)
            return


PROFILES = {
    "move": [(14, op_add_point), (22, op_new_segment), (14, op_square), (25, op_move), (10, op_check), (10, op_any_line),
             (5, op_delete_segment)],
    "anyline": [(35, op_any_line), (8, op_add_point), (8, op_square), (8, op_delete_segment), (4, op_delete_point),
                (6, op_new_segment)],
    # weights: name -> [(weight, fn)]
    "topo": [(18, op_add_point), (40, op_new_segment), (20, op_delete_segment), (3, op_delete_point), (14, op_square),
             (3, op_join)],
    "lines": [(30, op_add_line), (10, op_add_point), (10, op_delete_segment), (3, op_delete_point), (8, op_new_dir_segment)],
    "utopo": [(18, op_add_point), (40, op_new_segment), (20, op_delete_segment), (5, op_delete_point), (14, op_square),
              (10, op_attr)],
    "uattr": [(15, op_add_point), (25, op_new_dir_segment), (12, op_delete_segment), (8, op_square), (25, op_attr),
              (12, op_add_line), (5, op_delete_point)],
    "attr": [(15, op_add_point), (25, op_new_dir_segment), (12, op_delete_segment), (8, op_square), (25, op_attr),
             (12, op_add_line), (3, op_join)],
}


def random_history(se, rng, profile, nops, maxp=16, maxs=24):
    ops = PROFILES[profile]
    tot = sum(w for w, f in ops)
    for _ in range(nops):
        if se.dead:
            return
        u = rng.random() * tot
        for w, f in ops:
            u -= w
            if u < 0:
                break
        P, S = se.P(), se.S()
        if len(P) > maxp or len(S) > maxs:
            f = rng.choice([op_delete_segment, op_delete_point])
        f(se, rng)


def undo_history(se, rng, profile, nops):
    """random edits interleaved with walks back and forth through the undo history"""
    for _ in range(nops):
        if se.dead:
            return
        u = rng.random()
        if u < 0.55:
            random_history(se, rng, profile, 1)
        elif u < 0.8:
            for _ in range(rng.randrange(1, 5)):
                if not se.dead and undo.stack().canundo():
                    se.undo()
        else:
            for _ in range(rng.randrange(1, 4)):
                if not se.dead and undo.stack().canredo():
                    se.redo()
    undo_walk(se)


def undo_walk(se):
    for _ in range(300):
        if se.dead or not undo.stack().canundo():
            break
        se.undo()
    for _ in range(300):
        if se.dead or not undo.stack().canredo() or se.redo() is False:
            break


def replay_program(se, pts, prog, rng):
    """a behaviour of the specification: segments are named by the indices of their end points"""
    order = list(range(len(pts)))
    rng.shuffle(order)
    pid = {}
    for i in order:
        p = se.add_point(*pts[i])
        if se.dead:
            return
        pid[i + 1] = p.id + 1
    sid = {}
    for op, (a, b) in prog:
        if se.dead:
            return
        if op == "new":
            u, v = (a, b) if rng.random() < 0.5 else (b, a)
            s = se.new_segment(pid[u], pid[v])
            if not se.dead:
                sid[a, b] = s.id + 1
        else:
            se.delete_segment(sid.pop((a, b)))


def main():
    out, conf = sys.argv[1:3]
    conf = json.load(open(conf))
    common.silence()
    log = Log(out)
    rng = random.Random(conf["seed"])
    h = conf.get("first", 0)
    if conf["mode"] == "replay":
        for i, prog in enumerate(conf["programs"]):
            replay_program(Session(log, h + i), conf["pts"], prog, random.Random("%d/%d" % (conf["seed"], h + i)))
            if common.stop():
                break
    if conf["mode"] == "random":
        for i in range(conf["histories"]):
            if common.stop():
                break
            prof = conf["profiles"][i % len(conf["profiles"])]
            hr = random.Random("%d/%d" % (conf["seed"], h + i))
            BIG[0] = prof.startswith("big:")
            if BIG[0]:
                prof = prof[4:]
            if prof == "snap":
                snap_history(Session(log, h + i), hr, conf["nops"])
            elif prof in ("wedge", "uwedge"):
                se = Session(log, h + i, use_undo=prof == "uwedge")
                wedge_history(se, hr)
                if prof == "uwedge":
                    undo_walk(se)
            elif prof.startswith("undo:"):
                se = Session(log, h + i, use_undo=True, grouped=i % 3 == 1)
                undo_history(se, hr, prof[5:], conf["nops"])
            else:
                se = Session(log, h + i)
                random_history(se, hr, prof, conf["nops"], conf.get("maxp", 16), conf.get("maxs", 24))
    log.close()


if __name__ == "__main__":
    common.guarded(main)
