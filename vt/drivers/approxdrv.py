"""
Approximation of points by surfaces. usage: approxdrv.py OUT CONFIG
CONFIG: {"mode": "random"|"replay", "seed", "first", "histories", "cases"}
Positions are rationals [n, d] in the quad, values are in units of 1e-4.
"""
import json
import os
import random
import sys
import tempfile
from fractions import Fraction as F
import common
from common import Log, limit, Hang, exc_name, silence, guarded, stop

BASE = {"pts": [], "res": [], "kind": "", "quad": [], "nuv": [], "uv": [], "z": [], "w": [], "test": [], "coef": [], "runs": []}
common.FAILREC.update(BASE)


def rat(x):
    try:
        x = float(x)
        f = F(x).limit_denominator(100000)
    except (TypeError, ValueError, OverflowError):
        return [0, 0]
    return [f.numerator, f.denominator] if abs(f - F(x)) < 1e-8 and abs(f) < 1e5 else [0, 0]


def unit(x):
    return int(round(min(max(float(x), -1e5), 1e5) * 10000))


def some_points(rng):
    n = rng.randint(3, 12)
    r = rng.choice([2, 3, 6])
    while True:
        P = [[rng.randint(-r, r), rng.randint(-r, r)] for _ in range(n)]
        a = P[0]
        if any((p[0] - a[0]) * (q[1] - a[1]) != (p[1] - a[1]) * (q[0] - a[0]) for p in P for q in P):
            return P


class Approximate:
    def __init__(self, np, ba, bs, work):
        self.np, self.ba, self.bs, self.work = np, ba, bs, work

    def xyz(self, quad, uv, z, w):
        np = self.np
        q = np.array(quad, dtype=float)
        U = np.array([[a[0] / a[1], b[0] / b[1]] for a, b in uv])
        xy = q[1] + U[:, :1] * (q[2] - q[1]) + U[:, 1:] * (q[0] - q[1])
        cols = [xy, np.array(z, dtype=float)[:, None]] + ([np.array(w, dtype=float)[:, None]] if w else [])
        return np.concatenate(cols, axis=1)

    def run(self, data, quad, nuv, reg, test, own_quad, way, dpos):
        """data: rows xyz(w); quad given to the approximation unless own_quad"""
        np = self.np
        if way == "file":
            path = os.path.join(self.work, "points.txt")
            np.savetxt(path, data, fmt="%.17g")
            a = self.ba.SurfaceApprox.approx_from_file(path)
        else:
            a = self.ba.SurfaceApprox(data)
        kw = {}
        if not own_quad:
            kw["quad"] = np.array(quad, dtype=float)
        if nuv:
            kw["nuv"] = tuple(nuv)
        if reg is not None:
            kw["regularization_weight"] = reg
        if way == "attributes":
            for k, v in kw.items():
                setattr(a, k, v)
            kw = {}
        s = a.compute_approximation(**kw)
        return self.result(a, s, quad, test, dpos)

    def result(self, a, s, quad, test, dpos):
        return {"n": [int(s.u_basis.n_intervals), int(s.v_basis.n_intervals)], "quad": [[rat(x) for x in p] for p in s.quad],
                "err": unit(a.error) if dpos else -1, "val": self.values(s, quad, test), "data": self.values(s, quad, dpos) if dpos else []}

    def values(self, s, quad, pos):
        """Z at the positions of the quad; nothing for those outside"""
        np = self.np
        q = np.array(quad, dtype=float)
        res = []
        for a, b in pos:
            u, v = a[0] / a[1], b[0] / b[1]
            if not (0 <= u <= 1 and 0 <= v <= 1):
                res.append(0)
                continue
            xy = q[1] + u * (q[2] - q[1]) + v * (q[0] - q[1])
            uv = np.clip(s.xy_to_uv(xy[None, :]), 0, 1)
            res.append(unit(s.z_eval_array(uv)[0]))
        return res


def lattice(n, m, border):
    us = [F(k, n) for k in range(n + 1)] if border else [F(2 * k + 1, 2 * n) for k in range(n)]
    vs = [F(k, m) for k in range(m + 1)] if border else [F(2 * k + 1, 2 * m) for k in range(m)]
    return [[[u.numerator, u.denominator], [v.numerator, v.denominator]] for u in us for v in vs]


def some_quad(rng):
    m = rng.choice([[[4, 0], [0, 4]], [[8, 0], [0, 2]], [[2, 0], [2, 4]], [[0, 4], [-4, 0]], [[4, 4], [-4, 4]], [[2, 0], [-4, 8]]])
    o = [rng.randint(-4, 4) for _ in range(2)]
    u, v = m
    return [[o[d] + v[d] for d in (0, 1)], o, [o[d] + u[d] for d in (0, 1)], [o[d] + u[d] + v[d] for d in (0, 1)]]


def poly(c, u, v):
    u, v = F(*u), F(*v)
    return c[0] + c[1] * u + c[2] * v + c[3] * u * u + c[4] * u * v + c[5] * v * v


def do_approx(rec, ap, rng):
    np = ap.np
    kind = rng.choice(["const", "poly", "poly", "noise", "flat", "outside", "swap", "weights", "affine", "grid", "default"])
    quad = some_quad(rng)
    nuv = [rng.randint(1, 4), rng.randint(1, 4)]
    n, m = 3 * nuv[0] + rng.randint(1, 3), 3 * nuv[1] + rng.randint(1, 3)
    border = kind in ("const", "poly", "grid", "default")
    n, m = (8 if n <= 8 else 16, 8 if m <= 8 else 16) if border else (n, m)
    uv = lattice(n, m, border)
    if rng.random() < 0.5:
        rng.shuffle(uv)
    coef = [rng.randint(-4, 6) for _ in range(6)]
    if kind in ("const", "grid", "default"):
        coef = coef[:1] + [0] * 5
    z = [rng.randint(-5, 5) for _ in uv]
    w = [rng.randint(1, 3) for _ in uv] if kind == "weights" or (kind in ("const", "poly", "flat", "noise", "outside", "swap", "affine") and rng.random() < 0.4) else []
    test = [[[a, 8], [b, 8]] for a, b in [(1, 3), (4, 4), (7, 2), (3, 6), (rng.randint(0, 8), rng.randint(0, 8)), (8, rng.randint(0, 8)), (rng.randint(0, 8), 8)]]
    # the norm that scales the regularization is a rough estimate from a random start: compare runs with a weak one
    reg = None if rng.random() < 0.5 else 0.0
    way = rng.choice(["", "", "attributes", "file"])
    rec.update(op="approx", kind=kind, quad=quad if rng.random() < 2 else [], nuv=nuv, uv=uv, w=w, test=test, coef=coef)
    rec["quad"] = [[[x, 1] for x in p] for p in quad]
    rec["args"] = [nuv, way]
    if kind in ("const", "grid", "default"):
        z = [coef[0]] * len(uv)
    rec["z"] = z
    if kind == "poly":
        zz = [float(poly(coef, *p)) for p in uv]
        r = ap.run(ap.xyz(quad, uv, zz, w), quad, nuv, 0.0, test, False, way, [])
        rec["runs"] = [r]
    elif kind == "const":
        rec["runs"] = [ap.run(ap.xyz(quad, uv, z, w), quad, nuv, rng.choice([None, 0.1, 0.0]), test, False, way, uv)]
    elif kind == "default":
        # the bounding rectangle has the sides of the quad in an order of its own
        data = ap.xyz(quad, uv, z, w)
        if rng.random() < 0.5:
            rec["nuv"] = nuv = []
        else:
            rec["nuv"] = nuv = [2, 2]
        rec["quad"] = []
        rec["runs"] = [ap.run(data, quad, nuv, None, [], True, way, [])]
        a = ap.ba.SurfaceApprox(data)
        s = a.compute_approximation(nuv=(2, 2))
        rec["runs"][0]["val"] = [unit(x) for x in s.z_eval_array(np.array([[0, 0], [0.5, 0.25], [1, 1], [0.3, 1]]))]
        rec["test"] = [[[0, 1], [0, 1]]] * 4
    elif kind == "noise":
        rec["runs"] = [ap.run(ap.xyz(quad, uv, z, w), quad, nuv, reg, test, False, way, uv)]
    elif kind == "flat":
        rec["runs"] = [ap.run(ap.xyz(quad, uv, z, w), quad, nuv, 1e5, test, False, way, [])]
    elif kind == "outside":
        far = [[[rng.choice([-1, 5]), 4], [rng.randint(0, 4), 4]] for _ in range(5)] + [[[rng.randint(0, 4), 4], [rng.choice([-2, 6]), 4]] for _ in range(5)]
        zf = [rng.choice([-50, 70]) for _ in far]
        mix = list(zip(uv + far, z + zf, (w or [1] * len(uv)) + [rng.randint(1, 9) for _ in far]))
        rng.shuffle(mix)
        rec["runs"] = [ap.run(ap.xyz(quad, uv, z, w), quad, nuv, reg, test, False, "", [])]
        z = [x[1] for x in mix]
        uv = [x[0] for x in mix]
        w = [x[2] for x in mix] if w else []
        rec.update(uv=uv, z=z, w=w)
        rec["runs"].append(ap.run(ap.xyz(quad, uv, z, w), quad, nuv, reg, test, False, way, uv))
    elif kind == "swap":
        quad2 = [quad[2], quad[1], quad[0], quad[3]]
        data = ap.xyz(quad, uv, z, w)
        a = ap.run(data, quad, nuv, reg, test, False, way, uv)
        b = ap.run(data, quad2, nuv[::-1], reg, [[v, u] for u, v in test], False, "", [])
        b["n"], b["quad"] = b["n"][::-1], [b["quad"][k] for k in (2, 1, 0, 3)]
        rec["runs"] = [a, b]
    elif kind == "weights":
        data = ap.xyz(quad, uv, z, w)
        many = np.array([row[:3] for row, k in zip(data, w) for _ in range(k)])
        r = rng.choice([0.0, None])
        rec["runs"] = [ap.run(data, quad, nuv, r, test, False, way, uv), ap.run(many, quad, nuv, r, test, False, "", [])]
    elif kind == "affine":
        rec["runs"] = [ap.run(ap.xyz(quad, uv, z, w), quad, nuv, reg, test, False, way, uv),
                       ap.run(ap.xyz(quad, uv, [2 * x + 3 for x in z], w), quad, nuv, reg, test, False, "", [])]
    elif kind == "grid":
        gn, gm = nuv[0] + 3 + rng.randint(0, 3), nuv[1] + 3 + rng.randint(0, 3)
        uv = lattice(gn, gm, True)
        uv = sorted(uv, key=lambda p: (F(*p[0]), F(*p[1])))
        if rng.random() < 0.5:
            g = ap.bs.GridSurface(ap.xyz(quad, uv, [coef[0]] * len(uv), []))
            a = ap.ba.SurfaceApprox.approx_from_grid_surface(g)
            s = ap.ba.surface_from_grid(g, tuple(nuv))
            a.error = 0
            rec["kind"] = "const"
        else:
            coef = [rng.randint(-4, 6) for _ in range(6)]
            g = ap.bs.GridSurface(ap.xyz(quad, uv, [float(poly(coef, *p)) for p in uv], []))
            a = ap.ba.SurfaceApprox.approx_from_grid_surface(g)
            s = a.compute_approximation(nuv=tuple(nuv), regularization_weight=0.0)
            rec["kind"] = "poly"
        rec.update(coef=coef, uv=[], z=[], w=[])
        rec["runs"] = [ap.result(a, s, quad, test, [])]


def main():
    conf = json.load(open(sys.argv[2]))
    import numpy as np
    from bgem.bspline import bspline as bs, bspline_approx as ba
    silence()
    log = Log(sys.argv[1])
    work = tempfile.mkdtemp(prefix="approx", dir=os.path.dirname(os.path.abspath(sys.argv[1])))
    ap = Approximate(np, ba, bs, work)

    def run(h, fn):
        rec = dict(BASE, h=h, op="", args=[], exc="")
        try:
            with limit(30):
                fn(rec)
        except (Exception, Hang) as e:
            rec["exc"] = exc_name(e) + ": " + str(e)[:80]
            rec["op"] = rec["op"] or "call"
        log.put(rec)

    def hull(rec, P, flt):
        rec.update(op="hull", pts=P)
        H = ba.convex_hull_2d(np.array(P, dtype=float if flt else int))
        rec["res"] = [[int(x) for x in p] for p in H]

    def rect(rec, P, own):
        rec.update(op="rect", pts=P)
        if own:
            a = ba.SurfaceApprox(np.array([p + [0] for p in P], dtype=float))
            R = a.compute_default_quad()
            assert R is a.quad
        else:
            R = ba.min_bounding_rect(ba.convex_hull_2d(np.array(P, dtype=float)))
        rec["res"] = [[rat(x) for x in p] for p in R]

    if conf["mode"] == "replay":
        for k, P in enumerate(conf["cases"]):
            if stop():
                break
            run(conf["first"] + 2 * k, lambda rec: hull(rec, P, k % 2))
            run(conf["first"] + 2 * k + 1, lambda rec: rect(rec, P, k % 3 == 0))
    else:
        for k in range(conf["histories"]):
            if stop():
                break
            rng = random.Random(conf["seed"] * 1000003 + k)
            h = conf["first"] + k
            r = rng.random()
            if r < 0.15:
                run(h, lambda rec: hull(rec, some_points(rng), rng.randint(0, 1)))
            elif r < 0.3:
                run(h, lambda rec: rect(rec, some_points(rng), rng.randint(0, 1)))
            else:
                run(h, lambda rec: do_approx(rec, ap, rng))
    log.close()
    for f in os.listdir(work):
        os.remove(os.path.join(work, f))
    os.rmdir(work)


guarded(main)
