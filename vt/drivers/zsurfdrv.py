"""
Z surfaces and grid surfaces. usage: zsurfdrv.py OUT CONFIG
CONFIG: {"mode": "z"|"grid"|"replay", "seed", "first", "histories", "nops", "programs"}
Numbers are recorded as rationals [n, d]; <0, 0> is none. Surfaces are numbered from 1 in the order of their creation.
"""
import json
import os
import random
import sys
import tempfile
from fractions import Fraction as F
import common
from common import Log, limit, Hang, exc_name, silence, guarded, stop

LIMIT = 1000000
BASE = {"uvs": [], "obs": [], "res": []}
common.FAILREC.update(BASE)


def rat(x):
    try:
        x = float(x)
        f = F(x).limit_denominator(LIMIT)
    except (TypeError, ValueError, OverflowError):
        return [0, 0]
    return [f.numerator, f.denominator] if abs(f - F(x)) < 1e-8 and abs(f) < 1e6 else [0, 0]


def rats(v):
    return [rat(x) for x in v]


def flo(q):
    return q[0] / q[1]


class World:
    def __init__(self, np, bs, work):
        self.np, self.bs, self.work = np, bs, work

    def clear(self, uvs):
        self.objs = []
        self.uvs = uvs

    def z_of(self, o):
        return o if isinstance(o, self.bs.Z_Surface) else o.z_surface

    def observe(self, o, flip):
        np = self.np
        grid = isinstance(o, self.bs.GridSurface)
        uv = np.array([[flo(u), flo(v)] for u, v in self.uvs])
        arr, zar = o.eval_array(uv), o.z_eval_array(uv)
        xy = o.uv_to_xy(uv)
        par = grid or self.linear(o)
        back = o.xy_to_uv(xy) if par else []
        zxy = [self.near_edge(k, lambda p: o.z_eval_xy_array(p)[0], xy) for k in range(len(uv))] if par else []
        axy = [self.near_edge(k, lambda p: o.eval_xy_array(p)[0], xy) for k in range(len(uv))] if par and not grid else []
        m, z = ([], []) if grid else o.get_transform()
        pts = []
        for k in range(len(uv)):
            pts.append({"v": [] if grid else rats(o.eval(uv[k][0], uv[k][1])), "a": rats(arr[k]), "z": rat(zar[k]),
                        "xy": rats(xy[k]), "back": rats(back[k]) if par else [], "zxy": rat(zxy[k]) if par and zxy[k] is not None else [0, 0],
                        "axy": rats(axy[k]) if axy and axy[k] is not None else []})
        return {"m": [rats(r) for r in m], "z": rats(z), "quad": [rats(p) for p in o.quad], "box": [rats(p) for p in o.aabb()],
                "center": rats(o.center()), "pts": pts}

    def near_edge(self, k, fn, xy):
        """parameters found back at the edge of the domain may be outside by a rounding error"""
        try:
            return fn(xy[k:k + 1])
        except IndexError:
            if any(x in ([0, 1], [1, 1]) for x in self.uvs[k]):
                return None
            raise

    @staticmethod
    def linear(o):
        q = o.quad
        return abs(q[0] + q[2] - q[1] - q[3]).max() < 1e-9

    def do(self, rec, op):
        np, bs = self.np, self.bs
        name, args = op[0], op[1:]
        rec["op"], rec["args"] = name, args
        if name == "make":
            quad, (pu, pv), (nu, nv), P = args
            basis = bs.SplineBasis.make_equidistant(pu, nu), bs.SplineBasis.make_equidistant(pv, nv)
            poles = np.array(P, dtype=float)[:, :, None]
            self.objs.append(bs.Z_Surface(np.array(quad) if len(self.objs) % 2 else quad, bs.Surface(basis, poles)))
        elif name == "grid":
            pts, den, bump, way = args
            a = np.array(pts, dtype=float) / den
            if bump:
                k, d, big = bump
                side = max(abs(a[-1, :2] - a[0, :2]))
                a[k, d] += side * (0.01 if big else 1e-12)
                rec["args"] = [pts, den, 1 if big else 0, way]
            else:
                rec["args"] = [pts, den, 0, way]
            if way == 1 and den == 1 and not bump:
                a = np.array(pts)
            if way == 2:
                path = os.path.join(self.work, "grid.txt")
                np.savetxt(path, a, fmt="%.17g")
                g = bs.GridSurface.load(path)
            else:
                g = bs.GridSurface(a)
            rec["res"] = [int(x) for x in g.shape]
            if rec["args"][2] == 0:
                self.objs.append(g)
        elif name == "transform":
            i, xy, z = args
            xy = [[flo(x) for x in r] for r in xy] or None
            z = [flo(x) for x in z] or None
            if i % 2:
                xy, z = xy and np.array(xy), z and np.array(z)
            self.objs[i - 1].transform(xy, z)
        elif name == "apply":
            self.objs[args[0] - 1].apply_z_transform()
        elif name == "copy":
            self.objs.append(self.objs[args[0] - 1].get_copy())
        elif name == "full":
            s = self.z_of(self.objs[args[0] - 1]).make_full_surface()
            rec["res"] = [rats(s.eval(flo(u), flo(v))) for u, v in self.uvs]
        elif name == "function":
            (a, b), nu, nv = args
            g = bs.make_function_grid(lambda x: a * x[0] + b * x[0] * x[1], nu, nv)
            assert g.shape == (nu, nv, 3)
            rec["res"] = [rats(p) for p in g.reshape(-1, 3)]


def q(rng, a, b, den=2):
    f = F(rng.randint(a * den, b * den), den)
    return [f.numerator, f.denominator]


def some_mat(rng):
    r = rng.random()
    if r < 0.2:
        m = [[1, 0], [0, 1]]
    elif r < 0.5:
        m = rng.choice([[[0, -1], [1, 0]], [[2, 0], [0, 1]], [[-1, 0], [0, 1]], [[1, 1], [0, 1]], [[0, 1], [1, 0]]])
    else:
        while True:
            m = [[rng.randint(-2, 3) for _ in range(2)] for _ in range(2)]
            if m[0][0] * m[1][1] != m[0][1] * m[1][0]:
                break
    return [[[m[d][0], 1], [m[d][1], 1], q(rng, -4, 4) if rng.random() < 0.7 else [0, 1]] for d in range(2)]


def some_z(rng):
    return [q(rng, -2, 3) if rng.random() < 0.8 else [1, 1], q(rng, -5, 5) if rng.random() < 0.7 else [0, 1]]


def some_uvs(rng):
    pool = [F(0), F(1), F(1, 2), F(1, 4), F(3, 4), F(1, 3), F(2, 3)]
    return [[[u.numerator, u.denominator] for u in (rng.choice(pool), rng.choice(pool))] for _ in range(3)]


def some_quad(rng):
    while True:
        p = [[rng.randint(-6, 6) for _ in range(2)] for _ in range(3)]
        v, u = [p[0][d] - p[1][d] for d in (0, 1)], [p[2][d] - p[1][d] for d in (0, 1)]
        if u[0] * v[1] == u[1] * v[0]:
            continue
        r = rng.random()
        if r < 0.4:
            return p
        last = [p[0][d] + p[2][d] - p[1][d] for d in (0, 1)]
        if r > 0.7:
            last = [x + rng.randint(-2, 3) for x in last]
        return p + [last]


def some_make(rng):
    pu, pv = rng.choice([(1, 1), (2, 2), (2, 2), (1, 2), (2, 1)])
    nu, nv = rng.randint(1, 3), rng.randint(1, 2)
    return ["make", some_quad(rng), [pu, pv], [nu, nv], [[rng.randint(-4, 6) for _ in range(nv + pv)] for _ in range(nu + pu)]]


def some_grid(rng):
    while True:
        nu, nv = rng.randint(2, 5), rng.randint(2, 5)
        o, du, dv = [[rng.randint(-5, 5) for _ in range(2)] for _ in range(3)]
        if du[0] * dv[1] != du[1] * dv[0]:
            break
    pts = [[o[d] + i * du[d] + j * dv[d] for d in (0, 1)] + [rng.randint(-4, 8)] for i in range(nu) for j in range(nv)]
    bump, way = [], rng.choice([0, 0, 1, 2])
    r = rng.random()
    if r < 0.25:
        k = rng.randint(0, 6)
        if k == 0:
            pts.pop(rng.randrange(len(pts)))
        elif k == 1:
            i, j = rng.sample(range(len(pts)), 2)
            pts[i], pts[j] = pts[j], pts[i]
        elif k == 2:
            x = rng.choice(pts)
            x[rng.randint(0, 1)] += rng.choice([-1, 1, 2])
        elif k == 3:
            pts = pts[:nv]
        elif k == 4:
            pts.insert(rng.randrange(len(pts)), list(rng.choice(pts)))
        elif k == 5:
            pts = [p for n, p in enumerate(pts) if n // nv != 1] if nu > 3 else pts[:-1]
        else:
            bump = [rng.randrange(len(pts)), rng.randint(0, 1), 1]
    elif r < 0.35:
        bump = [rng.randrange(len(pts)), rng.randint(0, 1), 0]
    if len(pts) < 2:
        pts = pts * 2
    return ["grid", pts, rng.choice([1, 1, 2, 4]), bump, way]


def steps(rng, mode, nops, w):
    applies = 0
    for _ in range(nops):
        n = len(w.objs)
        if mode == "grid":
            r = rng.random()
            if n == 0 or (n < 2 and r < 0.3):
                yield some_grid(rng)
            elif r < 0.8:
                yield ["transform", rng.randint(1, n), some_mat(rng), some_z(rng)]
            elif r < 0.9:
                yield ["full", rng.randint(1, n)]
            elif r < 0.95:
                yield ["function", [rng.randint(-3, 3), rng.randint(-3, 3)], rng.randint(2, 5), rng.randint(2, 5)]
            else:
                yield some_grid(rng)
            continue
        r = rng.random()
        if n == 0 or (n < 4 and r < 0.12):
            yield some_make(rng)
            continue
        i = rng.randint(1, n)
        if r < 0.55:
            k = rng.random()
            yield ["transform", i, some_mat(rng) if k < 0.7 else [], some_z(rng) if k > 0.35 else []]
        elif r < 0.75 and n < 4:
            yield ["copy", i]
        elif r < 0.9 and applies < 2:
            applies += 1
            yield ["apply", i]
        else:
            yield ["full", i]


def main():
    conf = json.load(open(sys.argv[2]))
    import numpy as np
    from bgem.bspline import bspline as bs
    silence()
    log = Log(sys.argv[1])
    work = tempfile.mkdtemp(prefix="grid", dir=os.path.dirname(os.path.abspath(sys.argv[1])))

    def history(h, uvs, ops, w):
        w.clear(uvs)
        log.put(dict(BASE, h=h, op="new", args=[], exc=""))
        for op in ops:
            rec = dict(BASE, h=h, op="", args=[], exc="", uvs=uvs)
            dead = False
            try:
                with limit(20):
                    w.do(rec, op)
            except (Exception, Hang) as e:
                rec["exc"] = exc_name(e).split("@")[0] if op[0] == "grid" else exc_name(e)
                dead = op[0] != "grid"
            try:
                with limit(20):
                    rec["obs"] = [w.observe(o, h) for o in w.objs] if not dead else []
            except (Exception, Hang) as e:
                rec["exc"], dead = exc_name(e) + ": observation", True
            log.put(rec)
            if dead:
                return

    w = World(np, bs, work)
    if conf["mode"] == "replay":
        uvs = [[[0, 1], [1, 1]], [[1, 4], [1, 2]], [[1, 1], [3, 4]]]
        for k, ops in enumerate(conf["programs"]):
            if stop():
                break
            history(conf["first"] + k, uvs, ops, w)
    else:
        for k in range(conf["histories"]):
            if stop():
                break
            rng = random.Random(conf["seed"] * 1000003 + k)
            history(conf["first"] + k, some_uvs(rng), steps(rng, conf["mode"], conf["nops"], w), w)
    log.close()
    for f in os.listdir(work):
        os.remove(os.path.join(work, f))
    os.rmdir(work)


guarded(main)
