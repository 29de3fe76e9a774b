"""
Intersections of spline surfaces. usage: isecdrv.py OUT CONFIG
CONFIG: {"mode": "random"|"replay", "seed", "first", "histories", "cases"}
"""
import json
import random
import sys
from fractions import Fraction as F
import numpy as np
import common
from common import Log, limit, Hang, exc_name, silence, guarded, stop
from bgem.bspline import bspline as bs, isec_surf_surf as iss, isec_curve_surf as ics, surface_point as sp

NOSURF = {"p": [0, 0, 0], "a": [1, 0, 0], "b": [0, 1, 0], "nu": 1, "nv": 1}
BASE = {"s1": NOSURF, "s2": NOSURF, "q": [0, 0, 0], "d": [0, 0, 1], "nt": 1, "z": [], "level": 0, "groups": [], "edges": [], "res": []}
common.FAILREC.update(BASE)
TOL = 1e-9


def rat(x):
    try:
        x = float(x)
        f = F(x).limit_denominator(1000000)
    except (TypeError, ValueError, OverflowError):
        return [0, 0]
    return [f.numerator, f.denominator] if abs(f - F(x)) < 1e-9 and abs(f) < 1e6 else [0, 0]


def rats(v):
    return [rat(x) for x in v]


def plane(s, bend=None):
    ub, vb = (bs.SplineBasis.make_equidistant(2, s[k]) for k in ("nu", "nv"))
    p, a, b = (np.array(s[k], dtype=float) for k in "pab")
    poles = np.array([[p + u * a + v * b for v in vb.make_linear_poles()] for u in ub.make_linear_poles()])
    if bend is not None:
        poles = poles + bend(poles.shape)
    return bs.Surface((ub, vb), poles)


def do_cross(s1, s2, rec):
    f1, f2 = plane(s1), plane(s2)
    isec = iss.IsecSurfSurf(f1, f2, abs_tol=TOL)
    res = []
    points = isec.get_intersections(f1, f2)
    for x in points:
        a, b = x.surface_point
        if a.surf is not f1 or b.surf is not f2:
            raise ValueError("points of other surfaces")
        res.append({"uv1": rats(a.uv), "uv2": rats(b.uv), "xyz": rats(x.xyz), "patches1": sorted(int(i) for i in a.patch_id()),
                    "patches2": sorted(int(i) for i in b.patch_id()), "edge": bool(a.surface_boundary_flag)})
    rec["groups"], rec["edges"] = [], []
    for k in (0, 1) if points else ():
        groups, edges = isec.make_patch_point_list(points, k)
        rec["groups"].append([sorted(int(i) + 1 for i in g) for g in groups])
        rec["edges"].append(sorted(int(i) + 1 for i in edges))
    return res


def do_points(s, uvs):
    f = plane(s)
    res = []
    for iu, iv, u, v in uvs:
        x = sp.SurfacePoint(f, np.array([iu, iv]), np.array([u / 16, v / 16]))
        res.append({"iu": iu, "iv": iv, "uv": [u, v], "patches1": sorted(int(i) for i in x.patch_id()),
                    "sides": [int(i) for i in x.interface_flag], "edges": [int(i) for i in x.boundary_flag], "edge": int(x.surface_boundary_flag)})
    return res


def do_curve(s, q, d, nt):
    f = plane(s)
    basis = bs.SplineBasis.make_equidistant(2, nt)
    c = bs.Curve(basis, np.array([np.array(q) + t * np.array(d, dtype=float) for t in basis.make_linear_poles()]))
    isec = ics.IsecCurveSurf(f, c)
    res = []
    for iu in range(s["nu"]):
        for iv in range(s["nv"]):
            for it in range(nt):
                uvt, conv, xyz = isec.get_intersection(iu, iv, it, 10, 1e-16, TOL)
                res.append({"iu": iu, "iv": iv, "it": it, "conv": bool(conv), "uvt": rats(uvt), "xyz": rats(xyz)})
    return res


def do_bent(s1, s2, seed):
    rng = np.random.RandomState(seed)
    f1 = plane(s1, lambda sh: rng.randint(-8, 9, sh) / 16)
    f2 = plane(s2, lambda sh: rng.randint(-8, 9, sh) / 16)
    res = []
    for x in iss.IsecSurfSurf(f1, f2, abs_tol=TOL).get_intersections(f1, f2):
        a, b = x.surface_point
        far = [float(np.linalg.norm(f.eval(*p.uv) - x.xyz)) for f, p in ((f1, a), (f2, b))]
        r = [int(min(10 ** 6, np.ceil(v * 1e9))) if v == v else 10 ** 6 for v in far]
        res.append({"r1": r[0], "r2": r[1], "inside": bool(all(0 <= u <= 1 for p in (a, b) for u in p.uv))})
    return res


def do_hill(s, z, level, s2):
    f1, f2 = plane(s), plane(s2)
    poles = np.array(f1.poles)
    poles[:, :, 2] = np.array(z)
    f1 = bs.Surface((f1.u_basis, f1.v_basis), poles)
    res = []
    for x in iss.IsecSurfSurf(f1, f2, abs_tol=TOL).get_intersections(f1, f2):
        a, b = x.surface_point
        far = [float(np.linalg.norm(f.eval(*p.uv) - x.xyz)) for f, p in ((f1, a), (f2, b))]
        r = [int(min(10 ** 6, np.ceil(v * 1e9))) if v == v else 10 ** 6 for v in far]
        res.append({"u": int(round(float(a.uv[0]) * 1e8)), "v": int(round(float(a.uv[1]) * 1e8)), "r1": r[0], "r2": r[1],
                    "patches1": sorted(int(i) for i in a.patch_id())})
    return res


def hill(rng):
    """Heights strictly monotone along both axes, a level between them and a flat sheet at the level."""
    nu, nv = rng.choice([1, 2, 4]), rng.choice([1, 2, 4])
    su, sv = rng.choice([-1, 1]), rng.choice([-1, 1])
    x, y = [0], [0]
    for w, n in ((x, nu), (y, nv)):
        while len(w) < n + 2:
            w.append(w[-1] + 4 * rng.randint(1, 5))
    # steps of at least 4, a disturbance of at most 3
    z = [[su * i + sv * j + rng.choice([0, 0, rng.randint(0, 3)]) for j in y] for i in x]
    lo, hi = min(map(min, z)), max(map(max, z))
    level = rng.choice([rng.randint(4 * lo, 4 * hi), 4 * rng.randint(lo, hi)])
    s = {"p": [0, 0, 0], "a": [4, 0, 0], "b": [0, 4, 0], "nu": nu, "nv": nv}
    return s, z, level


def emit(log, h, op, rec, fn, *args):
    r = dict(BASE, h=h, op=op, args=[], exc="")
    r.update(rec)
    try:
        with limit(30):
            if fn is do_cross:
                args = args[:2] + (r,)
            r["res"] = fn(*args)
    except (Exception, Hang) as e:
        r["exc"] = exc_name(e)
    log.put(r)


def vec(rng, top):
    return [rng.randint(-top, top) for _ in range(3)]


def sheet(rng, top=4):
    while True:
        a, b = [4 * x if rng.random() < 0.4 else x for x in vec(rng, 3)], vec(rng, 4)
        if np.any(np.cross(a, b)):
            break
    mid = [rng.randint(0, 3) for _ in range(3)]
    p = [m - (x + y) // 2 for m, x, y in zip(mid, a, b)]
    return {"p": p, "a": a, "b": b, "nu": rng.choice([1, 2, 2, 4]), "nv": rng.choice([1, 2, 4, 4])}


def random_case(log, h, rng):
    s1, s2 = sheet(rng), sheet(rng)
    kind = rng.choice(["cross", "cross", "curve", "hill", "bent", "points"])
    if kind == "cross":
        emit(log, h, kind, {"s1": s1, "s2": s2}, do_cross, s1, s2)
    elif kind == "curve":
        d, nt = vec(rng, 6), rng.choice([1, 2, 4])
        at = [x + (rng.randint(0, 2) * y + rng.randint(0, 2) * z) // 2 for x, y, z in zip(*(s2[k] for k in "pab"))]
        q = [x - y // 2 for x, y in zip(at, d)] if rng.random() < 0.7 else vec(rng, 4)
        emit(log, h, kind, {"s2": s2, "q": q, "d": d, "nt": nt}, do_curve, s2, q, d, nt)
    elif kind == "points":
        uvs = []
        for _ in range(12):
            iu, iv = rng.randrange(s1["nu"]), rng.randrange(s1["nv"])
            (u, v) = (16 // s1[n] * i + rng.choice([0, 16 // s1[n], rng.randint(0, 16 // s1[n])]) for n, i in (("nu", iu), ("nv", iv)))
            uvs.append([iu, iv, u, v])
        emit(log, h, kind, {"s1": s1}, do_points, s1, uvs)
    elif kind == "hill":
        s, z, level = hill(rng)
        n, m = rng.choice([1, 2, 4]), rng.choice([1, 3, 4])
        a, b = rng.choice([([8, 0, 0], [0, 8, 0]), ([0, 8, 0], [8, 0, 0]), ([16, 0, 0], [3, 16, 0])])
        flat = {"p": [-4 if a[0] == 16 else -2, -4 if a[0] == 16 else -2, level / 4], "a": a, "b": b, "nu": n, "nv": m}
        emit(log, h, kind, {"s1": s, "z": z, "level": level}, do_hill, s, z, level, flat)
    else:
        emit(log, h, kind, {"s1": s1, "s2": s2}, do_bent, s1, s2, rng.randrange(10 ** 6))


def main():
    out, conf = sys.argv[1:3]
    conf = json.load(open(conf))
    silence()
    log = Log(out)
    h = conf.get("first", 0)
    if conf["mode"] == "replay":
        for i, (s1, s2) in enumerate(conf["cases"]):
            emit(log, h + i, "cross", {"s1": s1, "s2": s2}, do_cross, s1, s2)
            emit(log, h + i, "cross", {"s1": s2, "s2": s1}, do_cross, s2, s1)
            if stop():
                break
    else:
        for i in range(conf["histories"]):
            random_case(log, h + i, random.Random("%d/%d" % (conf["seed"], h + i)))
            if stop():
                break
    log.close()


if __name__ == "__main__":
    guarded(main)
