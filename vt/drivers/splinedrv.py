"""
Spline bases, curves and surfaces. usage: splinedrv.py OUT CONFIG
CONFIG: {"mode": "basis"|"curve"|"replay", "seed", "first", "histories", "cases"}
Numbers are recorded as rationals [n, d]; knots and points are given as such.
"""
import json
import random
import sys
from fractions import Fraction as F
import common
from common import Log, limit, Hang, exc_name, silence, guarded, stop

LIMIT = 1000000
BASE = {"deg": 0, "knots": [], "pts": [], "res": {}, "poles": [], "rat": False, "ku": [], "kv": [], "pu": 0, "pv": 0, "kind": "",
        "vtx": [], "over": [0, 1]}
common.FAILREC.update(BASE)


def rat(x):
    try:
        x = float(x)
        f = F(x).limit_denominator(LIMIT)
    except (TypeError, ValueError, OverflowError):
        return [0, 0]
    return [f.numerator, f.denominator] if abs(f - F(x)) < 1e-9 and abs(f) < 1e6 else [0, 0]


def rats(v):
    return [rat(x) for x in v]


def flo(q):
    return float(F(*q))


def knots_of(rng, deg, irregular):
    """end knots with full multiplicity, a few inner ones"""
    den = rng.choice([1, 1, 1, 2, 4]) if deg < 3 else 1
    a = rng.randint(-2, 1)
    gaps = [rng.randint(1, 2) for _ in range(rng.randint(1, 4 if deg < 3 else 3))]
    inner, x = [], a
    for g in gaps[:-1]:
        x += g
        inner += [x] * (rng.randint(1, max(deg, 1)) if irregular and rng.random() < 0.4 else 1)
    x += gaps[-1]
    ks = [a] * (deg + 1) + inner + [x] * (deg + 1)
    fs = [F(k, den) for k in ks]
    return [[f.numerator, f.denominator] for f in fs]


def points_of(rng, K, n, fine=4):
    a, b = F(*K[0]), F(*K[-1])
    ts = {F(*k) for k in K}
    for _ in range(n):
        ts.add(a + (b - a) * F(rng.randint(0, 8), 8) if fine == 4 and rng.random() < 0.5
               else a + F(rng.randint(0, int(fine * (b - a))), fine))
    ts |= {a - F(1, 2), b + F(1, 4)} if rng.random() < 0.3 else set()
    ts = sorted(t for t in ts)
    if len(ts) > n:
        ts = rng.sample(ts, n)
    return [[t.numerator, t.denominator] for t in ts]


def basis_points(b, pts):
    res = []
    for t in pts:
        x = {"t": t, "i": -1, "inside": bool(b.in_domain(flo(t))), "check": [0, 0], "vals": [], "vec": [], "vec2": [], "diffs": [],
             "dvec": [], "dvec2": []}
        try:
            f = b.check(flo(t))
            x["check"] = rat(f)
        except IndexError:
            res.append(x)
            continue
        x["i"] = i = int(b.find_knot_interval(f))
        x["vals"] = rats(b.eval(k, f) for k in range(b.size))
        x["vec"] = rats(b.eval_vector(i, f))
        if b.degree == 2:
            x["vec2"] = rats(b.eval_base_vector(i, f))
            x["dvec2"] = rats(b.eval_diff_base_vector(i, f))
        if b.degree > 0:
            x["diffs"] = rats(b.eval_diff(k, f) for k in range(b.size))
            x["dvec"] = rats(b.eval_diff_vector(i, f))
        res.append(x)
    return res


def do_basis(rec, bs, np, deg, K, pts, way):
    rec.update(op="basis", deg=deg, knots=K)
    fl = [flo(k) for k in K]
    if way == 0:
        b = bs.SplineBasis(deg, np.array(fl))
    elif way == 1:
        b = bs.SplineBasis(deg, fl)
    else:
        packed = []
        for k in fl:
            if packed and packed[-1][0] == k:
                packed[-1] = (k, packed[-1][1] + 1)
            else:
                packed.append((k, 1))
        b = bs.SplineBasis.make_from_packed_knots(deg, packed)
    pk = b.pack_knots()
    rec["res"] = {"size": int(b.size), "n": int(b.n_intervals), "domain": rats(b.domain),
                  "packed": [[rat(q), int(m)] for q, m in pk],
                  "repacked": rats(bs.SplineBasis.make_from_packed_knots(deg, pk).knots),
                  "linear": rats(b.make_linear_poles()) if deg > 0 else [],
                  "supp": [rats(b.fn_supp(i)) for i in range(b.size)],
                  "bounds": [rats(b.knot_interval_bounds(i)) for i in range(b.n_intervals)]}
    rec["pts"] = basis_points(b, pts)


def do_equi(rec, bs, deg, n, a, b, ints):
    rec.update(op="equidistant", deg=deg, args=[n, [a.numerator, a.denominator], [b.numerator, b.denominator]])
    if (a, b) == (0, 1) and ints == 0:
        s = bs.SplineBasis.make_equidistant(deg, n)
    elif ints and a.denominator == b.denominator == 1:
        s = bs.SplineBasis.make_equidistant(deg, n, [int(a), int(b)])
    else:
        s = bs.SplineBasis.make_equidistant(deg, n, [float(a), float(b)])
    rec["res"] = {"knots": rats(s.knots)}


def near_box(bih, v, eps=1e-7):
    return bih.AABB([[x - eps for x in v], [x + eps for x in v]])


def do_curve(rec, bs, np, bih, deg, K, P, rational, ts, raw):
    rec.update(op="curve", deg=deg, knots=K, poles=P, rat=rational)
    fl = [flo(k) for k in K]
    poles = [[float(x) for x in p] for p in P]
    if raw == 0:
        c = bs.Curve(bs.SplineBasis(deg, fl), poles, rational)
    elif raw == 1:
        c = bs.Curve.make_raw(np.array(poles), fl, rational, deg)
    else:
        c = bs.Curve(bs.SplineBasis(deg, fl), np.array(P, dtype=float), rational=rational)
    pts = []
    inside = [t for t in ts if F(*K[0]) <= F(*t) <= F(*K[-1])]
    arr = c.eval_array([flo(t) for t in inside]) if inside else []
    boxed = c.dim == 3
    for t in ts:
        x = {"t": t, "v": [], "a": [], "found": []}
        try:
            v = c.eval(flo(t))
            x["v"] = rats(v)
            if boxed:
                x["found"] = sorted(map(int, c.tree.find_box(near_box(bih, v))))
        except IndexError:
            pass
        if t in inside:
            x["a"] = rats(arr[inside.index(t)])
        pts.append(x)
    rec["res"] = {"box": [rats(v) for v in c.aabb()], "dim": int(c.dim), "pts": pts,
                  "boxes": [[rats(b.min()), rats(b.max())] for b in c.boxes] if boxed else []}


def do_surface(rec, bs, np, bih, pu, Ku, pv, Kv, P, rational, uvs, raw):
    rec.update(op="surface", pu=pu, pv=pv, ku=Ku, kv=Kv, poles=P, rat=rational)
    fu, fv = [flo(k) for k in Ku], [flo(k) for k in Kv]
    poles = [[[float(x) for x in p] for p in r] for r in P]
    if raw:
        s = bs.Surface.make_raw(np.array(poles), (fu, fv), rational, (pu, pv))
    else:
        s = bs.Surface((bs.SplineBasis(pu, fu), bs.SplineBasis(pv, fv)), poles, rational)
    cp = s.deep_copy()
    other = s.deep_copy()
    other.poles += 1
    if hasattr(other, "_poles"):
        other._poles += 1
    ins = [(u, v) for u, v in uvs if F(*Ku[0]) <= F(*u) <= F(*Ku[-1]) and F(*Kv[0]) <= F(*v) <= F(*Kv[-1])]
    arr = s.eval_array(np.array([[flo(u), flo(v)] for u, v in ins])) if ins else []
    boxed = s.dim == 3
    pts = []
    for u, v in uvs:
        x = {"u": u, "w": v, "v": [], "a": [], "c": [], "found": []}
        try:
            w = s.eval(flo(u), flo(v))
            x["v"] = rats(w)
            x["c"] = rats(cp.eval(flo(u), flo(v)))
            if boxed:
                x["found"] = sorted(map(int, s.tree.find_box(near_box(bih, w))))
        except IndexError:
            pass
        if (u, v) in ins:
            x["a"] = rats(arr[ins.index((u, v))])
        pts.append(x)
    ids = []
    for iu in range(s.u_basis.n_intervals):
        for iv in range(s.v_basis.n_intervals):
            k = s.patch_pos2id(iu, iv)
            ids.append([iu, iv, int(k), [int(z) for z in s.patch_id2pos(k)]])
    rec["res"] = {"box": [rats(v) for v in s.aabb()], "dim": int(s.dim), "pts": pts, "ids": ids,
                  "boxes": [[rats(b.min()), rats(b.max())] for b in s.boxes] if boxed else []}


def do_simple(rec, ba, rng):
    kind = rng.choice(["line", "plane", "bilinear"])
    over = F(0) if kind == "bilinear" or rng.random() < 0.4 else F(rng.choice([1, 2, 3]), 4)
    n = {"line": 2, "plane": 3, "bilinear": 4}[kind]
    dim = rng.choice([2, 3]) if kind == "line" else 3
    V = [[rng.randint(-3, 3) for _ in range(dim)] for _ in range(n)]
    ints = rng.random() < 0.5
    arg = V if ints else [tuple(map(float, v)) for v in V]
    rec.update(op="simple", kind=kind, vtx=V, over=[over.numerator, over.denominator])
    kw = {} if over == 0 and rng.random() < 0.5 else {"overhang": float(over)}
    s = {"line": ba.line, "plane": ba.plane_surface, "bilinear": ba.bilinear_surface}[kind](arg, **kw)
    lo, hi = -over, 1 + over
    pts = []
    for _ in range(6):
        u = rng.choice([lo, hi, F(0), F(1), lo + (hi - lo) * F(rng.randint(0, 8), 8)])
        v = rng.choice([lo, hi, F(0), F(1), lo + (hi - lo) * F(rng.randint(0, 8), 8)])
        val = s.eval(float(u)) if kind == "line" else s.eval(float(u), float(v))
        pts.append({"u": [u.numerator, u.denominator], "w": [v.numerator, v.denominator], "v": rats(val)})
    b = s.basis if kind == "line" else s.u_basis
    rec["res"] = {"domain": rats(b.domain), "pts": pts}


def do_fit(rec, ba, np, rng):
    n = rng.randint(6, 30)
    dim = rng.choice([2, 3])
    kind = rng.randint(0, 2)
    x = np.linspace(0, rng.randint(1, 4), n)
    f = [lambda t: t * t / 2, lambda t: np.sin(2 * t), lambda t: np.abs(t - 1)][kind]
    pts = np.stack([x + 0 * x, f(x)] + ([np.cos(x)] if dim == 3 else []), axis=1)
    tol = rng.choice([0.01, 0.1, 0.001])
    kw = {} if tol == 0.01 else {"tol": tol}
    deg = rng.choice([3, 3, 2, 4])
    if deg != 3:
        kw["degree"] = deg
    rec["args"] = [n, kind, deg]
    c = ba.curve_from_grid(pts, **kw)
    dense = c.eval_array(np.linspace(c.basis.domain[0], c.basis.domain[1], 3000))
    # the sum of squares of the distances is bounded by the tolerance
    d = sum(float(np.min(np.sum((dense - p) ** 2, axis=1))) for p in pts)
    ends = [c.eval(c.basis.domain[0]), c.eval(c.basis.domain[1])]
    ok = [float(np.max(np.abs(a - b))) < 1e-9 for a, b in zip(ends, (pts[0], pts[-1]))]
    rec.update(op="fit", vtx=[1, 1])
    rec["res"] = {"first": int(ok[0]), "last": int(ok[1]), "far": int(d > tol * 1.05 + 1e-3)}


def random_poles(rng, n, dim, rational):
    return [[rng.randint(-3, 4) for _ in range(dim)] + ([rng.randint(1, 3)] if rational else []) for _ in range(n)]


def main():
    conf = json.load(open(sys.argv[2]))
    import numpy as np
    import bih
    from bgem.bspline import bspline as bs, bspline_approx as ba
    silence()
    log = Log(sys.argv[1])

    def run(h, fn):
        rec = dict(BASE, h=h, op="", args=[], exc="")
        try:
            with limit(30):
                fn(rec)
        except (Exception, Hang) as e:
            rec["exc"] = exc_name(e) + ": " + str(e)[:80]
            rec["op"] = rec["op"] or "call"
        log.put(rec)

    if conf["mode"] == "replay":
        for k, c in enumerate(conf["cases"]):
            if stop():
                break
            h = conf["first"] + k
            deg, K, pts = c
            K = [[x, 1] for x in K]
            if conf["what"] == "basis":
                run(h, lambda rec: do_basis(rec, bs, np, deg, K, pts, k % 3))
            else:
                rng = random.Random(k)
                P = random_poles(rng, len(K) - deg - 1, 3, k % 2 == 1)
                run(h, lambda rec: do_curve(rec, bs, np, bih, deg, K, P, k % 2 == 1, pts, k % 3))
        log.close()
        return
    for k in range(conf["histories"]):
        if stop():
            break
        h = conf["first"] + k
        rng = random.Random(conf["seed"] * 1000003 + k)
        if conf["mode"] == "basis":
            deg = rng.randint(0, 4)
            if rng.random() < 0.25:
                a = F(rng.randint(-4, 4), rng.choice([1, 1, 2]))
                run(h, lambda rec: do_equi(rec, bs, deg, rng.randint(1, 7), a, a + F(rng.randint(1, 6), rng.choice([1, 1, 2])),
                                           rng.randint(0, 1)))
            elif rng.random() < 0.05:
                run(h, lambda rec: do_equi(rec, bs, deg, rng.randint(1, 7), F(0), F(1), 0))
            else:
                K = knots_of(rng, deg, rng.random() < 0.5)
                run(h, lambda rec: do_basis(rec, bs, np, deg, K, points_of(rng, K, 12, 2 if deg == 4 else 4), rng.randint(0, 2)))
            continue
        r = rng.random()
        if r < 0.3:
            deg = rng.randint(0, 3)
            K = knots_of(rng, deg, False)
            q = rng.random() < 0.4
            P = random_poles(rng, len(K) - deg - 1, rng.choice([1, 2, 3, 3, 3]), q)
            run(h, lambda rec: do_curve(rec, bs, np, bih, deg, K, P, q, points_of(rng, K, 8), rng.randint(0, 2)))
        elif r < 0.75:
            pu, pv = rng.choice([(2, 2), (2, 2), (1, 1), (1, 2), (2, 1), (3, 1), (2, 3), (3, 3)])
            K = []
            for p in (pu, pv):
                K.append([[0, 1]] * 4 + [[1, 1]] * 4 if p == 3 else knots_of(rng, p, False))
                while p < 3 and any(d > 2 for _, d in K[-1]):
                    K[-1] = knots_of(rng, p, False)
            q = rng.random() < 0.3
            dim = rng.choice([1, 3, 3, 3])
            P = [random_poles(rng, len(K[1]) - pv - 1, dim, q) for _ in range(len(K[0]) - pu - 1)]
            ts = [[t for t in points_of(rng, x, 6) if t[1] <= 4] or [x[0]] for x in K]
            uv = [(rng.choice(ts[0]), rng.choice(ts[1])) for _ in range(6)]
            run(h, lambda rec: do_surface(rec, bs, np, bih, pu, K[0], pv, K[1], P, q, uv, rng.randint(0, 1)))
        elif r < 0.93:
            run(h, lambda rec: do_simple(rec, ba, rng))
        else:
            run(h, lambda rec: do_fit(rec, ba, np, rng))
    log.close()


guarded(main)
