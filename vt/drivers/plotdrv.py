"""
Plots of splines and of polygon decompositions. usage: plotdrv.py OUT CONFIG
CONFIG: {"mode": "replay"|"random"|"polygons", "seed", "first", "histories", "nops", "programs"}
Showing is replaced by recording the figure; numbers are recorded as rationals [n, d].
"""
import json
import os
import random
import shutil
import sys
import tempfile
from fractions import Fraction as F
os.environ["MPLBACKEND"] = "Agg"
import common
from common import Log, limit, Hang, exc_name, silence, guarded, stop

BASE = {"req": [], "figs": [], "segs": [], "polys": [], "marks": [], "ds": [], "file": True}
common.FAILREC.update(BASE)
NOREQ = {"kind": "", "X": [], "Y": [], "Z": [], "n": [], "deg": [], "ku": [], "kv": [], "P": [], "rat": False, "quad": []}
CALLS = ["plot_2d", "scatter_2d", "curve", "curve_with_poles", "curve_poles", "plot_surface", "scatter_3d", "surface",
         "surface_with_poles", "grid", "surface_poles"]


def rat(x, lim=1000000):
    try:
        x = float(x)
        f = F(x).limit_denominator(lim)
    except (TypeError, ValueError, OverflowError):
        return [0, 0]
    return [f.numerator, f.denominator] if abs(f - F(x)) < 1e-9 and abs(f) < 1e6 else [0, 0]


def flo(k):
    return k[0] / k[1]


def knots(rng, deg, unit):
    n = rng.randint(1, 2)
    a, w = (0, 1) if unit else (rng.randint(-2, 1), rng.randint(1, 2) * n)
    ks = [F(a)] * (deg + 1) + [F(a) + F(w * i, n) for i in range(1, n)] + [F(a + w)] * (deg + 1)
    return [[k.numerator, k.denominator] for k in ks]


def poles(rng, n, dim, rational):
    return [[rng.randint(-3, 4) for _ in range(dim)] + ([rng.randint(1, 2)] if rational else []) for _ in range(n)]


def some(rng, lst, n):
    keep = {0, len(lst) - 1} | {rng.randrange(len(lst)) for _ in range(n)}
    return [x for i, x in enumerate(lst) if i in keep]


class World:
    def __init__(self, np, bs, bp, go, rng, matplot):
        self.np, self.bs, self.bp, self.rng, self.matplot = np, bs, bp, rng, matplot
        self.shown = []
        self.names = set()
        if matplot:
            import matplotlib.pyplot as plt
            plt.close("all")
            self.pl = bp.Plotting(bp.PlottingMatplot())
        else:
            self.pl = bp.Plotting(backend=bp.PlottingPlotly())

    # ---- requests
    def lists(self, n):
        v = [self.rng.randint(-4, 4) for _ in range(n)]
        return v, self.rng.choice([lambda v: v, lambda v: self.np.array(v), lambda v: self.np.array(v, dtype=float)])(v)

    def call(self, name):
        """calls the library, returns the requests"""
        rng, np, bs = self.rng, self.np, self.bs
        r = dict(NOREQ)
        if name in ("plot_2d", "scatter_2d", "scatter_3d"):
            n = rng.randint(1, 5)
            cols = [self.lists(n) for _ in range(3 if name == "scatter_3d" else 2)]
            r.update(dict(zip("XYZ", [c[0] for c in cols])), kind={"plot_2d": "lines", "scatter_2d": "markers", "scatter_3d": "markers3"}[name])
            getattr(self.pl, name)(*[c[1] for c in cols])
            return [r]
        if name == "plot_surface":
            nu, nv = rng.randint(2, 4), rng.randint(2, 4)
            m = [[[rng.randint(-4, 4) for _ in range(nv)] for _ in range(nu)] for _ in range(3)]
            r.update(dict(zip("XYZ", m)), kind="surface")
            self.pl.plot_surface(*[np.array(x, dtype=float) for x in m])
            return [r]
        if name.startswith("curve"):
            deg = rng.choice([1, 2, 2, 3])
            K = knots(rng, deg, rng.random() < 0.3)
            q = rng.random() < 0.4
            P = poles(rng, len(K) - deg - 1, 2, q)
            c = bs.Curve(bs.SplineBasis(deg, [flo(k) for k in K]), np.array(P, dtype=float), q)
            r.update(kind="curve poles", deg=[deg], ku=K, P=P, rat=q)
            if name == "curve_poles":
                self.pl.plot_curve_poles_2d(c)
                return [r]
            n = rng.randint(2, 7)
            kw = {"n_points": n}
            if rng.random() < 0.1 and deg == 1 and not q:
                n, kw = 100, {}
            if name == "curve_with_poles":
                self.pl.plot_curve_2d(c, poles=True, **kw)
                return [dict(r, kind="curve", n=[n]), r]
            self.pl.plot_curve_2d(c, **kw)
            return [dict(r, kind="curve", n=[n])]
        zs = name in ("surface", "grid") and rng.random() < 0.5
        unit = zs or name == "grid"
        degs = [rng.choice([1, 2, 2]), rng.choice([1, 2, 2])]
        K = [knots(rng, d, unit) for d in degs]
        q = not zs and rng.random() < 0.3
        P = [poles(rng, len(K[1]) - degs[1] - 1, 1 if zs else 3, q) for _ in range(len(K[0]) - degs[0] - 1)]
        s = bs.Surface(tuple(bs.SplineBasis(d, [flo(k) for k in kk]) for d, kk in zip(degs, K)), np.array(P, dtype=float), q)
        r.update(kind="surface poles", deg=degs, ku=K[0], kv=K[1], P=P, rat=q)
        if zs:
            x, y, w, h = rng.randint(-2, 2), rng.randint(-2, 2), rng.randint(1, 3), rng.randint(1, 3)
            d = rng.choice([0, 0, 1, 2])
            r["quad"] = [[x, y + h], [x, y], [x + w, y], [x + w + d, y + h]]
            s = bs.Z_Surface(np.array(r["quad"], dtype=float), s)
        if name == "surface_poles":
            self.pl.plot_surface_poles_3d(s)
            return [r]
        n = [rng.randint(2, 4), rng.randint(2, 4)]
        kw = {"n_points": tuple(n)}
        if rng.random() < 0.05 and degs == [1, 1] and not q and not self.matplot:
            n, kw = [100, 100], {}
        if name == "grid":
            self.pl.plot_grid_surface_3d(s, **kw)
            return [dict(r, kind="grid", n=n)]
        if name == "surface_with_poles":
            self.pl.plot_surface_3d(s, poles=True, **kw)
            return [dict(r, kind="spline", n=n), r]
        self.pl.plot_surface_3d(s, **kw)
        return [dict(r, kind="spline", n=n)]

    # ---- figures
    def item(self, kind, cols):
        np = self.np
        cols = [np.array(c, dtype=float) for c in cols]
        it = {"k": kind, "shape": [], "s": [], "bag": False}
        if len({c.shape for c in cols}) != 1:
            return dict(it, k="uneven")
        it["shape"] = [int(x) for x in cols[0].shape]
        ixs = list(np.ndindex(*cols[0].shape))
        lim = 1000000
        if len(ixs) > 60:
            ixs = some(self.rng, ixs, 12)
        it["s"] = [[[int(i) for i in ix], [rat(c[ix], lim) for c in cols]] for ix in ixs]
        return it

    def trace(self, t):
        kind = {("scatter", "lines"): "lines", ("scatter", "markers"): "markers", ("surface", None): "surface",
                ("scatter3d", "markers"): "markers3"}.get((t.type, getattr(t, "mode", None) if t.type != "surface" else None), "other")
        return self.item(kind, [t.x, t.y] + ([t.z] if t.type != "scatter" else []))

    def bag(self, kind, pts):
        pts = sorted({tuple(map(tuple, [rat(x) for x in p])) for p in pts})
        return {"k": kind, "shape": [], "s": [[[0], [list(x) for x in p]] for p in pts], "bag": True}

    def show(self):
        if self.matplot:
            self.pl.show()
            figs = []
            b = self.pl.backend
            d3 = []
            for c in b.ax_3d.collections:
                if hasattr(c, "_vec"):
                    d3.append(self.bag("surface", self.np.array(c._vec)[:3].T))
                else:
                    d3.append(self.item("markers3", [self.np.ma.filled(x) for x in c._offsets3d]))
            d2 = []
            for ax in b.fig_2d.axes:
                for ln in ax.lines:
                    mark = ln.get_linestyle() in ("None", "none", " ", "") and ln.get_marker() not in ("None", "none", None)
                    d2.append(self.item("markers" if mark else "lines", ln.get_data()))
            for dim, d in ((3, d3), (2, d2)):
                if d:
                    figs.append({"dim": dim, "file": str(dim), "new": True, "items": d})
            return figs
        self.shown = []
        self.pl.show()
        figs = []
        for fig, name in self.shown:
            ts = [self.trace(t) for t in fig.data]
            dims = {2 if t["k"] in ("lines", "markers") else 3 for t in ts}
            figs.append({"dim": dims.pop() if len(dims) == 1 else 0, "file": str(name), "new": name not in self.names, "items": ts})
        self.names |= {n for _, n in self.shown}
        return figs


def history(log, h, env, rng, prog, matplot):
    np, bs, bp, go, sink = env
    log.put(dict(BASE, h=h, op="reset", args=[], exc=""))
    w = None
    for name in prog:
        rec = dict(BASE, h=h, op="show" if name == "show" else "add", args=[name, int(matplot)], exc="")
        try:
            with limit(60):
                if w is None:
                    w = World(np, bs, bp, go, rng, matplot)
                    sink.append(w)
                if name == "show":
                    rec["figs"] = w.show()
                else:
                    rec["req"] = w.call(name)
        except (Exception, Hang) as e:
            rec["exc"] = exc_name(e) + ": " + str(e)[:80]
        log.put(rec)
        if rec["exc"]:
            return


def nest(pd, rng, x, y, w, h, depth):
    """a rectangle or triangle, with others inside"""
    c = [(x, y), (x + w, y), (x + w, y + h), (x, y + h)]
    tri = rng.random() < 0.2
    if tri:
        c = c[:3]
    if rng.random() < 0.5:
        c.reverse()
    for a, b in zip(c, c[1:] + c[:1]):
        pd.add_line(a, b)
    if rng.random() < 0.2:
        pd.add_line(c[0], c[2])
        return
    if depth == 0 or w < 5 or h < 5 or tri:
        return
    half = w // 2
    for x1, w1 in ([(x + 1, half - 2), (x + half + 1, w - half - 2)] if w >= 9 and rng.random() < 0.5 else [(x + 1, w - 2)]):
        if rng.random() < 0.85:
            nest(pd, rng, x1, y + 1, w1, h - 2, depth - 1)


def drawing(pgm, rng):
    pd = pgm.PolygonDecomposition()
    if rng.random() < 0.6:
        nest(pd, rng, 0, 0, rng.randint(5, 14), rng.randint(5, 9), 3)
        if rng.random() < 0.3:
            nest(pd, rng, 20, 0, 9, 5, 1)
        if rng.random() < 0.3:
            pd.add_point((16, 1))
        if rng.random() < 0.2:
            pd.add_line((-1, 0), (1, 7))
        return pd
    for _ in range(rng.randint(1, 4)):
        x, y = rng.randint(0, 8), rng.randint(0, 8)
        w, h = rng.randint(1, 8), rng.randint(1, 8)
        c = [(x, y), (x + w, y), (x + w, y + h), (x, y + h)]
        r = rng.random()
        if r < 0.15:
            pd.add_line(c[0], c[2])
            continue
        if r < 0.25:
            pd.add_point(c[0])
            continue
        if r < 0.5:
            c = c[:3]
        for a, b in zip(c, c[1:] + c[:1]):
            pd.add_line(a, b)
    return pd


def xy(p):
    return [rat(p.xy[0], 1000), rat(p.xy[1], 1000)]


def record_decomp(rec, pd):
    rec["segs"] = [[xy(s.vtxs[0]), xy(s.vtxs[1])] for s in pd.segments.values()]
    for p in pd.polygons.values():
        root = p.outer_wire.parent is None
        rec["polys"].append({"id": int(p.id), "root": bool(root), "par": -1 if root else int(p.outer_wire.parent.polygon.id),
                             "cyc": [] if root else [xy(s.vtxs[side]) for s, side in p.outer_wire.segments()]})


def picture(log, h, pgm, pp, plt, rng, sink):
    log.put(dict(BASE, h=h, op="reset", args=[], exc=""))
    try:
        with limit(60):
            pd = drawing(pgm, rng)
    except (Exception, Hang):
        # judged by the properties of the decomposition
        return
    import matplotlib.collections as mc
    for _ in range(rng.randint(1, 3)):
        kind = rng.choice(["polygons", "polygons", "segments"])
        rec = dict(BASE, h=h, op=kind, args=[], exc="", polys=[], ds=[], marks=[])
        try:
            record_decomp(rec, pd)
            if not rec["segs"] and not len(pd.points):
                return
        except Exception:
            return
        try:
            with limit(60):
                every = list(pd.points.values())
                if kind == "polygons":
                    given = rng.random() < 0.4
                    pts = rng.sample(every, rng.randint(0, len(every))) if given else every
                    del sink[:]
                    got = []
                    sink.append(got)
                    pp.plot_polygon_decomposition(*([pd, pts] if given else [pd]))
                    rec["marks"] = [[xy(p) for p in pts]]
                    rec["file"] = len(got) == 1 and bool(got[0][1])
                    for t in (got[0][0].data if got else []):
                        k = "fill" if t.fill == "toself" else "markers" if t.mode == "markers" else "lines"
                        ps = [[rat(a, 1000), rat(b, 1000)] for a, b in zip(t.x, t.y)]
                        # a closing repetition is the same picture
                        if k == "fill" and len(ps) > 1 and ps[0] == ps[-1]:
                            ps = ps[:-1]
                        rec["ds"].append({"k": k, "p": ps})
                else:
                    groups = [rng.sample(every, rng.randint(0, len(every))) for _ in range(rng.randint(0, 2))]
                    groups = [[p if rng.random() < 0.5 else [float(x) for x in p.xy] for p in g] for g in groups]
                    plt.close("all")
                    if os.path.exists("fractures.pdf"):
                        os.unlink("fractures.pdf")
                    pp.plot_decomp_segments(pd, *groups)
                    rec["file"] = os.path.exists("fractures.pdf") and os.path.getsize("fractures.pdf") > 0
                    rec["marks"] = [[xy(p) for p in every]] + [[[rat(x, 1000) for x in p] if isinstance(p, list) else xy(p) for p in g] for g in groups]
                    for ax in plt.gcf().axes:
                        for c in ax.collections:
                            if isinstance(c, mc.LineCollection):
                                rec["ds"] += [{"k": "lines", "p": [[rat(v, 1000) for v in q] for q in s]} for s in c.get_segments()]
                            else:
                                rec["ds"].append({"k": "markers", "p": [[rat(v, 1000) for v in q] for q in c.get_offsets()]})
        except (Exception, Hang) as e:
            rec["exc"] = exc_name(e) + ": " + str(e)[:80]
        log.put(rec)
        if rec["exc"]:
            return


def run(conf, log):
    import warnings
    warnings.simplefilter("ignore")
    import numpy as np
    import matplotlib.pyplot as plt
    import plotly.offline as pl
    import plotly.graph_objs as go
    sink = []

    def plot(fig, *a, **kw):
        w = sink[-1]
        (w.shown if isinstance(w, World) else w).append((go.Figure(fig), kw.get("filename", "temp-plot.html")))

    pl.plot = plot
    plt.show = lambda *a, **k: None
    if conf["mode"] == "polygons":
        from bgem.polygons import polygons as pgm, plot_polygons as pp
        for k in range(conf["histories"]):
            if stop():
                break
            picture(log, conf["first"] + k, pgm, pp, plt, random.Random(conf["seed"] * 1000003 + k), sink)
        return
    from bgem.bspline import bspline as bs, bspline_plot as bp
    bp.pl.plot = plot
    env = (np, bs, bp, go, sink)
    if conf["mode"] == "replay":
        for k, prog in enumerate(conf["programs"]):
            if stop():
                break
            history(log, conf["first"] + k, env, random.Random(conf["first"] + k), prog + ["show"], False)
        return
    for k in range(conf["histories"]):
        if stop():
            break
        rng = random.Random(conf["seed"] * 1000003 + k)
        mat = rng.random() < 0.4
        prog = [rng.choice(CALLS) if mat or rng.random() < 0.75 else "show" for _ in range(rng.randint(1, conf["nops"]))] + ["show"]
        history(log, conf["first"] + k, env, rng, prog, mat)


def main():
    conf = json.load(open(sys.argv[2]))
    silence()
    log = Log(os.path.abspath(sys.argv[1]))
    d = tempfile.mkdtemp()
    os.chdir(d)
    try:
        run(conf, log)
    finally:
        os.chdir("/")
        shutil.rmtree(d, ignore_errors=True)
    log.close()


guarded(main)
