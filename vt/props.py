"""What each check runs: models, spec-generated behaviours, recorded histories."""
import os
import random

from . import runner
from .cover import cover
from .runner import NPROC

# ---------------------------------------------------------------- polygons
POINTSETS = {
    "square": [(0, 0), (960, 0), (960, 960), (0, 960), (480, 720)],
    "nested": [(0, 0), (1920, 0), (960, 1920), (720, 480), (1200, 480), (960, 960)],
    "bow": [(0, 0), (960, 480), (0, 960), (1920, 0), (1920, 960), (960, 1200)],
    "hex": [(0, 0), (960, 0), (1440, 720), (960, 1440), (0, 1440), (-480, 720)],
    "seven": [(0, 0), (2880, 0), (2880, 2880), (0, 2880), (960, 960), (1920, 960), (1440, 1920)],
}


def design(c, name, maxsegs, replay=True, frac=1.0):
    """PolyDesign: exhaustive TLC over all drawings on a point set, then replay of its transitions"""
    pts = POINTSETS[name]
    mod = os.path.join(c.work, "MC_%s_%d.tla" % (name, maxsegs))
    open(mod, "w").write("---- MODULE MC_%s_%d ----\nEXTENDS PolyDesign\npts == << %s >>\n====\n" % (
        name, maxsegs, ", ".join("<<%d, %d>>" % p for p in pts)))
    cfg = ("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nVIEW View\nCONSTANTS\n PTS <- pts\n MaxSegs = %d\n"
           " PRINT = %s\nACTION_CONSTRAINT Emit\nINVARIANT TypeInv\nPROPERTIES StepInv ReportInv\n" % (
               maxsegs, "TRUE" if replay else "FALSE"))
    tr = c.model_check("design_%s_%d" % (name, maxsegs), mod, cfg, collect="@@T " if replay else None,
                       mem="10g", timeout=850)
    if not replay:
        return
    progs = cover(tr)
    if frac < 1:
        random.Random(c.seed).shuffle(progs)
        progs = progs[:int(len(progs) * frac) + 1]
    confs = [{"mode": "replay", "seed": c.seed, "first": k * 100000, "pts": pts, "programs": progs[k::NPROC]}
             for k in range(NPROC)]
    c.notes.append("%s/%d: %d transitions of the model, %d replayed programs" % (name, maxsegs, len(tr), len(progs)))
    c.shards("replay_%s_%d" % (name, maxsegs), "polydrv.py", confs, "PolyTrace")


def histories(c, profiles, nhist, nops, first=0, **kw):
    n = nhist if c.quick else nhist * 12
    confs = [dict({"mode": "random", "seed": c.seed * 1000 + k, "first": first + k * 10000, "histories": n // NPROC + 1,
                   "profiles": profiles, "nops": nops}, **kw) for k in range(NPROC)]
    c.shards("histories_" + "_".join(profiles).replace(":", "-"), "polydrv.py", confs, "PolyTrace")


def designs(c, quick, thorough):
    for name, m in (quick if c.quick else thorough):
        design(c, name, m)


FULL = [("square", 9), ("hex", 12), ("bow", 12), ("nested", 12)]


def P01(c):
    designs(c, [("square", 9), ("bow", 5)], FULL)
    histories(c, ["topo", "lines", "topo", "anyline", "big:lines"], 160, 60)


def P02(c):
    designs(c, [("square", 9), ("nested", 4)], FULL)
    histories(c, ["topo", "topo", "lines", "anyline", "big:anyline"], 160, 60)


def P03(c):
    designs(c, [("nested", 4), ("hex", 4)], FULL)
    histories(c, ["topo", "topo", "lines", "big:topo"], 160, 60)
    if not c.quick:
        design(c, "seven", 7, replay=False)


def P04(c):
    designs(c, [("square", 9), ("nested", 4)], FULL)
    histories(c, ["topo", "lines", "attr", "big:topo"], 160, 60)


def P05(c):
    histories(c, ["lines", "anyline", "wedge", "wedge", "big:lines", "snap", "big:anyline", "lines"], 400, 45)


def P06(c):
    histories(c, ["snap", "snap", "lines", "snap", "big:lines"], 400, 40)


def P07(c):
    designs(c, [("square", 9), ("bow", 5)], FULL)
    histories(c, ["topo", "lines", "big:topo"], 160, 60)


def P08(c):
    histories(c, ["undo:utopo", "undo:lines", "undo:uattr", "uwedge"], 160, 40)


def P09(c):
    histories(c, ["attr", "attr", "big:attr"], 240, 60)


def P10(c):
    histories(c, ["move", "move", "big:move"], 300, 50)


POLY_ASSUME = ["coordinates of driven drawings are integers of bounded size, so that the exact integer geometry of "
               "the specification and the library's floating point agree",
               "TLC 1.8.0 and its JSON module are trusted"]

TABLE = {p: (globals()[p], POLY_ASSUME) for p in
         ["P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08", "P09", "P10"]}


# ---------------------------------------------------------------- undo stack
def undo_model(c, kinds, depth, groups, switch, replay=True, frac=1.0):
    name = "undo_d%d_g%d" % (depth, groups)
    cfg = ("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nVIEW View\nCONSTANTS\n Kinds = {%s}\n Depth = %d\n Groups = %d\n"
           " Switch = %s\n PRINT = %s\nCONSTRAINT Bound\nACTION_CONSTRAINT Emit\n"
           "INVARIANTS DocMatches UndoRestores RedoRestores SavedTruth Distinct\n" % (
               ", ".join('"%s"' % k for k in kinds), depth, groups, "TRUE" if switch else "FALSE",
               "TRUE" if replay else "FALSE"))
    progs = c.model_check(name, "UndoDesign", cfg, collect="@@T " if replay else None, timeout=800, mem="8g")
    if not replay:
        return
    n = len(progs)
    progs = maximal(progs)
    if frac < 1:
        random.Random(c.seed).shuffle(progs)
        progs = progs[:int(len(progs) * frac) + 1]
    c.notes.append("%s: %d transitions, %d replayed programs" % (name, n, len(progs)))
    c.shards("replay_" + name, "undodrv.py", [{"mode": "replay", "first": k * 1000000, "programs": progs[k::NPROC]}
                                              for k in range(NPROC)], "UndoTrace")


def maximal(progs):
    """drop the programs that are a prefix of another"""
    keys = sorted(tuple(map(tuple, p)) for p in progs)
    out = [p for p, q in zip(keys, keys[1:] + [()]) if q[:len(p)] != p]
    return [[list(o) for o in p] for p in out]


def undo_histories(c, n, nops):
    n = n if c.quick else n * 20
    c.shards("histories", "undodrv.py", [{"mode": "random", "seed": c.seed * 77 + k, "first": k * 100000,
                                          "histories": n // NPROC + 1, "nops": nops} for k in range(NPROC)],
             "UndoTrace")


ALLK = ["set", "bad", "badundo", "badredo", "via", "nest"]


def U01(c):
    undo_model(c, ALLK, 4 if c.quick else 5, 0, False, frac=1.0 if c.quick else 0.3)
    undo_model(c, ["set"], 6 if c.quick else 8, 0, True, replay=c.quick)
    undo_histories(c, 800, 60)


def U02(c):
    undo_model(c, ["set", "via", "bad"], 5 if c.quick else 6, 2, False, frac=1.0 if c.quick else 0.3)
    undo_histories(c, 800, 60)


def U03(c):
    undo_model(c, ["set", "badundo"], 5 if c.quick else 6, 1, True, frac=1.0 if c.quick else 0.3)
    undo_histories(c, 800, 60)


UNDO_ASSUME = ["undo, redo and clear are not called inside an open group", "TLC 1.8.0 and its JSON module are trusted"]
for _p in ("U01", "U02", "U03"):
    TABLE[_p] = (globals()[_p], UNDO_ASSUME)


# ---------------------------------------------------------------- box lookup, ids, overlays
def lookup_model(c, what, consts):
    cfg = ("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nVIEW View\nCONSTANTS\n%s WHAT = \"%s\"\n PRINT = TRUE\n"
           "ACTION_CONSTRAINT Emit\nINVARIANT IdInv\n" % (consts, what))
    progs = c.model_check("lookup_" + what, "LookupDesign", cfg, collect="@@T ", timeout=600)
    n = len(progs)
    progs = maximal(progs)
    c.notes.append("%d transitions of the model, %d replayed programs" % (n, len(progs)))
    pts = [[x, y] for x in range(-2, 5) for y in range(-2, 5)]
    qs = [[x, y, x + w, y + w] for x in (-2, 1, 2) for y in (-1, 1, 3) for w in (0, 1, 4)]
    c.shards("replay_" + what, "lookupdrv.py", [
        {"mode": "replay", "what": what, "first": k * 1000000, "programs": progs[k::NPROC], "points": pts, "queries": qs}
        for k in range(NPROC)], "LookupTrace")


def lookup_random(c, what, n, nops):
    n = n if c.quick else n * 15
    c.shards("histories_" + what, "lookupdrv.py", [
        {"mode": "random", "what": what, "seed": c.seed * 31 + k, "first": k * 100000, "histories": n // NPROC + 1,
         "nops": nops} for k in range(NPROC)], "LookupTrace")


def P11(c):
    ids = "{0, 1, 2}" if c.quick else "{0, 1, 2, 3}"
    lookup_model(c, "boxes", " Ids = %s\n Boxes <- MCBoxes\n MaxLive = 0\n" % ids)
    lookup_random(c, "boxes", 160, 120)


def P12(c):
    lookup_model(c, "ids", " Ids = {0}\n Boxes = {}\n MaxLive = %d\n" % (4 if c.quick else 6))
    lookup_random(c, "ids", 160, 120)


def P13(c):
    n = 320 if c.quick else 4000
    for kind in ("general", "touching"):
        c.shards("overlay_" + kind, "mergedrv.py", [
            {"seed": c.seed * 53 + k, "first": k * 100000, "histories": n // NPROC + 1, "kinds": [kind]}
            for k in range(NPROC)], "MergeTrace")


for _p in ("P11", "P12", "P13"):
    TABLE[_p] = (globals()[_p], POLY_ASSUME)


# ---------------------------------------------------------------- mesh files
def msh_model(c, nodes, elems, names, size, replay=True):
    q = lambda xs: "{" + ", ".join('"%s"' % x for x in xs) + "}"
    name = "msh_%d" % size
    cfg = ("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n NodeIds = %s\n ElemIds = %s\n Names = %s\n MaxSize = %d\n"
           " PRINT = %s\nINVARIANTS RoundTrip EmitInv\n" % (q(nodes), q(elems), q(names), size,
                                                           "TRUE" if replay else "FALSE"))
    meshes = c.model_check(name, "MshDesign", cfg, collect="@@T " if replay else None, timeout=700)
    if replay:
        c.notes.append("%s: %d meshes of the model written and read" % (name, len(meshes)))
        c.shards("replay_" + name, "mshdrv.py", [{"mode": "replay", "first": k * 1000000, "meshes": meshes[k::NPROC]}
                                                 for k in range(NPROC)], "MshTrace")


def msh_random(c, n):
    n = n if c.quick else n * 20
    c.shards("files", "mshdrv.py", [{"mode": "random", "seed": c.seed * 41 + k, "first": k * 100000,
                                     "histories": n // NPROC + 1} for k in range(NPROC)], "MshTrace")


def G01(c):
    msh_model(c, ["1", "12"], ["1", "7"], ["box", "left wall"], 3 if c.quick else 4)
    msh_random(c, 1600)


def G02(c):
    msh_random(c, 3200)


MSH_ASSUME = ["numbers are compared by the shortest text that gives the same double", "ASCII files only (versions 1 and 2)",
              "TLC 1.8.0 and its JSON module are trusted"]
for _p in ("G01", "G02"):
    TABLE[_p] = (globals()[_p], MSH_ASSUME)


# ---------------------------------------------------------------- mesh healing
def heal_model(c, ops, nodes, replay=True, frac=1.0):
    name = "heal_%d" % ops
    cfg = ("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nVIEW View\nCONSTANTS\n MaxOps = %d\n MaxNodes = %d\n PRINT = %s\n"
           "ACTION_CONSTRAINT Emit\nINVARIANTS ValidInv Distinct Regular\nPROPERTIES MergeStep FreshStep\n" % (
               ops, nodes, "TRUE" if replay else "FALSE"))
    progs = c.model_check(name, "HealDesign", cfg, collect="@@T " if replay else None, timeout=800, mem="10g")
    if not replay:
        return
    n = len(progs)
    progs = maximal_any(progs)
    if frac < 1:
        random.Random(c.seed).shuffle(progs)
        progs = progs[:int(len(progs) * frac) + 1]
    c.notes.append("%s: %d transitions of the model, %d replayed programs" % (name, n, len(progs)))
    c.shards("replay_" + name, "healdrv.py", [{"mode": "replay", "first": k * 1000000, "programs": progs[k::NPROC]}
                                              for k in range(NPROC)], "HealTrace")


def maximal_any(progs):
    """drop the programs that are a prefix of another (operations with nested arguments)"""
    import json
    byrepr = {tuple(json.dumps(o) for o in p): p for p in progs}
    keys = sorted(byrepr)
    return [byrepr[p] for p, q in zip(keys, keys[1:] + [()]) if q[:len(p)] != p]


def heal_shards(c, mode, n, nops):
    n = n if c.quick else n * 15
    c.shards(mode, "healdrv.py", [{"mode": mode, "seed": c.seed * 61 + k, "first": k * 100000, "nops": nops,
                                   "histories": n // NPROC + 1} for k in range(NPROC)], "HealTrace")


def G03(c):
    heal_model(c, 2 if c.quick else 3, 5, frac=1.0 if c.quick else 0.2)
    heal_shards(c, "random", 480, 50)


def G04(c):
    heal_shards(c, "heal", 6000, 0)


def G09(c):
    cfg = ("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Side = 2\n PRINT = TRUE\nINVARIANTS TriLaws TetLaws Emit\n")
    shapes = c.model_check("quality_2", "QualityDesign", cfg, collect="@@T ", timeout=800, mem="8g")
    random.Random(c.seed).shuffle(shapes)
    c.notes.append("quality_2: %d elements of the lattice, all replayed" % len(shapes))
    c.shards("replay_quality", "qualitydrv.py", [{"mode": "replay", "seed": c.seed * 71 + k, "first": k * 1000000, "shapes": shapes[k::NPROC]}
                                                 for k in range(NPROC)], "QualityTrace")
    n = 8000 if c.quick else 120000
    c.shards("statistics", "qualitydrv.py", [{"mode": "random", "seed": c.seed * 71 + k, "first": k * 100000, "histories": n // NPROC}
                                             for k in range(NPROC)], "QualityTrace")


def G10(c):
    cfg = ("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Kinds = {\"quad\", \"tri\", \"edge\"}\n Orders = %s\n"
           " PRINT = TRUE\nINVARIANTS Laws Emit\n" % ("FALSE" if c.quick else "TRUE"))
    progs = c.model_check("repair", "RepairDesign", cfg, collect="@@T ", timeout=800, mem="8g")
    random.Random(c.seed).shuffle(progs)
    c.notes.append("repair: %d meshes with one flat element, all replayed" % len(progs))
    c.shards("replay_repair", "healdrv.py", [{"mode": "repairs", "seed": c.seed * 73 + k, "first": k * 1000000, "programs": progs[k::NPROC]}
                                             for k in range(NPROC)], "HealTrace")
    heal_shards(c, "repair", 8000, 0)


HEAL_ASSUME = ["elements have 1 to 4 nodes (points, lines, triangles, tetrahedra)",
               "the quality of elements after healing is computed by the driver in floating point with a margin of 0.1 %",
               "TLC 1.8.0 and its JSON module are trusted"]
QUALITY_ASSUME = ["real values are compared as intervals of multiples of 1/4096 with a margin of two units",
                  "TLC 1.8.0 and its JSON module are trusted"]
REPAIR_ASSUME = ["meshes are chosen so that the repaired elements are good (computed by the driver in floating point)",
                 "coordinates of the repaired mesh are on a lattice, compared up to 1e-6 of its step", "TLC 1.8.0 and its JSON module are trusted"]
TABLE["G09"] = (G09, QUALITY_ASSUME)
TABLE["G10"] = (G10, REPAIR_ASSUME)
for _p in ("G03", "G04"):
    TABLE[_p] = (globals()[_p], HEAL_ASSUME)


# ---------------------------------------------------------------- sets of shapes, meshing
def solid_model(c, ops, mesh, replay=True, frac=1.0):
    name = "solid_%d" % ops
    cfg = ("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nVIEW View\nCONSTANTS\n MaxOps = %d\n PRINT = %s\n"
           "ACTION_CONSTRAINT Emit\nINVARIANT NoEmpty\nPROPERTIES StepInv\n" % (ops, "TRUE" if replay else "FALSE"))
    progs = c.model_check(name, "SolidDesign", cfg, collect="@@T " if replay else None, timeout=800, mem="10g")
    if not replay:
        return
    n = len(progs)
    progs = maximal_any(progs)
    if frac < 1:
        random.Random(c.seed).shuffle(progs)
        progs = progs[:int(len(progs) * frac) + 1]
    c.notes.append("%s: %d transitions of the model, %d replayed programs" % (name, n, len(progs)))
    c.shards("replay_" + name, "soliddrv.py", [{"mode": "replay", "first": k * 1000000, "programs": progs[k::NPROC],
                                                "mesh": int(mesh)} for k in range(NPROC)], "SolidTrace")


def solid_random(c, n):
    n = n if c.quick else n * 8
    c.shards("histories", "soliddrv.py", [{"mode": "random", "seed": c.seed * 23 + k, "first": k * 100000,
                                           "histories": n // NPROC + 1, "nops": 16} for k in range(NPROC)], "SolidTrace")


def G05(c):
    solid_model(c, 2, False)
    if not c.quick:
        solid_model(c, 3, False, frac=0.25)
    solid_random(c, 1200)


def G06(c):
    solid_model(c, 2, True, frac=0.4 if c.quick else 1.0)
    solid_random(c, 1200)


SOLID_ASSUME = ["bodies are unions of unit cells; which cells an entity covers is read from the geometry kernel (gmsh/OpenCASCADE), "
                "whose constructions are trusted", "shapes that share entities are used by at most one boolean operation",
                "TLC 1.8.0 and its JSON module are trusted"]
for _p in ("G05", "G06"):
    TABLE[_p] = (globals()[_p], SOLID_ASSUME)


def field_model(c, ops, frac=1.0):
    name = "field_%d" % ops
    cfg = ("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nVIEW View\nCONSTANTS\n MaxOps = %d\n PRINT = TRUE\n"
           "ACTION_CONSTRAINT Emit\nINVARIANT Laws\n" % ops)
    progs = c.model_check(name, "FieldDesign", cfg, collect="@@T ", timeout=800, mem="8g")
    random.Random(c.seed).shuffle(progs)
    n = len(progs)
    progs = progs[:int(n * frac) + 1]
    c.notes.append("%s: %d expressions of the model, %d replayed" % (name, n, len(progs)))
    c.shards("replay_" + name, "fielddrv.py", [{"mode": "replay", "first": k * 1000000, "programs": progs[k::NPROC]}
                                               for k in range(NPROC)], "FieldTrace")


def G07(c):
    field_model(c, 3)
    if not c.quick:
        field_model(c, 4, 0.5)
    n = 1600 if c.quick else 16000
    c.shards("histories", "fielddrv.py", [{"mode": "random", "seed": c.seed * 29 + k, "first": k * 100000,
                                           "histories": n // NPROC, "nops": 16} for k in range(NPROC)], "FieldTrace")


TABLE["G07"] = (G07, ["values of fields are those the mesher of gmsh asks for, observed by its size callback at lattice points "
                      "of edges, and with an error bound inside of faces and volumes", "the gmsh kernel evaluates the field "
                      "types it documents", "TLC 1.8.0 and its JSON module are trusted"])


def G08(c):
    ops = 2 if c.quick else 3
    cfg = ("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n MaxOps = %d\n PRINT = TRUE\n"
           "ACTION_CONSTRAINT Emit\nINVARIANT Laws\nPROPERTY Steps\n" % ops)
    progs = c.model_check("affine_%d" % ops, "AffineDesign", cfg, collect="@@T ", timeout=800, mem="8g")
    random.Random(c.seed).shuffle(progs)
    c.notes.append("affine_%d: %d sequences of the model, all replayed" % (ops, len(progs)))
    c.shards("replay_affine", "affinedrv.py", [{"mode": "replay", "first": k * 1000000, "programs": progs[k::NPROC]}
                                               for k in range(NPROC)], "AffineTrace")
    n = 6400 if c.quick else 40000
    c.shards("histories", "affinedrv.py", [{"mode": "random", "seed": c.seed * 59 + k, "first": k * 100000,
                                            "histories": n // NPROC, "nops": 9} for k in range(NPROC)], "AffineTrace")


TABLE["G08"] = (G08, ["measures, centres, boundaries and coordinates are those the geometry kernel (gmsh/OpenCASCADE) reports, "
                      "identified with the nearest rational number", "TLC 1.8.0 and its JSON module are trusted"])


# ---------------------------------------------------------------- splines
def spline_model(c, what, inner, deg=3, mults=True):
    name = "splines_%d_%d" % (deg, inner)
    cfg = ("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nVIEW View\nCONSTANTS\n MaxDeg = %d\n MaxInner = %d\n Mults = %s\n PRINT = TRUE\n"
           "ACTION_CONSTRAINT Emit\nINVARIANT Laws\n" % (deg, inner, "TRUE" if mults else "FALSE"))
    cases = c.model_check(name, "SplineDesign", cfg, collect="@@T ", timeout=800, mem="8g")
    c.notes.append("%s: %d bases of the model, all replayed" % (name, len(cases)))
    c.shards("replay_" + name, "splinedrv.py", [{"mode": "replay", "what": what, "first": k * 1000000, "cases": cases[k::NPROC]}
                                                for k in range(NPROC)], "SplineTrace")


def spline_random(c, mode, n):
    n = n if c.quick else n * 15
    c.shards("random_" + mode, "splinedrv.py", [{"mode": mode, "seed": c.seed * 31 + k, "first": k * 100000, "histories": n // NPROC}
                                                for k in range(NPROC)], "SplineTrace")


def S01(c):
    spline_model(c, "basis", 2 if c.quick else 3)
    spline_random(c, "basis", 4000)


def S02(c):
    spline_model(c, "curve", 2 if c.quick else 3)
    spline_random(c, "curve", 3200)


SPLINE_ASSUME = ["floating point results are identified with the only rational of a small denominator near to them",
                 "TLC 1.8.0 and its JSON module are trusted"]
TABLE["S01"] = (S01, SPLINE_ASSUME)
TABLE["S02"] = (S02, SPLINE_ASSUME)


def zsurf_model(c, name, module, cfg, frac=1.0, wrap=False):
    progs = c.model_check(name, module, cfg, collect="@@T ", timeout=800, mem="8g")
    random.Random(c.seed).shuffle(progs)
    n = len(progs)
    progs = progs[:int(n * frac) + 1]
    progs = [[p] for p in progs] if wrap else progs
    c.notes.append("%s: %d behaviours of the model, %d replayed" % (name, n, len(progs)))
    c.shards("replay_" + name, "zsurfdrv.py", [{"mode": "replay", "first": k * 1000000, "programs": progs[k::NPROC]}
                                               for k in range(NPROC)], "ZSurfTrace")


def zsurf_random(c, mode, n, nops):
    n = n if c.quick else n * 15
    c.shards("random_" + mode, "zsurfdrv.py", [{"mode": mode, "seed": c.seed * 37 + k, "first": k * 100000, "histories": n // NPROC,
                                                "nops": nops} for k in range(NPROC)], "ZSurfTrace")


def S03(c):
    cfg = ("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n%sCONSTANTS\n MaxOps = %d\n Quads = {1, 2}\n PRINT = TRUE\n"
           "ACTION_CONSTRAINT Emit\nINVARIANT Laws\nPROPERTY Steps\n")
    if c.quick:
        zsurf_model(c, "zsurf_2", "ZSurfDesign", cfg % ("", 2))
    else:
        zsurf_model(c, "zsurf_3", "ZSurfDesign", cfg % ("", 3))
        zsurf_model(c, "zsurf_4", "ZSurfDesign", cfg % ("VIEW View\n", 4), 0.5)
    zsurf_random(c, "z", 640, 12)


def S04(c):
    zsurf_model(c, "grids", "GridDesign", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n PRINT = TRUE\nINVARIANTS Laws Emit\n",
                wrap=True)
    zsurf_random(c, "grid", 960, 8)


TABLE["S03"] = (S03, SPLINE_ASSUME)
TABLE["S04"] = (S04, SPLINE_ASSUME + ["a point moved by 1e-12 of the grid still belongs to it, one moved by 1e-2 of it does not"])


def S05(c):
    for w, h in ([(3, 2)] if c.quick else [(3, 3), (4, 2)]):
        cfg = ("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n W = %d\n H = %d\n PRINT = TRUE\nINVARIANTS Laws Emit\n" % (w, h))
        sets = c.model_check("hulls_%d_%d" % (w, h), "HullDesign", cfg, collect="@@T ", timeout=800, mem="8g")
        rng = random.Random(c.seed)
        for s in sets:
            rng.shuffle(s)
        c.notes.append("hulls_%d_%d: %d sets of points, all replayed in a random order" % (w, h, len(sets)))
        c.shards("replay_hulls_%d_%d" % (w, h), "approxdrv.py", [{"mode": "replay", "first": k * 1000000, "cases": sets[k::NPROC]}
                                                                 for k in range(NPROC)], "ApproxTrace")
    n = 4000 if c.quick else 60000
    c.shards("random", "approxdrv.py", [{"mode": "random", "seed": c.seed * 41 + k, "first": k * 100000, "histories": n // NPROC}
                                        for k in range(NPROC)], "ApproxTrace")


TABLE["S05"] = (S05, SPLINE_ASSUME + ["values of approximations are compared up to 6e-3 where the regularization is scaled by a "
                                      "norm estimated from a random start, up to 6e-4 otherwise"])


def brep_model(c, name, depth, objs, frac):
    cfg = ("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n MaxOps = %d\n Objs = {%s}\n PRINT = TRUE\n"
           "ACTION_CONSTRAINT Emit\nINVARIANT Laws\nPROPERTY Steps\n" % (depth, ", ".join(map(str, objs))))
    progs = c.model_check(name, "BrepDesign", cfg, collect="@@T ", timeout=800, mem="8g")
    random.Random(c.seed).shuffle(progs)
    n = len(progs)
    progs = progs[:int(n * frac) + 1]
    c.notes.append("%s: %d behaviours of the model, %d replayed" % (name, n, len(progs)))
    c.shards("replay_" + name, "brepdrv.py", [{"mode": "replay", "first": k * 1000000, "programs": progs[k::NPROC]}
                                              for k in range(NPROC)], "BrepTrace")


def S06(c):
    if c.quick:
        brep_model(c, "sheet_3", 3, [4, 6, 11, 14], 0.2)
    else:
        brep_model(c, "sheet_3", 3, [4, 6, 11, 14], 1)
        brep_model(c, "sheet_4", 4, [6, 14], 0.7)
    n = 640 if c.quick else 9600
    c.shards("random", "brepdrv.py", [{"mode": "random", "seed": c.seed * 43 + k, "first": k * 100000, "histories": n // NPROC}
                                      for k in range(NPROC)], "BrepTrace")


TABLE["S06"] = (S06, SPLINE_ASSUME + ["a composed location equal to another location of the same file is not read back by OCC, which drops repetitions"])


def S07(c):
    for n in ["1, 2"] if c.quick else ["1, 2", "3, 4", "2, 5"]:
        cfg = ("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Ps <- MCPs\n As <- MCAs\n Bs <- MCBs\n Ns = {%s}\n PRINT = TRUE\n"
               "INVARIANTS Laws Symmetry Emit\n" % n)
        name = "sheets_" + n.replace(", ", "_")
        pairs = c.model_check(name, "IsecDesign", cfg, collect="@@T ", timeout=800, mem="8g")
        c.notes.append("%s: %d pairs of sheets, all replayed both ways" % (name, len(pairs)))
        c.shards("replay_" + name, "isecdrv.py", [{"mode": "replay", "first": k * 1000000, "cases": pairs[k::NPROC]}
                                                  for k in range(NPROC)], "IsecTrace")
    n = 2400 if c.quick else 24000
    c.shards("random", "isecdrv.py", [{"mode": "random", "seed": c.seed * 47 + k, "first": k * 100000, "histories": n // NPROC}
                                      for k in range(NPROC)], "IsecTrace")


TABLE["S07"] = (S07, SPLINE_ASSUME + ["a knot line crosses a part of a patch at most once, where it can cross it more often only the "
                                      "reported points are judged"])


def S08(c):
    n = 3 if c.quick else 4
    cfg = ("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n MaxOps = %d\n PRINT = TRUE\nACTION_CONSTRAINT Emit\nINVARIANT Laws\n" % n)
    progs = c.model_check("plots_%d" % n, "PlotDesign", cfg, collect="@@T ", timeout=800, mem="8g")
    random.Random(c.seed).shuffle(progs)
    c.notes.append("plots_%d: %d sequences of calls of the model, all replayed" % (n, len(progs)))
    c.shards("replay_plots", "plotdrv.py", [{"mode": "replay", "first": k * 1000000, "programs": progs[k::NPROC]}
                                            for k in range(NPROC)], "PlotTrace")
    n = 1600 if c.quick else 24000
    c.shards("random_plots", "plotdrv.py", [{"mode": "random", "seed": c.seed * 61 + k, "first": k * 100000, "histories": n // NPROC,
                                             "nops": 7} for k in range(NPROC)], "PlotTrace")
    c.shards("decompositions", "plotdrv.py", [{"mode": "polygons", "seed": c.seed * 67 + k, "first": k * 100000, "histories": n // NPROC}
                                              for k in range(NPROC)], "PlotTrace")


TABLE["S08"] = (S08, SPLINE_ASSUME + ["a figure is what was handed to plotly.offline.plot, or the artists in the axes of matplotlib"])
