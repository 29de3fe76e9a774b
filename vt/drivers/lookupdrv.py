"""
Box table and id map. usage: lookupdrv.py OUT CONFIG
CONFIG: {"mode": "random"|"replay", "what": "boxes"|"ids", "seed", "first", "histories", "nops", "programs"}
"""
import json
import random
import sys
import common
from common import Log, limit, Hang, exc_name

from bgem.polygons import aabb_lookup
from bgem.polygons.idmap import IdMap, IdObject


def ints(v):
    out = [int(round(float(x))) for x in v]
    assert all(abs(a - float(x)) < 1e-9 for a, x in zip(out, v))
    return out


class Obj(IdObject):
    pass


class Session:
    def __init__(self, log, h, init_size=None):
        self.log, self.h = log, h
        self.table = aabb_lookup.AABB_Lookup(**({} if init_size is None else {"init_size": init_size}))
        self.boxes = {}
        self.map = IdMap()
        self.objs = {}
        self.put("new", [], [], "")

    def put(self, op, args, res, exc):
        self.log.put({"h": self.h, "op": op, "args": args, "res": res, "exc": exc})

    def call(self, op, args, fn):
        try:
            with limit(10):
                res, exc = fn(), ""
        except (Exception, Hang) as e:
            res, exc = [], exc_name(e)
        self.put(op, args, res, exc)
        return exc == ""

    def add(self, i, box):
        if self.call("add", [i, list(box)], lambda: (self.table.add_object(i, aabb_lookup.make_aabb(
                [box[:2], box[2:]])), [])[1]):
            self.boxes[i] = box

    def rm(self, i):
        self.call("rm", [i], lambda: (self.table.rm_object(i), [])[1])
        self.boxes.pop(i, None)

    def closest(self, q):
        import numpy as np
        self.call("closest", [list(q)], lambda: [int(i) for i in self.table.closest_candidates(np.array(q, dtype=float))])

    def isec(self, b):
        import numpy as np
        self.call("isec", [list(b)], lambda: [int(i) for i in self.table.intersect_candidates(np.array(b, dtype=float))])

    def aabb(self, pts, margin):
        self.call("aabb", [[list(p) for p in pts], max(margin, 0)],
                  lambda: ints(aabb_lookup.make_aabb(pts, margin=margin) if margin >= 0 else aabb_lookup.make_aabb(pts)))

    def append(self):
        o = Obj()

        def fn():
            r = self.map.append(o)
            return [o.id, int(r is o and self.map.get(o.id) is o and all(self.map.get(k) is v for k, v in
                                                                         self.objs.items() if k != o.id))]
        if self.call("append", [], fn):
            self.objs[o.id] = o

    def remove(self, i):
        self.call("remove", [i], lambda: (self.map.remove(self.objs.pop(i)), [])[1])

    def content(self):
        self.call("content", [], lambda: [k for k, v in self.map.items() if v.id == k])


def r_box(rng, size):
    x, y = rng.randrange(-size, size), rng.randrange(-size, size)
    w, h = (rng.choice((0, 0, 1, 2, rng.randrange(size), rng.randrange(2 * size))) for _ in "wh")
    return [x, y, x + w, y + h]


def random_boxes(se, rng, nops):
    size = rng.choice((3, 10, 100, 5000))
    top = rng.choice((3, 8, 30, 300))
    for _ in range(nops):
        u = rng.random()
        if u < 0.3:
            live = sorted(se.boxes)
            i = rng.choice(live) if live and rng.random() < 0.2 else rng.choice((len(live), rng.randrange(top)))
            se.add(i, r_box(rng, size))
        elif u < 0.42 and se.boxes:
            se.rm(rng.choice(sorted(se.boxes)))
        elif u < 0.45:
            se.aabb([[rng.randrange(-size, size), rng.randrange(-size, size)] for _ in range(rng.randrange(1, 6))],
                    rng.choice((-1, 0, 1, 7)))
        elif u < 0.8:
            q = [rng.randrange(-2 * size, 2 * size) for _ in "xy"]
            if se.boxes and rng.random() < 0.4:
                b = se.boxes[rng.choice(sorted(se.boxes))]
                q = [rng.choice((b[0], b[2], b[0] - 1)), rng.choice((b[1], b[3], b[3] + 1))]
            se.closest(q)
        else:
            b = r_box(rng, size)
            if se.boxes and rng.random() < 0.4:
                c = se.boxes[rng.choice(sorted(se.boxes))]
                b = [c[2], c[3], c[2] + rng.randrange(size), c[3] + rng.randrange(size)]
            se.isec(b)


def random_ids(se, rng, nops):
    p = 0.6
    for k in range(nops):
        if k % 15 == 0:
            p = rng.choice((0.9, 0.5, 0.2))
        if rng.random() < p or not se.objs:
            se.append()
        else:
            se.remove(rng.choice(sorted(se.objs)))
        if k % 3 == 0:
            se.content()


def main():
    out, conf = sys.argv[1:3]
    conf = json.load(open(conf))
    common.silence()
    log = Log(out)
    if conf["mode"] == "random":
        for i in range(conf["histories"]):
            if common.stop():
                break
            rng = random.Random("%d/%d" % (conf["seed"], i))
            se = Session(log, conf["first"] + i, rng.choice((None, 1, 2, 10)))
            (random_boxes if conf["what"] == "boxes" else random_ids)(se, rng, conf["nops"])
    else:
        for i, prog in enumerate(conf["programs"]):
            se = Session(log, conf["first"] + i, (1, 2, None)[i % 3])
            for op in prog:
                getattr(se, op[0])(*op[1:])
            if conf["what"] == "ids":
                se.content()
            else:
                for q in conf["points"]:
                    se.closest(q)
                for b in conf["queries"]:
                    se.isec(b)
    log.close()


if __name__ == "__main__":
    common.guarded(main)
