"""
Drives bgem.undo with undoable actions on a small document and records every call.
usage: undodrv.py OUT CONFIG; CONFIG: {"mode": "replay"|"random", "programs": [...], "seed", "histories", "nops"}
"""
import json
import random
import sys
import common
from common import Log, limit, Hang, exc_name

from bgem import undo

DOC = [None, None, None]      # the documents of stack 1 and 2
CUR = [1]


class Boom(Exception):
    pass


def doc():
    return DOC[CUR[0]]


@undo.undoable
def act_set(k, v):
    d = doc()
    old = d[k]
    d[k] = v
    yield "set", v
    d[k] = old


@undo.undoable
def act_bad(k, v):
    raise Boom()
    yield "bad", v


@undo.undoable
def act_badundo(k, v):
    d = doc()
    d[k] = v
    yield "badundo", v
    raise Boom()


@undo.undoable
def act_badredo(k, v, seen):
    if seen:
        raise Boom()
    seen.append(1)
    d = doc()
    old = d[k]
    d[k] = v
    yield "badredo", v
    d[k] = old


@undo.undoable
def act_via(k, v):
    d = doc()
    old = d[k]
    d[k] = v
    yield "via", v
    act_set(k, old)


@undo.undoable
def act_nest(k, v):
    d = doc()
    act_set(k, v)
    k2 = k % 3 + 1
    old = d[k2]
    d[k2] = v
    yield "nest", v
    d[k2] = old


@undo.undoable
def act_plain(k, v):
    d = doc()
    old = d[k]
    d[k] = v
    yield
    d[k] = old


@undo.undoable
def act_quiet(k, v):
    d = doc()
    old = d[k]
    d[k] = v
    yield "quiet"
    d[k] = old


@undo.undoable
def act_alone(k, v):
    d = doc()
    old = d[k]
    d[k] = v
    yield ("alone",)
    d[k] = old


@undo.undoable
def act_pair(k, v=None, also=None):
    d = doc()
    old = d[k]
    d[k] = v
    yield "pair", v, also
    d[k] = old


class Session:
    def __init__(self, log, h, own=None):
        self.log, self.h = log, h
        self.stacks = {}
        self.calls = {1: [0, 0], 2: [0, 0]}
        self.groups = {1: [], 2: []}
        for i in (2, 1):
            st = own if own is not None and i == 1 else undo.Stack()
            self.stacks[i] = st
            DOC[i] = {1: 0, 2: 0, 3: 0}
            st.docallback = lambda c=self.calls[i]: c.__setitem__(0, c[0] + 1)
            st.undocallback = lambda c=self.calls[i]: c.__setitem__(1, c[1] + 1)
        CUR[0] = 1
        undo.setstack(self.stacks[1])
        self.emit("reset", [], "")

    def emit(self, op, args, exc):
        i = CUR[0]
        rec = {"h": self.h, "op": op, "args": args, "exc": exc, "regs": [DOC[i][k] for k in (1, 2, 3)]}
        try:
            s = undo.stack()
            ut, rt = s.undotext(), s.redotext()
            rec["obs"] = {"canundo": int(s.canundo()), "canredo": int(s.canredo()), "undocount": s.undocount(),
                          "redocount": s.redocount(), "undotext": "none" if ut is None else ut,
                          "redotext": "none" if rt is None else rt, "changed": int(s.haschanged()),
                          "done": self.calls[i][0], "undone": self.calls[i][1]}
        except Exception as e:
            rec["exc"] = "observe:" + exc_name(e)
            rec["obs"] = {k: -1 for k in ("canundo", "canredo", "undocount", "redocount", "changed", "done", "undone")}
            rec["obs"].update(undotext="?", redotext="?")
        self.log.put(rec)

    def step(self, op, *args):
        exc = ""
        try:
            with limit(10):
                self.run(op, *args)
        except Boom:
            exc = "Boom"
        except (Exception, Hang) as e:
            exc = exc_name(e)
        self.emit(op, list(args), exc)
        return exc

    def run(self, op, *a):
        s = undo.stack()
        if op == "act":
            kind, k, v = a
            fn = globals()["act_" + kind]
            r = fn(k, v, []) if kind == "badredo" else fn(k, also=[k], v=v) if kind == "pair" else fn(k, v)
            if r != {"plain": None, "quiet": None, "alone": None, "pair": (v, [k])}.get(kind, v):
                raise ValueError("the value of the action is lost")
        elif op == "begin":
            g = undo.group("many {count}" if a[0] == "many" else a[0])
            self.groups[CUR[0]].append(g)
            g.__enter__()
        elif op == "end":
            g = self.groups[CUR[0]].pop()
            e = Boom() if a[0] else None
            if g.__exit__(Boom if a[0] else None, e, None):
                raise ValueError("the exception is swallowed")
        elif op == "switch":
            CUR[0] = a[0]
            undo.setstack(self.stacks[a[0]])
        elif op == "disable":
            from bgem.polygons import polygons
            polygons.disable_undo()
        elif op == "enable":
            from bgem.polygons import polygons
            polygons.enable_undo()
        else:
            getattr(s, op)()


KINDS = ["set"] * 8 + ["plain", "quiet", "alone", "pair"] + ["via", "via", "nest", "nest", "bad", "badundo", "badredo"]


def random_history(se, rng, nops):
    n = 0
    on = {1: True, 2: True}
    for _ in range(nops):
        i = CUR[0]
        depth = len(se.groups[i])
        n += 1
        u = rng.random()
        if depth:
            if u < 0.6:
                se.step("act", rng.choice(KINDS), rng.randrange(1, 4), n)
            elif u < 0.75 and depth < 3:
                se.step("begin", rng.choice(["group", "deep", "many"]))
            else:
                se.step("end", int(rng.random() < 0.3))
        elif u < 0.35:
            se.step("act", rng.choice(KINDS), rng.randrange(1, 4), n)
        elif u < 0.45:
            se.step("begin", rng.choice(["group", "many"]))
        elif u < 0.68:
            if se.step("undo"):
                on[i] = True
        elif u < 0.85:
            if se.step("redo"):
                on[i] = True
        elif u < 0.90:
            se.step("savepoint")
        elif u < 0.92:
            se.step("clear")
            on[i] = True
        elif u < 0.96:
            se.step("disable" if on[i] else "enable")
            on[i] = not on[i]
        else:
            se.step("switch", 3 - i)


def main():
    out, conf = sys.argv[1:3]
    conf = json.load(open(conf))
    common.silence()
    log = Log(out)
    h = conf.get("first", 0)
    # the stack made by the module on demand, and a stack without callbacks
    DOC[1] = {1: 0, 2: 0, 3: 0}
    own = undo.stack()
    act_set(1, 1)
    own.undo()
    own.redo()
    own.clear()
    if conf["mode"] == "replay":
        for i, prog in enumerate(conf["programs"]):
            se = Session(log, h + i)
            for op in prog:
                se.step(*(["begin", "group"] if op[0] == "begin" else op))
            if common.stop():
                break
    else:
        for i in range(conf["histories"]):
            random_history(Session(log, h + i, own if i == 0 else None), random.Random("%d/%d" % (conf["seed"], h + i)), conf["nops"])
            if common.stop():
                break
    log.close()


if __name__ == "__main__":
    common.guarded(main)
