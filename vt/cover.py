"""Turn the transition relation printed by TLC into programs that exercise every transition."""
from collections import deque


def canon(segs):
    return frozenset(tuple(s) for s in segs)


def apply(state, op):
    s = tuple(op[1])
    return state | {s} if op[0] == "new" else state - {s}


def cover(transitions, init=frozenset(), chunk=60):
    """programs (lists of ops), each starting at init, together taking every transition once"""
    out = {}
    for segs, op in transitions:
        out.setdefault(canon(segs), []).append((op[0], tuple(op[1])))
    for k in out:
        out[k] = sorted(set(out[k]))
    todo = {k: list(v) for k, v in out.items()}
    # breadth-first tree from init: shortest programs
    parent = {init: None}
    order = [init]
    q = deque([init])
    while q:
        s = q.popleft()
        for op in out.get(s, ()):
            t = apply(s, op)
            if t not in parent:
                parent[t] = (s, op)
                order.append(t)
                q.append(t)

    def path(t):
        p = []
        while parent[t] is not None:
            t, op = parent[t]
            p.append(op)
        return p[::-1]

    programs = []
    for start in order:
        while todo.get(start):
            prog = path(start)
            s = start
            while todo.get(s) and len(prog) < chunk:
                op = todo[s].pop()
                prog.append(op)
                s = apply(s, op)
            programs.append(prog)
    return programs
