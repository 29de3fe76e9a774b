------------------------------ MODULE Fields --------------------------------
(***************************************************************************)
(* Mesh size fields (bgem/gmsh/field.py).  F = id -> expression, evaluated *)
(* at a point of an entity of the model to an interval [lo, hi]:           *)
(* positions are integers in 1/64, values integers in 1/4096.              *)
(* Expressions [op, ...]:                                                  *)
(*  nodes pts | edges segs n | threshold f a sa b sb sig (sizes in 1/64)   *)
(*  min/max fs | box lo hi vin vout (-1: no limit) | restrict f ents clo   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt
Rng(s) == {s[k] : k \in DOMAIN s}
C(name, ok) == IF ok THEN {} ELSE {name}
INF == 1000000000
Abs(x) == IF x < 0 THEN -x ELSE x
Lo2(a, b) == IF a < b THEN a ELSE b
Hi2(a, b) == IF a > b THEN a ELSE b
MinS(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxS(S) == CHOOSE x \in S : \A y \in S : x >= y

RECURSIVE Root(_, _, _)
(* the largest r of a..b with r^2 <= n *)
Root(n, a, b) == IF a = b THEN a ELSE LET m == (a + b + 1) \div 2 IN IF m * m <= n THEN Root(n, m, b) ELSE Root(n, a, m - 1)
(* distance from the square of the distance; e: error of the position *)
DistOf(n, e) == LET r == Root(n, 0, 4000) IN
                <<Hi2(0, (r - e) * 64), (IF r * r = n THEN r + e ELSE r + 1 + e) * 64>>
Sq(p, q) == (p[1] - q[1]) * (p[1] - q[1]) + (p[2] - q[2]) * (p[2] - q[2]) + (p[3] - q[3]) * (p[3] - q[3])
Clamp(x, a, b) == IF x < Lo2(a, b) THEN Lo2(a, b) ELSE IF x > Hi2(a, b) THEN Hi2(a, b) ELSE x
(* the nearest point of a segment parallel to an axis *)
Foot(p, s) == <<Clamp(p[1], s[1][1], s[2][1]), Clamp(p[2], s[1][2], s[2][2]), Clamp(p[3], s[1][3], s[2][3])>>
Len1(s) == Abs(s[1][1] - s[2][1]) + Abs(s[1][2] - s[2][2]) + Abs(s[1][3] - s[2][3])
MinI(S) == <<MinS({x[1] : x \in S}), MinS({x[2] : x \in S})>>
MaxI(S) == <<MaxS({x[1] : x \in S}), MaxS({x[2] : x \in S})>>

(* linear from (a, sa) to (b, sb), constant outside; x in 1/4096, the result rounded down *)
Ramp(f, x) == IF x <= f.a * 64 THEN f.sa * 64
              ELSE IF x >= f.b * 64 THEN f.sb * 64
              ELSE f.sa * 64 + ((f.sb - f.sa) * (x - f.a * 64)) \div (f.b - f.a)
Widen(v, e) == <<v[1] - e, v[2] + e>>
Threshold(f, v) ==
    IF f.sig /\ ~(v[2] <= f.a * 64 - 1 \/ v[1] >= f.b * 64 + 1)
    THEN <<Lo2(f.sa, f.sb) * 64, Hi2(f.sa, f.sb) * 64>>
    ELSE LET x == Ramp(f, v[1]) y == Ramp(f, v[2]) d == Abs(f.sb - f.sa) IN
         (* a smooth step does not quite reach the bounds *)
         Widen(<<Lo2(x, y), Hi2(x, y)>>, 1 + (IF f.sig THEN d ELSE 0))
InBox(p, f) == \A k \in 1..3 : f.lo[k] <= p[k] /\ p[k] <= f.hi[k]
Lim(v) == IF v = -1 THEN INF ELSE v * 64

RECURSIVE Ev(_, _, _, _, _)
(* value of the field i at the point p of the entity ent, err: position known up to 1/64 *)
Ev(F, i, p, ent, err) ==
  LET f == F[i] IN
  CASE f.op = "nodes" -> MinI({DistOf(Sq(p, q), err) : q \in Rng(f.pts)})
    (* a curve is replaced by nodes not farther apart than its n-th part *)
    [] f.op = "edges" -> MinI({LET d == DistOf(Sq(p, Foot(p, s)), err) IN <<d[1], d[2] + (Len1(s) * 64) \div (f.n - 1) + 1>> : s \in Rng(f.segs)})
    [] f.op = "threshold" -> Threshold(f, Ev(F, f.f, p, ent, err))
    [] f.op = "min" -> MinI({Ev(F, j, p, ent, err) : j \in Rng(f.fs)})
    [] f.op = "max" -> MaxI({Ev(F, j, p, ent, err) : j \in Rng(f.fs)})
    [] f.op = "box" -> LET v == IF InBox(p, f) THEN Lim(f.vin) ELSE Lim(f.vout) IN <<v, v>>
    [] f.op = "restrict" -> LET v == Ev(F, f.f, p, ent, err) IN
         IF ent \in Rng(f.ents) THEN v ELSE IF ent \in Rng(f.clo) THEN <<v[1], INF>> ELSE <<INF, INF>>
(* ids of the fields a field depends on *)
RECURSIVE Uses(_, _)
Uses(F, i) == LET f == F[i] IN
    {i} \cup (CASE f.op \in {"threshold", "restrict"} -> Uses(F, f.f)
                [] f.op \in {"min", "max"} -> UNION {Uses(F, j) : j \in Rng(f.fs)}
                [] OTHER -> {})
=============================================================================
