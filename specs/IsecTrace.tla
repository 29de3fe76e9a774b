------------------------------ MODULE IsecTrace -----------------------------
(***************************************************************************)
(* Recorded results of IsecSurfSurf.get_intersections and                  *)
(* IsecCurveSurf.get_intersection (PROP S07). Numbers <<n, d>>.            *)
(***************************************************************************)
EXTENDS Isec, Json, IOUtils, Functions
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLE l
Init == l = 1
C(name, ok) == IF ok THEN {} ELSE {name}
Rng(s) == {s[k] : k \in DOMAIN s}

(* points: uv1, uv2, xyz, patches1, patches2 (lists of numbers), edge *)
PointBad(e, x, X) ==
  LET ths == {c \in X : c.uv1 = x.uv1 /\ c.uv2 = x.uv2} P1 == Patches(e.s1, x.uv1) P2 == Patches(e.s2, x.uv2) IN
  IF ths = {} THEN (* a knot line within the plane of the other surface: any common point is right *)
     C("no crossing", /\ \E th \in Threads(e.s1) : Fixed(e.s1, th) = x.uv1[1 + th[1]] /\ Meets(e.s1, e.s2, th) = <<>>
                      /\ Place(e.s1, x.uv1) = x.xyz /\ Place(e.s2, x.uv2) = x.xyz)
  ELSE C("place", \A c \in ths : c.xyz = x.xyz)
       \cup C("patches", Rng(x.patches1) # {} /\ Rng(x.patches1) \subseteq P1 /\ Rng(x.patches2) # {} /\ Rng(x.patches2) \subseteq P2)
       (* the parameter fixed by the thread is exactly the knot: both neighbours are there *)
       \cup C("neighbours", \E c \in ths : LET a == c.th[1] IN
             \A i \in Holds(IF a = 0 THEN e.s1.nu ELSE e.s1.nv, x.uv1[1 + a]) :
                \E q \in Rng(x.patches1) : i = IF a = 0 THEN q \div e.s1.nv ELSE q % e.s1.nv)
       \cup C("boundary", /\ ((\E k \in 1..2 : x.uv1[k] \in {Zero, One} /\ \A c \in ths : c.th[1] = k - 1) => x.edge)
                          /\ ((\A k \in 1..2 : x.uv1[k] \notin {Zero, One}) => ~x.edge))
(* points grouped by patches of either surface, and those on the boundary of the first one *)
GroupsBad(e) ==
  C("groups", \A k \in DOMAIN e.groups :
       /\ Len(e.groups[k]) = N(IF k = 1 THEN e.s1 ELSE e.s2)
       /\ \A p \in DOMAIN e.groups[k] : Rng(e.groups[k][p]) = {i \in DOMAIN e.res : p - 1 \in Rng(IF k = 1 THEN e.res[i].patches1 ELSE e.res[i].patches2)})
  \cup C("edges", \A k \in DOMAIN e.edges : Rng(e.edges[k]) = {i \in DOMAIN e.res : e.res[i].edge})
(* a point of the surface given by a patch and parameters <<u, v>> / 16: all patches around, where it lies in the given one *)
Side(n, i, w) == IF w * n = 16 * i THEN -1 ELSE IF w * n = 16 * (i + 1) THEN 1 ELSE 0
PointsBad(e) ==
  UNION {LET x == e.res[k] on == [d \in 1..2 |-> IF x.uv[d] \in {0, 16} THEN 1 ELSE 0] IN
         C("patches", Rng(x.patches1) = Patches(e.s1, <<Q(x.uv[1], 16), Q(x.uv[2], 16)>>))
         \cup C("sides", x.sides = <<Side(e.s1.nu, x.iu, x.uv[1]), Side(e.s1.nv, x.iv, x.uv[2])>>)
         \cup C("boundary", x.edges = on /\ x.edge = IF on = <<0, 0>> THEN 0 ELSE 1)
         : k \in DOMAIN e.res}
CrossBad(e) ==
  \E X \in {TLCEval(Crossings(e.s1, e.s2))} :
  \E bad \in {(UNION {PointBad(e, e.res[k], X) : k \in DOMAIN e.res})
              \cup C("missed", \A c \in X : \E k \in DOMAIN e.res : e.res[k].uv1 = c.uv1 /\ e.res[k].uv2 = c.uv2)
              \cup GroupsBad(e)} :
     IF bad = {} THEN TRUE ELSE PrintT("@@BAD " \o ToJson([line |-> l, h |-> e.h, op |-> e.op, args |-> <<>>, exc |-> e.exc, clauses |-> bad]))
(* res: iu, iv, it, conv, uvt, xyz for every patch and interval of the line q + t d *)
CurveBad(e) ==
  LET m == Meet(e.s2, e.q, e.d) IN
  UNION {LET x == e.res[k] IN
     IF m = <<>> THEN C("parallel", Det(e.s2.a, e.s2.b, Minus(e.q, e.s2.p)) = 0 \/ ~x.conv)
     ELSE LET in == Inside(m) /\ x.iu \in Holds(e.s2.nu, m[1]) /\ x.iv \in Holds(e.s2.nv, m[2]) /\ x.it \in Holds(e.nt, m[3]) IN
          C("found", in = x.conv) \cup (IF in /\ x.conv THEN C("place", x.uvt = m /\ x.xyz = Place(e.s2, m)) ELSE {})
     : k \in DOMAIN e.res}
(* surfaces that are not planes: every reported point lies on both (distances in 1e-9) *)
BentBad(e) == C("off surface", \A k \in DOMAIN e.res : e.res[k].r1 <= 20 /\ e.res[k].r2 <= 20)
              \cup C("outside", \A k \in DOMAIN e.res : e.res[k].inside)
(* the graph of heights e.z over the square (strictly monotone along both axes) and the level e.level / 4:
   res: u, v (in 1e-8), patches1, r1, r2 *)
Height(z, i, j, nu, nv) == (* four times the height at the knots i, j *)
  LET R(k, n) == IF k = 0 THEN {1} ELSE IF k = n THEN {n + 2} ELSE {k + 1, k + 2}
      f(k, n) == IF k = 0 \/ k = n THEN 2 ELSE 1 IN
  f(i, nu) * f(j, nv) * FoldFunction(LAMBDA x, y : x + y, 0, [c \in R(i, nu) \X R(j, nv) |-> z[c[1]][c[2]]])
Unit8 == 100000000
HillBad(e) ==
  LET nu == e.s1.nu nv == e.s1.nv
      H(i, j) == Height(e.z, i, j, nu, nv) - e.level
      Spans == {<<0, i, j>> : i \in 0..nu, j \in 0..(nv - 1)} \cup {<<1, j, i>> : j \in 0..nv, i \in 0..(nu - 1)}
      Ends(s) == IF s[1] = 0 THEN <<H(s[2], s[3]), H(s[2], s[3] + 1)>> ELSE <<H(s[3], s[2]), H(s[3] + 1, s[2])>>
      Cut == {s \in Spans : LET w == Ends(s) IN (w[1] <= 0 /\ w[2] >= 0) \/ (w[1] >= 0 /\ w[2] <= 0)}
      On(x, s) == LET nf == IF s[1] = 0 THEN nu ELSE nv no == IF s[1] = 0 THEN nv ELSE nu
                      fx == IF s[1] = 0 THEN x.u ELSE x.v ot == IF s[1] = 0 THEN x.v ELSE x.u
                      id == IF s[1] = 0 THEN {i * nv + s[3] : i \in {s[2] - 1, s[2]} \cap 0..(nu - 1)}
                            ELSE {s[3] * nv + j : j \in {s[2] - 1, s[2]} \cap 0..(nv - 1)} IN
                  /\ fx = s[2] * (Unit8 \div nf)
                  /\ s[3] * (Unit8 \div no) - 2 <= ot /\ ot <= (s[3] + 1) * (Unit8 \div no) + 2
                  /\ id \subseteq Rng(x.patches1) IN
  C("missed", \A s \in Cut : \E k \in DOMAIN e.res : LET x == e.res[k] IN
        On(x, s) \/ (* at a grid point found along the other axis *)
                    \E s2 \in Cut : s2[1] # s[1] /\ On(x, s2) /\ 0 \in Rng(Ends(s)) /\ 0 \in Rng(Ends(s2)))
  \cup C("no crossing", \A k \in DOMAIN e.res : \E s \in Cut : On(e.res[k], s))
  \cup C("off surface", \A k \in DOMAIN e.res : e.res[k].r1 <= 20 /\ e.res[k].r2 <= 20)
Report(e, bad) == IF bad = {} THEN TRUE ELSE PrintT("@@BAD " \o ToJson([line |-> l, h |-> e.h, op |-> e.op, args |-> <<>>, exc |-> e.exc, clauses |-> bad]))
Step == l <= Len(Trace) /\ l' = l + 1 /\ \E e \in {Trace[l]} :
          IF e.exc # "" THEN Report(e, {"exception"})
          ELSE CASE e.op = "cross" -> CrossBad(e)
                 [] e.op = "curve" -> Report(e, CurveBad(e))
                 [] e.op = "points" -> Report(e, PointsBad(e))
                 [] e.op = "hill"  -> Report(e, HillBad(e))
                 [] e.op = "bent"  -> Report(e, BentBad(e))
                 [] OTHER -> TRUE
Spec == Init /\ [][Step]_l
Done == PrintT("@@DONE " \o ToString(TLCGet("stats").diameter - 1) \o " " \o ToString(Len(Trace)))
=============================================================================
