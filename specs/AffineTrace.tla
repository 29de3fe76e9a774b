----------------------------- MODULE AffineTrace -----------------------------
(***************************************************************************)
(* Recorded calls of GeometryOCC and ObjectSet on single shapes (G08).     *)
(* State: bodies ever made, sets as sequences of bodies. Line: op, args,   *)
(*  obs: all sets after the call as [entities, mass, moment, zero],        *)
(*  entities [d, tag, m, m / pi, centre, vertices, numbers, mass], m the   *)
(*  mass of solids and its square else; res: other results                 *)
(***************************************************************************)
EXTENDS Affine, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES l, bs, ss
Init == l = 1 /\ bs = <<>> /\ ss = <<>>
Makes == {"simplex", "box", "rect", "frame", "cyl", "poly"}
Made(e) ==
  LET a == e.args IN
  CASE e.op = "simplex" -> Simplex(a[1])
    [] e.op = "box" -> Box(a[1], a[2])
    [] e.op = "rect" -> Rect(a[1], a[2])
    [] e.op = "frame" -> Rect(<<Mul(I(2), a[1][1]), Mul(I(2), a[1][2])>>, O3)
    [] e.op = "poly" -> Poly(a[1])
    [] OTHER -> Cyl(a[1], a[2], a[3], a[4], e.seam)
AfterB(e) ==
  IF e.exc # "" THEN bs
  ELSE IF e.op \in Makes THEN Append(bs, TLCEval(Made(e)))
  ELSE IF e.op \in {"translate", "rotate", "scale"} THEN
    LET mine == {ss[e.args[1]][k] : k \in DOMAIN ss[e.args[1]]} IN
    [i \in DOMAIN bs |-> IF i \notin mine THEN bs[i]
        ELSE CASE e.op = "translate" -> Shifted(bs[i], e.args[2])
               [] e.op = "rotate" -> Turned(bs[i], e.args[2], e.args[3])
               [] OTHER -> Scaled(bs[i], e.args[2], e.args[3])]
  ELSE IF e.op = "copy" THEN bs \o [k \in DOMAIN ss[e.args[1]] |-> bs[ss[e.args[1]][k]]]
  ELSE bs
RECURSIVE Joined(_, _)
Joined(ids, k) == IF k > Len(ids) THEN <<>> ELSE ss[ids[k]] \o Joined(ids, k + 1)
AfterS(e) ==
  IF e.exc # "" THEN ss
  ELSE IF e.op \in Makes THEN Append(ss, <<Len(bs) + 1>>)
  ELSE IF e.op = "copy" THEN Append(ss, [k \in DOMAIN ss[e.args[1]] |-> Len(bs) + k])
  ELSE IF e.op = "group" THEN Append(ss, Joined(e.args[1], 1))
  ELSE ss
Within(a, b, t) == a - b <= t /\ b - a <= t
RECURSIVE SumI(_, _)
SumI(s, k) == IF k = 0 THEN 0 ELSE s[k] + SumI(s, k - 1)
Total(s) == SumI(s, Len(s))
Abs1(x) == IF x < 0 THEN -x ELSE x
Entity(x, b) ==
  C("dimension", x[1] = b.d)
  \cup C("measure", (IF b.pi THEN x[4] ELSE x[3]) = Measure(b))
  \cup C("centre", b.d = 0 \/ x[5] = b.c)
  \cup C("vertices", {x[6][k] : k \in DOMAIN x[6]} = {b.v[k] : k \in DOMAIN b.v})
  \cup C("parts", x[7] = b.n)
Seen(o, s, t) ==
  IF Len(o[1]) # Len(s) THEN {"count"}
  ELSE UNION {Entity(o[1][k], t[s[k]]) : k \in DOMAIN s}
       \cup C("mass", Within(o[2], Total([k \in DOMAIN s |-> o[1][k][8]]), Len(s)))
       \cup C("moment", \A d \in 1..3 : LET mo == [k \in DOMAIN s |-> IF t[s[k]].d = 0 THEN 0 ELSE (o[1][k][8] * t[s[k]].c[d][1]) \div t[s[k]].c[d][2]]
                                            tol == Total([k \in DOMAIN s |-> 2 + Abs1(t[s[k]].c[d][1]) \div t[s[k]].c[d][2]]) IN
                        Within(o[3][d], Total(mo), tol))
       \cup C("zero", (o[4] = 1) = (\A k \in DOMAIN s : t[s[k]].d = 0))
(* the file has the shapes of the model, each as often as there *)
Alike(x, b) == x[1] = b.d /\ (IF b.pi THEN x[4] ELSE x[3]) = Measure(b) /\ (IF b.d = 0 THEN x[6] = b.v ELSE x[5] = b.c) /\ Len(x[6]) = Cardinality({b.v[k] : k \in DOMAIN b.v})
Contents(X, t) ==
  Len(X) = Len(t) /\ \A i \in DOMAIN t :
    Cardinality({k \in DOMAIN X : Alike(X[k], t[i])})
      = Cardinality({j \in DOMAIN t : t[j].d = t[i].d /\ t[j].pi = t[i].pi /\ Measure(t[j]) = Measure(t[i]) /\ t[j].c = t[i].c /\ Len(t[j].v) = Len(t[i].v)})
(* first words of the files *)
Heads == [msh |-> "$MeshFormat", msh2 |-> "$MeshFormat 2.2", unv |-> "-1 2411", vtk |-> "# vtk", stl |-> "solid Created", mesh |-> "MeshVersionFormatted 2",
          su2 |-> "NDIME= 3", inp |-> "*Heading", vrml |-> "#VRML V1.0", bdf |-> "$ Created"]
Dims(s) == {bs[s[k]].d : k \in DOMAIN s}
Other(e) ==
  CASE e.op = "cyl" -> C("vertices", Seam(e.seam, e.args[1], e.args[2], e.args[4])) \cup C("argument", Dot(e.args[2], e.args[2]) = Mul(e.args[3], e.args[3]))
    [] e.op \in {"translate", "rotate", "scale"} -> C("self", e.res = <<1>>)
    [] e.op = "dims" -> C("common", LET D == Dims(ss[e.args[1]]) IN e.res = (IF Cardinality(D) = 1 THEN <<CHOOSE d \in D : TRUE>> ELSE <<-1>>))
    [] e.op = "brep" -> C("name", e.text = e.args[1] \o ".brep") \cup C("contents", Contents(e.res, bs))
    [] e.op = "merge" -> C("merged", LET o == [k \in 1..3 |-> IF k = 3 /\ bs[1].d = 2 THEN bs[1].c[k] ELSE Sub(bs[1].c[k], Mul(Half, e.args[1][k]))] IN e.res = CellCounts({LatticeOf(bs[i], e.args[1], o) : i \in DOMAIN bs}))
    [] e.op = "clear" -> C("cleared", e.res = <<0>>)
    [] e.op = "files" ->
         LET f == IF e.args[1] = "" THEN "msh" ELSE e.args[1] IN
         C("name", e.text = "mm." \o f) \cup C("format", e.res[1] = Heads[f])
         \cup C("nodes", e.res[3] = <<>> \/ e.res[3] = e.res[2])
    [] OTHER -> {}
Bad(e, t, s) ==
  IF e.op = "driver" \/ e.exc # "" THEN {"exception"}
  ELSE Other(e) \cup C("argument", e.kept = 1) \cup (IF e.obs = <<>> THEN {} ELSE C("count", Len(e.obs) = Len(s)) \cup UNION {Seen(e.obs[i], s[i], t) : i \in DOMAIN s \cap DOMAIN e.obs}
       \cup C("shared", \A i, j \in DOMAIN s \cap DOMAIN e.obs : \A k \in DOMAIN s[i] \cap DOMAIN e.obs[i][1], m \in DOMAIN s[j] \cap DOMAIN e.obs[j][1] :
                (s[i][k] = s[j][m]) <=> (SubSeq(e.obs[i][1][k], 1, 2) = SubSeq(e.obs[j][1][m], 1, 2))))
Report(e, bad) == PrintT("@@BAD " \o ToJson([line |-> l, h |-> e.h, op |-> e.op, args |-> e.args, exc |-> e.exc, clauses |-> bad]))
Step == /\ l <= Len(Trace) /\ l' = l + 1
        /\ \E e \in {Trace[l]} :
             IF e.op = "new" THEN bs' = <<>> /\ ss' = <<>>
             ELSE \E t \in {TLCEval(AfterB(e))} : \E s \in {TLCEval(AfterS(e))} :
                    /\ \E bad \in {TLCEval(Bad(e, t, s))} : IF bad = {} THEN TRUE ELSE Report(e, bad)
                    /\ bs' = t /\ ss' = s
Spec == Init /\ [][Step]_<<l, bs, ss>>
Done == PrintT("@@DONE " \o ToString(TLCGet("stats").diameter - 1) \o " " \o ToString(Len(Trace)))
=============================================================================
