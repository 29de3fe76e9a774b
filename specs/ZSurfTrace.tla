----------------------------- MODULE ZSurfTrace -----------------------------
(***************************************************************************)
(* Recorded calls of Z_Surface (S03) and GridSurface (S04). State: the     *)
(* surfaces made, in order.  obs: all of them observed after the call.     *)
(***************************************************************************)
EXTENDS ZSurf, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES l, ss
Init == l = 1 /\ ss = <<>>
RQ(P) == [i \in DOMAIN P |-> [j \in DOMAIN P[i] |-> I(P[i][j])]]
Made(e) == CASE e.op = "make" -> Surf(RQ(e.args[1]), e.args[2][1], e.args[2][2], e.args[3][1], e.args[3][2], RQ(e.args[4]), e.uvs)
             [] e.op = "grid" -> LET s == CHOOSE s \in Shapes(e.args[1]) : TRUE IN OfGrid(e.args[1], e.args[2], s[1], s[2], e.uvs)
Good(e) == e.op # "grid" \/ (Shapes(e.args[1]) # {} /\ e.args[3] = 0)
Refusals == {"GridNotInShapeExc", "IrregularGridExc"}
Flat(pts) == \A i, j \in DOMAIN pts : LET a == Minus(pts[i], pts[1]) b == Minus(pts[j], pts[1]) IN a[1] * b[2] = a[2] * b[1]
After(e) ==
  IF e.exc # "" THEN ss
  ELSE CASE e.op \in {"make", "grid"} -> IF Good(e) THEN Append(ss, Made(e)) ELSE ss
         [] e.op = "transform" -> [ss EXCEPT ![e.args[1]] = Transformed(@, e.args[2], e.args[3])]
         [] e.op = "apply" -> [ss EXCEPT ![e.args[1]] = Applied(@)]
         [] e.op = "copy" -> Append(ss, ss[e.args[1]])
         [] OTHER -> ss
Edge(uv) == \E d \in 1..2 : uv[d] \in {Zero, One}
Seen(s, o, uvs) ==
    C("transform", o.m = <<>> \/ (o.m = s.m /\ o.z = s.z))
    \cup C("quad", o.quad = Quad(s))
    \cup C("box", o.box = Aabb(s))
    \cup C("center", o.center = Centre(s))
    \cup UNION {LET x == o.pts[k] u == uvs[k][1] w == uvs[k][2] v == TLCEval(At(s, u, w, s.hs[k])) IN
         C("value", x.v \in {<<>>, v}) \cup C("array", x.a = v) \cup C("height", x.z = v[3])
         \cup (IF ~Parallel(s) THEN {} ELSE
               C("parameters", x.back = uvs[k]) \cup C("map", x.xy = SubSeq(v, 1, 2)) \cup C("of xy", x.axy \in {<<>>, v}) \cup C("height of xy", x.zxy = v[3] \/ (x.zxy = <<0, 0>> /\ Edge(uvs[k])))) : k \in DOMAIN uvs}
Bad(e, t) ==
  IF e.op = "driver" THEN {"exception"}
  ELSE IF e.op = "grid" /\ ~Good(e) THEN C("refused", e.exc \in Refusals \/ (Flat(e.args[1]) /\ e.exc = "LinAlgError"))
  ELSE IF e.exc # "" THEN {"exception"}
  ELSE (CASE e.op = "grid" -> C("shape", e.res = (CHOOSE s \in Shapes(e.args[1]) : TRUE))
          [] e.op = "full" -> LET s == ss[e.args[1]] IN UNION {C("full", e.res[k] = At(s, e.uvs[k][1], e.uvs[k][2], s.hs[k])) : k \in DOMAIN e.uvs}
          [] e.op = "function" -> C("function", e.res = [k \in 1..(e.args[2] * e.args[3]) |->
                LET u == Q((k - 1) \div e.args[3], e.args[2] - 1) v == Q((k - 1) % e.args[3], e.args[3] - 1) IN
                <<u, v, Add(Mul(I(e.args[1][1]), u), Mul(I(e.args[1][2]), Mul(u, v)))>>])
          [] OTHER -> {})
       \cup C("count", Len(e.obs) = Len(t))
       \cup UNION {Seen(t[k], e.obs[k], e.uvs) : k \in DOMAIN t \cap DOMAIN e.obs}
Report(e, bad) == PrintT("@@BAD " \o ToJson([line |-> l, h |-> e.h, op |-> e.op, args |-> e.args, exc |-> e.exc, clauses |-> bad]))
Step == /\ l <= Len(Trace) /\ l' = l + 1
        /\ \E e \in {Trace[l]} :
             IF e.op = "new" THEN ss' = <<>>
             ELSE \E t \in {TLCEval(After(e))} :
                    /\ \E bad \in {TLCEval(Bad(e, t))} : IF bad = {} THEN TRUE ELSE Report(e, bad)
                    /\ ss' = t
Spec == Init /\ [][Step]_<<l, ss>>
Done == PrintT("@@DONE " \o ToString(TLCGet("stats").diameter - 1) \o " " \o ToString(Len(Trace)))
=============================================================================
