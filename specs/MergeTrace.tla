----------------------------- MODULE MergeTrace -----------------------------
(***************************************************************************)
(* Overlay of planar drawings (bgem/polygons/merge.py).                    *)
(* One line per call:                                                      *)
(*  op   "many"   intersect_decompositions(ins)                            *)
(*       "single" intersect_single(ins[1], ins[2])                         *)
(*  ins  states of the inputs before the call, ins2 after it               *)
(*  st   state of the result                                               *)
(*  maps[i][d] = pairs <<id in the result, id in input i>> (1-based ids)   *)
(*  ident = 1: a result object missing in maps[1] maps to itself if input  *)
(*          1 had that id (convention of intersect_single)                 *)
(***************************************************************************)
EXTENDS PolyState, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
PROP  == IOEnv.PROP
VARIABLES l
vars == <<l>>
Init == l = 1

Report(e, bad) == PrintT("@@BAD " \o ToJson([line |-> l, h |-> e.h, op |-> e.op, args |-> e.args,
                                           exc |-> e.exc, clauses |-> bad]))

(* segment s = <<p, q>> (coordinates) lies on segment t *)
LiesOn(s, t) == OnSegment(s[1], t[1], t[2]) /\ OnSegment(s[2], t[1], t[2])
Coords(P, S) == [s \in DOMAIN S |-> <<P[S[s][1]], P[S[s][2]]>>]
Vec(s) == Sub(s[2], s[1])
Abs(a) == IF a < 0 THEN -a ELSE a
RECURSIVE SumAlong(_, _, _)
SumAlong(D, Q, u) == IF D = {} THEN 0
    ELSE LET s == CHOOSE s \in D : TRUE IN Abs(Dot(Vec(Q[s]), u)) + SumAlong(D \ {s}, Q, u)

PairSet(m) == {<<m[k][1], m[k][2]>> : k \in DOMAIN m}

(* the face of the drawing (P2, S, F) (P2 = doubled coordinates) on the left *)
(* of the dart from p to q (doubled), which crosses nothing of the drawing:  *)
(* <<>> is the unbounded face                                                *)
FaceOfCycle(F, w) == IF w \in F.pos THEN w ELSE F.inface[w]
CycleWith(F, d) == CHOOSE w \in F.pos \cup F.neg : \E i \in DOMAIN w : w[i] = d
LeftFace(P2, S, F, p, q) ==
    LET on == {d \in DOMAIN F.next :
                 LET a == P2[TailOf(S, d)] b == P2[HeadOf(S, d)] IN
                 LiesOn(<<p, q>>, <<a, b>>) /\ Dot(Sub(b, a), Sub(q, p)) > 0}
    IN IF on # {} THEN FaceOfCycle(F, CycleWith(F, CHOOSE d \in on : TRUE))
       ELSE LET mid == <<(p[1] + q[1]) \div 2, (p[2] + q[2]) \div 2>>
                cs == {w \in F.pos : InsideCycle(P2, S, w, mid)}
            IN IF cs = {} THEN <<>> ELSE CHOOSE w \in cs : \A v \in cs : F.area[w] <= F.area[v]

Scaled(P, k) == [i \in DOMAIN P |-> <<k * P[i][1], k * P[i][2]>>]

(* total map of the result's ids to an input's ids, as a set of pairs *)
FullMap(e, i, d, ids, ids0) ==
    LET given == PairSet(e.maps[i][d]) IN
    IF i = 1 /\ e.ident = 1
    THEN given \cup {<<x, x>> : x \in {y \in ids \cap ids0 : ~\E g \in given : g[1] = y}}
    ELSE given

InputBad(e, st, P, S, F, i) ==
    LET a  == e.ins[i]
        PA == PtMap(a) SA == SegMap(a)
    IN UNION {
       LET QA == Coords(PA, SA) Q == Coords(P, S)
           ptmap  == FullMap(e, i, 1, DOMAIN P, DOMAIN PA)
           segmap == FullMap(e, i, 2, DOMAIN S, DOMAIN SA)
           polmap == FullMap(e, i, 3, Ids(st.polys), Ids(a.polys))
       IN C("drawn", \A s \in DOMAIN SA : SumAlong({c \in DOMAIN S : LiesOn(Q[c], QA[s])}, Q, Vec(QA[s]))
                                            = Dot(Vec(QA[s]), Vec(QA[s])))
          \cup C("points", {PA[p] : p \in DOMAIN PA} \subseteq {P[p] : p \in DOMAIN P})
          \cup C("pointmap", IF i = 1 /\ e.ident = 1
                             THEN \A p \in DOMAIN PA : p \in DOMAIN P /\ P[p] = PA[p]
                             ELSE ptmap = {x \in (DOMAIN P) \X (DOMAIN PA) : P[x[1]] = PA[x[2]]})
          \cup C("segmentmap", segmap = {x \in (DOMAIN S) \X (DOMAIN SA) : LiesOn(Q[x[1]], QA[x[2]])})
          \cup C("polygonmap",
                 polmap = {<<st.outer, a.outer>>} \cup
                   { <<FacePoly(st, w), FacePoly(a, LeftFace(Scaled(PA, 2), SA, FA,
                         Scaled(P, 2)[TailOf(S, w[1])], Scaled(P, 2)[HeadOf(S, w[1])]))>> : w \in F.pos })
       : FA \in {TLCEval(Faces(PA, SA))}}

Bad(e) ==
  LET st == e.st IN
  IF e.exc # "" THEN {"exception"}
  ELSE IF ~WellFormed(st) THEN {"wellformed"}
  ELSE UNION { IF ~PlanarDrawing(P, S) THEN {"planar"} ELSE
        UNION { EmbeddingClauses(st, F, P, S) \cup FaceClauses(st, F, P, S) \cup NestingClauses(st, F, P, S)
                \cup UNION {InputBad(e, st, P, S, F, i) : i \in DOMAIN e.ins}
                \cup C("onlyinput", \A c \in DOMAIN S : \E i \in DOMAIN e.ins :
                          \E s \in DOMAIN SegMap(e.ins[i]) :
                             LiesOn(<<P[S[c][1]], P[S[c][2]]>>, Coords(PtMap(e.ins[i]), SegMap(e.ins[i]))[s]))
                \cup C("newpoints", \A p \in DOMAIN P :
                          \/ \E i \in DOMAIN e.ins : \E q \in Ids(e.ins[i].pts) : PtMap(e.ins[i])[q] = P[p]
                          \/ Cardinality({x \in {<<i, s>> : i \in DOMAIN e.ins, s \in 1..200} :
                                 /\ x[2] \in Ids(e.ins[x[1]].segs)
                                 /\ LET t == Coords(PtMap(e.ins[x[1]]), SegMap(e.ins[x[1]]))[x[2]]
                                    IN OnSegment(P[p], t[1], t[2])}) >= 2)
                \cup C("inputskept", \A i \in DOMAIN e.ins : (e.op = "single" /\ i = 1) \/ e.ins2[i] = e.ins[i])
              : F \in {TLCEval(Faces(P, S))} }
       : P \in {TLCEval(PtMap(st))}, S \in {TLCEval(SegMap(st))} }

Step == /\ l <= Len(Trace) /\ l' = l + 1
        /\ \E e \in {Trace[l]} : \E bad \in {IF e.op = "driver" THEN {"exception"} ELSE Bad(e)} :
             IF bad = {} THEN TRUE ELSE Report(e, bad)
Spec == Init /\ [][Step]_vars
Done == PrintT("@@DONE " \o ToString(TLCGet("stats").diameter - 1) \o " " \o ToString(Len(Trace)))
=============================================================================
