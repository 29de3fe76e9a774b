------------------------------ MODULE PlotDesign ----------------------------
(***************************************************************************)
(* All sequences of plot calls: every item is shown exactly once, in the   *)
(* figure of its dimension, in the order of the calls, under a new number. *)
(***************************************************************************)
EXTENDS Plots, Json
CONSTANTS MaxOps, PRINT
VARIABLES cv, prog, seen
vars == <<cv, prog, seen>>
(* kinds of requests of the calls; the driver picks the geometry *)
Calls == [plot_2d |-> <<"lines">>, scatter_2d |-> <<"markers">>, curve |-> <<"curve">>, curve_with_poles |-> <<"curve", "curve poles">>,
          curve_poles |-> <<"curve poles">>, plot_surface |-> <<"surface">>, scatter_3d |-> <<"markers3">>, surface |-> <<"spline">>,
          surface_with_poles |-> <<"spline", "surface poles">>, grid |-> <<"grid">>, surface_poles |-> <<"surface poles">>]
Req(kind, no) == [NoReq EXCEPT !.kind = kind, !.n = <<no>>]
Init == cv = Empty /\ prog = <<>> /\ seen = <<>>
Call(n) == /\ cv' = PutAll(cv, [k \in DOMAIN Calls[n] |-> Req(Calls[n][k], 10 * Len(prog) + k)])
           /\ prog' = Append(prog, n) /\ UNCHANGED seen
Show == /\ prog # <<>> /\ prog' = Append(prog, "show") /\ cv' = Clear(cv)
        /\ seen' = seen \o (IF cv.d3 = <<>> THEN <<>> ELSE <<[file |-> <<3, cv.n>>, its |-> cv.d3]>>)
                        \o (IF cv.d2 = <<>> THEN <<>> ELSE <<[file |-> <<2, cv.n>>, its |-> cv.d2]>>)
Next == Len(prog) < MaxOps /\ (Show \/ \E n \in DOMAIN Calls : Call(n))
Spec == Init /\ [][Next]_vars
Every(s) == FoldLeft(LAMBDA acc, f : acc \o f.its, <<>>, s)
Wanted(p) == UNION {IF p[k] = "show" THEN {} ELSE {<<Calls[p[k]][j], 10 * (k - 1) + j>> : j \in DOMAIN Calls[p[k]]} : k \in DOMAIN p}
Laws == LET its == Every(seen) \o cv.d2 \o cv.d3 IN
  /\ {<<its[k].kind, its[k].n[1]>> : k \in DOMAIN its} = Wanted(prog) /\ Len(its) = Cardinality(Wanted(prog))
  /\ \A i, j \in DOMAIN seen : i # j => seen[i].file # seen[j].file
  /\ \A i \in DOMAIN seen : seen[i].its # <<>> /\ \A a, b \in DOMAIN seen[i].its : a < b => seen[i].its[a].n[1] < seen[i].its[b].n[1]
  /\ \A i \in DOMAIN seen : \A a \in DOMAIN seen[i].its : Flat2(seen[i].its[a]) = (seen[i].file[1] = 2)
Emit == ~PRINT \/ Len(prog') < MaxOps \/ PrintT("@@T " \o ToJson(prog'))
=============================================================================
