------------------------------ MODULE PlotTrace -----------------------------
(***************************************************************************)
(* Recorded calls of Plotting and the figures shown by it (PROP S08), and  *)
(* of the plots of polygon decompositions.                                 *)
(***************************************************************************)
EXTENDS Plots, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES l, c
Init == l = 1 /\ c = Empty
Items(cv, dim) == IF dim = 2 THEN cv.d2 ELSE cv.d3
FigBad(cv, f) ==
  LET want == Items(cv, f.dim) IN
  IF Len(want) # Len(f.items) THEN {"items"}
  ELSE UNION {C(Draws(want[k]), Same(want[k], f.items[k])) : k \in DOMAIN want}
ShowBad(cv, e) ==
  C("figures", Len(e.figs) = Cardinality(Shown(cv)) /\ {e.figs[k].dim : k \in DOMAIN e.figs} = {x[1] : x \in Shown(cv)})
  \cup C("files", Cardinality({e.figs[k].file : k \in DOMAIN e.figs}) = Len(e.figs) /\ \A k \in DOMAIN e.figs : e.figs[k].new)
  \cup UNION {FigBad(cv, e.figs[k]) : k \in DOMAIN e.figs}
DrawnBad(e) ==
  (IF e.op = "polygons" THEN Fills(e.polys, e.ds) ELSE {})
  \cup Lines(e.segs, e.ds) \cup Marks(e.marks, e.ds) \cup C("file", e.file)
Bad(cv, e) ==
  IF e.op = "driver" \/ e.exc # "" THEN {"exception"}
  ELSE CASE e.op = "show" -> ShowBad(cv, e)
         [] e.op \in {"polygons", "segments"} -> DrawnBad(e)
         [] OTHER -> {}
Then(cv, e) ==
  CASE e.op = "reset" -> Empty
    [] e.op = "show" -> Clear(cv)
    [] e.op = "add" /\ e.exc = "" -> PutAll(cv, e.req)
    [] OTHER -> cv
Report(e, bad) == PrintT("@@BAD " \o ToJson([line |-> l, h |-> e.h, op |-> e.op, args |-> e.args, exc |-> e.exc, clauses |-> bad]))
Step == /\ l <= Len(Trace) /\ l' = l + 1
        /\ \E e \in {Trace[l]} : c' = Then(c, e) /\ \E bad \in {TLCEval(Bad(c, e))} : IF bad = {} THEN TRUE ELSE Report(e, bad)
Spec == Init /\ [][Step]_<<l, c>>
Done == PrintT("@@DONE " \o ToString(TLCGet("stats").diameter - 1) \o " " \o ToString(Len(Trace)))
=============================================================================
