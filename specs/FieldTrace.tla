----------------------------- MODULE FieldTrace -----------------------------
(***************************************************************************)
(* Recorded calls of field.py and options.py.  State: the fields made, the *)
(* field of the background mesh, the options set.                          *)
(*  res: id returned; ids: fields of the model after the call              *)
(*  samples [[dim, tag], [x, y, z], exact, size asked by the mesher]       *)
(***************************************************************************)
EXTENDS Fields, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES l, fs, bg, opt
Init == l = 1 /\ fs = <<>> /\ bg = 0 /\ opt = <<>>
Makes == {"nodes", "edges", "threshold", "min", "max", "box", "constant", "restrict"}
Expr(e) == IF e.op = "constant"
           THEN [op |-> "box", vin |-> e.f.v, vout |-> -1, lo |-> [k \in 1..3 |-> -e.f.rad], hi |-> [k \in 1..3 |-> e.f.rad]]
           ELSE e.f @@ [op |-> e.op]
(* the size asked at a sample is the one of the field *)
SampleOk(F, b, s) ==
    LET v == IF b = 0 THEN <<INF, INF>> ELSE Ev(F, b, s[2], s[1], IF s[3] = 1 THEN 0 ELSE 1)
        lo == IF v[1] >= INF THEN INF ELSE v[1] - 2
        hi == IF v[2] >= INF THEN INF ELSE v[2] + 2
    IN lo <= s[4] /\ s[4] <= hi
Opts(e) == [k \in {e.opts[i][1] : i \in DOMAIN e.opts} |-> (CHOOSE x \in Rng(e.opts) : x[1] = k)[2]]
(* options with a default of the module get it whatever is set before (the driver sets other values for each model) *)
NoDefault == {"Mesh.CharacteristicLengthExtendFromBoundary", "Mesh.CharacteristicLengthMin", "Mesh.CharacteristicLengthMax",
              "Mesh.CharacteristicLengthFactor"}
Restored(e) == \A k \in DOMAIN Opts(e) \ NoDefault : Opts(e)[k] = Opts(Trace[1])[k]
Bad(e) ==
  IF e.op = "driver" THEN {"exception"}
  ELSE IF e.exc # "" THEN {"exception"}
  ELSE CASE e.op \in Makes -> C("id", e.res > 0 /\ e.res \notin DOMAIN fs) \cup C("fields", Rng(e.ids) = DOMAIN fs \cup {e.res})
         [] e.op = "mesh" -> UNION {IF SampleOk(fs, bg, e.samples[k]) THEN {} ELSE {"size"} : k \in DOMAIN e.samples}
                             \cup C("sampled", e.samples # <<>>)
         [] e.op = "opt" -> C("option", Opts(e) = (e.args[1] :> e.args[2]) @@ opt)
         [] e.op = "new" -> C("default", Restored(e))
         [] e.op = "badopt" -> C("refused", e.text # "" /\ Opts(e) = opt)
         [] OTHER -> {}
Report(e, bad) == PrintT("@@BAD " \o ToJson([line |-> l, h |-> e.h, op |-> e.op, args |-> e.args, exc |-> e.exc, clauses |-> bad]))
Step == /\ l <= Len(Trace) /\ l' = l + 1
        /\ \E e \in {Trace[l]} :
             /\ \E bad \in {TLCEval(Bad(e))} : IF bad = {} THEN TRUE ELSE Report(e, bad)
             /\ fs' = IF e.op = "new" THEN <<>> ELSE IF e.op \in Makes /\ e.exc = "" THEN (e.res :> Expr(e)) @@ fs ELSE fs
             /\ bg' = IF e.op = "new" THEN 0 ELSE IF e.op = "background" THEN e.args[1] ELSE bg
             /\ opt' = IF e.op \in {"new", "opt", "badopt", "mesh"} THEN Opts(e) ELSE opt
Spec == Init /\ [][Step]_<<l, fs, bg, opt>>
Done == PrintT("@@DONE " \o ToString(TLCGet("stats").diameter - 1) \o " " \o ToString(Len(Trace)))
=============================================================================
