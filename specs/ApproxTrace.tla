----------------------------- MODULE ApproxTrace ----------------------------
(***************************************************************************)
(* Recorded results of convex_hull_2d, min_bounding_rect, SurfaceApprox.   *)
(* runs: the same data approximated in several ways; a run has the values  *)
(* at the test points and at the data points, error, intervals and quad.   *)
(***************************************************************************)
EXTENDS Approx, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLE l
Init == l = 1
Inside(e, k) == e.uv[k][1][1] >= 0 /\ Leq(e.uv[k][1], One) /\ e.uv[k][2][1] >= 0 /\ Leq(e.uv[k][2], One)
RunOk(e, r) ==
    C("intervals", IF e.nuv = <<>> THEN r.n[1] >= 1 /\ r.n[2] >= 1 ELSE r.n = e.nuv)
    \cup C("quad", e.quad # <<>> => r.quad = e.quad)
    \cup C("error", r.err = -1 \/ LET in == {k \in DOMAIN e.uv : Inside(e, k)} IN
            in = {} \/ Near(r.err, Max({AbsI(r.data[k] - e.z[k] * 10000) : k \in in}), 3))
Same(e, a, b, tol) == C("same values", \A k \in DOMAIN a : Near(a[k], b[k], tol))
Mean(e) == LET in == SetToSeq({k \in DOMAIN e.uv : Inside(e, k)}) wt(k) == IF e.w = <<>> THEN 1 ELSE e.w[k] IN
    (FoldLeft(LAMBDA acc, k : acc + wt(k) * e.z[k], 0, in) * 10000) \div FoldLeft(LAMBDA acc, k : acc + wt(k), 0, in)
(* what relates the runs *)
KindOk(e) ==
    CASE e.kind = "const" -> C("constant", \A r \in Rng(e.runs) : \A k \in DOMAIN r.val : Near(r.val[k], e.coef[1] * 10000, 5))
      [] e.kind = "poly" -> C("polynomial", \A r \in Rng(e.runs) : \A k \in DOMAIN r.val :
                                Near(r.val[k], Scaled(Poly(e.coef, e.test[k][1], e.test[k][2])), 6))
      [] e.kind = "flat" -> C("mean", \A r \in Rng(e.runs) : \A k \in DOMAIN r.val : Near(r.val[k], Mean(e), 50))
      [] e.kind \in {"outside", "swap", "weights"} -> Same(e, e.runs[1].val, e.runs[2].val, 60)
      [] e.kind = "affine" -> Same(e, [k \in DOMAIN e.runs[1].val |-> 2 * e.runs[1].val[k] + 30000], e.runs[2].val, 60)
      [] OTHER -> {}
Points(e) == {<<p[1], p[2]>> : p \in Rng(e.pts)}
Bad(e) ==
  IF e.op = "driver" \/ e.exc # "" THEN {"exception"}
  ELSE CASE e.op = "hull" -> C("hull", HullOk(e.res, Points(e)))
         [] e.op = "rect" -> C("rectangle", RectOk(e.res, Points(e)))
         [] e.op = "approx" -> UNION {RunOk(e, e.runs[k]) : k \in DOMAIN e.runs} \cup KindOk(e)
         [] OTHER -> {}
Report(e, bad) == PrintT("@@BAD " \o ToJson([line |-> l, h |-> e.h, op |-> e.op, args |-> e.args, exc |-> e.exc, clauses |-> bad]))
Step == /\ l <= Len(Trace) /\ l' = l + 1
        /\ \E e \in {Trace[l]} : \E bad \in {TLCEval(Bad(e))} : IF bad = {} THEN TRUE ELSE Report(e, bad)
Spec == Init /\ [][Step]_l
Done == PrintT("@@DONE " \o ToString(TLCGet("stats").diameter - 1) \o " " \o ToString(Len(Trace)))
=============================================================================
