----------------------------- MODULE SplineTrace ----------------------------
(***************************************************************************)
(* Recorded values of SplineBasis (PROP S01), Curve and Surface (PROP S02) *)
(* Numbers are rationals <<n, d>>; <<0, 0>> is a value that is none.       *)
(***************************************************************************)
EXTENDS Splines, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
PROP == IOEnv.PROP
VARIABLE l
Init == l = 1

BasisOk(e) ==
  LET p == e.deg K == e.knots n == Size(p, K)
      inner == \A k \in DOMAIN K : K[k] \in {Start(K), End(K)} \/ Packed(K)[K[k]] = 1
  IN C("size", e.res.size = n /\ e.res.n = n - p)
     \cup C("domain", e.res.domain = <<Start(K), End(K)>>)
     \cup C("packed", Rng(e.res.packed) = {<<q, Packed(K)[q]>> : q \in Rng(K)} /\ Len(e.res.packed) = Cardinality(Rng(K)) /\ e.res.repacked = K)
     \cup C("linear", p > 0 => e.res.linear = Greville(K, p))
     \cup C("support", e.res.supp = [k \in 1..n |-> <<Kn(K, k - 1), Kn(K, k + p)>>])
     \cup C("bounds", inner => e.res.bounds = [k \in 1..(n - p) |-> <<Kn(K, k - 1 + p), Kn(K, k + p)>>])
PointBad(e, x) ==
  LET p == e.deg K == e.knots t == x.t IN
  IF ~InDomain(K, t) THEN C("outside", x.check = <<0, 0>> /\ ~x.inside)
  ELSE LET A == TLCEval(All(K, p, t)) i == Interval(K, p, t) IN
       C("interval", x.i = i) \cup C("inside", x.inside /\ x.check = t)
       \cup C("value", x.vals = A)
       \cup C("vector", x.vec = SubSeq(A, i + 1, i + p + 1) /\ x.vec2 = (IF p = 2 THEN x.vec ELSE <<>>))
       \cup (IF p = 0 THEN {} ELSE LET D == TLCEval(AllD(K, p, t)) IN
             C("derivative", x.diffs = D)
             \cup C("derivatives", x.dvec = SubSeq(D, i + 1, i + p + 1) /\ x.dvec2 = (IF p = 2 THEN x.dvec ELSE <<>>)))

Box(V) == LET D == Len(V[1]) IN << [d \in 1..D |-> Lowest([k \in DOMAIN V |-> V[k][d]])], [d \in 1..D |-> Highest([k \in DOMAIN V |-> V[k][d]])] >>
InBox(x, b) == \A d \in DOMAIN x : Leq(b[1][d], x[d]) /\ Leq(x[d], b[2][d])
Bare(P, rat) == [k \in DOMAIN P |-> [d \in 1..(Len(P[k]) - (IF rat THEN 1 ELSE 0)) |-> I(P[k][d])]]
(* points x: t, value; boxes of the patches *)
CurveOk(e) ==
  C("box", e.res.box = Box(Bare(e.poles, e.rat)))
  \cup C("dimension", e.res.dim = Len(e.poles[1]) - (IF e.rat THEN 1 ELSE 0))
  \cup UNION {LET x == e.res.pts[k] IN
        IF ~InDomain(e.knots, x.t) THEN C("outside", x.v = <<>>)
        ELSE LET v == CurveAt(e.knots, e.deg, e.poles, e.rat, x.t) IN
             C("value", x.v = v)
             \cup C("array", x.a = v)
             \cup C("boxes", e.res.boxes = <<>> \/ (InBox(v, e.res.boxes[1 + Interval(e.knots, e.deg, x.t)])
                                                     /\ Interval(e.knots, e.deg, x.t) \in Rng(x.found)))
        : k \in DOMAIN e.res.pts}
Flat(P) == FoldLeft(LAMBDA acc, r : acc \o r, <<>>, P)
SurfaceOk(e) ==
  LET Ku == e.ku Kv == e.kv
      nu == Size(e.pu, Ku) - e.pu nv == Size(e.pv, Kv) - e.pv IN
  C("box", e.res.box = Box(Bare(Flat(e.poles), e.rat)))
  \cup C("dimension", e.res.dim = Len(e.poles[1][1]) - (IF e.rat THEN 1 ELSE 0))
  \cup C("patches", /\ Len(e.res.ids) = nu * nv
                    /\ {e.res.ids[k][3] : k \in DOMAIN e.res.ids} = 0..(nu * nv - 1)
                    /\ \A k \in DOMAIN e.res.ids : e.res.ids[k][4] = SubSeq(e.res.ids[k], 1, 2)
                    /\ {SubSeq(e.res.ids[k], 1, 2) : k \in DOMAIN e.res.ids} = {<<i, j>> : i \in 0..(nu - 1), j \in 0..(nv - 1)})
  \cup UNION {LET x == e.res.pts[k] IN
        IF ~(InDomain(Ku, x.u) /\ InDomain(Kv, x.w)) THEN C("outside", x.v = <<>>)
        ELSE LET v == SurfaceAt(Ku, e.pu, Kv, e.pv, e.poles, e.rat, x.u, x.w)
                 pos == <<Interval(Ku, e.pu, x.u), Interval(Kv, e.pv, x.w)>>
                 id == (CHOOSE y \in Rng(e.res.ids) : SubSeq(y, 1, 2) = pos)[3] IN
             C("value", x.v = v) \cup C("array", x.a = v)
             \cup C("copy", x.c = v)
             \cup C("boxes", e.res.boxes = <<>> \/ (InBox(v, e.res.boxes[1 + id]) /\ id \in Rng(x.found)))
        : k \in DOMAIN e.res.pts}
VAdd(a, b) == [d \in DOMAIN a |-> Add(a[d], b[d])]
VMul(s, a) == [d \in DOMAIN a |-> Mul(s, a[d])]
VI(a) == [d \in DOMAIN a |-> I(a[d])]
Minus1(t) == Sub(One, t)
(* planes, bilinear patches and lines through the given points *)
Simple(e, x) ==
  LET V(k) == VI(e.vtx[k]) IN
  CASE e.kind = "line" -> VAdd(VMul(Minus1(x.u), V(1)), VMul(x.u, V(2)))
    [] e.kind = "plane" -> VAdd(VMul(Sub(Minus1(x.u), x.w), V(1)), VAdd(VMul(x.u, V(2)), VMul(x.w, V(3))))
    (* corners in the order of walking around: (0,0), (1,0), (1,1), (0,1) *)
    [] OTHER -> VAdd(VAdd(VMul(Mul(Minus1(x.u), Minus1(x.w)), V(1)), VMul(Mul(x.u, Minus1(x.w)), V(2))),
                     VAdd(VMul(Mul(x.u, x.w), V(3)), VMul(Mul(Minus1(x.u), x.w), V(4))))
SimpleOk(e) == C("overhang", e.res.domain = <<Neg(e.over), Add(One, e.over)>>)
               \cup UNION {C("value", e.res.pts[k].v = Simple(e, e.res.pts[k])) : k \in DOMAIN e.res.pts}
(* a curve through measured points: ends exactly there, the others within the tolerance *)
FitOk(e) == C("ends", e.res.first = e.vtx[1] /\ e.res.last = e.vtx[2]) \cup C("near", e.res.far = 0)

Bad(e) ==
  IF e.op = "driver" \/ e.exc # "" THEN {"exception"}
  ELSE CASE e.op = "basis" -> BasisOk(e) \cup UNION {PointBad(e, e.pts[k]) : k \in DOMAIN e.pts}
         [] e.op = "equidistant" -> C("equidistant", e.res.knots = Equidistant(e.deg, e.args[1], e.args[2], e.args[3]))
         [] e.op = "curve" -> CurveOk(e)
         [] e.op = "surface" -> SurfaceOk(e)
         [] e.op = "simple" -> SimpleOk(e)
         [] e.op = "fit" -> FitOk(e)
         [] OTHER -> {}
Report(e, bad) == PrintT("@@BAD " \o ToJson([line |-> l, h |-> e.h, op |-> e.op, args |-> e.args, exc |-> e.exc, clauses |-> bad]))
Step == /\ l <= Len(Trace) /\ l' = l + 1
        /\ \E e \in {Trace[l]} : \E bad \in {TLCEval(Bad(e))} : IF bad = {} THEN TRUE ELSE Report(e, bad)
Spec == Init /\ [][Step]_l
Done == PrintT("@@DONE " \o ToString(TLCGet("stats").diameter - 1) \o " " \o ToString(Len(Trace)))
=============================================================================
