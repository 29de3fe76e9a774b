---------------------------- MODULE SplineDesign ----------------------------
(***************************************************************************)
(* All bases up to degree MaxDeg with up to MaxInner inner knots at small  *)
(* integers with all multiplicities; the laws of B-splines at points of a  *)
(* lattice. Every basis is replayed.                                       *)
(***************************************************************************)
EXTENDS Splines, Json
CONSTANTS MaxDeg, MaxInner, Mults, PRINT
VARIABLES deg, inner, closed
vars == <<deg, inner, closed>>
View == vars
First == -1
(* inner: sequence of <<gap, multiplicity>>; closed: gap of the last interval *)
Init == deg \in 0..MaxDeg /\ inner = <<>> /\ closed = 0
Open == closed = 0
Grow == /\ Open /\ Len(inner) < MaxInner
        /\ \E g \in 1..2, m \in 1..Max({1, deg}) : (Mults \/ m = 1) /\ inner' = Append(inner, <<g, m>>)
        /\ UNCHANGED <<deg, closed>>
Close == Open /\ closed' \in 1..2 /\ UNCHANGED <<deg, inner>>
Next == Grow \/ Close
Spec == Init /\ [][Next]_vars
At(k) == First + FoldLeft(LAMBDA acc, x : acc + x[1], 0, SubSeq(inner, 1, k))
Rep(x, m) == [j \in 1..m |-> x]
Ints(d, in, cl) == LET last == First + FoldLeft(LAMBDA acc, x : acc + x[1], 0, in) + cl IN
    Rep(First, d + 1) \o FoldLeft(LAMBDA acc, k : acc \o Rep(First + FoldLeft(LAMBDA a, x : a + x[1], 0, SubSeq(in, 1, k)), in[k][2]), <<>>, [k \in 1..Len(in) |-> k])
    \o Rep(last, d + 1)
K == [k \in DOMAIN Ints(deg, inner, closed) |-> I(Ints(deg, inner, closed)[k])]
Points(ks) == [k \in 1..(2 * (ks[Len(ks)] - ks[1]) + 1) |-> Q(2 * ks[1] + k - 1, 2)]
Laws == Open \/
  \E kn \in {TLCEval(K)} : LET n == Size(deg, kn) IN
    /\ n = deg + 1 + FoldLeft(LAMBDA a, x : a + x[2], 0, inner)
    /\ \A t \in Rng(Points(Ints(deg, inner, closed))) : \E B \in {TLCEval(All(kn, deg, t))} :
        /\ Sum(B) = One
        /\ \A k \in 1..n : B[k][1] >= 0
        /\ \A k \in 1..n : B[k][1] > 0 => k - 1 \in Interval(kn, deg, t)..(Interval(kn, deg, t) + deg)
        /\ (t = Start(kn) => B[1] = One) /\ (t = End(kn) => B[n] = One)
        /\ deg > 0 => /\ Dot(B, Greville(kn, deg)) = t
                      /\ \E D \in {TLCEval(AllD(kn, deg, t))} : Sum(D) = Zero /\ Dot(D, Greville(kn, deg)) = One
        /\ deg > 0 => \A p \in {I(-2), I(3)} : LET W == [k \in 1..n |-> IF k % 2 = 0 THEN p ELSE One] IN
              LET v == Dot(B, W) IN Leq(Lowest(W), v) /\ Leq(v, Highest(W))
Emit == ~PRINT \/ closed' = 0 \/ LET ks == TLCEval(Ints(deg', inner', closed')) IN PrintT("@@T " \o ToJson(<<deg', ks, Points(ks)>>))
=============================================================================
