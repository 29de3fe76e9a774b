----------------------------- MODULE HullDesign -----------------------------
(***************************************************************************)
(* All sets of points of a small lattice: laws of hulls and of the least   *)
(* bounding rectangle. Every set is replayed.                              *)
(***************************************************************************)
EXTENDS Approx, Json
CONSTANTS W, H, PRINT
VARIABLE S
Init == S = {}
More == \E p \in ((0..W) \X (0..H)) : (\A q \in S : q[1] < p[1] \/ (q[1] = p[1] /\ q[2] < p[2])) /\ S' = S \cup {p}
Spec == Init /\ [][More]_S
BoxArea(T) == LET X == {p[1] : p \in T} Y == {p[2] : p \in T} IN (Max(X) - Min(X)) * (Max(Y) - Min(Y))
Turned(T) == {<<-p[2], p[1]>> : p \in T}
Laws == Collinear(S) \/ \E K \in {TLCEval(Corners(S))} : \E A \in {TLCEval(LeastArea(S))} : \E E \in {TLCEval(Sides(S))} :
    /\ Cardinality(K) >= 3 /\ Corners(K) = K
    /\ Cardinality(E) = Cardinality(K)
    /\ {x[1] : x \in E} = K /\ {x[2] : x \in E} = K
    /\ LeastArea(K) = A /\ LeastArea(Turned(S)) = A
    /\ Leq(A, I(BoxArea(S)))
    (* no triangle of corners is larger than half of the rectangle *)
    /\ \A a, b, c \in K : Leq(I(Cross(a, b, c)), A)
Emit == ~PRINT \/ Collinear(S) \/ PrintT("@@T " \o ToJson(SetToSeq(S)))
=============================================================================
