------------------------------ MODULE Splines -------------------------------
(***************************************************************************)
(* B-splines (bgem/bspline/bspline.py) in exact rational arithmetic.       *)
(* A basis is its degree p and the sequence K of rational knots, with the  *)
(* end knots repeated p + 1 times; functions are numbered from 0.          *)
(***************************************************************************)
EXTENDS Rat, FiniteSets, TLC, SequencesExt, FiniteSetsExt
Rng(s) == {s[k] : k \in DOMAIN s}
C(name, ok) == IF ok THEN {} ELSE {name}
Size(p, K) == Len(K) - p - 1
Kn(K, i) == K[i + 1]
Start(K) == K[1]
End(K) == K[Len(K)]
InDomain(K, t) == Leq(Start(K), t) /\ Leq(t, End(K))
(* intervals are closed on the left; the last one on both sides *)
Within(K, i, t) == /\ Leq(Kn(K, i), t) /\ Less(Kn(K, i), Kn(K, i + 1))
                   /\ (Less(t, Kn(K, i + 1)) \/ (t = End(K) /\ Kn(K, i + 1) = End(K)))
Ratio(a, b) == IF b[1] = 0 THEN Zero ELSE Div(a, b)
RECURSIVE N(_, _, _, _)
(* value of the i-th function of degree p *)
N(K, p, i, t) ==
    IF p = 0 THEN (IF Within(K, i, t) THEN One ELSE Zero)
    ELSE IF ~(Leq(Kn(K, i), t) /\ Leq(t, Kn(K, i + p + 1))) THEN Zero
    ELSE Add(LET w == Ratio(Sub(t, Kn(K, i)), Sub(Kn(K, i + p), Kn(K, i))) IN IF w[1] = 0 THEN Zero ELSE Mul(w, N(K, p - 1, i, t)),
             LET w == Ratio(Sub(Kn(K, i + p + 1), t), Sub(Kn(K, i + p + 1), Kn(K, i + 1))) IN IF w[1] = 0 THEN Zero ELSE Mul(w, N(K, p - 1, i + 1, t)))
(* its derivative; at the end of the domain the one from the left *)
DN(K, p, i, t) ==
    Mul(I(p), Sub(Ratio(N(K, p - 1, i, t), Sub(Kn(K, i + p), Kn(K, i))),
                  Ratio(N(K, p - 1, i + 1, t), Sub(Kn(K, i + p + 1), Kn(K, i + 1)))))
All(K, p, t) == [k \in 1..Size(p, K) |-> N(K, p, k - 1, t)]
AllD(K, p, t) == [k \in 1..Size(p, K) |-> DN(K, p, k - 1, t)]
(* the interval of t: functions Interval .. Interval + p are those not zero there *)
Interval(K, p, t) == CHOOSE i \in 0..(Size(p, K) - 1) : Within(K, i + p, t)
(* coefficients of the function f(t) = t: averages of p consecutive knots *)
Greville(K, p) == [k \in 1..Size(p, K) |-> Div(Sum([j \in 1..p |-> Kn(K, k - 1 + j)]), I(p))]
Packed(K) ==
    LET S == Rng(K) IN [q \in S |-> Cardinality({k \in DOMAIN K : K[k] = q})]
Equidistant(p, n, a, b) ==
    [k \in 1..(n + 2 * p + 1) |->
        LET j == k - 1 - p m == IF j < 0 THEN 0 ELSE IF j > n THEN n ELSE j IN Add(a, Mul(Q(m, n), Sub(b, a)))]

(* ---- curves: P poles of the dimension D, followed by the weight of rational curves *)
Dot(B, v) == Sum([k \in DOMAIN B |-> IF B[k][1] = 0 THEN Zero ELSE Mul(B[k], v[k])])
CurveAt(K, p, P, rat, t) ==
    LET B == TLCEval(All(K, p, t)) D == Len(P[1]) - (IF rat THEN 1 ELSE 0)
        W == [k \in DOMAIN P |-> IF rat THEN I(P[k][D + 1]) ELSE One]
        w == Dot(B, W)
    IN [d \in 1..D |-> Div(Dot(B, [k \in DOMAIN P |-> Mul(I(P[k][d]), W[k])]), w)]
(* surfaces: P[i][j] pole of the functions i of u and j of v *)
SurfaceAt(Ku, pu, Kv, pv, P, rat, u, v) ==
    LET A == TLCEval(All(Ku, pu, u)) B == TLCEval(All(Kv, pv, v)) D == Len(P[1][1]) - (IF rat THEN 1 ELSE 0)
        Wt(i, j) == IF rat THEN I(P[i][j][D + 1]) ELSE One
        Of(X(_, _)) == Dot(A, [i \in DOMAIN A |-> IF A[i][1] = 0 THEN Zero ELSE Dot(B, [j \in DOMAIN B |-> X(i, j)])])
        w == Of(LAMBDA i, j : Wt(i, j))
    IN [d \in 1..D |-> Div(Of(LAMBDA i, j : Mul(I(P[i][j][d]), Wt(i, j))), w)]
=============================================================================
