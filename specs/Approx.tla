------------------------------- MODULE Approx -------------------------------
(***************************************************************************)
(* What approximations of points (bgem/bspline/bspline_approx.py) must be. *)
(***************************************************************************)
EXTENDS Splines
Cross(o, a, b) == (a[1] - o[1]) * (b[2] - o[2]) - (a[2] - o[2]) * (b[1] - o[1])
Extreme(p, S) == (* corners of the convex hull: not inside of a segment or triangle of others *)
    LET T == TLCEval(S \ {p}) IN
    /\ ~\E a, b \in T : Cross(p, a, b) = 0 /\ (a[1] - p[1]) * (b[1] - p[1]) + (a[2] - p[2]) * (b[2] - p[2]) < 0
    /\ ~\E a, b, c \in T : Cross(a, b, p) > 0 /\ Cross(b, c, p) > 0 /\ Cross(c, a, p) > 0
Corners(S) == {p \in S : Extreme(p, S)}
Collinear(S) == \A a, b, c \in S : Cross(a, b, c) = 0
(* H: closed sequence of points *)
HullOk(H, S) ==
    LET n == Len(H) - 1 IN
    /\ n >= 3 /\ H[n + 1] = H[1]
    /\ {H[k] : k \in 1..n} \subseteq S /\ Cardinality({H[k] : k \in 1..n}) = n
    /\ Corners(S) \subseteq {H[k] : k \in 1..n}
    (* once around, all points on one side *)
    /\ \/ \A k \in 1..n : \A p \in S : Cross(H[k], H[k + 1], p) >= 0
       \/ \A k \in 1..n : \A p \in S : Cross(H[k], H[k + 1], p) <= 0
(* area of the bounding rectangle with a side along p - q *)
AreaAlong(a, b, S) ==
    LET d == <<b[1] - a[1], b[2] - a[2]>>
        X == TLCEval({d[1] * p[1] + d[2] * p[2] : p \in S}) Y == TLCEval({d[1] * p[2] - d[2] * p[1] : p \in S})
    IN Q((Max(X) - Min(X)) * (Max(Y) - Min(Y)), d[1] * d[1] + d[2] * d[2])
Sides(S) == LET K == TLCEval(Corners(S)) IN {<<a, b>> \in K \X K : a # b /\ \A p \in K : Cross(a, b, p) >= 0}
LeastArea(S) == LET A == TLCEval(SetToSeq({AreaAlong(x[1], x[2], S) : x \in TLCEval(Sides(S))})) IN TLCEval(Lowest(A))
QSub(p, q) == <<Sub(p[1], q[1]), Sub(p[2], q[2])>>
QCross(u, v) == Sub(Mul(u[1], v[2]), Mul(u[2], v[1]))
QDot(u, v) == Add(Mul(u[1], v[1]), Mul(u[2], v[2]))
(* corners (0,1), (0,0), (1,0), (1,1), counter-clockwise *)
RectOk(R, S) ==
    LET v == TLCEval(QSub(R[1], R[2])) u == TLCEval(QSub(R[3], R[2])) A == QCross(u, v) IN
    /\ QDot(u, v) = Zero /\ A[1] > 0
    /\ QSub(R[4], R[3]) = v
    /\ A = LeastArea(S)
    /\ \A p \in S : LET w == TLCEval(QSub(<<I(p[1]), I(p[2])>>, R[2])) IN
         /\ QDot(w, u)[1] >= 0 /\ Leq(QDot(w, u), QDot(u, u))
         /\ QDot(w, v)[1] >= 0 /\ Leq(QDot(w, v), QDot(v, v))
(* ---- values in units of 1e-4 *)
Near(a, b, tol) == a - b <= tol /\ b - a <= tol
Unit == I(10000)
(* polynomial of u, v *)
Poly(c, u, v) == Sum(<<I(c[1]), Mul(I(c[2]), u), Mul(I(c[3]), v), Mul(I(c[4]), Mul(u, u)), Mul(I(c[5]), Mul(u, v)), Mul(I(c[6]), Mul(v, v))>>)
Scaled(q) == (q[1] * 10000) \div q[2]
AbsI(x) == IF x < 0 THEN -x ELSE x
=============================================================================
