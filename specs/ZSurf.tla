------------------------------- MODULE ZSurf --------------------------------
(***************************************************************************)
(* Z surfaces and grid surfaces (bgem/bspline/bspline.py) as state: each   *)
(* surface is its original quad, its height function and the transforms    *)
(* of XY and Z that are in force.                                          *)
(***************************************************************************)
EXTENDS Splines
Half == <<1, 2>>
IdXY == << <<One, Zero, Zero>>, <<Zero, One, Zero>> >>
IdZ == <<One, Zero>>
(* height: basis functions on [0, 1] with n equal intervals *)
HeightAt(s, u, v) ==
    LET Ku == TLCEval(Equidistant(s.pu, s.nu, Zero, One)) Kv == TLCEval(Equidistant(s.pv, s.nv, Zero, One))
        A == TLCEval(All(Ku, s.pu, u)) B == TLCEval(All(Kv, s.pv, v)) IN
    Dot(A, [i \in DOMAIN A |-> IF A[i][1] = 0 THEN Zero ELSE Dot(B, s.P[i])])
Make(quad, pu, pv, nu, nv, P) ==
    [quad |-> IF Len(quad) = 4 THEN quad ELSE quad \o << <<Sub(Add(quad[1][1], quad[3][1]), quad[2][1]), Sub(Add(quad[1][2], quad[3][2]), quad[2][2])>> >>,
     pu |-> pu, pv |-> pv, nu |-> nu, nv |-> nv, P |-> P, m |-> IdXY, z |-> IdZ]
(* mid: height in the centre, hs: heights at the observed points, kept with the surface for speed *)
Centred(s, uvs) == s @@ [mid |-> HeightAt(s, Half, Half), hs |-> [k \in DOMAIN uvs |-> HeightAt(s, uvs[k][1], uvs[k][2])]]
Surf(quad, pu, pv, nu, nv, P, uvs) == Centred(Make(quad, pu, pv, nu, nv, P), uvs)
Parallel(s) == \A d \in 1..2 : Add(s.quad[1][d], s.quad[3][d]) = Add(s.quad[2][d], s.quad[4][d])
(* corners: (0,1), (0,0), (1,0), (1,1) *)
Plan(s, u, v) == [d \in 1..2 |->
    Add(Add(Mul(Mul(Sub(One, u), v), s.quad[1][d]), Mul(Mul(Sub(One, u), Sub(One, v)), s.quad[2][d])),
        Add(Mul(Mul(u, Sub(One, v)), s.quad[3][d]), Mul(Mul(u, v), s.quad[4][d])))]
(* transforms are relative to the centre of the surface as constructed *)
MoveXY(s, p) == LET c == TLCEval(Plan(s, Half, Half)) q == <<Sub(p[1], c[1]), Sub(p[2], c[2])>> IN
    [d \in 1..2 |-> Add(Add(Mul(s.m[d][1], q[1]), Mul(s.m[d][2], q[2])), Add(s.m[d][3], c[d]))]
MoveZ(s, c, z) == Add(Mul(s.z[1], Sub(z, c)), Add(c, s.z[2]))
Mid(s) == s.mid
At(s, u, v, h) == LET x == TLCEval(Plan(s, u, v)) p == TLCEval(MoveXY(s, x)) IN <<p[1], p[2], MoveZ(s, Mid(s), h)>>
Value(s, u, v) == At(s, u, v, HeightAt(s, u, v))
Centre(s) == At(s, Half, Half, Mid(s))
Quad(s) == [k \in 1..4 |-> MoveXY(s, s.quad[k])]
Heights(s) == FoldLeft(LAMBDA acc, r : acc \o r, <<>>, s.P)
Span(X) == <<Lowest(X), Highest(X)>>
Aabb(s) == LET q == TLCEval(Quad(s)) x == Span([k \in 1..4 |-> q[k][1]]) y == Span([k \in 1..4 |-> q[k][2]])
               h == TLCEval(Heights(s)) c == Mid(s) z == Span([k \in DOMAIN h |-> MoveZ(s, c, h[k])])
           IN << <<x[1], y[1], z[1]>>, <<x[2], y[2], z[2]>> >>
(* ---- calls; xy or z <<>> is None *)
Transformed(s, xy, z) == [s EXCEPT !.m = IF xy = <<>> THEN @ ELSE xy, !.z = IF z = <<>> THEN @ ELSE z]
Applied(s) == LET c == Mid(s) IN [s EXCEPT !.P = [i \in DOMAIN s.P |-> [j \in DOMAIN s.P[i] |-> MoveZ(s, c, s.P[i][j])]], !.z = IdZ, !.mid = MoveZ(s, c, c), !.hs = [k \in DOMAIN @ |-> MoveZ(s, c, @[k])]]
(* ---- grids: N points in rows, all rows the same steps *)
V2(p, a, k) == <<p[1] + a[1] * k, p[2] + a[2] * k>>
Minus(p, q) == <<p[1] - q[1], p[2] - q[2]>>
RegularAs(pts, n, m) ==
    /\ n >= 2 /\ m >= 2 /\ n * m = Len(pts)
    /\ LET o == pts[1] dv == Minus(pts[2], o) du == Minus(pts[m + 1], o) IN
       /\ du[1] * dv[2] # du[2] * dv[1]
       /\ \A i \in 0..(n - 1), j \in 0..(m - 1) : <<pts[i * m + j + 1][1], pts[i * m + j + 1][2]>> = V2(V2(o, du, i), dv, j)
Shapes(pts) == {s \in {<<n, Len(pts) \div n>> : n \in 1..Len(pts)} : RegularAs(pts, s[1], s[2])}
OfGrid(pts, den, n, m, uvs) ==
    LET p(k) == <<Q(pts[k][1], den), Q(pts[k][2], den)>> IN
    Surf(<<p(m), p(1), p((n - 1) * m + 1), p(n * m)>>, 1, 1, n - 1, m - 1, [i \in 1..n |-> [j \in 1..m |-> Q(pts[(i - 1) * m + j][3], den)]], uvs)
=============================================================================
