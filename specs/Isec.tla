-------------------------------- MODULE Isec --------------------------------
(***************************************************************************)
(* Crossings of the knot lines ("threads") of one plane patch surface with *)
(* another one. A surface is [p, a, b, nu, nv]: the points p + u a + v b   *)
(* with 0 <= u, v <= 1 and knots k / nu, k / nv; p, a, b are integer       *)
(* vectors. Numbers are rationals of module Rat.                           *)
(***************************************************************************)
EXTENDS Rat, FiniteSets, TLC
Plus(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
Minus(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
Times(k, a) == <<k * a[1], k * a[2], k * a[3]>>
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Vec(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Det(a, b, c) == Dot(Vec(a, b), c)

(* the line q0 + t d against the plane p + u a + v b:
   u a + v b - t d = q0 - p ;  <<>> if they are parallel, otherwise <<u, v, t>> *)
Meet(s, q0, d) ==
  LET D == -Det(s.a, s.b, d) r == Minus(q0, s.p) IN
  IF D = 0 THEN <<>>
  ELSE << Q(-Det(r, s.b, d), D), Q(-Det(s.a, r, d), D), Q(Det(s.a, s.b, r), D) >>
Unit(q) == 0 <= q[1] /\ q[1] <= q[2]
Inside(m) == m # <<>> /\ Unit(m[1]) /\ Unit(m[2]) /\ Unit(m[3])

(* coordinates of a surface scaled by the product of its numbers of intervals, so that knot lines start at integer points *)
N(s) == s.nu * s.nv
Blown(s, k) == [s EXCEPT !.p = Times(k, s.p), !.a = Times(k, s.a), !.b = Times(k, s.b)]
(* threads: axis 0 fixes u = i / nu, axis 1 fixes v = i / nv *)
Threads(s) == ({0} \X (0..s.nu)) \cup ({1} \X (0..s.nv))
Meets(s1, s2, th) ==
  LET k == IF th[1] = 0 THEN s1.nu ELSE s1.nv IN
  IF th[1] = 0 THEN Meet(Blown(s2, k), Plus(Times(k, s1.p), Times(th[2], s1.a)), Times(k, s1.b))
  ELSE Meet(Blown(s2, k), Plus(Times(k, s1.p), Times(th[2], s1.b)), Times(k, s1.a))
Fixed(s, th) == Q(th[2], IF th[1] = 0 THEN s.nu ELSE s.nv)
(* parameters on the first surface *)
Uv1(s, th, m) == IF th[1] = 0 THEN <<Fixed(s, th), m[3]>> ELSE <<m[3], Fixed(s, th)>>
Place(s, uv) == [k \in 1..3 |-> Add(I(s.p[k]), Add(Mul(uv[1], I(s.a[k])), Mul(uv[2], I(s.b[k]))))]
Crossings(s1, s2) == {[th |-> th, uv1 |-> Uv1(s1, th, m), uv2 |-> <<m[1], m[2]>>, xyz |-> Place(s2, <<m[1], m[2]>>)]
                      : <<th, m>> \in {<<th, m>> \in {<<th, Meets(s1, s2, th)>> : th \in Threads(s1)} : Inside(m)}}

(* intervals of n equal ones that contain the parameter q *)
Holds(n, q) == {i \in 0..(n - 1) : i * q[2] <= n * q[1] /\ n * q[1] <= (i + 1) * q[2]}
OnKnot(n, q) == (n * q[1]) % q[2] = 0
Patches(s, uv) == {i * s.nv + j : i \in Holds(s.nu, uv[1]), j \in Holds(s.nv, uv[2])}
=============================================================================
