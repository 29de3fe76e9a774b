------------------------------- MODULE Affine --------------------------------
(***************************************************************************)
(* Shapes of the geometry factory and their affine maps in exact numbers.  *)
(* Body: d dimension, n numbers of vertices, edges, faces, solids,         *)
(*  v vertices, c centre of mass, w measure (solids <<volume, 0, 0>>,      *)
(*  flat shapes the area vector, lines the edge), pi: measure in units of  *)
(*  pi. A set of shapes is a sequence of bodies, sets can share bodies.    *)
(***************************************************************************)
EXTENDS Rat, FiniteSets, SequencesExt
C(name, ok) == IF ok THEN {} ELSE {name}
Vec(a, b, c) == <<a, b, c>>
Vi(v) == [k \in 1..3 |-> I(v[k])]
O3 == <<Zero, Zero, Zero>>
VAdd(a, b) == [k \in 1..3 |-> Add(a[k], b[k])]
VSub(a, b) == [k \in 1..3 |-> Sub(a[k], b[k])]
VMul(s, a) == [k \in 1..3 |-> Mul(s, a[k])]
Dot(a, b) == Add(Add(Mul(a[1], b[1]), Mul(a[2], b[2])), Mul(a[3], b[3]))
Cross(a, b) == << Sub(Mul(a[2], b[3]), Mul(a[3], b[2])), Sub(Mul(a[3], b[1]), Mul(a[1], b[3])), Sub(Mul(a[1], b[2]), Mul(a[2], b[1])) >>
AbsQ(a) == IF a[1] < 0 THEN Neg(a) ELSE a
Half == <<1, 2>>
RECURSIVE VSum(_, _)
VSum(s, k) == IF k = 0 THEN O3 ELSE VAdd(s[k], VSum(s, k - 1))
Mean(s) == VMul(<<1, Len(s)>>, VSum(s, Len(s)))

(* rotation of the integer quaternion q = <<w, x, y, z>>: about the axis (x, y, z) by the angle with tangent of the half |xyz| / w *)
RotM(q) ==
  LET w == q[1] x == q[2] y == q[3] z == q[4] s == w * w + x * x + y * y + z * z IN
  << << Q(w*w + x*x - y*y - z*z, s), Q(2*(x*y - w*z), s), Q(2*(x*z + w*y), s) >>,
     << Q(2*(x*y + w*z), s), Q(w*w - x*x + y*y - z*z, s), Q(2*(y*z - w*x), s) >>,
     << Q(2*(x*z - w*y), s), Q(2*(y*z + w*x), s), Q(w*w - x*x - y*y + z*z, s) >> >>
Apply(M, v) == [k \in 1..3 |-> Dot(M[k], v)]
MapPoints(b, F(_)) == [b EXCEPT !.v = [k \in DOMAIN @ |-> F(@[k])], !.c = F(@)]
Shifted(b, t) == MapPoints(b, LAMBDA p : VAdd(p, t))
Turned(b, q, o) == LET M == RotM(q) m == MapPoints(b, LAMBDA p : VAdd(o, Apply(M, VSub(p, o)))) IN
                   IF b.d = 3 THEN m ELSE [m EXCEPT !.w = Apply(M, @)]
Scaled(b, f, o) == LET m == MapPoints(b, LAMBDA p : VAdd(o, [k \in 1..3 |-> Mul(f[k], Sub(p[k], o[k]))])) IN
                   CASE b.d = 3 -> [m EXCEPT !.w = VMul(AbsQ(Mul(f[1], Mul(f[2], f[3]))), @)]
                     [] b.d = 2 -> [m EXCEPT !.w = <<Mul(@[1], Mul(f[2], f[3])), Mul(@[2], Mul(f[1], f[3])), Mul(@[3], Mul(f[1], f[2]))>>]
                     [] OTHER -> [m EXCEPT !.w = [k \in 1..3 |-> Mul(f[k], @[k])]]
(* volume of a solid, square of the area or length *)
Measure(b) == CASE b.d = 3 -> b.w[1] [] b.d = 0 -> Zero [] OTHER -> Dot(b.w, b.w)

Shape(d, n, v, c, w) == [d |-> d, n |-> n, v |-> v, c |-> c, w |-> w, pi |-> FALSE]
Simplex(d) ==
  LET v == SubSeq(<<O3, Vi(<<1, 0, 0>>), Vi(<<0, 1, 0>>), Vi(<<0, 0, 1>>)>>, 1, d + 1) IN
  Shape(d, << <<1, 0, 0, 0>>, <<2, 1, 0, 0>>, <<3, 3, 1, 0>>, <<4, 6, 4, 1>> >>[d + 1], v, Mean(v),
        << O3, Vi(<<1, 0, 0>>), <<Zero, Zero, Half>>, <<<<1, 6>>, Zero, Zero>> >>[d + 1])
Corners(s, c, signs) == [k \in DOMAIN signs |-> [i \in 1..3 |-> Add(c[i], Mul(Q(signs[k][i], 2), s[i]))]]
Box(s, c) == Shape(3, <<8, 12, 6, 1>>, Corners(s, c, << <<1,1,1>>, <<1,1,-1>>, <<1,-1,1>>, <<1,-1,-1>>, <<-1,1,1>>, <<-1,1,-1>>, <<-1,-1,1>>, <<-1,-1,-1>> >>),
                   c, <<Mul(s[1], Mul(s[2], s[3])), Zero, Zero>>)
Rect(s, c) == Shape(2, <<4, 4, 1, 0>>, Corners(<<s[1], s[2], Zero>>, c, << <<1,1,0>>, <<1,-1,0>>, <<-1,-1,0>>, <<-1,1,0>> >>), c, <<Zero, Zero, Mul(s[1], s[2])>>)
(* plane polygon; its centre by the fan of triangles around the first vertex *)
Tri(p, k) == VMul(Half, Cross(VSub(p[k], p[1]), VSub(p[k + 1], p[1])))
Poly(p) ==
  LET n == VSum([k \in 1..(Len(p) - 2) |-> Tri(p, k + 1)], Len(p) - 2)
      part(k) == VMul(Div(Dot(Tri(p, k), n), Dot(n, n)), Mean(<<p[1], p[k], p[k + 1]>>))
  IN Shape(2, <<Len(p), Len(p), 1, 0>>, p, VSum([k \in 1..(Len(p) - 2) |-> part(k + 1)], Len(p) - 2), n)
(* cylinder from the centre of its first base along an axis of a given length; v: the ends of the line where the mantle is closed *)
Seam(v, r, a, o) == /\ Len(v) = 2
                    /\ \E i \in 1..2 : LET p == VSub(v[i], o) IN
                         /\ Dot(p, p) = Mul(r, r) /\ Dot(p, a) = Zero /\ v[3 - i] = VAdd(v[i], a)
Cyl(r, a, len, o, v) == [Shape(3, <<2, 3, 3, 1>>, v, VAdd(o, VMul(Half, a)), <<Mul(len, Mul(r, r)), Zero, Zero>>) EXCEPT !.pi = TRUE]

(* equal boxes and rectangles on a lattice: cells in doubled coordinates, dimension = number of odd coordinates *)
LatticeOf(b, s, o) == [k \in 1..3 |-> LET x == Div(Sub(b.c[k], o[k]), Mul(Half, s[k])) IN x[1] \div x[2]]
Closure(c) == UNION {{<<i, j, k>> : i \in {c[1]} \cup (IF c[1] % 2 = 1 THEN {c[1] - 1, c[1] + 1} ELSE {}),
                                    j \in {c[2]} \cup (IF c[2] % 2 = 1 THEN {c[2] - 1, c[2] + 1} ELSE {}),
                                    k \in {c[3]} \cup (IF c[3] % 2 = 1 THEN {c[3] - 1, c[3] + 1} ELSE {})}}
OddsOf(c) == (c[1] % 2) + (c[2] % 2) + (c[3] % 2)
CellCounts(cells) == LET all == UNION {Closure(c) : c \in cells} IN [d \in 1..4 |-> Cardinality({c \in all : OddsOf(c) = d - 1})]
=============================================================================
