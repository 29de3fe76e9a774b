------------------------------- MODULE Quality -------------------------------
(***************************************************************************)
(* Measures of lines, triangles and tetrahedra with nodes on a lattice.    *)
(* Points are triples of small integers (at most two units apart in each   *)
(* direction), squares of lengths and areas are integers, so that every    *)
(* measure is a function of integers and square roots. Real values are     *)
(* intervals <<lo, hi>> of multiples of 1/S.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

S == 4096
Abs(x) == IF x < 0 THEN -x ELSE x
MinOf(X) == CHOOSE x \in X : \A y \in X : x <= y
MaxOf(X) == CHOOSE x \in X : \A y \in X : x >= y

(*** integer geometry ***)
Sub3(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
Add3(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
Mul3(k, a) == <<k * a[1], k * a[2], k * a[3]>>
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Norm2(a) == Dot(a, a)
Pairs(n) == {<<i, j>> \in (1..n) \X (1..n) : i < j}
(* squared lengths of edges, sorted pairs of nodes -> square *)
Edge2(p) == [e \in Pairs(Len(p)) |-> Norm2(Sub3(p[e[1]], p[e[2]]))]
(* four times the squared area of a triangle *)
Area4(a, b, c) == Norm2(Cross(Sub3(b, a), Sub3(c, a)))
(* six times the signed volume *)
Vol6(p) == Dot(Sub3(p[2], p[1]), Cross(Sub3(p[3], p[1]), Sub3(p[4], p[1])))
(* faces of a tetrahedron by the node opposite to them *)
Others(i) == CASE i = 1 -> <<2, 3, 4>> [] i = 2 -> <<1, 3, 4>> [] i = 3 -> <<1, 2, 4>> [] OTHER -> <<1, 2, 3>>
Face4(p) == [i \in 1..4 |-> Area4(p[Others(i)[1]], p[Others(i)[2]], p[Others(i)[3]])]
(* circumscribed sphere of a tetrahedron: radius^2 = Norm2(Circum(p)) / (2 Vol6(p))^2 *)
Circum(p) == LET a == Sub3(p[2], p[1])  b == Sub3(p[3], p[1])  c == Sub3(p[4], p[1])
             IN Add3(Mul3(Norm2(a), Cross(b, c)), Add3(Mul3(Norm2(b), Cross(c, a)), Mul3(Norm2(c), Cross(a, b))))

(*** intervals ***)
RECURSIVE Root(_, _, _)
Root(n, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN
                   IF m <= n \div m THEN Root(n, m, hi) ELSE Root(n, lo, m)
(* largest integer whose square is not above n *)
ISqrt(n) == IF n = 0 THEN 0 ELSE Root(n, 1, 46341)
Exact(x) == <<x * S, x * S>>
(* square root of an integer: as many binary digits as fit *)
SqrtI(n) == IF n = 0 THEN <<0, 0>> ELSE
            LET k == LET RECURSIVE D(_)
                         D(j) == IF j = 12 \/ n >= 2 ^ (28 - 2 * j) THEN j ELSE D(j + 1) IN D(0)
                r == ISqrt(n * 4 ^ k)
                f == 2 ^ (12 - k)
            IN <<r * f, (IF r * r = n * 4 ^ k THEN r ELSE r + 1) * f>>
(* square root of a nonnegative interval *)
RootUp(n) == LET r == ISqrt(n) IN IF r * r = n THEN r ELSE r + 1
SqrtV(x) == IF x[2] < 500000 THEN <<ISqrt(x[1] * S), RootUp(x[2] * S)>>
            ELSE <<ISqrt(x[1]) * 64, (ISqrt(x[2]) + 1) * 64>>
AddV(x, y) == <<x[1] + y[1], x[2] + y[2]>>
ScaleV(k, x) == <<k * x[1], k * x[2]>>
(* products and quotients of nonnegative intervals *)
Down(a, b) == (a \div S) * b + ((a % S) * b) \div S
Up(a, b) == (a \div S) * b + ((a % S) * b) \div S + 1
MulV(x, y) == <<Down(x[1], y[1]), Up(x[2], y[2])>>
(* a S / b without overflow for a, b < 2^31 *)
Quot(a, b) == LET q == a \div b  r == a % b IN
              IF b < 500000 THEN q * S + (r * S) \div b
              ELSE q * S + (LET c == b \div S + 1 IN r \div c)
QuotUp(a, b) == LET q == a \div b  r == a % b IN
                IF b < 500000 THEN q * S + (r * S) \div b + 1
                ELSE q * S + (LET c == b \div S IN r \div c) + 1
DivV(x, y) == <<Quot(x[1], y[2]), QuotUp(x[2], y[1])>>
RECURSIVE SumV(_, _)
SumV(f, X) == IF X = {} THEN <<0, 0>> ELSE LET x == CHOOSE x \in X : TRUE IN AddV(f[x], SumV(f, X \ {x}))

(*** measures ***)
(* ratio of the shortest and the longest edge *)
EdgeRatio(p) == LET e == Edge2(p)  E == {e[x] : x \in DOMAIN e} IN DivV(SqrtI(MinOf(E)), SqrtI(MaxOf(E)))

(* least altitude relative to the longest edge *)
FlatTri(p) == LET e == Edge2(p)  m == MaxOf({e[x] : x \in DOMAIN e})
              IN DivV(SqrtI(Area4(p[1], p[2], p[3])), Exact(m))
FlatTet(p) == LET e == Edge2(p)  f == Face4(p)
                  m == MaxOf({e[x] : x \in DOMAIN e})  a == MaxOf({f[i] : i \in 1..4})
              IN IF a = 0 THEN <<0, 0>> ELSE DivV(Exact(Abs(Vol6(p))), SqrtI(a * m))

(* radius of the inscribed circle (sphere) over that of the circumscribed one, 1 for regular shapes:  *)
(* triangle 4 (2A)^2 / (abc (a+b+c)),  tetrahedron 3 r/R = 6 D^2 / (sum of double face areas * |N|)     *)
GammaTri(p) == LET e == Edge2(p)  n == Area4(p[1], p[2], p[3])
                   abc == SqrtI(e[<<1, 2>>] * e[<<1, 3>>] * e[<<2, 3>>])
                   sum == AddV(SqrtI(e[<<1, 2>>]), AddV(SqrtI(e[<<1, 3>>]), SqrtI(e[<<2, 3>>])))
               IN IF n = 0 THEN <<0, 0>> ELSE MulV(DivV(Exact(2 * n), abc), DivV(Exact(2), sum))
GammaTet(p) == LET d == Abs(Vol6(p))  f == Face4(p)
                   area == SumV([i \in 1..4 |-> SqrtI(f[i])], 1..4)
               IN IF d = 0 THEN <<0, 0>>
                  ELSE MulV(DivV(Exact(6 * d), area), DivV(Exact(d), SqrtI(Norm2(Circum(p)))))

(* error of the gradient of a smooth function interpolated over the element (Shewchuk), 1 for regular shapes *)
(* cube of 4/sqrt(3) A / (abc)^(2/3) *)
Sqrt3 == <<7094, 7095>>
FlowTri3(p) == LET e == Edge2(p)  n == Area4(p[1], p[2], p[3])
                   m == e[<<1, 2>>] * e[<<1, 3>>] * e[<<2, 3>>]
               IN IF n = 0 THEN <<0, 0>> ELSE
                  \* 8 n sqrt(n) / (3 sqrt(3) m)
                  DivV(MulV(DivV(Exact(8 * n), Exact(3 * m)), SqrtI(n)), Sqrt3)
(* V (sum A / sum A_i A_j l^2)^(3/4) relative to the regular tetrahedron; l: the edge where the faces i, j meet *)
Regular16 == <<10675, 10676>>     \* 16 sqrt(2)/12 (8 sqrt(3)/9)^(3/4) = 16 * 0.16289..
FlowTet(p) ==
    LET d == Abs(Vol6(p))  f == Face4(p)  e == Edge2(p)
        area == SumV([i \in 1..4 |-> SqrtI(f[i])], 1..4)
        meet(x) == CHOOSE y \in Pairs(4) : {y[1], y[2]} = (1..4) \ {x[1], x[2]}
        pairs == SumV([x \in Pairs(4) |-> ScaleV(e[meet(x)], SqrtI(f[x[1]] * f[x[2]]))], Pairs(4))
    IN IF d = 0 THEN <<0, 0>>
       ELSE LET x == TLCEval(DivV(pairs, ScaleV(2, area)))     \* (pairs/4) / (area/2)
                y == TLCEval(SqrtV(x))  z == TLCEval(SqrtV(y))
            IN DivV(DivV(Exact(16 * d), Exact(6)), MulV(MulV(y, z), Regular16))
=============================================================================
